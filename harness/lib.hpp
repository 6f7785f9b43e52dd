// Bridge between the library under test and the reference model. Only public API is used.
#ifndef LIB_HPP
#define LIB_HPP
#ifndef H_LIB_INCLUDED
#include <ipaddress/ipaddress.hpp>
#endif
#include <type_traits>
#include <memory>
#include "gen.hpp"

#ifndef IPADDRESS_NAMESPACE
#define IPADDRESS_NAMESPACE ipaddress
#endif
namespace ip = IPADDRESS_NAMESPACE;
using h::u128;
using h::Rng;
using ref::Addr;
using ref::Net;

#define CPP17 (__cplusplus >= 201703L)
#if defined(__cpp_char8_t)
#define HAS_U8 1
#else
#define HAS_U8 0
#endif
#if (H_SCOPE_MAX > 0)
#define HAS_SCOPE 1
#else
#define HAS_SCOPE 0
#endif

namespace L {

inline u128 wide(const ip::uint128_t& v) { return (u128(v.upper()) << 64) | v.lower(); }
inline u128 wide(uint32_t v) { return v; }
inline ip::uint128_t u128_of(u128 v) { return ip::uint128_t(uint64_t(v >> 64), uint64_t(v)); }

struct F4 {
    typedef ip::ipv4_address A;
    typedef ip::ipv4_network N;
    typedef uint32_t U;
    enum { W = 32, V = 4, BYTES = 4 };
    static U uint_of(u128 v) { return U(v); }
    static const char* name() { return "v4"; }
};
struct F6 {
    typedef ip::ipv6_address A;
    typedef ip::ipv6_network N;
    typedef ip::uint128_t U;
    enum { W = 128, V = 6, BYTES = 16 };
    static U uint_of(u128 v) { return u128_of(v); }
    static const char* name() { return "v6"; }
};

inline ip::ipv4_address a4(u128 v) {
    uint8_t b[4];
    for (int i = 0; i < 4; ++i) b[i] = uint8_t(v >> (24 - 8 * i));
    return ip::ipv4_address::from_bytes(b, 4);
}
inline ip::ipv6_address a6(u128 v, const std::string& scope = std::string()) {
    uint8_t b[16];
    for (int i = 0; i < 16; ++i) b[i] = uint8_t(v >> (120 - 8 * i));
    ip::ipv6_address a = ip::ipv6_address::from_bytes(b, 16);
    if (!scope.empty()) { ip::error_code c = ip::error_code::no_error; a.set_scope_id(scope, c); }
    return a;
}
template <class A> struct maker;
template <> struct maker<ip::ipv4_address> { static ip::ipv4_address make(const Addr& a) { return a4(a.v); } };
template <> struct maker<ip::ipv6_address> { static ip::ipv6_address make(const Addr& a) { return a6(a.v, a.scope); } };
template <> struct maker<ip::ip_address> { static ip::ip_address make(const Addr& a) { if (a.ver == 4) return a4(a.v); return a6(a.v, a.scope); } };
template <class A> A make(const Addr& a) { return maker<A>::make(a); }

// from_address in the throwing form has a default error_code free path; use the error-code form everywhere
inline ip::ipv4_network n4(const Net& n) { ip::error_code c = ip::error_code::no_error; return ip::ipv4_network::from_address(a4(n.v), c, size_t(n.plen)); }
inline ip::ipv6_network n6(const Net& n) { ip::error_code c = ip::error_code::no_error; return ip::ipv6_network::from_address(a6(n.v, n.scope), c, size_t(n.plen)); }
template <class N> struct nmaker;
template <> struct nmaker<ip::ipv4_network> { static ip::ipv4_network make(const Net& n) { return n4(n); } };
template <> struct nmaker<ip::ipv6_network> { static ip::ipv6_network make(const Net& n) { return n6(n); } };
template <> struct nmaker<ip::ip_network> { static ip::ip_network make(const Net& n) { if (n.ver == 4) return n4(n); return n6(n); } };
template <class N> N maken(const Net& n) { return nmaker<N>::make(n); }

inline u128 from_data(const uint8_t* d, int n) { u128 v = 0; for (int i = 0; i < n; ++i) v = (v << 8) | d[i]; return v; }
inline std::string scope_of(const ip::ipv6_address& a) { return a.get_scope_id().get_string(); }
inline Addr of(const ip::ipv4_address& a) { return Addr(4, from_data(a.bytes().data(), 4)); }
inline Addr of(const ip::ipv6_address& a) { return Addr(6, from_data(a.bytes().data(), 16), scope_of(a)); }
inline Addr of(const ip::ip_address& a) {
    if (a.version() == ip::ip_version::V4) return Addr(4, from_data(a.data(), 4));
    return Addr(6, from_data(a.data(), 16), a.get_scope_id().get_string());
}
template <class N> Net of_net(const N& n) {
    Addr a = of(n.network_address());
    return Net(a.ver, a.v, int(n.prefixlen()), a.scope);
}
inline Net of(const ip::ipv4_network& n) { return of_net(n); }
inline Net of(const ip::ipv6_network& n) { return of_net(n); }
inline Net of(const ip::ip_network& n) { return of_net(n); }

inline ip::format fmt(ref::Fmt f) { return f == ref::FULL ? ip::format::full : f == ref::COMPACT ? ip::format::compact : ip::format::compressed; }

// ---- text in any character type, code unit by code unit
template <class T> std::basic_string<T> widen(const std::string& s) {
    std::basic_string<T> o;
    for (char c : s) o += T((unsigned char)c);
    return o;
}
template <class T> std::string narrow(const std::basic_string<T>& s) {   // '?' marks anything not ASCII
    std::string o;
    for (T c : s) o += (uint32_t(c) < 256 ? char(c) : '?');
    return o;
}
inline std::string narrow(const std::string& s) { return s; }

// parse from an exact-size heap buffer (so that ASan sees any read past the given text)
template <class T> struct Exact {
    T* p; size_t n;
    explicit Exact(const std::basic_string<T>& s) : p(new T[s.size() ? s.size() : 1]), n(s.size()) { for (size_t i = 0; i < n; ++i) p[i] = s[i]; if (!n) { delete[] p; p = new T[1]; p[0] = T('1'); } }
    ~Exact() { delete[] p; }
    Exact(const Exact&) = delete;
    Exact& operator=(const Exact&) = delete;
};
#if CPP17
#define PARSE_ARG(T, s) std::basic_string_view<T>((s).p, (s).n)
#else
#define PARSE_ARG(T, s) std::basic_string<T>((s).p, (s).n)
#endif
template <class X, class T> X parse_ec(const std::basic_string<T>& s, ip::error_code& c) {
    Exact<T> e(s);
    return X::parse(PARSE_ARG(T, e), c);
}
template <class X, class T> X parse_ec(const std::basic_string<T>& s, ip::error_code& c, bool strict) {
    Exact<T> e(s);
    return X::parse(PARSE_ARG(T, e), c, strict);
}
template <class X, class T> X parse_th(const std::basic_string<T>& s) {
    Exact<T> e(s);
    return X::parse(PARSE_ARG(T, e));
}
template <class X, class T> X parse_th(const std::basic_string<T>& s, bool strict) {
    Exact<T> e(s);
    return X::parse(PARSE_ARG(T, e), strict);
}

// array overloads: the smallest of a few array sizes that holds the text and a terminator
template <class T, size_t N, class F> bool with_array_n(const std::basic_string<T>& s, F f) {
    if (s.size() + 1 > N) return false;
    const std::unique_ptr<T[]> own(new T[N]);
    T* raw = own.get();     // heap array seen through a reference to T[N]
    for (size_t i = 0; i < N; ++i) raw[i] = i < s.size() ? s[i] : T();
    const T (&arr)[N] = *reinterpret_cast<const T(*)[N]>(raw);
    f(arr);
    return true;
}
template <class T, class F> bool with_array(const std::basic_string<T>& s, F f) {
    return with_array_n<T, 1>(s, f) || with_array_n<T, 8>(s, f) || with_array_n<T, 16>(s, f) || with_array_n<T, 24>(s, f) ||
           with_array_n<T, 40>(s, f) || with_array_n<T, 64>(s, f) || with_array_n<T, 128>(s, f);
}
template <class X> struct ArrEc { X* out; ip::error_code* c; template <class T, size_t N> void operator()(const T (&a)[N]) const { *out = X::parse(a, *c); } };
template <class X> struct ArrEcS { X* out; ip::error_code* c; bool strict; template <class T, size_t N> void operator()(const T (&a)[N]) const { *out = X::parse(a, *c, strict); } };

// ---- outcome of a throwing call
enum ExKind { NONE, PARSE_ERROR, LOGIC_ERROR, ERROR_BASE, OTHER };
struct Out {
    ExKind kind; ip::error_code code; std::string what; bool std_ex, ip_ex;
    Out() : kind(NONE), code(ip::error_code::no_error), std_ex(false), ip_ex(false) {}
};
#if H_EXC
template <class F> Out guard(F f) {
    Out o;
    try { f(); }
    catch (const ip::parse_error& e) { o.kind = PARSE_ERROR; o.code = e.code(); o.what = e.what(); }
    catch (const ip::logic_error& e) { o.kind = LOGIC_ERROR; o.code = e.code(); o.what = e.what(); }
    catch (const ip::error& e) { o.kind = ERROR_BASE; o.code = e.code(); o.what = e.what(); }
    catch (const std::exception& e) { o.kind = OTHER; o.what = e.what(); }
    catch (...) { o.kind = OTHER; }
    return o;
}
#endif

inline ip::error_code stale(Rng& r) { return ip::error_code(int(r.below(33))); }

} // namespace L

#endif
