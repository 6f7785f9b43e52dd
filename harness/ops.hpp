// A catalogue of public operations on generated values, each a pure function of a seed that returns everything observable about the
// result as text. C25 compares the texts across builds, C27 across threads, C26 runs them under instrumentation.
// Nothing here judges; no global state is touched, so that it can run in any thread.
#ifndef OPS_HPP
#define OPS_HPP
#include "fmtmon.hpp"
#include "seqmon.hpp"
#include <sstream>
namespace ops {
using namespace L;
typedef ip::error_code EC;

// which texts a build with other options is allowed to treat differently
enum Profile { FULL = 0, SHORT_SCOPES = 1, NO_SCOPES = 2 };
inline Profile& profile() { static Profile p = FULL; return p; }
inline bool suits(const std::string& t) {
    if (profile() == FULL) return true;
    size_t p = t.find('%');
    if (profile() == NO_SCOPES && p != std::string::npos) return false;
    for (char c : t) if ((unsigned char)c > 127 || c == 0) return false;
    if (p == std::string::npos) return true;
    size_t e = t.find('/', p), n = (e == std::string::npos ? t.size() : e) - p - 1;
    if (n > 5) return false;
    for (size_t i = p; i < t.size(); ++i) if (t[i] == ' ' || (t[i] >= 9 && t[i] <= 13)) return false;
    return true;
}
inline std::string text_for(Rng& r, int kind) {
    for (int k = 0; k < 20; ++k) {
        std::string t = kind == 0 ? gen::addr_text(r, gen::ver(r), 50) : gen::net_text(r, gen::ver(r), 40);
        if (suits(t)) return t;
    }
    return "192.0.2.1";
}
inline std::string scope_for(Rng& r) { std::string s = gen::scope_text(r, GEN_SCOPE_MAX); return s; }

struct Sink {
    std::string s;
    Sink& operator<<(const std::string& x) { s += x; s += '|'; return *this; }
    Sink& operator<<(const char* x) { s += x; s += '|'; return *this; }
    Sink& operator<<(bool b) { s += b ? "T|" : "F|"; return *this; }
    Sink& operator<<(u128 v) { s += h::hex(v); s += '|'; return *this; }
    Sink& operator<<(const ip::uint128_t& v) { return *this << wide(v); }
    Sink& operator<<(uint32_t v) { return *this << u128(v); }
    Sink& operator<<(uint64_t v) { return *this << u128(v); }
    Sink& operator<<(int v) { s += std::to_string(v); s += '|'; return *this; }
    Sink& operator<<(double v) { s += h::str(v); s += '|'; return *this; }
    Sink& operator<<(EC c) { s += '#'; return *this << int(c); }
    Sink& operator<<(const Addr& a) { return *this << ref::format(a); }
    Sink& operator<<(const Net& a) { return *this << ref::format(a); }
    Sink& operator<<(const ip::ipv4_address& a) { return *this << of(a); }
    Sink& operator<<(const ip::ipv6_address& a) { return *this << of(a); }
    Sink& operator<<(const ip::ip_address& a) { return *this << of(a); }
    Sink& operator<<(const ip::ipv4_network& a) { return *this << of(a); }
    Sink& operator<<(const ip::ipv6_network& a) { return *this << of(a); }
    Sink& operator<<(const ip::ip_network& a) { return *this << of(a); }
};
template <class X> void fresh(Sink& o, const X& x, EC c) { o << c; if (c == EC::no_error) o << x; }

// ---- parsing in every character type
template <class X, class T> void parse_as(Sink& o, const std::basic_string<T>& t) {
    EC c = EC::no_error;
    X x = parse_ec<X, T>(t, c);
    fresh(o, x, c);
    if (c == EC::no_error) o << (parse_th<X, T>(t) == x);
}
template <class X, class T> void parse_net_as(Sink& o, const std::basic_string<T>& t, bool strict) {
    EC c = EC::no_error;
    X x = parse_ec<X, T>(t, c, strict);
    fresh(o, x, c);
    if (c == EC::no_error) o << (parse_th<X, T>(t, strict) == x);
}
template <class X> void parse_all(Sink& o, const std::string& t, Rng& r) {
    switch (r.below(5)) {
        case 0: parse_as<X, wchar_t>(o, widen<wchar_t>(t)); break;
        case 1: parse_as<X, char16_t>(o, widen<char16_t>(t)); break;
        case 2: parse_as<X, char32_t>(o, widen<char32_t>(t)); break;
        default: parse_as<X, char>(o, t);
    }
    X x; EC c = EC::no_error; ArrEc<X> f; f.out = &x; f.c = &c;
    if (with_array<char>(t, f)) fresh(o, x, c);
}
template <class X> void parse_net_all(Sink& o, const std::string& t, Rng& r) {
    bool st = r.one_in(2);
    switch (r.below(5)) {
        case 0: parse_net_as<X, wchar_t>(o, widen<wchar_t>(t), st); break;
        case 1: parse_net_as<X, char16_t>(o, widen<char16_t>(t), st); break;
        case 2: parse_net_as<X, char32_t>(o, widen<char32_t>(t), st); break;
        default: parse_net_as<X, char>(o, t, st);
    }
    X x; EC c = EC::no_error; ArrEcS<X> f; f.out = &x; f.c = &c; f.strict = st;
    if (with_array<char>(t, f)) fresh(o, x, c);
}
template <class T> std::basic_string<T> units(Rng& r, const std::string& t) {   // text with wild code units planted
    std::basic_string<T> s = widen<T>(t);
    int n = int(r.below(3));
    for (int i = 0; i < n && !s.empty(); ++i) {
        uint32_t u = uint32_t(r.one_in(2) ? r.next() : 0xd700 + r.below(0x1000));
        if (sizeof(T) == 1) u = 0x80 | (u & 0x7f);
        size_t p = size_t(r.below(s.size()));
        if (r.one_in(2)) s[p] = T(u); else s.insert(p, 1, T(u));
    }
    return s;
}

// ---- formatting
template <class X> void format_all(Sink& o, const X& x, Rng& r) {
    ref::Fmt f = ref::Fmt(r.below(3));
    o << x.to_string(fmt(f)) << narrow(x.to_wstring(fmt(f))) << narrow(x.to_u16string(fmt(f))) << narrow(x.to_u32string(fmt(f))) << x.to_string() << std::string(x);
#if HAS_STD
    o << fmon::streamed<char>(x, f) << narrow(fmon::streamed<wchar_t>(x, f));
    std::ostringstream s; s << std::uppercase << x; o << s.str();
#else
    o << x.to_string(fmt(f)) << x.to_string(fmt(f));
    std::string u = x.to_string(); bool sc = false; for (char& c : u) { if (c == '%') sc = true; if (!sc && c >= 'a' && c <= 'z') c = char(c - 32); } o << u;
#endif
}
template <class X> void flags(Sink& o, const X& x) {
    o << x.is_multicast() << x.is_private() << x.is_global() << x.is_reserved() << x.is_loopback() << x.is_link_local() << x.is_unspecified();
}
inline void site(Sink& o, const ip::ipv4_address&) { o << "-"; }
inline void site(Sink& o, const ip::ipv6_address& x) { o << x.is_site_local(); }
inline void site(Sink& o, const ip::ip_address& x) { o << x.is_site_local(); }
template <class X> void opt(Sink& o, const ip::optional<X>& x) { o << bool(x); if (x) o << *x; }
inline void embedded(Sink& o, const ip::ipv6_address& x) {
    opt(o, x.ipv4_mapped()); opt(o, x.sixtofour());
    auto t = x.teredo(); o << bool(t); if (t) o << t->first << t->second;
    auto s = x.get_scope_id(); o << bool(s) << s.has_string() << s.has_uint32(); if (s.has_uint32()) o << s.get_uint32(); o << s.get_string();
}
template <class X> void order(Sink& o, const X& a, const X& b) {
    o << (a == b) << (a != b) << (a < b) << (a <= b) << (a > b) << (a >= b) << (a == b ? a.hash() == b.hash() : true);
}
// ---- networks
template <class N> void attributes(Sink& o, const N& n) {
    o << n << n.network_address() << n.broadcast_address() << n.netmask() << n.hostmask() << int(n.prefixlen()) << n.addresses_count() << int(n.version());
    flags(o, n);
}
template <class S> void window(Sink& o, const S& s, Rng& r, const smon::Model& m) {
    typedef typename S::difference_type D;
    o << s.empty() << *s.begin() << s.front() << s.back() << *s.rbegin();
    auto i = s.begin(); auto e = s.end();
    for (int k = 0; k < 3 && i != e; ++k) { o << *i; ++i; }
    auto j = s.rbegin(); auto je = s.rend();
    for (int k = 0; k < 3 && j != je; ++k) { o << *j; j++; }
    u128 at = smon::index(r, m.last);
    o << s[smon::To<D>::of(at)];
    auto it = s.begin(); it += int64_t(at & 0xffff) % int64_t((m.last & 0xffff) + 1); o << *it; o << (it == s.begin()) << (it < s.end()) << (it - s.begin());
}
inline Sink& operator<<(Sink& o, int64_t v) { return o << std::to_string(v).c_str(); }
template <class N> void sequences(Sink& o, const N& x, const Net& n, Rng& r) {
    if (n.plen > 0) window(o, x.hosts(), r, smon::hosts_model(n));
    EC c = EC::no_error;
    size_t d = r.one_in(4) ? size_t(r.below(200)) : size_t(r.below(4));
    auto s = x.subnets(c, d);
    o << c;
    int np = n.plen + int(d); if (n.plen == ref::width(n.ver)) np = n.plen;
    if (c == EC::no_error && np - n.plen < (n.ver == 4 ? 32 : 128)) window(o, s, r, smon::subnets_model(n, np));
    c = EC::no_error;
    size_t p = size_t(r.below(140));
    auto s2 = x.subnets(c, r.one_in(3) ? 2 : 1, ip::optional<size_t>(p));
    o << c;
    c = EC::no_error;
    N up = x.supernet(c, d); fresh(o, up, c);
    c = EC::no_error;
    N up2 = x.supernet(c, 1, ip::optional<size_t>(p)); fresh(o, up2, c);
}
template <class N> void relation(Sink& o, const N& a, const N& b) {
    o << a.contains(b.network_address()) << a.contains(b.broadcast_address()) << a.overlaps(b) << a.subnet_of(b) << a.supernet_of(b);
    EC c = EC::no_error;
    auto s = a.address_exclude(b, c);
    o << c;
    int k = 0;
    if (c == EC::no_error) for (auto i = s.begin(); i != s.end() && k < 130; ++i, ++k) o << *i;
    o << k;
}
// ---- numbers
inline u128 number(Rng& r) {
    u128 v; unsigned k;
    switch (r.below(5)) { case 0: return r.wide(); case 1: v = r.wide(); k = unsigned(r.below(128)); return v >> k; case 2: v = u128(1) << r.below(128); k = unsigned(r.below(3)); return v - k; case 3: return r.next(); default: return r.below(1000); }
}
inline void numbers(Sink& o, Rng& r) {
    u128 a = number(r), b = number(r); unsigned n = unsigned(r.below(140));
    ip::uint128_t x = u128_of(a), y = u128_of(b);
    o << (x + y) << (x - y) << (x * y) << (x & y) << (x | y) << (x ^ y) << ~x << -x << (x << int(n)) << (x >> int(n));
    if (b) o << (x / y) << (x % y);
    o << (x == y) << (x < y) << (x <= y) << (x > y) << (x >= y) << bool(x) << uint64_t(x) << (x + 7) << (3 * y) << (x == 5) << (int64_t(-1) < y);
    ++x; o << x; x--; o << x; x += y; o << x; x <<= 3; o << x;
    o << double(y) << double(float(y)) << ip::uint128_t(double(y) / 3);
    auto f = ip::uint128_t::format(r.below(3));
    std::string t = y.to_string(f);
    o << t << narrow(y.to_wstring(f));
    auto back = ip::uint128_t::from_string(t, f); opt(o, back);
    if (t.size()) { size_t at = size_t(r.below(t.size())); t[at] = gen::junk_char(r); }
    if (r.one_in(4)) t += t;
    opt(o, ip::uint128_t::from_string(t, f)); opt(o, ip::uint128_t::from_string(widen<char16_t>(t), f));
#if HAS_STD
    std::ostringstream s; s << (r.one_in(2) ? std::hex : std::dec) << y; std::string txt = s.str(); (void)txt;
    std::ostringstream s2; s2 << std::oct << y; o << s2.str();
    std::istringstream is(y.to_string()); ip::uint128_t z; is >> z; o << z;
#else
    o << y.to_string(ip::uint128_t::format::octal) << y;
#endif
}
// ---- building blocks
template <size_t N> void arrays(Sink& o, Rng& r) {
    ip::byte_array<N> a{}, b{};
    for (size_t i = 0; i < N; ++i) { a[i] = uint8_t(r.next()); b[i] = r.one_in(4) ? uint8_t(r.next()) : a[i]; }
    o << (a == b) << (a != b) << (a < b) << (a <= b) << (a > b) << (a >= b) << uint64_t(a.size()) << a.empty() << uint64_t(a.max_size());
    a.swap(b);
    for (uint8_t v : a) o << int(v);
    for (auto i = b.rbegin(); i != b.rend(); ++i) o << int(*i);
}
template <size_t N, size_t M> void strings(Sink& o, Rng& r) {
    char a[N + 1] = {}, b[M + 1] = {};
    for (size_t i = 0; i < N; ++i) a[i] = r.one_in(5) ? char(0) : char('a' + r.below(3));
    for (size_t i = 0; i < M; ++i) b[i] = r.one_in(5) ? char(0) : char('a' + r.below(3));
    ip::fixed_string<N> x(a); ip::fixed_string<M> y(b);
    o << (x == y) << (x != y) << (x < y) << (x <= y) << (x > y) << (x >= y) << uint64_t(x.size()) << uint64_t(y.size()) << x.empty() << y.empty() << std::string(x.data(), x.size()) << std::string(y.data(), y.size());
    for (char c : x) o << int(c);
    o << x.compare(y);
}
inline int sign(int v) { return v < 0 ? -1 : v > 0; }

enum { KINDS = 26 };
inline const char* kind_name(int k) {
    static const char* n[] = {"parse-v4", "parse-v6", "parse-any", "parse-net4", "parse-net6", "parse-net-any", "parse-units", "format-v4", "format-v6", "format-any", "format-net",
        "address-flags", "embedded", "order-addr", "order-net", "attributes", "sequences-v4", "sequences-v6", "sequences-any", "relation-v4", "relation-v6", "relation-any", "numbers", "blocks", "scope", "factories"};
    return n[k];
}
inline int kind_of(uint64_t i) { return int(i % KINDS); }

inline std::string run(uint64_t i, Rng& r) {
    Sink o;
    switch (kind_of(i)) {
        case 0: { std::string t = text_for(r, 0); o << t; parse_all<ip::ipv4_address>(o, t, r); break; }
        case 1: { std::string t = text_for(r, 0); o << t; parse_all<ip::ipv6_address>(o, t, r); break; }
        case 2: { std::string t = text_for(r, 0); o << t; parse_all<ip::ip_address>(o, t, r); break; }
        case 3: { std::string t = text_for(r, 1); o << t; parse_net_all<ip::ipv4_network>(o, t, r); break; }
        case 4: { std::string t = text_for(r, 1); o << t; parse_net_all<ip::ipv6_network>(o, t, r); break; }
        case 5: { std::string t = text_for(r, 1); o << t; parse_net_all<ip::ip_network>(o, t, r); break; }
        case 6: {
            std::string t = text_for(r, int(r.below(2)));
            if (profile() != FULL && t.find('%') != std::string::npos) t = "1::2";      // a scope of exotic characters is the option's business
            switch (r.below(4)) {
                case 0: parse_net_as<ip::ip_network, wchar_t>(o, units<wchar_t>(r, t), false); break;
                case 1: parse_as<ip::ip_address, char16_t>(o, units<char16_t>(r, t)); break;
                case 2: parse_as<ip::ipv6_address, char32_t>(o, units<char32_t>(r, t)); break;
                default: if (profile() == FULL) parse_as<ip::ipv6_address, char>(o, units<char>(r, t)); else parse_as<ip::ipv4_address, char32_t>(o, units<char32_t>(r, t));
            }
            break;
        }
        case 7: format_all(o, a4(gen::value(r, 4)), r); break;
        case 8: { Addr a = gen::addr(r, 6); format_all(o, a6(a.v, a.scope), r); break; }
        case 9: format_all(o, make<ip::ip_address>(gen::addr(r, gen::ver(r))), r); break;
        case 10: { Net n = gen::net(r, gen::ver(r), true); if (r.one_in(2)) format_all(o, maken<ip::ip_network>(n), r); else if (n.ver == 4) format_all(o, n4(n), r); else format_all(o, n6(n), r); break; }
        case 11: { Addr a = gen::addr(r, gen::ver(r)); ip::ip_address x = make<ip::ip_address>(a); flags(o, x); site(o, x); o << x.reverse_pointer() << int(x.version()) << uint64_t(x.size());
                   if (a.ver == 4) { flags(o, a4(a.v)); o << a4(a.v).reverse_pointer() << a4(a.v).to_uint(); } else { flags(o, a6(a.v, a.scope)); site(o, a6(a.v)); o << a6(a.v, a.scope).reverse_pointer() << a6(a.v).to_uint(); }
                   break; }
        case 12: { Addr a = gen::addr(r, 6); embedded(o, a6(a.v, a.scope)); ip::ip_address x = make<ip::ip_address>(a); opt(o, x.ipv4_mapped()); opt(o, x.sixtofour()); opt(o, x.v4()); opt(o, x.v6()); o << x.is_v4() << x.is_v6(); break; }
        case 13: { int v = gen::ver(r); Addr a = gen::addr(r, v), b = r.one_in(3) ? a : gen::addr(r, r.one_in(3) ? gen::ver(r) : v); if (r.one_in(4)) b.scope.clear(); if (r.one_in(3)) b.v = a.v;
                   if (b.ver == 4) { b.v &= 0xffffffffu; b.scope.clear(); }
                   order(o, make<ip::ip_address>(a), make<ip::ip_address>(b)); if (a.ver == 4 && b.ver == 4) order(o, a4(a.v), a4(b.v)); else if (a.ver == 6 && b.ver == 6) order(o, a6(a.v, a.scope), a6(b.v, b.scope)); break; }
        case 14: { int v = gen::ver(r); Net a = gen::net(r, v, true), b = r.one_in(2) ? gen::near(r, a) : gen::net(r, gen::ver(r), true); order(o, maken<ip::ip_network>(a), maken<ip::ip_network>(b));
                   if (a.ver == 4 && b.ver == 4) order(o, n4(a), n4(b)); else if (a.ver == 6 && b.ver == 6) order(o, n6(a), n6(b)); break; }
        case 15: { Net n = gen::net(r, gen::ver(r), true); attributes(o, maken<ip::ip_network>(n)); if (n.ver == 4) attributes(o, n4(n)); else attributes(o, n6(n)); break; }
        case 16: { Net n = gen::net(r, 4); o << n; sequences(o, n4(n), n, r); break; }
        case 17: { Net n = gen::net(r, 6); o << n; sequences(o, n6(n), n, r); break; }
        case 18: { Net n = gen::net(r, gen::ver(r)); o << n; sequences(o, maken<ip::ip_network>(n), n, r); break; }
        case 19: { Net n = gen::net(r, 4), m = r.one_in(2) ? gen::shrink(r, n) : gen::near(r, n); o << n << m; relation(o, n4(n), n4(m)); break; }
        case 20: { Net n = gen::net(r, 6), m = r.one_in(2) ? gen::shrink(r, n) : gen::near(r, n); o << n << m; relation(o, n6(n), n6(m)); break; }
        case 21: { Net n = gen::net(r, gen::ver(r)), m = r.one_in(2) ? gen::shrink(r, n) : gen::net(r, gen::ver(r)); o << n << m; relation(o, maken<ip::ip_network>(n), maken<ip::ip_network>(m)); break; }
        case 22: numbers(o, r); break;
        case 23: switch (r.below(6)) { case 0: arrays<4>(o, r); break; case 1: arrays<16>(o, r); break; case 2: arrays<1>(o, r); break; case 3: strings<8, 8>(o, r); break; case 4: strings<3, 16>(o, r); break; default: strings<16, 5>(o, r); } break;
        case 24: { Addr a = gen::addr(r, 6); ip::ipv6_address x = a6(a.v, a.scope); std::string s = r.one_in(3) ? std::string() : scope_for(r); if (r.one_in(3) && s.size()) { size_t at = size_t(r.below(s.size())); s[at] = gen::junk_char(r); }
                   if (profile() != NO_SCOPES && suits("%" + s)) { EC c = EC::no_error; x.set_scope_id(s, c); o << c << (c == EC::no_error ? x : a6(a.v)); ip::ip_address y = make<ip::ip_address>(a); c = EC::no_error; y.set_scope_id(widen<char16_t>(s), c); o << c; if (c == EC::no_error) { o << y; auto sc = y.get_scope_id(); o << sc.has_uint32(); } }
                   break; }
        default: {
            int v = gen::ver(r); Addr a(v, gen::value(r, v)); EC c = EC::no_error; size_t p = r.one_in(6) ? size_t(r.next()) : size_t(r.below(140)); bool st = r.one_in(2);
            uint8_t by[16]; for (int k = 0; k < 16; ++k) by[k] = uint8_t(a.v >> ((v == 4 ? 24 : 120) - 8 * (k % (v == 4 ? 4 : 16))));
            if (v == 4) { auto x = ip::ipv4_address::from_uint(uint32_t(a.v)); auto n = ip::ipv4_network::from_address(x, c, p, st); o << x; fresh(o, n, c); o << ip::ipv4_address(x.bytes()) << ip::ipv4_address::from_bytes(by, 4); }
            else { auto x = ip::ipv6_address::from_uint(u128_of(a.v)); auto n = ip::ipv6_network::from_address(x, c, p, st); o << x; fresh(o, n, c); o << ip::ipv6_address(x.bytes()) << ip::ipv6_address::from_bytes(by, 16); }
            c = EC::no_error; auto m = ip::ip_network::from_address(make<ip::ip_address>(a), c, p, st); fresh(o, m, c);
        }
    }
    return o.s;
}
} // namespace ops
#endif
