// Shared monitor for C01-C03: one text through every parse entry point, judged by the reference reader.
#ifndef TEXTMON_HPP
#define TEXTMON_HPP
#include "lib.hpp"
namespace tmon {
using namespace L;
inline bool ascii(const std::string& s) { for (char c : s) if ((unsigned char)c > 127) return false; return true; }
inline std::string upto_nul(const std::string& s) { size_t p = s.find('\0'); return p == std::string::npos ? s : s.substr(0, p); }

template <class X> void judge(const char* key, const char* how, const std::string& t, bool ok, const Addr& want, ip::error_code c, const X& got) {
    ++h::st().checks;
    bool lib_ok = c == ip::error_code::no_error;
    if (lib_ok != ok) { h::bad(std::string(key) + (ok ? "-rejected" : "-accepted"), h::cat(how, ": ", t, ok ? " must be accepted as " : " must be rejected; gave ", ok ? want : of(got), " ", c)); return; }
    if (ok && of(got) != want) h::bad(std::string(key) + "-value", h::cat(how, ": ", t, " gave ", of(got), " instead of ", want));
}
// the user-defined literals, which are ordinary functions before C++20
#ifndef IPADDRESS_NONTYPE_TEMPLATE_PARAMETER
#define LITERAL_OF(X, op, m) template <> struct Lit<X> { static size_t max() { return m; } template <class T> static X read(const T* p, size_t n) { return ip::operator""##op(p, n); } };
template <class X> struct Lit;
enum { MAX6 = 45 + (H_SCOPE_MAX ? 1 + H_SCOPE_MAX : 0) };
LITERAL_OF(ip::ipv4_address, _ipv4, 15) LITERAL_OF(ip::ipv6_address, _ipv6, MAX6) LITERAL_OF(ip::ip_address, _ip, MAX6)
LITERAL_OF(ip::ipv4_network, _ipv4_net, 31) LITERAL_OF(ip::ipv6_network, _ipv6_net, MAX6 + 4) LITERAL_OF(ip::ip_network, _net, MAX6 + 4)
template <class X, class T> bool literal_as(const std::string& t, bool ok, ip::error_code& c, X& x) {
    std::basic_string<T> s = widen<T>(t);
    Exact<T> e(s);
#if H_EXC
    (void)ok; c = ip::error_code::no_error;
    Out o = guard([&] { x = Lit<X>::template read<T>(e.p, e.n); });
    if (o.kind != NONE) c = ip::error_code::invalid_version, x = X();
    return true;
#else
    if (!ok) return false;
    c = ip::error_code::no_error; x = Lit<X>::template read<T>(e.p, e.n);
    return true;
#endif
}
template <class X> bool literal(const std::string& t, bool ok, Rng& r, ip::error_code& c, X& x) {
    if (!ascii(t) || t.find('\0') != std::string::npos || t.size() > Lit<X>::max()) return false;
    if (!ok && !r.one_in(4)) return false;
    HIT("literal");
    switch (r.below(4)) {
        case 0: return literal_as<X, char>(t, ok, c, x);
        case 1: return literal_as<X, wchar_t>(t, ok, c, x);
        case 2: return literal_as<X, char16_t>(t, ok, c, x);
        default: return literal_as<X, char32_t>(t, ok, c, x);
    }
}
#else
template <class X> bool literal(const std::string&, bool, Rng&, ip::error_code&, X&) { return false; }
#endif
// X: address type; ok/want by reference for family rules of X
template <class X> void one(const char* key, const std::string& t, bool ok, const Addr& want, Rng& r, bool all, bool ok_arr, const Addr& want_arr) {
    ip::error_code c = stale(r);
    X x = parse_ec<X, char>(t, c);
    judge(key, "parse(char)", t, ok, want, c, x);
#if H_EXC
    {
        X y;
        Out o = guard([&] { y = parse_th<X, char>(t); });
        c = o.kind == NONE ? ip::error_code::no_error : ip::error_code::invalid_version;
        judge(key, "throwing parse(char)", t, ok, want, c, y);
    }
#else
    if (ok) { X y = parse_th<X, char>(t); judge(key, "no-exception parse(char)", t, ok, want, ip::error_code::no_error, y); }
#endif
    if (literal(t, ok, r, c, x)) judge(key, "literal", t, ok, want, c, x);
    if (!all) return;
    if (ascii(t)) {
        c = stale(r); x = parse_ec<X, wchar_t>(widen<wchar_t>(t), c); judge(key, "parse(wchar_t)", t, ok, want, c, x);
        c = stale(r); x = parse_ec<X, char16_t>(widen<char16_t>(t), c); judge(key, "parse(char16_t)", t, ok, want, c, x);
        c = stale(r); x = parse_ec<X, char32_t>(widen<char32_t>(t), c); judge(key, "parse(char32_t)", t, ok, want, c, x);
#if HAS_U8
        c = stale(r); x = parse_ec<X, char8_t>(widen<char8_t>(t), c); judge(key, "parse(char8_t)", t, ok, want, c, x);
#endif
    }
    ArrEc<X> f; f.out = &x; f.c = &c;
    c = stale(r);
    if (with_array<char>(t, f)) judge(key, "parse(char[N])", t, ok_arr, want_arr, c, x);
    if (ascii(t)) { c = stale(r); if (with_array<char16_t>(widen<char16_t>(t), f)) judge(key, "parse(char16_t[N])", t, ok_arr, want_arr, c, x); }
    if (ascii(t)) { c = stale(r); if (with_array<wchar_t>(widen<wchar_t>(t), f)) judge(key, "parse(wchar_t[N])", t, ok_arr, want_arr, c, x); }
}
} // namespace tmon
#endif
