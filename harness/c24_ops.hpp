// C24: constexpr (C++14) operations evaluated both by the compiler's constant evaluator and by the compiled program.
// Every operation folds what it observes into a Dig; objects are returned as well where they can be compared as text.
#ifndef C24_OPS_HPP
#define C24_OPS_HPP
#include <ipaddress/ipaddress.hpp>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <type_traits>
#if __cplusplus >= 201703L
#include <string_view>
#endif
#ifndef IPADDRESS_NAMESPACE
#define IPADDRESS_NAMESPACE ipaddress
#endif
namespace ip = IPADDRESS_NAMESPACE;
typedef ip::error_code EC;
typedef ip::uint128_t U128;
#define CX constexpr

namespace c24 {
struct Dig {
    uint64_t v[14]; uint64_t rest; int n;
    CX Dig() : v{}, rest(0x9e3779b97f4a7c15ULL), n(0) {}
    CX Dig& put(uint64_t x) { if (n < 14) v[n] = x; else rest = (rest ^ x) * 0x100000001b3ULL + (x >> 29); ++n; return *this; }
    CX Dig& put(const U128& x) { put(uint64_t(x.upper())); return put(uint64_t(x.lower())); }
    CX Dig& put(EC c) { return put(uint64_t(c)); }
    CX Dig& put(const ip::ipv4_address& a) { return put(uint64_t(4)).put(uint64_t(a.to_uint())); }
    CX Dig& put(const ip::ipv6_address& a) { put(uint64_t(6)).put(a.to_uint()); const auto s = a.get_scope_id(); if (s.has_string()) put(uint64_t(a.hash())).put(uint64_t(s.has_uint32())).put(uint64_t(s.get_uint32())); return *this; }
    CX Dig& put(const ip::ip_address& a) { if (a.is_v4()) return put(a.v4().value()); return put(a.v6().value()); }
    CX Dig& put(const ip::ipv4_network& n) { put(n.network_address()); return put(uint64_t(n.prefixlen())); }
    CX Dig& put(const ip::ipv6_network& n) { put(n.network_address()); return put(uint64_t(n.prefixlen())); }
    CX Dig& put(const ip::ip_network& n) { put(n.network_address()); return put(uint64_t(n.prefixlen())); }
    bool same(const Dig& o) const { if (n != o.n || rest != o.rest) return false; for (int i = 0; i < 14; ++i) if (v[i] != o.v[i]) return false; return true; }
    std::string text() const { std::string s; char b[24]; for (int i = 0; i < n && i < 14; ++i) { snprintf(b, sizeof b, "%llx ", (unsigned long long)v[i]); s += b; } snprintf(b, sizeof b, "(%d) %llx", n, (unsigned long long)rest); return s + b; }
};
template <class X> struct Got { X x; EC c; };
template <class X> CX Got<X> got(const X& x, EC c) { return Got<X>{x, c}; }

// ---------------------------------------------------------------- parsing
template <class X, class T, size_t N> CX Got<X> arr_ec(const T (&t)[N]) { EC c = EC::invalid_scope_id; X x = X::parse(t, c); return got(x, c); }
template <class X, class T, size_t N> CX Got<X> arr_ec(const T (&t)[N], bool st) { EC c = EC::empty_octet; X x = X::parse(t, c, st); return got(x, c); }
template <class X, class T, size_t N> CX X arr_th(const T (&t)[N]) { return X::parse(t); }
template <class X, class T, size_t N> CX X arr_th(const T (&t)[N], bool st) { return X::parse(t, st); }
#if __cplusplus >= 201703L
template <class X, class T> CX Got<X> sv_ec(const T* p, size_t n) { EC c = EC::invalid_scope_id; X x = X::parse(std::basic_string_view<T>(p, n), c); return got(x, c); }
template <class X, class T> CX Got<X> sv_ec(const T* p, size_t n, bool st) { EC c = EC::empty_octet; X x = X::parse(std::basic_string_view<T>(p, n), c, st); return got(x, c); }
template <class X, class T> CX X sv_th(const T* p, size_t n) { return X::parse(std::basic_string_view<T>(p, n)); }
template <class X, class T> CX X sv_th(const T* p, size_t n, bool st) { return X::parse(std::basic_string_view<T>(p, n), st); }
#endif

// ---------------------------------------------------------------- building from numbers
CX ip::ipv4_address A4(uint32_t v) { return ip::ipv4_address::from_uint(v); }
CX ip::ipv6_address A6(uint64_t h, uint64_t l) { return ip::ipv6_address::from_uint(U128(h, l)); }
template <size_t N> CX ip::ipv6_address A6S(uint64_t h, uint64_t l, const char (&s)[N]) { ip::ipv6_address a = A6(h, l); EC c = EC::no_error; a.set_scope_id(s, c); return a; }
CX ip::ipv4_network N4(uint32_t v, size_t p) { EC c = EC::no_error; return ip::ipv4_network::from_address(A4(v), c, p, false); }
CX ip::ipv6_network N6(uint64_t h, uint64_t l, size_t p) { EC c = EC::no_error; return ip::ipv6_network::from_address(A6(h, l), c, p, false); }

// ---------------------------------------------------------------- queries
template <class A> CX void flags(Dig& d, const A& a) {
    d.put(uint64_t((a.is_multicast() ? 1 : 0) | (a.is_private() ? 2 : 0) | (a.is_global() ? 4 : 0) | (a.is_reserved() ? 8 : 0) | (a.is_loopback() ? 16 : 0) | (a.is_link_local() ? 32 : 0) | (a.is_unspecified() ? 64 : 0)));
}
template <class A> CX Dig query_common(const A& a) {
    Dig d;
    d.put(a);
    flags(d, a);
    d.put(uint64_t(a.version())).put(uint64_t(a.size())).put(uint64_t(a.hash()));
    const auto b = a.bytes();
    uint64_t s = 0;
    for (size_t i = 0; i < b.size(); ++i) s = s * 257 + b[i] + (a.data()[i] == b[i] ? 0 : 1);
    d.put(s);
    A c = A::from_bytes(b);
    d.put(c);
    c = A::from_bytes(b.data(), b.size());
    d.put(uint64_t(c == a ? 1 : 0));
    d.put(uint64_t(b.front())).put(uint64_t(b.back())).put(uint64_t(b.at(b.size() / 2)));
    A x = a, y;
    x.swap(y);
    d.put(x).put(y);
    return d;
}
CX Dig query4(ip::ipv4_address a) {
    Dig d = query_common(a);
    d.put(ip::ip_address(a)).put(uint64_t(ip::ip_address(a).hash()));
    d.put(uint64_t(ip::ip_address(a).is_v4() ? 1 : 0)).put(uint64_t(bool(ip::ip_address(a).v6()) ? 1 : 0));
    Dig e = Dig();
    flags(e, ip::ip_address(a));
    d.put(e.v[0]);
    return d;
}
CX Dig query6(ip::ipv6_address a) {
    Dig d = query_common(a);
    d.put(uint64_t(a.is_site_local() ? 1 : 0));
    const auto m = a.ipv4_mapped(); d.put(uint64_t(bool(m) ? 1 : 0)); if (m) d.put(m.value());
    const auto s = a.sixtofour(); d.put(uint64_t(bool(s) ? 1 : 0)); if (s) d.put(s.value());
    const auto t = a.teredo(); d.put(uint64_t(bool(t) ? 1 : 0)); if (t) d.put(t.value().first).put(t.value().second);
    const ip::ip_address y(a);
    d.put(y).put(uint64_t(y.hash())).put(uint64_t(y.is_v6() ? 1 : 0)).put(uint64_t(bool(y.v4()) ? 1 : 0)).put(uint64_t(y.is_site_local() ? 1 : 0));
    Dig e = Dig();
    flags(e, y);
    d.put(e.v[0]);
    return d;
}
template <size_t N> CX Dig query6s(uint64_t h, uint64_t l, const char (&s)[N]) { return query6(A6S(h, l, s)); }
template <class T, size_t N> CX Dig set_scope(uint64_t h, uint64_t l, const T (&s)[N]) {
    Dig d;
    ip::ipv6_address a = A6(h, l);
    EC c = EC::empty_octet;
    a.set_scope_id(s, c);
    d.put(a).put(c);
#if __cplusplus >= 201703L
    size_t n = 0;
    while (s[n]) ++n;
    ip::ip_address y(A6(h, l));
    c = EC::empty_octet;
    y.set_scope_id(std::basic_string_view<T>(s, n), c);
    d.put(y).put(c).put(uint64_t(y == a ? 1 : 0));
#endif
    return d;
}
template <class T, size_t N> CX Dig set_scope_th(uint64_t h, uint64_t l, const T (&s)[N]) {
    Dig d;
    ip::ipv6_address a = A6(h, l);
    a.set_scope_id(s);
    d.put(a);
#if __cplusplus >= 201703L
    size_t n = 0;
    while (s[n]) ++n;
    ip::ip_address y(A6(h, l));
    y.set_scope_id(std::basic_string_view<T>(s, n));
    d.put(y);
#endif
    return d;
}
template <class A, class B> CX Dig compare(const A& a, const B& b) {
    Dig d;
    d.put(uint64_t((a == b ? 1 : 0) | (a != b ? 2 : 0) | (a < b ? 4 : 0) | (a <= b ? 8 : 0) | (a > b ? 16 : 0) | (a >= b ? 32 : 0)));
#ifdef IPADDRESS_HAS_SPACESHIP_OPERATOR
    d.put(uint64_t(((a <=> b) < 0 ? 1 : 0) | ((a <=> b) > 0 ? 2 : 0)));
#endif
    return d;
}
CX Dig compare4(ip::ipv4_address a, ip::ipv4_address b) { Dig d = compare(a, b); return d.put(compare(ip::ip_address(a), ip::ip_address(b)).v[0]).put(compare(ip::ip_address(a), b).v[0]); }
template <size_t N, size_t M> CX Dig compare6(uint64_t h, uint64_t l, const char (&s)[N], uint64_t h2, uint64_t l2, const char (&s2)[M]) {
    const ip::ipv6_address a = A6S(h, l, s), b = A6S(h2, l2, s2);
    Dig d = compare(a, b);
    d.put(compare(ip::ip_address(a), ip::ip_address(b)).v[0]).put(compare(ip::ip_address(a), b).v[0]);
    d.put(compare(ip::ip_address(a), ip::ip_address(A4(uint32_t(l)))).v[0]);
    d.put(uint64_t(a.get_scope_id() == b.get_scope_id() ? 1 : 0)).put(uint64_t(a.get_scope_id() < b.get_scope_id() ? 1 : 0));
    return d;
}

// ---------------------------------------------------------------- networks
template <class N> CX void net_common(Dig& d, const N& n) {
    d.put(n).put(n.broadcast_address()).put(n.netmask()).put(n.hostmask()).put(uint64_t(n.prefixlen())).put(uint64_t(n.hash()));
    d.put(uint64_t(n.version()));
    flags(d, n);
    N x = n, y;
    x.swap(y);
    d.put(x).put(y);
}
CX Dig netq4(ip::ipv4_network n) { Dig d; net_common(d, n); d.put(uint64_t(n.addresses_count())); net_common(d, ip::ip_network(n)); d.put(ip::ip_network(n).addresses_count()); return d.put(ip::ip_network(n).v4().value()); }
CX Dig netq6(ip::ipv6_network n) { Dig d; net_common(d, n); d.put(n.addresses_count()).put(uint64_t(n.is_site_local() ? 1 : 0)); net_common(d, ip::ip_network(n)); d.put(ip::ip_network(n).addresses_count()); return d.put(ip::ip_network(n).v6().value()); }
template <class N> CX uint64_t rel_bits(const N& a, const N& b) {
    return uint64_t((a.overlaps(b) ? 1 : 0) | (a.subnet_of(b) ? 2 : 0) | (a.supernet_of(b) ? 4 : 0) | (a.contains(b.network_address()) ? 8 : 0) | (a.contains(b.broadcast_address()) ? 16 : 0) | (b.contains(a.network_address()) ? 32 : 0));
}
template <class N> CX Dig relate(N a, N b) {
    Dig d = compare(a, b);
    d.put(rel_bits(a, b)).put(rel_bits(ip::ip_network(a), ip::ip_network(b)));
    d.put(compare(ip::ip_network(a), ip::ip_network(b)).v[0]);
    return d;
}
CX Dig relate_mixed(ip::ipv4_network a, ip::ipv6_network b) { Dig d = compare(ip::ip_network(a), ip::ip_network(b)); return d.put(rel_bits(ip::ip_network(a), ip::ip_network(b))).put(rel_bits(ip::ip_network(b), ip::ip_network(a))); }

template <class S> CX uint64_t seq_size(const S& s, uint32_t*) { return uint64_t(s.size()); }
CX void put_int(Dig& d, uint64_t v) { d.put(v); }
CX void put_int(Dig& d, const U128& v) { d.put(v); }
// the first k elements forwards, indexing, moves, and (C++17) the first k backwards
template <class S, class D> CX void window(Dig& d, const S& s, int k, D last, D mid) {
    put_int(d, s.size());
    d.put(uint64_t(s.empty() ? 1 : 0));
    int i = 0;
    for (auto it = s.begin(); it != s.end() && i < k; ++it, ++i) d.put(*it);
    d.put(uint64_t(i));
    if (s.empty()) return;
    d.put(s[mid]).put(s[last]).put(s.at(mid));
    auto it = s.begin();
    it += last;
    d.put(*it).put(uint64_t(it == s.end() ? 1 : 0));
    auto jt = it--;
    d.put(*jt).put(uint64_t(jt == it ? 1 : 0)).put(uint64_t(it < jt ? 1 : 0)).put(uint64_t(it > jt ? 1 : 0));
    put_int(d, s.end().uint_diff(s.begin()));
    d.put(*(s.begin() + mid));
    auto e = s.end();
    e -= D(1);
    d.put(*e);
    ++e;
    d.put(uint64_t(e == s.end() ? 1 : 0));
#if __cplusplus >= 201703L
    i = 0;
    for (auto r = s.rbegin(); r != s.rend() && i < k; ++r, ++i) d.put(*r);
    d.put(*(s.rbegin() + last));
#endif
}
template <class N, class D> CX Dig hosts(N n, int k, D last, D mid) { Dig d; window(d, n.hosts(), k, last, mid); return d; }
template <class N, class D> CX Dig hosts_any(N n, int k, D last, D mid) { Dig d; window(d, ip::ip_network(n).hosts(), k, last, mid); return d; }
template <class N, class D> CX Dig subnets(N n, size_t diff, int k, D last, D mid) { Dig d; EC c = EC::invalid_version; const auto s = n.subnets(c, diff); d.put(c); if (c == EC::no_error) window(d, s, k, last, mid); return d; }
template <class N, class D> CX Dig subnets_any(N n, size_t np, int k, D last, D mid) { Dig d; EC c = EC::invalid_version; const auto s = ip::ip_network(n).subnets(c, 1, ip::optional<size_t>(np)); d.put(c); if (c == EC::no_error) window(d, s, k, last, mid); return d; }
template <class N> CX Dig subnets_th(N n, size_t diff) { Dig d; const auto s = n.subnets(diff); return d.put(*s.begin()); }
template <class N> CX Dig subnets_np_th(N n, size_t diff, size_t np) { Dig d; const auto s = ip::ip_network(n).subnets(diff, ip::optional<size_t>(np)); return d.put(*s.begin()); }
template <class N> CX Dig supernet(N n, size_t diff, size_t np) {
    Dig d;
    EC c = EC::invalid_version;
    N x = n.supernet(c, diff);
    d.put(c); if (c == EC::no_error) d.put(x);
    c = EC::invalid_version;
    x = n.supernet(c, 1, ip::optional<size_t>(np));
    d.put(c); if (c == EC::no_error) d.put(x);
    c = EC::invalid_version;
    const auto y = ip::ip_network(n).supernet(c, diff);
    d.put(c); if (c == EC::no_error) d.put(y);
    return d;
}
template <class N> CX Dig supernet_th(N n, size_t diff) { Dig d; return d.put(n.supernet(diff)).put(ip::ip_network(n).supernet(diff)); }
template <class N> CX Dig supernet_np_th(N n, size_t diff, size_t np) { Dig d; return d.put(n.supernet(diff, ip::optional<size_t>(np))); }
template <class S> CX void all_of(Dig& d, const S& s) { int i = 0; for (auto it = s.begin(); it != s.end() && i < 200; ++it, ++i) d.put(*it); d.put(uint64_t(i)); }
template <class N> CX Dig exclude(N a, N b) {
    Dig d;
    EC c = EC::invalid_version;
    const auto s = a.address_exclude(b, c);
    d.put(c); if (c == EC::no_error) all_of(d, s);
    c = EC::empty_octet;
    const auto t = ip::ip_network(a).address_exclude(ip::ip_network(b), c);
    d.put(c); if (c == EC::no_error) all_of(d, t);
    return d;
}
template <class N> CX Dig exclude_th(N a, N b) { Dig d; all_of(d, a.address_exclude(b)); all_of(d, ip::ip_network(a).address_exclude(ip::ip_network(b))); return d; }
template <class N, class A> CX Dig from_addr(A a, size_t p, bool st) {
    Dig d;
    EC c = EC::invalid_version;
    const N n = N::from_address(a, c, p, st);
    d.put(c); if (c == EC::no_error) d.put(n);
    c = EC::invalid_version;
    const ip::ip_network y = ip::ip_network::from_address(ip::ip_address(a), c, p, st);
    d.put(c); if (c == EC::no_error) d.put(y);
    return d;
}
template <class N, class A> CX Dig from_addr_th(A a, size_t p, bool st) { Dig d; return d.put(N::from_address(a, p, st)).put(ip::ip_network::from_address(ip::ip_address(a), p, st)); }
template <class A> CX Dig summary(A a, A b) {   // stepping an address through its arithmetic by way of a network of both
    Dig d; return d.put(uint64_t(a < b ? 1 : 0)).put(a).put(b);
}

// ---------------------------------------------------------------- 128-bit integers
CX Dig u128ops(uint64_t ah, uint64_t al, uint64_t bh, uint64_t bl, unsigned sh, int64_t i) {
    Dig d;
    const U128 a(ah, al), b(bh, bl);
    d.put(a + b).put(a - b).put(a * b).put(a & b).put(a | b).put(a ^ b).put(~a).put(-a).put(+a);
    d.put(a << sh).put(a >> sh);
    if (b) d.put(a / b).put(a % b);
    if (bl) d.put(a / bl).put(a % bl);
    U128 c = a; c += b; c -= U128(bl); c *= b; c |= a; c &= b; c ^= a; c <<= (sh & 63); c >>= 3;
    d.put(c);
    if (b) { U128 e = a; e /= b; d.put(e); e = a; e %= b; d.put(e); }
    U128 e = a; ++e; d.put(e); e--; --e; d.put(e++).put(e);
    d.put(uint64_t((a == b ? 1 : 0) | (a < b ? 2 : 0) | (a <= b ? 4 : 0) | (a > b ? 8 : 0) | (a >= b ? 16 : 0) | (a != b ? 32 : 0) | (!a ? 64 : 0)));
#ifdef IPADDRESS_HAS_SPACESHIP_OPERATOR
    d.put(uint64_t((a <=> b) < 0 ? 1 : 0));
#endif
    d.put(U128(i)).put(a + i).put(a * i).put(uint64_t(uint32_t(a))).put(uint64_t(int64_t(a))).put(uint64_t(bool(a)));
    if (i) d.put(a / i).put(a % i);
    d.put(uint64_t(a.hash())).put(a.upper()).put(a.lower());
    U128 x = a, y = b; x.swap(y); d.put(x).put(y);
    return d;
}
template <class T, size_t N> CX Dig u128str(const T (&s)[N], int f) {
    Dig d;
    const auto r = U128::from_string(s, f == 8 ? U128::format::octal : f == 16 ? U128::format::hexadecimal : U128::format::decimal);
    d.put(uint64_t(bool(r) ? 1 : 0));
    if (r) d.put(r.value());
    return d;
}

// ---------------------------------------------------------------- sweeps: one constant expression, many evaluations
CX Dig u128shifts(uint64_t h, uint64_t l) {
    Dig d;
    const U128 a(h, l);
    for (int i = 0; i < 132; ++i) { d.put(a << i).put(a >> i); U128 b = a; b <<= unsigned(i); d.put(b); b = a; b >>= uint64_t(i); d.put(b); }
    return d;
}
CX Dig u128pairs(uint64_t h, uint64_t l, unsigned from) {
    Dig d;
    const U128 a(h, l);
    for (unsigned i = from; i < 128; i += 4)
        for (unsigned k = 0; k < 2; ++k) {
            const U128 b = (U128(1) << i) - k;
            d.put(a + b).put(a - b).put(a * b).put(uint64_t((a < b ? 1 : 0) | (a <= b ? 2 : 0) | (a == b ? 4 : 0) | (a > b ? 8 : 0)));
            if (b) d.put(a / b).put(a % b);
        }
    return d;
}
CX Dig bits4(uint32_t v) {
    Dig d;
    const ip::ipv4_address a = A4(v);
    for (unsigned i = 0; i < 32; ++i) {
        const ip::ipv4_address b = A4(v ^ (1u << i));
        d.put(uint64_t((a < b ? 1 : 0) | (a == b ? 2 : 0) | (a >= b ? 4 : 0))).put(uint64_t(b.hash()));
        flags(d, b); flags(d, ip::ip_address(b));
    }
    return d;
}
CX Dig bits6(uint64_t h, uint64_t l) {
    Dig d;
    const ip::ipv6_address a = A6(h, l);
    for (unsigned i = 0; i < 128; ++i) {
        const ip::ipv6_address b = i < 64 ? A6(h, l ^ (1ull << i)) : A6(h ^ (1ull << (i - 64)), l);
        d.put(uint64_t((a < b ? 1 : 0) | (a == b ? 2 : 0) | (a >= b ? 4 : 0))).put(uint64_t(b.hash()));
        flags(d, b);
        d.put(uint64_t((b.ipv4_mapped() ? 1 : 0) | (b.sixtofour() ? 2 : 0) | (b.teredo() ? 4 : 0) | (b.is_site_local() ? 8 : 0)));
    }
    return d;
}
template <class N, class A> CX Dig prefixes(A a, size_t w) {
    Dig d;
    for (size_t p = 0; p <= w + 1; ++p) {
        EC c = EC::empty_octet;
        const N n = N::from_address(a, c, p, false), m = N::from_address(a, c, p);
        d.put(c).put(n).put(m).put(n.netmask()).put(n.hostmask()).put(n.broadcast_address()).put(uint64_t(n.hash()));
        flags(d, n);
        d.put(n.supernet(c)).put(c).put(n.supernet(c, 7)).put(c);
        const auto s = n.subnets(c); d.put(c); if (!s.empty()) d.put(*s.begin()).put(s.back());
        const auto z = n.subnets(c, 0); size_t k = 0; for (auto it = z.rbegin(); it != z.rend() && k < 3; ++it, ++k) d.put(*it);
        d.put(uint64_t(k)).put(uint64_t(z.begin() != z.end() ? 1 : 0)).put(uint64_t(z.rend() - z.rbegin())).put(uint64_t(z.end() - z.begin()));
        const auto h = n.hosts(); if (!h.empty()) d.put(*h.begin()).put(h.back());
        d.put(uint64_t(n.contains(a) ? 1 : 0)).put(uint64_t(n.overlaps(m) ? 1 : 0)).put(uint64_t(n.subnet_of(m) ? 1 : 0)).put(uint64_t(n.supernet_of(m) ? 1 : 0));
    }
    return d;
}
// a network without each of its subnets up to three bits longer
template <class N> CX Dig exclusions(N n, size_t w) {
    Dig d;
    EC c = EC::no_error;
    for (size_t p = n.prefixlen(); p <= n.prefixlen() + 3 && p <= w; ++p)
        for (const auto& m : n.subnets(c, p - n.prefixlen())) {
            size_t k = 0;
            const auto s = n.address_exclude(m, c);
            for (auto it = s.begin(); it != s.end() && k < 8; ++it, ++k) d.put(*it);
            d.put(c).put(uint64_t(k)).put(uint64_t(s.empty() ? 1 : 0));
        }
    return d;
}
// every position of the text replaced in turn by each unit of a list; the text cut at every position
template <class X, class T, size_t N, size_t M> CX Dig parse_around(const T (&s)[N], const uint32_t (&u)[M]) {
    Dig d;
    T b[N] = {};
    for (size_t i = 0; i < N; ++i) b[i] = s[i];
    for (size_t i = 0; i + 1 < N; ++i) {
        for (size_t k = 0; k < M; ++k) {
            b[i] = T(u[k]);
            EC c = EC::empty_octet;
            const X x = X::parse(b, c);
            d.put(c); if (c == EC::no_error) d.put(x);
        }
        b[i] = s[i];
    }
    for (size_t i = N; i-- > 0; ) { b[i] = T(0); EC c = EC::no_error; const X x = X::parse(b, c); d.put(c); if (c == EC::no_error) d.put(x); }
    return d;
}
// every text of three units over a list
template <class X, class T, size_t M> CX Dig parse_short(const uint32_t (&u)[M], const T (&tail)[4]) {
    Dig d;
    T b[7] = {};
    for (size_t i = 0; i < 3; ++i) b[3 + i] = tail[i];
    for (size_t i = 0; i < M; ++i) for (size_t j = 0; j < M; ++j) for (size_t k = 0; k < M; ++k) {
        b[0] = T(u[i]); b[1] = T(u[j]); b[2] = T(u[k]);
        EC c = EC::empty_octet;
        const X x = X::parse(b, c);
        d.put(c); if (c == EC::no_error) d.put(x);
    }
    return d;
}

// ---------------------------------------------------------------- containers
template <class T, class U, size_t N, size_t M> CX Dig strings(const T (&s)[N], const U (&t)[M]) {
    Dig d;
    EC c = EC::no_error;
    const ip::fixed_string<N - 1> a(s, c);
    d.put(c);
    const ip::fixed_string<M - 1> b(t, c);
    d.put(c).put(uint64_t(a.size())).put(uint64_t(a.hash())).put(uint64_t(a.empty() ? 1 : 0)).put(uint64_t(int64_t(a.compare(b)))).put(uint64_t(a.capacity()));
    uint64_t h = 7;
    for (auto p = a.begin(); p != a.end(); ++p) h = h * 31 + uint64_t(*p);
    for (size_t i = 0; i < a.size(); ++i) h = h * 31 + uint64_t(a[i]);
    d.put(h);
    d.put(uint64_t((a == b ? 1 : 0) | (a != b ? 2 : 0) | (a < b ? 4 : 0) | (a <= b ? 8 : 0) | (a > b ? 16 : 0) | (a >= b ? 32 : 0)));
    ip::fixed_string<N - 1> x = a, y; x.swap(y);
    return d.put(uint64_t(x.size())).put(uint64_t(y.size())).put(uint64_t(y == a ? 1 : 0));
}
template <class T, size_t N> CX Dig strings_th(const T (&s)[N]) { Dig d; const ip::fixed_string<N - 1> a(s); return d.put(uint64_t(a.size())).put(uint64_t(a.hash())); }
CX Dig bytes_ops(uint64_t h, uint64_t l) {
    Dig d;
    ip::ipv6_address::base_type a = A6(h, l).bytes(), b = A6(l, h).bytes();
    d.put(uint64_t((a == b ? 1 : 0) | (a != b ? 2 : 0) | (a < b ? 4 : 0) | (a <= b ? 8 : 0) | (a > b ? 16 : 0) | (a >= b ? 32 : 0)));
    a.swap(b);
    uint64_t s = 0;
    for (auto p = a.begin(); p != a.end(); ++p) s = s * 257 + *p;
    a[3] = 9; a.at(4) = 7; a.front() = 1; a.back() = 2;
    for (auto p = a.cbegin(); p != a.cend(); ++p) s = s * 257 + *p;
    return d.put(s).put(uint64_t(a.size())).put(uint64_t(a.max_size())).put(uint64_t(a.empty() ? 1 : 0));
}
template <class T> CX Dig optional_ops(T x, T y) {
    Dig d;
    ip::optional<T> a, b(x), c(nullptr);
    d.put(uint64_t((bool(a) ? 1 : 0) | (b.has_value() ? 2 : 0) | (bool(c) ? 4 : 0)));
    a = b; d.put(a.value());
    b = T(y); d.put(b.value()).put(*b);
    a = nullptr; d.put(uint64_t(bool(a) ? 1 : 0));
    ip::optional<T> e(b);
    d.put(e.value()).put(uint64_t(a.has_value() ? 1 : 0));
    return d;
}

// ---------------------------------------------------------------- judging (run time)
struct Stat { long cases, bad, konst, rejected; };
inline Stat& stat() { static Stat s = {0, 0, 0, 0}; return s; }
inline void fail(int id, const char* key, const std::string& detail) { ++stat().bad; printf("BAD %d %s %s\n", id, key, detail.c_str()); }
inline void judge(int id, const Dig& k, const Dig& v) { ++stat().cases; ++stat().konst; printf("H %llx\n", (unsigned long long)(v.rest ^ (v.v[0] * 31 + v.v[1] * 7 + v.v[2] * 1009 + v.v[3] * 5 + v.v[4]) ^ uint64_t(v.n) << 50)); if (!k.same(v)) fail(id, "value", "compile time " + k.text() + ", run time " + v.text()); }
template <class X> std::string show(const X& x) { return x.to_string(); }
template <class X> void judge_x(int id, const X& k, const X& v) { if (!(k == v) || show(k) != show(v)) fail(id, "value", "compile time " + show(k) + ", run time " + show(v)); }
template <class X> void judge(int id, const X& k, const X& v) { ++stat().cases; ++stat().konst; printf("H %zx\n", size_t(v.hash())); judge_x(id, k, v); }
template <class X> void judge(int id, const Got<X>& k, const Got<X>& v) {
    ++stat().cases; ++stat().konst;
    printf("H %zx%d\n", size_t(v.x.hash()), int(v.c));
    if (k.c != v.c) { fail(id, "code", "compile time code " + std::to_string(int(k.c)) + ", run time code " + std::to_string(int(v.c))); return; }
    if (k.c == EC::no_error) judge_x(id, k.x, v.x);
}
template <class T> __attribute__((noinline)) T opaque(T v) { volatile T x = v; return x; }

#if __cplusplus >= 202002L && !defined(IPADDRESS_NO_EXCEPTIONS)
template <class S> concept is_const = requires { typename std::integral_constant<int, (S::template f<0>(), 0)>; };
// an operation that may throw: it is a constant exactly when the run-time call does not throw
template <class S, class F> void judge_th(int id, F run) {
    bool threw = false;
    decltype(run()) v{};
    try { v = run(); } catch (const ip::error&) { threw = true; }
    if constexpr (is_const<S>) {
        constexpr auto k = S::template f<0>();
        if (threw) { ++stat().cases; fail(id, "constant-but-throws", "constant expression although the run-time call throws"); return; }
        judge(id, k, v);
    } else {
        ++stat().cases; ++stat().rejected;
        if (!threw) fail(id, "not-constant", "not a constant expression although the run-time call succeeds");
    }
}
template <class S, class F> void judge_rejected(int id, F run) { judge_th<S>(id, run); }
#endif
inline int finish() { Stat& s = stat(); printf("STAT %ld %ld %ld %ld\n", s.cases, s.bad, s.konst, s.rejected); return s.bad ? 1 : 0; }
}
#endif
