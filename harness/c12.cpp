// C12: Equality, ordering and hashing are coherent
#include "lib.hpp"
#include <set>
#include <map>
#include <unordered_set>
#include <algorithm>
using namespace L;
#if defined(IPADDRESS_HAS_SPACESHIP_OPERATOR)
#define HAS_SS 1
#else
#define HAS_SS 0
#endif
#ifndef IPADDRESS_NO_OVERLOAD_STD
#define HAS_STD 1
#else
#define HAS_STD 0
#endif

// every relational operator against the reference comparison
template <class X> void rel(const char* key, const X& a, const X& b, int want, const std::string& what) {
    std::string k(key);
    CHECK((a == b) == (want == 0), k + "-==", what, " expected order ", want);
    CHECK((a != b) == (want != 0), k + "-!=", what, " expected order ", want);
    CHECK((a < b) == (want < 0), k + "-<", what, " expected order ", want);
    CHECK((a > b) == (want > 0), k + "->", what, " expected order ", want);
    CHECK((a <= b) == (want <= 0), k + "-<=", what, " expected order ", want);
    CHECK((a >= b) == (want >= 0), k + "->=", what, " expected order ", want);
#if HAS_SS
    auto o = a <=> b;
    CHECK((o < 0) == (want < 0) && (o == 0) == (want == 0) && (o > 0) == (want > 0), k + "-<=>", what, " expected order ", want);
    static_assert(std::is_same<decltype(o), std::strong_ordering>::value, "three-way comparison must be strong");
#endif
    if (want == 0) {
        CHECK(a.hash() == b.hash(), k + "-hash", what);
#if HAS_STD
        CHECK(std::hash<X>()(a) == std::hash<X>()(b), k + "-std-hash", what);
#endif
    }
#if HAS_STD
    CHECK(std::hash<X>()(a) == a.hash(), k + "-std-hash-member", what);
#endif
}
template <class X, class M> void pair_check(const char* key, const M& a, const M& b, const X& x, const X& y) {
    int c = ref::cmp(a, b);
    std::string what = ref::str(a) + " vs " + ref::str(b);
    h::note(std::string(key) + " " + what);
    rel(key, x, y, c, what);
    rel(key, y, x, -c, what);
    if (c == 0) HIT("equal-pair"); else if (c < 0) HIT("less-pair"); else HIT("greater-pair");
}
// equal object obtained by another route (text, copy, bytes+scope) so that stale storage would show
static ip::ip_address other_route(const Addr& a, Rng& r) {
    ip::error_code c = stale(r);
    switch (r.below(4)) {
        case 0: return parse_ec<ip::ip_address, char>(gen::spell(r, a), c);
        case 1: { ip::ip_address t = make<ip::ip_address>(Addr(10 - a.ver, gen::value(r, 10 - a.ver), HAS_SCOPE && a.ver == 4 ? "zz" : "")); t = make<ip::ip_address>(a); return t; }
        case 2: { if (a.ver == 6 && HAS_SCOPE) { ip::ipv6_address t = a6(a.v, std::string(size_t(H_SCOPE_MAX), '~')); t.set_scope_id(a.scope, c); return t; } return make<ip::ip_address>(a); }
        default: { ip::ip_address t = make<ip::ip_address>(a), u = make<ip::ip_address>(gen::addr(r, gen::ver(r))); t.swap(u); t.swap(u); return t; }
    }
}
static void addr_pair(const Addr& a, const Addr& b, Rng& r) {
    pair_check("any", a, b, make<ip::ip_address>(a), other_route(b, r));
    if (a.ver == b.ver) {
        if (a.ver == 4) pair_check("v4", a, b, a4(a.v), other_route(b, r).v4().value());
        else pair_check("v6", a, b, a6(a.v, a.scope), other_route(b, r).v6().value());
    } else HIT("cross-family");
    if (a.v == b.v && a.scope != b.scope) HIT("scope-decides");
    h::nt(h::hs(ref::str(a) + ref::str(b)));
}
static void net_pair(const Net& a, const Net& b, Rng& r) {
    ip::error_code c = stale(r);
    ip::ip_network y = r.one_in(2) ? maken<ip::ip_network>(b) : parse_ec<ip::ip_network, char>(gen::spell(r, Addr(b.ver, b.v, b.scope)) + "/" + gen::suffix(r, b.ver, b.plen), c);
    pair_check("netany", a, b, maken<ip::ip_network>(a), y);
    if (a.ver == b.ver) {
        if (a.ver == 4) pair_check("net4", a, b, n4(a), y.v4().value());
        else pair_check("net6", a, b, n6(a), y.v6().value());
    } else HIT("cross-family");
    if (a.v == b.v && a.plen != b.plen) HIT("prefix-decides");
    h::nt(h::hs(ref::str(a) + ref::str(b)));
}
static std::string near_scope(Rng& r, const std::string& s) {
    if (!HAS_SCOPE) return std::string();
    std::string o = s;
    switch (r.below(6)) {
        case 0: return std::string();
        case 1: if (!o.empty()) o.resize(o.size() - 1); return o;
        case 2: if (o.size() < size_t(H_SCOPE_MAX)) o += "0"; return o;
        case 3: if (!o.empty()) { size_t i = r.below(o.size()); char c = char(o[i] + (r.one_in(2) ? 1 : -1)); if (ref::scope_char_ok(c) && (unsigned char)c < 127 && c > 32) o[i] = c; } return o;
        case 4: return gen::scope_text(r, H_SCOPE_MAX);
        default: return o;
    }
}
static Addr near(Rng& r, const Addr& a) {
    Addr b = a;
    switch (r.below(6)) {
        case 0: break;
        case 1: b.v ^= u128(1) << r.below(uint64_t(ref::width(a.ver))); break;
        case 2: b.v = (b.v + 1) & ref::all_ones(a.ver); break;
        case 3: b = gen::addr(r, a.ver); break;
        case 4: b = Addr(10 - a.ver, a.ver == 4 ? a.v : a.v & 0xffffffffu); break;
        default: if (a.ver == 6) b.scope = near_scope(r, a.scope); break;
    }
    if (b.ver == 6 && r.one_in(3)) b.scope = near_scope(r, b.scope);
    return b;
}
template <class X> void containers(const char* key, const std::vector<X>& xs, const std::vector<std::string>& texts) {
    std::string k(key);
    // distinct values by reference text
    std::set<std::string> d(texts.begin(), texts.end());
    std::set<X> s(xs.begin(), xs.end());
    CHECK(s.size() == d.size(), k + "-set-size", "set holds ", s.size(), " of ", d.size());
#if HAS_STD
    std::unordered_set<X> u(xs.begin(), xs.end());
    CHECK(u.size() == d.size(), k + "-unordered-size", "unordered_set holds ", u.size(), " of ", d.size());
    for (size_t i = 0; i < xs.size(); ++i) CHECK(u.count(xs[i]) == 1, k + "-unordered-find", texts[i]);
#endif
    for (size_t i = 0; i < xs.size(); ++i) CHECK(s.count(xs[i]) == 1, k + "-set-find", texts[i]);
    std::vector<X> v = xs;
    std::sort(v.begin(), v.end());
    CHECK(std::is_sorted(v.begin(), v.end()), k + "-sort", "not sorted after sort");
}
void workload() {
    h::phase("adjacent-bytes", 20 * 256, [](uint64_t i, Rng& r) {
        int p = int(i % 20); u128 x = i / 20; int ver = p < 4 ? 4 : 6, sh = 8 * (p < 4 ? p : p - 4);
        u128 base = gen::value(r, ver) & ~(u128(255) << sh);
        Addr a(ver, (base | (x << sh)) & ref::all_ones(ver)), b(ver, (base | (u128(r.below(256)) << sh)) & ref::all_ones(ver));
        // opposite bytes elsewhere must not win over a more significant byte
        if (sh > 0 && r.one_in(2)) { a.v |= 0xff; b.v &= ~u128(0xff); }
        addr_pair(a, b, r);
    });
    h::random_phase("address-pairs", 40000, [](uint64_t, Rng& r) { Addr a = gen::addr(r, gen::ver(r)), b = near(r, a); addr_pair(a, b, r); h::sample(ref::str(a) + ref::str(b)); });
    h::random_phase("scope-pairs", 10000, [](uint64_t, Rng& r) {
        Addr a(6, gen::value(r, 6)); if (HAS_SCOPE) a.scope = gen::scope_text(r, H_SCOPE_MAX);
        Addr b = a; b.scope = near_scope(r, a.scope); if (r.one_in(4)) b.v ^= 1;
        addr_pair(a, b, r); h::sample(ref::str(a) + ref::str(b));
    });
    h::phase("prefix-pairs", 33 * 33 + 129 * 129, [](uint64_t i, Rng& r) {
        int ver = i < 33 * 33 ? 4 : 6; if (ver == 6) i -= 33 * 33;
        int w = ref::width(ver) + 1, p = int(i % uint64_t(w)), q = int(i / uint64_t(w));
        int lo = p < q ? p : q;
        u128 v = gen::value(r, ver) & ref::netmask(ver, lo);
        Net a(ver, v, p), b(ver, v, q);
        if (r.one_in(4)) b.v = gen::value(r, ver) & ref::netmask(ver, q);
        net_pair(a, b, r);
    });
    h::random_phase("network-pairs", 20000, [](uint64_t, Rng& r) {
        Net a = gen::net(r, gen::ver(r), true), b = gen::near(r, a);
        if (r.one_in(8)) b = gen::net(r, 10 - a.ver, true);
        if (r.one_in(4)) b = a;
        if (b.ver == 6 && HAS_SCOPE && r.one_in(3)) b.scope = near_scope(r, a.scope);
        net_pair(a, b, r); h::sample(ref::str(a) + ref::str(b));
    });
    h::random_phase("transitivity", 10000, [](uint64_t, Rng& r) {
        Addr m[3]; m[0] = gen::addr(r, gen::ver(r)); m[1] = near(r, m[0]); m[2] = near(r, m[r.below(2)]);
        ip::ip_address x[3]; for (int i = 0; i < 3; ++i) x[i] = make<ip::ip_address>(m[i]);
        h::note(ref::str(m[0]) + ref::str(m[1]) + ref::str(m[2]));
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) {
            CHECK(!(x[i] < x[j] && x[j] < x[k]) || x[i] < x[k], "transitive-<", m[i], m[j], m[k]);
            CHECK(!(x[i] == x[j] && x[j] == x[k]) || x[i] == x[k], "transitive-==", m[i], m[j], m[k]);
        }
        HIT("triples");
    });
    h::random_phase("containers", 300, [](uint64_t, Rng& r) {
        std::vector<ip::ip_address> xs; std::vector<ip::ipv6_address> x6; std::vector<ip::ipv4_address> x4; std::vector<std::string> t, t6, t4;
        std::vector<ip::ip_network> ns; std::vector<std::string> tn;
        Addr a = gen::addr(r, gen::ver(r));
        for (int i = 0; i < 60; ++i) {
            if (r.one_in(3)) a = gen::addr(r, gen::ver(r)); else a = near(r, a);
            xs.push_back(other_route(a, r)); t.push_back(ref::str(a));
            if (a.ver == 6) { x6.push_back(a6(a.v, a.scope)); t6.push_back(ref::str(a)); } else { x4.push_back(a4(a.v)); t4.push_back(ref::str(a)); }
            Net n = gen::net(r, gen::ver(r), true); if (i && r.one_in(3)) n = L::of(ns.back());
            ns.push_back(maken<ip::ip_network>(n)); tn.push_back(ref::str(n));
        }
        h::note("containers from " + t[0]);
        containers("any", xs, t); containers("v6", x6, t6); containers("v4", x4, t4); containers("netany", ns, tn);
        HIT("containers");
    });
}
