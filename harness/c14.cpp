// C14: Network relations are exactly set inclusion and intersection
#include "lib.hpp"
using namespace L;

static bool incl(const Net& a, const Net& b) { return a.ver == b.ver && b.first() <= a.first() && a.last() <= b.last(); }   // a subset of b
static bool inter(const Net& a, const Net& b) { return a.ver == b.ver && a.first() <= b.last() && b.first() <= a.last(); }

template <class N> void pair(const char* key, const Net& a, const Net& b, const N& x, const N& y) {
    std::string k(key), what = ref::str(a) + " vs " + ref::str(b);
    bool ab = incl(a, b), ba = incl(b, a), ov = inter(a, b);
    CHECK(x.subnet_of(y) == ab, k + "-subnet_of", what, " gave ", x.subnet_of(y));
    CHECK(y.subnet_of(x) == ba, k + "-subnet_of", what, " reversed gave ", y.subnet_of(x));
    CHECK(x.supernet_of(y) == ba, k + "-supernet_of", what, " gave ", x.supernet_of(y));
    CHECK(y.supernet_of(x) == ab, k + "-supernet_of", what, " reversed gave ", y.supernet_of(x));
    CHECK(x.overlaps(y) == ov, k + "-overlaps", what, " gave ", x.overlaps(y));
    CHECK(y.overlaps(x) == ov, k + "-overlaps", what, " reversed gave ", y.overlaps(x));
    if (ab && ba) HIT("equal"); else if (ab || ba) HIT("included"); else if (ov) HIT("overlap-only-impossible"); else HIT("disjoint");
}
static void check(const Net& a, const Net& b) {
    h::note(ref::str(a) + " " + ref::str(b));
    if (a.ver == b.ver) {
        if (a.ver == 4) pair("net4", a, b, n4(a), n4(b)); else pair("net6", a, b, n6(a), n6(b));
    } else HIT("cross-family");
    pair("netany", a, b, maken<ip::ip_network>(a), maken<ip::ip_network>(b));
    h::nt(h::hs(ref::str(a) + ref::str(b)));
}
static void check_contains(const Net& n, const Addr& a) {
    h::note(ref::str(n) + " contains " + ref::str(a));
    bool want = n.ver == a.ver && n.first() <= a.v && a.v <= n.last();
    if (n.ver == a.ver) {
        bool got = n.ver == 4 ? n4(n).contains(a4(a.v)) : n6(n).contains(a6(a.v, a.scope));
        CHECK(got == want, n.ver == 4 ? "net4-contains" : "net6-contains", n, " contains ", a, " gave ", got);
    }
    bool got = maken<ip::ip_network>(n).contains(make<ip::ip_address>(a));
    CHECK(got == want, "netany-contains", n, " contains ", a, " gave ", got);
    if (want) HIT("contained"); else HIT("not-contained");
    if (!a.scope.empty() || !n.scope.empty()) HIT("contains-scoped");
    h::nt(h::hs(ref::str(n) + ref::str(a)));
}
static Net with(int ver, u128 v, int p) { return Net(ver, v & ref::netmask(ver, p), p); }
void workload() {
    // every pair of prefix lengths on shared, adjacent and diverging addresses
    h::phase("prefix-pairs", (33 * 33 + 129 * 129) * 3, [](uint64_t i, Rng& r) {
        int mode = int(i % 3); i /= 3;
        int ver = i < 33 * 33 ? 4 : 6; if (ver == 6) i -= 33 * 33;
        int w = ref::width(ver) + 1, p = int(i % uint64_t(w)), q = int(i / uint64_t(w));
        u128 v = gen::value(r, ver), u = v;
        if (mode == 1 && ref::width(ver)) u ^= u128(1) << r.below(uint64_t(w - 1));
        if (mode == 2) { Net a = with(ver, v, p); u = r.one_in(2) ? a.last() + 1 : a.first() - 1; u &= ref::all_ones(ver); }
        check(with(ver, v, p), with(ver, u, q));
        h::sample(ref::str(with(ver, v, p)) + ref::str(with(ver, u, q)));
    });
    // diverging at each single bit: the last shared bit decides
    h::phase("diverge", 32 * 33 + 128 * 129, [](uint64_t i, Rng& r) {
        int ver = i < 32 * 33 ? 4 : 6; if (ver == 6) i -= 32 * 33;
        int w = ref::width(ver), bit = int(i % uint64_t(w)), p = int(i / uint64_t(w));
        u128 v = gen::value(r, ver), u = v ^ (u128(1) << bit);
        check(with(ver, v, p), with(ver, u, r.one_in(2) ? p : int(r.below(uint64_t(w + 1)))));
        check_contains(with(ver, v, p), Addr(ver, u));
    });
    h::random_phase("near", 30000, [](uint64_t, Rng& r) {
        Net a = gen::net(r, gen::ver(r)), b = gen::near(r, a);
        if (r.one_in(20)) b = gen::net(r, 10 - a.ver);
        check(a, b);
        h::sample(ref::str(a) + ref::str(b));
    });
    h::random_phase("contains", 40000, [](uint64_t, Rng& r) {
        Net n = gen::net(r, gen::ver(r), true);
        u128 ones = ref::all_ones(n.ver);
        Addr a(n.ver, 0);
        switch (r.below(8)) {
            case 0: a.v = n.first(); break;
            case 1: a.v = n.last(); break;
            case 2: a.v = (n.first() - 1) & ones; break;
            case 3: a.v = (n.last() + 1) & ones; break;
            case 4: a.v = n.first() | (r.wide() & ref::hostmask(n.ver, n.plen)); break;
            case 5: a.v = n.first() ^ (u128(1) << r.below(uint64_t(ref::width(n.ver)))); break;
            case 6: a = gen::addr(r, n.ver); break;
            default: a = Addr(10 - n.ver, n.first() & (n.ver == 6 ? u128(0xffffffffu) : ~u128(0))); break;
        }
        if (a.ver == 6 && HAS_SCOPE && r.one_in(3)) a.scope = gen::scope_text(r, H_SCOPE_MAX);
        check_contains(n, a);
        h::sample(ref::str(n) + " contains " + ref::str(a));
    });
    // contains of every address of small networks and their surroundings
    h::phase("small", 2 * 10 * 60, [](uint64_t i, Rng& r) {
        int ver = i % 2 ? 6 : 4; i /= 2; int k = int(i % 10);
        Net n = with(ver, gen::value(r, ver), ref::width(ver) - k);
        u128 size = u128(1) << k;
        for (u128 d = 0; d < size + 8; ++d) check_contains(n, Addr(ver, (n.first() - 4 + d) & ref::all_ones(ver)));
    });
}
