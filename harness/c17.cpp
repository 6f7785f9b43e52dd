// C17: address_exclude() partitions the difference
#include "lib.hpp"
#include <set>
using namespace L;
static const ip::error_code OK = ip::error_code::no_error;

template <class N> void exclude(const char* key, const Net& a, const Net& b, Rng& r) {
    const N x = maken<N>(a), y = maken<N>(b);
    std::string K(key), w = ref::str(a) + " minus " + ref::str(b);
    h::note(K + " " + w);
    ip::error_code c = stale(r);
    auto s = x.address_exclude(y, c);
    const bool inside = a.ver == b.ver && a.plen <= b.plen && (b.v & ref::netmask(a.ver, a.plen)) == a.v;
    if (!inside) {
        const ip::error_code want = a.ver != b.ver ? ip::error_code::invalid_version : ip::error_code::not_contained_network;
        CHECK(c == want, K + "-code", w, " gave code ", c, " expected ", want);
        CHECK(s.empty() && s.begin() == s.end() && !(s.begin() != s.end()) && s.cbegin() == s.cend(), K + "-nonempty", w, " failed but is not empty");
        HIT("refused");
#if H_EXC
        if (r.one_in(8)) {
            Out o = guard([&] { auto t = x.address_exclude(y); (void)t; });
            CHECK(o.kind == LOGIC_ERROR && o.code == want, K + "-throw", w, " threw kind ", o.kind, " code ", o.code);
        }
#endif
        h::nt(h::hs(K + w));
        return;
    }
    CHECK(c == OK, K + "-rejected", w, " gave code ", c);
    if (c != OK) return;
    const int k = b.plen - a.plen;
    CHECK(s.empty() == (k == 0), K + "-empty", w, " empty() is ", s.empty());
    // walk with a bound; events recorded, then judged as a set
    std::vector<Net> got;
    auto e = s.end();
    auto it = s.begin();
    for (; it != e && int(got.size()) <= k + 2; ) {
        Net n = of_net(*it);
        CHECK(n == of_net(*it.operator->()), K + "-arrow", w, " element ", uint64_t(got.size()));
        got.push_back(n);
        CHECK(!(it == e), K + "-eq-ne", w, " element ", uint64_t(got.size()));
        if (r.one_in(3)) { auto o = it++; CHECK(of_net(*o) == n, K + "-post-increment", w, " element ", uint64_t(got.size())); }
        else ++it;
    }
    CHECK(it == e && !(it != e), K + "-end", w, " did not end after ", uint64_t(got.size()));
    CHECK(int(got.size()) == k, K + "-count", w, " yields ", uint64_t(got.size()), " networks, expected ", k);
    // one network per prefix length, the sibling of b's ancestor at that length
    std::vector<int> seen(130, 0);
    u128 total = 0;
    for (const Net& n : got) {
        CHECK(n.ver == a.ver && n.scope.empty(), K + "-family", w, " element ", n);
        CHECK(n.plen > a.plen && n.plen <= b.plen, K + "-plen", w, " element ", n);
        if (n.plen <= a.plen || n.plen > b.plen) continue;
        ++seen[n.plen];
        u128 sib = (b.v & ref::netmask(a.ver, n.plen)) ^ (u128(1) << (ref::width(a.ver) - n.plen));
        CHECK(n.v == sib, K + "-element", w, " element ", n, " expected ", Net(a.ver, sib, n.plen));
        total += u128(1) << (ref::width(a.ver) - n.plen);
    }
    for (int p = a.plen + 1; p <= b.plen; ++p) CHECK(seen[p] == 1, K + "-prefix-once", w, " has ", seen[p], " networks of length ", p);
    // conservation: sizes add up (modulo 2^128) to the difference
    u128 sa = a.plen == 0 && a.ver == 6 ? 0 : u128(1) << (ref::width(a.ver) - a.plen), sb = b.plen == 0 && b.ver == 6 ? 0 : u128(1) << (ref::width(a.ver) - b.plen);
    CHECK(total + sb == sa, K + "-conservation", w);
    // pairwise disjointness by the library's own observable relations
    if (k <= 24) for (size_t i = 0; i < got.size(); ++i) {
        N ni = maken<N>(got[i]);
        CHECK(!ni.overlaps(y) && ni.subnet_of(maken<N>(Net(a.ver, a.v, a.plen))), K + "-relations", w, " element ", got[i]);
    }
    // repeatable, range-for, throwing form, copies
    std::vector<Net> again;
    for (auto n : s) { again.push_back(of_net(n)); if (int(again.size()) > k + 2) break; }
    CHECK(again == got, K + "-range-for", w, " second walk differs");
    auto t = x.address_exclude(y);
    again.clear();
    for (auto jt = t.cbegin(); jt != t.cend() && int(again.size()) <= k + 2; ++jt) again.push_back(of_net(*jt));
    CHECK(again == got, K + "-throwing-form", w, " walk differs");
    if (k > 1) {   // a copied iterator is independent
        auto p = s.begin(); auto q = p; ++q;
        CHECK(of_net(*p) == got[0] && of_net(*q) == got[1] && p != q, K + "-copy", w);
        auto z = s.end(); z = p; ++z; CHECK(z == q && of_net(*p) == got[0], K + "-assign", w);
    }
    if (k == 0) HIT("equal"); else if (a.plen == 0) HIT("from-whole-space"); else HIT("excluded");
    if (a.v == 0 && b.v != 0 && b.plen == ref::width(a.ver)) HIT("complement-has-zero-host");
    h::nt(h::hs(K + w));
}
static void all(const Net& a, const Net& b, Rng& r) {
    if (a.ver == b.ver) { if (a.ver == 4) exclude<ip::ipv4_network>("net4", a, b, r); else exclude<ip::ipv6_network>("net6", a, b, r); }
    if (a.ver != b.ver || r.one_in(2)) exclude<ip::ip_network>("netany", a, b, r);
}
static void scopes(Net& n, Rng& r) { if (n.ver == 6 && HAS_SCOPE && r.one_in(5)) n.scope = gen::scope_text(r, H_SCOPE_MAX); }

void workload() {
    h::phase("prefix-pairs", (33 * 34 / 2 + 129 * 130 / 2) * 5, [](uint64_t i, Rng& r) {
        int mode = int(i % 5); i /= 5;
        int ver = i < 33 * 34 / 2 ? 4 : 6; if (ver == 6) i -= 33 * 34 / 2;
        int q = 0; while (i > uint64_t(q)) { i -= uint64_t(q) + 1; ++q; }   // row q has q+1 entries
        int p = int(i);
        u128 ones = ref::all_ones(ver), base = mode == 0 || mode == 3 ? 0 : mode == 1 ? ones : gen::value(r, ver);
        Net a(ver, base & ref::netmask(ver, p), p);
        u128 inner = mode == 0 || mode == 1 ? base : mode == 3 ? ones : mode == 4 ? 0 : r.wide();
        Net b(ver, (a.v | (inner & ref::hostmask(ver, p))) & ref::netmask(ver, q), q);
        scopes(a, r); scopes(b, r);
        all(a, b, r);
        if (q == p && p % 16 == 0) h::sample(ref::str(a) + " " + ref::str(b));
    });
    // all pairs of networks of a small space (both ends of the address space)
    h::phase("small-space", 2 * 2 * 63 * 63, [](uint64_t i, Rng& r) {
        int ver = i % 2 ? 6 : 4; i /= 2; bool high = i % 2; i /= 2;
        int w = ref::width(ver);
        Net n[2];
        for (int j = 0; j < 2; ++j) {
            int x = int(i % 63) + 1; i /= 63;                     // heap index of a node in a tree of depth 5
            int d = 0; while ((x >> (d + 1)) != 0) ++d;
            u128 v = u128(x - (1 << d)) << (5 - d);
            n[j] = Net(ver, high ? (ref::all_ones(ver) - 31) + v : v, w - 5 + d);
        }
        all(n[0], n[1], r);
    });
    h::random_phase("random", 12000, [](uint64_t, Rng& r) {
        Net a = gen::net(r, gen::ver(r), true), b = r.one_in(2) ? gen::shrink(r, a) : gen::near(r, a);
        if (r.one_in(12)) b = gen::net(r, a.ver == 4 ? 6 : 4, true);
        scopes(b, r);
        all(a, b, r);
        h::sample(ref::str(a) + " " + ref::str(b));
    });
}
