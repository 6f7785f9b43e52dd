// C20: Network classification follows from both ends of the network
#include "lib.hpp"
using namespace L;
template <class N> bool site(const N& a) { return a.is_site_local(); }
static bool site(const ip::ipv4_network&) { return false; }
template <class N> unsigned preds(const N& a) {
    return unsigned(a.is_multicast()) << ref::MULTICAST | unsigned(a.is_private()) << ref::PRIVATE | unsigned(a.is_global()) << ref::GLOBAL |
           unsigned(a.is_reserved()) << ref::RESERVED | unsigned(a.is_loopback()) << ref::LOOPBACK | unsigned(a.is_link_local()) << ref::LINK_LOCAL |
           unsigned(a.is_unspecified()) << ref::UNSPECIFIED | unsigned(site(a)) << ref::SITE_LOCAL;
}
static const char* hitname[] = {"multicast", "private", "global", "reserved", "loopback", "link_local", "unspecified", "site_local"};
static uint64_t* slots[8];
static void check(const Net& n) {
    h::note(ref::str(n));
    unsigned want = 0;
    for (int p = 0; p < ref::NPRED; ++p) if (ref::net_is(p, n)) { want |= 1u << p; if (!slots[p]) slots[p] = &h::st().hits[hitname[p]]; ++*slots[p]; }
    unsigned got = n.ver == 4 ? preds(n4(n)) : preds(n6(n));
    unsigned any = preds(maken<ip::ip_network>(n));
    h::st().checks += 16;
    for (int p = 0; p < ref::NPRED; ++p) {
        if ((got ^ want) >> p & 1) h::bad(std::string(n.ver == 4 ? "net4-" : "net6-") + ref::pred_name(p), h::cat(n, " ", ref::pred_name(p), " gave ", bool(got >> p & 1)));
        if ((any ^ want) >> p & 1) h::bad(std::string("netany-") + ref::pred_name(p), h::cat(n, " ", ref::pred_name(p), " gave ", bool(any >> p & 1)));
    }
    if (ref::in_any(n.ver, n.first(), ref::private_blocks(n.ver)) != ref::in_any(n.ver, n.last(), ref::private_blocks(n.ver))) HIT("ends-differ-private");
    h::nt(h::hs(ref::str(n)));
}
static Net with(int ver, u128 v, int p) { return Net(ver, v & ref::netmask(ver, p), p); }
void workload() {
    // around every block: the block itself, every enclosing and every enclosed prefix, and its neighbours
    h::phase("blocks", 2 * 64 * 8 * 129, [](uint64_t i, Rng& r) {
        int ver = i % 2 ? 6 : 4; i /= 2;
        size_t b = size_t(i % 64); i /= 64;
        int e = int(i % 8), p = int(i / 8);
        auto& bl = gen::blocks(ver);
        if (b >= bl.size() || p > ref::width(ver)) { HIT("skipped"); return; }
        u128 first = bl[b].first, last = first | ref::hostmask(ver, bl[b].second);
        u128 v = e == 0 ? first : e == 1 ? last : e == 2 ? first - 1 : e == 3 ? last + 1 : e == 4 ? first ^ (u128(1) << r.below(uint64_t(ref::width(ver)))) : first | (r.wide() & ref::hostmask(ver, bl[b].second));
        Net n = with(ver, v & ref::all_ones(ver), p);
        if (ver == 6 && HAS_SCOPE && r.one_in(4)) n.scope = gen::scope_text(r, H_SCOPE_MAX);
        check(n);
        if (p == bl[b].second) h::sample(ref::str(n));
    });
    // all IPv4 networks up to /16, then a sample of longer ones
    h::phase("all-v4-short", 131071, [](uint64_t i, Rng&) { int p = 0; uint64_t k = i; while (k >= (1ull << p)) { k -= 1ull << p; ++p; } check(Net(4, p ? u128(k) << (32 - p) : 0, p)); });
    h::random_phase("random", 120000, [](uint64_t, Rng& r) { Net n = gen::net(r, gen::ver(r), true); check(n); h::sample(ref::str(n)); });
    h::random_phase("near", 60000, [](uint64_t, Rng& r) { int ver = gen::ver(r); auto& bl = gen::blocks(ver); auto& b = bl[r.below(bl.size())]; Net n = gen::near(r, Net(ver, b.first, b.second)); check(n); h::sample(ref::str(n)); });
}
