// C19: Address classification follows the special-purpose blocks exactly
#include "lib.hpp"
using namespace L;
template <class A> bool site(const A& a) { return a.is_site_local(); }
static bool site(const ip::ipv4_address&) { return false; }
template <class A> unsigned preds(const A& a) {
    return unsigned(a.is_multicast()) << ref::MULTICAST | unsigned(a.is_private()) << ref::PRIVATE | unsigned(a.is_global()) << ref::GLOBAL |
           unsigned(a.is_reserved()) << ref::RESERVED | unsigned(a.is_loopback()) << ref::LOOPBACK | unsigned(a.is_link_local()) << ref::LINK_LOCAL |
           unsigned(a.is_unspecified()) << ref::UNSPECIFIED | unsigned(site(a)) << ref::SITE_LOCAL;
}
static const char* hitname[] = {"multicast", "private", "global", "reserved", "loopback", "link_local", "unspecified", "site_local"};
static uint64_t* slots[8];
static void check(const Addr& a) {
    h::note(ref::str(a));
    unsigned want = 0;
    for (int p = 0; p < ref::NPRED; ++p) if (ref::addr_is(p, a)) { want |= 1u << p; if (!slots[p]) slots[p] = &h::st().hits[hitname[p]]; ++*slots[p]; }
    unsigned got = a.ver == 4 ? preds(a4(a.v)) : preds(a6(a.v, a.scope));
    unsigned any = preds(make<ip::ip_address>(a));
    h::st().checks += 16;
    if (got != want || any != want)
        for (int p = 0; p < ref::NPRED; ++p) {
            if ((got ^ want) >> p & 1) h::bad(std::string(a.ver == 4 ? "v4-" : "v6-") + ref::pred_name(p), h::cat(a, " ", ref::pred_name(p), " gave ", bool(got >> p & 1)));
            if ((any ^ want) >> p & 1) h::bad(std::string("any-") + ref::pred_name(p), h::cat(a, " ", ref::pred_name(p), " gave ", bool(any >> p & 1)));
        }
    h::nt(h::hv(a.v, unsigned(a.ver)));
}
static Addr scoped(Rng& r, Addr a) { if (a.ver == 6 && HAS_SCOPE && r.one_in(3)) a.scope = gen::scope_text(r, H_SCOPE_MAX); return a; }
void workload() {
    // edges of every block, with every single bit flipped
    h::phase("block-edges", 2 * 64 * 6 * 129, [](uint64_t i, Rng& r) {
        int ver = i % 2 ? 6 : 4; i /= 2;
        size_t b = size_t(i % 64); i /= 64;
        int e = int(i % 6); int bit = int(i / 6);
        auto& bl = gen::blocks(ver);
        if (b >= bl.size() || bit > ref::width(ver)) { HIT("skipped"); return; }
        u128 first = bl[b].first, last = first | ref::hostmask(ver, bl[b].second);
        u128 v = e == 0 ? first : e == 1 ? last : e == 2 ? first - 1 : e == 3 ? last + 1 : e == 4 ? first + 1 : first | (r.wide() & ref::hostmask(ver, bl[b].second));
        v &= ref::all_ones(ver);
        if (bit < ref::width(ver)) v ^= u128(1) << bit;
        check(scoped(r, Addr(ver, v)));
        if (bit == 0) h::sample(ref::str(Addr(ver, v)));
    });
    // every first 16 bits
    h::phase("top16-v4", 65536, [](uint64_t i, Rng& r) { check(Addr(4, u128(i) << 16 | r.below(65536))); check(Addr(4, u128(i) << 16)); check(Addr(4, u128(i) << 16 | 0xffff)); });
    h::phase("top16-v6", 65536, [](uint64_t i, Rng& r) { check(scoped(r, Addr(6, (u128(i) << 112) | (r.wide() >> 16)))); check(Addr(6, u128(i) << 112)); check(Addr(6, (u128(i) << 112) | (~u128(0) >> 16))); });
    // third and fourth octet exhaustively inside the finely divided parts
    h::phase("fine-v4", 7 * 65536, [](uint64_t i, Rng&) {
        static const unsigned top[] = {192u << 8 | 0, 198u << 8 | 51, 203u << 8 | 0, 192u << 8 | 168, 255u << 8 | 255, 100u << 8 | 64, 0};
        check(Addr(4, u128(top[i % 7]) << 16 | (i / 7)));
    });
    h::phase("fine-v6", 4 * 65536, [](uint64_t i, Rng& r) { static const unsigned top[] = {0x2001, 0x0100, 0x2002, 0x0064}; check(scoped(r, Addr(6, (u128(top[i % 4]) << 112) | (u128(i / 4) << 96) | (r.one_in(2) ? 0 : r.wide() >> 32)))); });
    h::phase("low-v6", 65536, [](uint64_t i, Rng& r) { check(Addr(6, i)); check(Addr(6, (u128(i) << 32) | r.below(1ULL << 32))); check(Addr(6, (u128(i) << 64))); });
    // mapped addresses: exactly the embedded address decides private/global; near-mapped ones do not delegate
    h::random_phase("mapped", 60000, [](uint64_t, Rng& r) {
        u128 v = (u128(0xffff) << 32) | gen::value(r, 4);
        if (r.one_in(4)) v ^= u128(1) << (32 + r.below(96));
        check(scoped(r, Addr(6, v)));
        h::sample(ref::str(Addr(6, v)));
    });
    h::random_phase("random", 150000, [](uint64_t, Rng& r) { Addr a = gen::addr(r, gen::ver(r)); check(a); h::sample(ref::str(a)); });
    if (h::thorough()) h::phase("all-v4", 1u << 24, [](uint64_t i, Rng&) { for (unsigned d = 0; d < 256; d += (i & 15) ? 51 : 1) { Addr a(4, (u128(i) << 8) | d); unsigned w = 0; for (int p = 0; p < ref::NPRED; ++p) if (ref::addr_is(p, a)) w |= 1u << p; unsigned g = preds(a4(a.v)); ++h::st().checks; if (g != w) h::bad("v4-all", h::cat(a, " gave ", g, " expected ", w)); } });
}
