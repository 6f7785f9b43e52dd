// C21: Embedded IPv4 extraction and reverse pointers are exact
#include "lib.hpp"
using namespace L;
static std::string show(const ip::optional<ip::ipv4_address>& o) { return o ? ref::str(of(o.value())) : "none"; }
static void check(const Addr& a) {
    h::note(ref::str(a));
    ip::ip_address y = make<ip::ip_address>(a);
    std::string rp = ref::reverse_pointer(a);
    CHECK(y.reverse_pointer() == rp, "any-reverse_pointer", a, " gave ", y.reverse_pointer());
    auto m2 = y.ipv4_mapped(); auto s2 = y.sixtofour(); auto t2 = y.teredo();
    if (a.ver == 4) {
        CHECK(a4(a.v).reverse_pointer() == rp, "v4-reverse_pointer", a, " gave ", a4(a.v).reverse_pointer());
        CHECK(!m2 && !s2 && !t2, "v4-embedded", a, " claims to embed an IPv4 address");
        // IPv4 -> mapped -> IPv4
        ip::error_code c = ip::error_code::invalid_version;
        ip::ipv6_address m = a.v & 1 ? parse_ec<ip::ipv6_address, char>("::ffff:" + ref::format4(uint32_t(a.v)), c)
                                     : ip::ipv6_address::from_uint(u128_of((u128(0xffff) << 32) | a.v));
        CHECK(of(m) == Addr(6, (u128(0xffff) << 32) | a.v), "mapped-text", a, " gave ", of(m));
        auto back = m.ipv4_mapped();
        CHECK(back && of(back.value()) == a, "mapped-roundtrip", a, " came back as ", show(back));
        HIT("v4");
        h::nt(h::hv(a.v, 4));
        return;
    }
    ip::ipv6_address x = a6(a.v, a.scope);
    CHECK(x.reverse_pointer() == rp, "v6-reverse_pointer", a, " gave ", x.reverse_pointer());
    bool mp = (a.v >> 32) == 0xffff, st = (a.v >> 112) == 0x2002, te = (a.v >> 96) == 0x20010000;
    auto m = x.ipv4_mapped(); auto s = x.sixtofour(); auto t = x.teredo();
    u128 low = a.v & 0xffffffffu, s4 = (a.v >> 80) & 0xffffffffu, ts = (a.v >> 64) & 0xffffffffu, tc = low ^ 0xffffffffu;
    CHECK(bool(m) == mp && m.has_value() == mp && (!mp || of(m.value()) == Addr(4, low)), "ipv4_mapped", a, " gave ", show(m));
    CHECK(bool(m2) == mp && (!mp || of(m2.value()) == Addr(4, low)), "any-ipv4_mapped", a, " gave ", show(m2));
    CHECK(bool(s) == st && (!st || of(s.value()) == Addr(4, s4)), "sixtofour", a, " gave ", show(s));
    CHECK(bool(s2) == st && (!st || of(s2.value()) == Addr(4, s4)), "any-sixtofour", a, " gave ", show(s2));
    CHECK(bool(t) == te && (!te || (of(t.value().first) == Addr(4, ts) && of(t.value().second) == Addr(4, tc))), "teredo", a, " gave ", te && t ? ref::str(of(t.value().first)) + ref::str(of(t.value().second)) : std::string("none/some"));
    CHECK(bool(t2) == te && (!te || (of(t2.value().first) == Addr(4, ts) && of(t2.value().second) == Addr(4, tc))), "any-teredo", a);
    if (mp) HIT("mapped"); else if (st) HIT("6to4"); else if (te) HIT("teredo"); else HIT("plain-v6");
    h::nt(h::hv(a.v, 6));
}
void workload() {
    // the three prefixes with every single bit flipped (or none), random payloads
    h::phase("prefixes", 3 * 129 * 40, [](uint64_t i, Rng& r) {
        int k = int(i % 3); i /= 3; int bit = int(i % 129);
        u128 v = k == 0 ? (u128(0xffff) << 32) | gen::value(r, 4) : k == 1 ? (u128(0x2002) << 112) | (r.one_in(3) ? gen::value(r, 4) << 80 : r.wide() >> 16) : (u128(0x20010000) << 96) | (gen::value(r, 4) << 64) | gen::value(r, 4);
        if (bit < 128) v ^= u128(1) << bit;
        Addr a(6, v); if (HAS_SCOPE && r.one_in(3)) a.scope = gen::scope_text(r, H_SCOPE_MAX);
        check(a);
        if (bit == 128) h::sample(ref::str(a));
    });
    // every payload octet
    h::phase("octets", 4 * 12 * 256, [](uint64_t i, Rng& r) {
        int k = int(i % 4); i /= 4; int p = int(i % 12); u128 x = i / 12;
        if (k == 3) { if (p < 4) check(Addr(4, x << (8 * p))); else check(Addr(6, x << (8 * (p + 4)))); return; }
        u128 base = k == 0 ? u128(0xffff) << 32 : k == 1 ? u128(0x2002) << 112 : u128(0x20010000) << 96;
        int lim = k == 0 ? 4 : 12;
        u128 v = base | (x << (8 * (p % lim)));
        check(Addr(6, v));
        (void)r;
    });
    h::random_phase("random", 60000, [](uint64_t, Rng& r) { Addr a = gen::addr(r, gen::ver(r)); check(a); h::sample(ref::str(a)); });
}
