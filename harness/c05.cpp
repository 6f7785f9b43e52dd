// C05: Formatting is canonical, unique and within its documented form
#include "fmtmon.hpp"
using namespace fmon;

static void check(const Addr& a, bool wide, bool streams, Rng& r) {
    h::note(ref::str(a));
    for (int f = 0; f < 3; ++f) {
        std::string w = ref::format(a, ref::Fmt(f));
        if (a.ver == 4) all_spellings("v4", a4(a.v), ref::Fmt(f), w, wide, streams);
        else all_spellings("v6", a6(a.v, a.scope), ref::Fmt(f), w, wide, streams);
        if (wide) all_spellings("any", make<ip::ip_address>(a), ref::Fmt(f), w, true, streams && f != 1);
    }
    if (a.ver == 6) {
        std::string c = ref::format(Addr(6, a.v), ref::COMPRESSED);
        if (c.find("::") != std::string::npos) HIT("compressed-with-run"); else HIT("compressed-without-run");
        if (!a.scope.empty()) HIT("scoped");
    } else HIT("v4");
    (void)r;
    h::nt(h::hs(ref::format(a)));
}
static void check_net(const Net& n, bool wide, bool streams) {
    h::note(ref::str(n));
    for (int f = 0; f < 3; ++f) {
        std::string w = ref::format(n, ref::Fmt(f));
        if (n.ver == 4) all_spellings("net4", n4(n), ref::Fmt(f), w, wide, streams);
        else all_spellings("net6", n6(n), ref::Fmt(f), w, wide, streams);
        if (wide) all_spellings("netany", maken<ip::ip_network>(n), ref::Fmt(f), w, true, streams && f == 0);
    }
    HIT("network");
    h::nt(h::hs(ref::format(n)));
}

void workload() {
    // every pattern of zero and non-zero groups, with several fills: decides the choice of the '::' run
    h::phase("zero-patterns", 256 * 40, [](uint64_t i, Rng& r) {
        unsigned m = unsigned(i & 255); i /= 256;
        static const unsigned fill[] = {1, 0xf, 0x10, 0x100, 0x1000, 0xffff, 0xabcd, 0x0a0b};
        u128 v = 0;
        for (int g = 0; g < 8; ++g) v = (v << 16) | ((m >> g) & 1 ? (i < 8 ? fill[i] : fill[r.below(8)]) : 0u);
        Addr a(6, v);
        if (HAS_SCOPE && i % 4 == 3) a.scope = gen::scope_text(r, H_SCOPE_MAX);
        check(a, i % 8 == 5, i == 13, r);
        h::sample(ref::format(a));
    });
    // every value of every group / octet
    h::phase("groups", 8 * 65536, [](uint64_t i, Rng& r) {
        int g = int(i % 8); i /= 8;
        u128 v = r.one_in(2) ? 0 : r.wide();
        v &= ~(u128(0xffff) << (16 * g));
        v |= u128(unsigned(i)) << (16 * g);
        Addr a(6, v);
        h::note(ref::str(a));
        ip::ipv6_address x = a6(v);
        for (int f = 0; f < 3; ++f) CHECK(x.to_string(fmt(ref::Fmt(f))) == ref::format(a, ref::Fmt(f)), "v6-to_string", fname(ref::Fmt(f)), ": got ", x.to_string(fmt(ref::Fmt(f))), " expected ", ref::format(a, ref::Fmt(f)));
        if (i % 16 == 0) h::nt(h::hv(v, 6));
    });
    h::phase("octets", 4 * 256 * 4, [](uint64_t i, Rng& r) {
        int p = int(i % 4); i /= 4;
        uint32_t v = uint32_t(r.next());
        v = (v & ~(255u << (8 * p))) | (uint32_t(i % 256) << (8 * p));
        check(Addr(4, v), i < 256, i < 32, r);
        h::sample(ref::format4(v));
    });
    h::random_phase("addresses", 20000, [](uint64_t i, Rng& r) {
        Addr a = gen::addr(r, r.one_in(4) ? 4 : 6);
        check(a, i % 2 == 0, i % 8 == 0, r);
        h::sample(ref::format(a));
    });
    h::random_phase("networks", 12000, [](uint64_t i, Rng& r) {
        Net n = gen::net(r, gen::ver(r), true);
        check_net(n, i % 2 == 0, i % 8 == 0);
        h::sample(ref::format(n));
    });
    // uniqueness: two addresses that differ anywhere never print alike
    h::random_phase("unique", 20000, [](uint64_t, Rng& r) {
        int v = gen::ver(r);
        Addr a = gen::addr(r, v), b = a;
        if (r.one_in(3) && v == 6 && HAS_SCOPE) { b.scope = gen::scope_text(r, H_SCOPE_MAX); } else b.v ^= u128(1) << r.below(uint64_t(ref::width(v)));
        if (r.one_in(4)) b = gen::addr(r, v);
        h::note(ref::str(a) + " " + ref::str(b));
        bool same = a == b;
        for (int f = 0; f < 3; ++f) {
            std::string x = make<ip::ip_address>(a).to_string(fmt(ref::Fmt(f))), y = make<ip::ip_address>(b).to_string(fmt(ref::Fmt(f)));
            CHECK((x == y) == same, "unique", fname(ref::Fmt(f)), " text ", x, " / ", y, " for ", a, " and ", b);
        }
        h::nt(h::hs(ref::format(a) + ref::format(b)));
        HIT("unique-pairs");
        h::sample(ref::format(a) + " vs " + ref::format(b));
    });
}
