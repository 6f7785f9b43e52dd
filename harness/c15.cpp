// C15: hosts() enumerates exactly the usable host addresses, once, in order, and ends
#include "seqmon.hpp"
using namespace smon;
static void check(const Net& n, Rng& r, unsigned k) {
    Model m = hosts_model(n);
    std::string w = ref::str(n);
    if (n.ver == 4) sequence("net4", w, n4(n).hosts(), m, r, k); else sequence("net6", w, n6(n).hosts(), m, r, k);
    if (r.one_in(2)) sequence("netany", w, maken<ip::ip_network>(n).hosts(), m, r, k);
    if (n.first() == 0) HIT("at-low-end");
    if (n.last() == ref::all_ones(n.ver)) HIT("at-high-end");
}
void workload() {
    // every prefix length, at both ends of the address space and elsewhere
    h::phase("every-prefix", (33 + 129) * 12, [](uint64_t i, Rng& r) {
        int mode = int(i / 162); i %= 162;
        int ver = i < 33 ? 4 : 6, p = int(ver == 4 ? i : i - 33);
        u128 v = mode == 0 ? 0 : mode == 1 ? ref::all_ones(ver) : mode == 2 ? (u128(1) << (ref::width(ver) - 1)) : mode == 3 ? (u128(1) << (ref::width(ver) - 1)) - 1 : gen::value(r, ver);
        Net n(ver, v & ref::netmask(ver, p), p);
        if (ver == 6 && HAS_SCOPE && mode > 8) n.scope = gen::scope_text(r, H_SCOPE_MAX);
        check(n, r, mode < 2 ? 300 : 70);
        h::sample(ref::str(n));
    });
    // complete walks of larger networks
    h::phase("complete", 2 * 9 * 6, [](uint64_t i, Rng& r) {
        int ver = i % 2 ? 6 : 4; i /= 2; int k = 8 + int(i % 9); i /= 9;
        if (!h::thorough() && k > 13) k = 13;
        int p = ref::width(ver) - k;
        u128 v = i == 0 ? 0 : i == 1 ? ref::all_ones(ver) : gen::value(r, ver);
        check(Net(ver, v & ref::netmask(ver, p), p), r, (1u << k) + 2);
    });
    h::random_phase("random", 6000, [](uint64_t, Rng& r) { Net n = gen::net(r, gen::ver(r), true); check(n, r, 20); h::sample(ref::str(n)); });
    // networks whose host range crosses byte / word boundaries
    h::random_phase("carries", 3000, [](uint64_t, Rng& r) {
        int ver = gen::ver(r), w = ref::width(ver); int p = int(r.below(uint64_t(w + 1)));
        u128 v = gen::value(r, ver) & ref::netmask(ver, p);
        Net n(ver, v, p);
        Model m = hosts_model(n);
        typedef ip::ipv6_network N6;
        // step across every 2^j boundary inside
        for (int j = 1; j < w - p; j += 1 + int(r.below(7))) {
            u128 at = (u128(1) << j);
            if (at < 2 || at - 1 > m.last) break;
            u128 idx = at - 1 - (m.first - n.first());     // address ...0111 -> ...1000
            if (idx >= m.last) break;
            if (ver == 4) { auto s = n4(n).hosts(); auto it = s.begin() + uint32_t(idx); CHECK(same(m, idx, *it), "net4-carry", n, " ", idx); ++it; CHECK(same(m, idx + 1, *it), "net4-carry", n, " ", idx + 1); --it; CHECK(same(m, idx, *it), "net4-carry-back", n, " ", idx); }
            else { auto s = n6(n).hosts(); auto it = s.begin() + u128_of(idx); CHECK(same(m, idx, *it), "net6-carry", n, " ", idx); ++it; CHECK(same(m, idx + 1, *it), "net6-carry", n, " ", idx + 1); --it; CHECK(same(m, idx, *it), "net6-carry-back", n, " ", idx); }
            HIT("carry-step");
        }
        h::nt(h::hs(ref::str(n)));
    });
}
