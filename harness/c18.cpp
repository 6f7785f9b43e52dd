// C18: sequence iterators obey the random-access iterator laws
#include "seqmon.hpp"
using namespace smon;
static void hosts(const Net& n, Rng& r, int moves) {
    Model m = hosts_model(n); std::string w = ref::str(n) + ".hosts()";
    if (n.ver == 4) all_laws("hosts4", w, n4(n).hosts(), m, r, moves); else all_laws("hosts6", w, n6(n).hosts(), m, r, moves);
    all_laws("hostsany", w, maken<ip::ip_network>(n).hosts(), m, r, moves);
}
static void subs(const Net& n, int np, Rng& r, int moves) {
    Model m = subnets_model(n, np); std::string w = ref::str(n) + ".subnets(/" + std::to_string(np) + ")";
    size_t d = size_t(np - n.plen);
    if (n.ver == 4) all_laws("subnets4", w, n4(n).subnets(d), m, r, moves); else all_laws("subnets6", w, n6(n).subnets(d), m, r, moves);
    all_laws("subnetsany", w, maken<ip::ip_network>(n).subnets(d), m, r, moves);
}
void workload() {
    h::phase("hosts-prefixes", (33 + 129) * 6, [](uint64_t i, Rng& r) {
        int mode = int(i / 162); i %= 162;
        int ver = i < 33 ? 4 : 6, p = int(ver == 4 ? i : i - 33);
        u128 v = mode == 0 ? 0 : mode == 1 ? ref::all_ones(ver) : gen::value(r, ver);
        hosts(Net(ver, v & ref::netmask(ver, p), p), r, 12);
    });
    h::phase("subnets-pairs", (33 * 33 + 129 * 129) * 2, [](uint64_t i, Rng& r) {
        int mode = int(i % 2); i /= 2;
        int ver = i < 33 * 33 ? 4 : 6; if (ver == 6) i -= 33 * 33;
        int w = ref::width(ver), p = int(i % uint64_t(w + 1)), q = int(i / uint64_t(w + 1));
        if (q < p) { HIT("skipped"); return; }
        u128 v = mode == 0 ? (r.one_in(2) ? 0 : ref::all_ones(ver)) : gen::value(r, ver);
        subs(Net(ver, v & ref::netmask(ver, p), p), q, r, 6);
    });
    h::random_phase("hosts-random", 1500, [](uint64_t, Rng& r) { Net n = gen::net(r, gen::ver(r)); hosts(n, r, 20); h::sample(ref::str(n)); });
    h::random_phase("subnets-random", 1500, [](uint64_t, Rng& r) {
        Net n = gen::net(r, gen::ver(r)); int w = ref::width(n.ver);
        subs(n, n.plen + int(r.below(uint64_t(w - n.plen) + 1)), r, 20); h::sample(ref::str(n));
    });
}
