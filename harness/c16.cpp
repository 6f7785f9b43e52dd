// C16: subnets() partitions the network, supernet() is its inverse
#include "seqmon.hpp"
using namespace smon;
typedef ip::optional<size_t> Opt;
static const ip::error_code OK = ip::error_code::no_error;

template <class N> void good(const char* key, const Net& n, int np, Rng& r, unsigned k) {
    const N x = maken<N>(n);
    std::string K(key), w = ref::str(n) + " to /" + std::to_string(np);
    Model m = subnets_model(n, np);
    size_t diff = size_t(np - n.plen);
    ip::error_code c = stale(r);
    h::note(K + " " + w);
    auto s = r.one_in(2) ? x.subnets(c, diff) : x.subnets(c, 1, Opt(size_t(np)));
    CHECK(c == OK, K + "-rejected", w, " rejected with ", c);
    if (c != OK) return;
    sequence(key, w, s, m, r, k);
    // the other spellings give the same sequence
    c = stale(r);
    auto s2 = x.subnets(c, diff); ip::error_code c2 = stale(r); auto s3 = x.subnets(c2, 1, Opt(size_t(np)));
    CHECK(c == OK && c2 == OK && s2.begin() == s.begin() && s2.end() == s.end() && s3.begin() == s.begin() && s3.end() == s.end() && s2.size() == s3.size(), K + "-spellings", w);
    auto s4 = x.subnets(diff); auto s5 = x.subnets(1, Opt(size_t(np)));
    CHECK(s4.begin() == s.begin() && s4.end() == s.end() && s5.begin() == s.begin() && s5.end() == s.end(), K + "-throwing-form", w);
    if (diff == 1) { auto s6 = x.subnets(); CHECK(s6.begin() == s.begin() && s6.end() == s.end(), K + "-default-diff", w); }
    // every subnet's supernet is the original (scope-less)
    const Net base(n.ver, n.v, n.plen);
    for (int j = 0; j < 4; ++j) {
        u128 i = index(r, m.last);
        N e = s[To<typename decltype(s)::difference_type>::of(i)];
        if (int(e.prefixlen()) != np) continue;     // already reported
        if (np == 0) continue;
        ip::error_code d = stale(r);
        N up = e.supernet(d, diff == 0 ? 0 : diff);
        CHECK(d == OK && of_net(up) == base, K + "-supernet-of-subnet", w, " element ", i, " gave ", of_net(up), " code ", d);
        d = stale(r);
        N up2 = e.supernet(d, 1, Opt(size_t(n.plen)));
        CHECK(d == OK && of_net(up2) == base, K + "-supernet-prefix", w, " element ", i, " gave ", of_net(up2), " code ", d);
        CHECK(x.contains(e.network_address()) && x.contains(e.broadcast_address()), K + "-contains-element", w);
        HIT("supernet-of-subnet");
    }
}
template <class N> void super(const char* key, const Net& n, int np, Rng& r) {   // np <= n.plen
    const N x = maken<N>(n);
    std::string K(key), w = ref::str(n) + " up to /" + std::to_string(np);
    h::note(K + " " + w);
    Net want(n.ver, n.v & ref::netmask(n.ver, np), np);
    if (n.plen == 0) want = n;
    ip::error_code c = stale(r);
    N a = x.supernet(c, size_t(n.plen - np));
    bool scope_free = n.scope.empty();
    Net ga = of_net(a); ga.scope.clear(); want.scope.clear();
    CHECK(c == OK && ga == want, K + "-supernet", w, " gave ", of_net(a), " code ", c);
    c = stale(r);
    N b = x.supernet(c, 1, Opt(size_t(np)));
    Net gb = of_net(b); gb.scope.clear();
    CHECK(c == OK && gb == want, K + "-supernet-new_prefix", w, " gave ", of_net(b), " code ", c);
    CHECK(a == b && x.supernet(size_t(n.plen - np)) == a && x.supernet(1, Opt(size_t(np))) == a, K + "-supernet-forms", w);
    if (n.plen - np == 1) { c = stale(r); CHECK(x.supernet(c) == a, K + "-supernet-default", w); }
    if (scope_free) CHECK(x.subnet_of(a) && a.supernet_of(x), K + "-supernet-encloses", w);
    HIT("supernet");
    h::nt(h::hs(K + w));
}
// inadmissible arguments: an error and an empty (default) result
template <class N> void refused(const char* key, const Net& n, bool sub, size_t diff, Opt np, Rng& r) {
    const N x = maken<N>(n);
    std::string K(key), w = ref::str(n) + (sub ? " subnets(" : " supernet(") + std::to_string(diff) + (np ? ", " + std::to_string(np.value()) : std::string()) + ")";
    h::note(K + " " + w);
    ip::error_code c = OK;
    if (r.one_in(2)) c = stale(r);
    if (sub) {
        auto s = x.subnets(c, diff, np);
        CHECK(c != OK, K + "-accepted", w, " was accepted");
        if (c != OK) CHECK(s.empty() && s.begin() == s.end() && wide(s.size()) == 0, K + "-nonempty", w, " failed but is not empty");
    } else {
        N s = x.supernet(c, diff, np);
        CHECK(c != OK, K + "-accepted", w, " was accepted as ", of_net(s));
        if (c != OK) CHECK(of_net(s) == of_net(N()) || of_net(s) == Net(n.ver, 0, ref::width(n.ver)), K + "-nondefault", w, " failed but gave ", of_net(s));
    }
#if H_EXC
    if (r.one_in(4)) {
        Out o = guard([&] { if (sub) { auto s = x.subnets(diff, np); (void)s; } else { N s = x.supernet(diff, np); (void)s; } });
        CHECK(o.kind == LOGIC_ERROR && o.code == c, K + "-throw", w, " threw kind ", o.kind, " code ", o.code, " expected ", c);
    }
#endif
    HIT("refused");
    h::nt(h::hs(K + w));
}
template <class F> void each(const Net& n, F f, Rng& r) { f(n, r); }
static void good_all(const Net& n, int np, Rng& r, unsigned k) {
    if (n.ver == 4) good<ip::ipv4_network>("net4", n, np, r, k); else good<ip::ipv6_network>("net6", n, np, r, k);
    if (r.one_in(2)) good<ip::ip_network>("netany", n, np, r, k);
}
static void super_all(const Net& n, int np, Rng& r) {
    if (n.ver == 4) super<ip::ipv4_network>("net4", n, np, r); else super<ip::ipv6_network>("net6", n, np, r);
    if (r.one_in(2)) super<ip::ip_network>("netany", n, np, r);
}
static void refused_all(const Net& n, bool sub, size_t diff, Opt np, Rng& r) {
    if (n.ver == 4) refused<ip::ipv4_network>("net4", n, sub, diff, np, r); else refused<ip::ipv6_network>("net6", n, sub, diff, np, r);
    if (r.one_in(2)) refused<ip::ip_network>("netany", n, sub, diff, np, r);
}
void workload() {
    // every (prefix, new prefix) pair, at the low end, high end and elsewhere
    h::phase("prefix-pairs", (33 * 33 + 129 * 129) * 3, [](uint64_t i, Rng& r) {
        int mode = int(i % 3); i /= 3;
        int ver = i < 33 * 33 ? 4 : 6; if (ver == 6) i -= 33 * 33;
        int w = ref::width(ver), p = int(i % uint64_t(w + 1)), q = int(i / uint64_t(w + 1));
        u128 v = mode == 0 ? 0 : mode == 1 ? ref::all_ones(ver) : gen::value(r, ver);
        Net n(ver, v & ref::netmask(ver, p), p);
        if (ver == 6 && HAS_SCOPE && mode == 2 && r.one_in(3)) n.scope = gen::scope_text(r, H_SCOPE_MAX);
        if (q >= p) good_all(n, q, r, 12);
        if (q <= p) super_all(n, q, r);
        if (q == p && p % 16 == 0) h::sample(ref::str(n));
    });
    h::phase("complete", 2 * 14 * 8, [](uint64_t i, Rng& r) {
        int ver = i % 2 ? 6 : 4; i /= 2; int k = 1 + int(i % (h::thorough() ? 14 : 10)); i /= 14;
        int w = ref::width(ver);
        int np = i % 2 ? w : k + int(r.below(uint64_t(w - k + 1)));
        int p = np - k;
        u128 v = i / 2 == 0 ? 0 : i / 2 == 1 ? ref::all_ones(ver) : gen::value(r, ver);
        good_all(Net(ver, v & ref::netmask(ver, p), p), np, r, (1u << k) + 2);
    });
    // a full-length network yields itself whatever the arguments
    h::random_phase("full-length", 300, [](uint64_t, Rng& r) {
        int ver = gen::ver(r), w = ref::width(ver);
        Net n(ver, r.one_in(4) ? (r.one_in(2) ? 0 : ref::all_ones(ver)) : gen::value(r, ver), w);
        Model m = subnets_model(n, w);
        size_t diff = r.one_in(2) ? 1 : size_t(r.next());
        ip::error_code c = stale(r);
        if (ver == 4) { auto s = n4(n).subnets(c, diff); CHECK(c == OK, "full-length-rejected", n, " ", uint64_t(diff)); if (c == OK) sequence("net4-full", ref::str(n), s, m, r, 4); }
        else { auto s = n6(n).subnets(c, diff); CHECK(c == OK, "full-length-rejected", n, " ", uint64_t(diff)); if (c == OK) sequence("net6-full", ref::str(n), s, m, r, 4); }
        c = stale(r);
        auto s = maken<ip::ip_network>(n).subnets(c, diff); CHECK(c == OK, "full-length-rejected", n, " any"); if (c == OK) sequence("netany-full", ref::str(n), s, m, r, 4);
        HIT("full-length");
    });
    h::random_phase("refused", 12000, [](uint64_t, Rng& r) {
        Net n = gen::net(r, gen::ver(r), true);
        int w = ref::width(n.ver);
        // too large differences, up to sums that overflow
        size_t over = r.one_in(3) ? size_t(r.below(5)) : r.one_in(2) ? ~size_t(0) - size_t(r.below(300)) : size_t(1) << r.below(64);
        if (n.plen < w) {
            size_t d = size_t(w - n.plen) + 1;
            if (over <= ~size_t(0) - d) refused_all(n, true, d + over, Opt(), r);
            if (n.plen) refused_all(n, true, size_t(0) - 1 - size_t(r.below(uint64_t(n.plen))), Opt(), r);   // sum wraps around
            if (n.plen) refused_all(n, true, 1, Opt(size_t(r.below(uint64_t(n.plen)))), r);                    // shorter new prefix
            refused_all(n, true, 1, Opt(over <= ~size_t(0) - size_t(w) - 1 ? size_t(w) + 1 + over : over), r);  // beyond the width
            size_t two = r.one_in(2) ? 0 : 2 + size_t(r.below(40));
            refused_all(n, true, two, Opt(size_t(n.plen) + size_t(r.below(uint64_t(w - n.plen) + 1))), r);    // both a difference and a prefix
        }
        if (n.plen > 0) {
            size_t d = size_t(n.plen) + 1;
            if (over <= ~size_t(0) - d) refused_all(n, false, d + over, Opt(), r);
            refused_all(n, false, 1, Opt(over <= ~size_t(0) - d ? d + over : over | (size_t(1) << 40)), r);    // longer new prefix
            size_t two = r.one_in(2) ? 0 : 2 + size_t(r.below(40));
            refused_all(n, false, two, Opt(size_t(r.below(uint64_t(n.plen) + 1))), r);
        }
        h::sample(ref::str(n));
    });
    h::random_phase("random", 5000, [](uint64_t, Rng& r) {
        Net n = gen::net(r, gen::ver(r), true); int w = ref::width(n.ver);
        good_all(n, n.plen + int(r.below(uint64_t(w - n.plen) + 1)), r, 16);
        super_all(n, int(r.below(uint64_t(n.plen) + 1)), r);
    });
}
