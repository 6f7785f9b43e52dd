// C13: Network attributes follow from address and prefix length
#include "lib.hpp"
using namespace L;

template <class N> void attrs(const char* key, const N& x, const Net& n, const std::string& how) {
    std::string k(key);
    int w = ref::width(n.ver);
    CHECK(of_net(x) == n, k + "-value", how, ": ", n, " became ", of_net(x));
    CHECK(of(x.network_address()).v == n.first(), k + "-network_address", how, ": ", n, " has ", of(x.network_address()));
    CHECK(of(x.broadcast_address()) == Addr(n.ver, n.last()), k + "-broadcast_address", how, ": ", n, " has ", of(x.broadcast_address()));
    CHECK(of(x.netmask()) == Addr(n.ver, ref::netmask(n.ver, n.plen)), k + "-netmask", how, ": ", n, " has ", of(x.netmask()));
    CHECK(of(x.hostmask()) == Addr(n.ver, ref::hostmask(n.ver, n.plen)), k + "-hostmask", how, ": ", n, " has ", of(x.hostmask()));
    CHECK(int(x.prefixlen()) == n.plen, k + "-prefixlen", how, ": ", n, " has ", x.prefixlen());
    CHECK(int(x.version()) == n.ver, k + "-version", how, ": ", n);
    CHECK(x.size() == size_t(w / 8), k + "-size", how, ": ", n, " has ", x.size());
    u128 cnt = n.ver == 4 ? u128(uint32_t((u128(1) << (32 - n.plen)))) : n.plen == 0 ? 0 : u128(1) << (128 - n.plen);
    CHECK(wide(x.addresses_count()) == cnt, k + "-addresses_count", how, ": ", n, " has ", wide(x.addresses_count()), " expected ", cnt);
}
template <class N> void network(const char* key, const Addr& a, size_t plen, Rng& r) {
    typedef typename N::ip_address_type A;
    std::string k(key);
    A x = make<A>(a);
    int w = ref::width(a.ver);
    std::string what = ref::str(a) + " /" + std::to_string(plen);
    h::note(k + " " + what);
    for (int strict = 0; strict < 2; ++strict) {
        ip::error_code c = stale(r);
        N n = N::from_address(x, c, plen, strict != 0);
        bool lib_ok = c == ip::error_code::no_error;
        if (plen > size_t(w)) {
            CHECK(!lib_ok, k + "-prefix-accepted", what, " accepted as ", of_net(n));
            CHECK(of_net(n) == of_net(N()) || of_net(n) == Net(a.ver, 0, w), k + "-failed-value", what, " left ", of_net(n));
#if H_EXC
            if (r.one_in(4)) { Out o = guard([&] { n = N::from_address(x, plen, strict != 0); }); CHECK(o.kind != NONE, k + "-prefix-accepted-throwing", what); }
#endif
            HIT("prefix-too-long");
            continue;
        }
        u128 host = a.v & ref::hostmask(a.ver, int(plen));
        if (host && strict) {
            CHECK(!lib_ok, k + "-host-bits-accepted", what, " accepted as ", of_net(n));
            HIT("host-bits-rejected");
            continue;
        }
        CHECK(lib_ok, k + "-rejected", what, strict ? " strict" : " non-strict", " rejected with ", c);
        if (!lib_ok) continue;
        Net want(a.ver, a.v & ref::netmask(a.ver, int(plen)), int(plen), host ? std::string() : a.scope);
        attrs(key, n, want, strict ? "from_address strict" : "from_address");
#if H_EXC
        N t = N::from_address(x, plen, strict != 0);
        CHECK(t == n, k + "-throwing-differs", what);
#else
        N t = N::from_address(x, plen, strict != 0);
        CHECK(t == n, k + "-noexc-differs", what);
#endif
        // same network from text
        std::string text = ref::format(a) + "/" + (r.one_in(2) ? std::to_string(plen) : gen::suffix(r, a.ver, int(plen)));
        c = stale(r);
        N p = parse_ec<N, char>(text, c, strict != 0);
        CHECK(c == ip::error_code::no_error && p == n && p.hash() == n.hash() && of_net(p) == want, k + "-text-differs", text, " parsed as ", of_net(p), " from_address gave ", of_net(n));
        attrs(key, p, want, "parsed");
        // and a copy
        N q; q = p;
        attrs(key, q, want, "copied");
        HIT("network-attributes");
    }
    h::nt(h::hs(what + key));
}
static void check(const Addr& a, size_t plen, Rng& r) {
    if (a.ver == 4) network<ip::ipv4_network>("net4", a, plen, r); else network<ip::ipv6_network>("net6", a, plen, r);
    network<ip::ip_network>("netany", a, plen, r);
}
void workload() {
    h::phase("every-prefix", (33 + 129) * 24, [](uint64_t i, Rng& r) {
        int mode = int(i / 162); i %= 162;
        int ver = i < 33 ? 4 : 6, p = int(ver == 4 ? i : i - 33);
        u128 v = mode == 0 ? 0 : mode == 1 ? ref::all_ones(ver) : mode == 2 ? ref::netmask(ver, p) : mode == 3 ? ref::hostmask(ver, p) : gen::value(r, ver);
        if (mode % 2) v &= ref::netmask(ver, p);
        Addr a(ver, v); if (ver == 6 && HAS_SCOPE && mode > 16) a.scope = gen::scope_text(r, H_SCOPE_MAX);
        check(a, size_t(p), r);
        h::sample(ref::format(a) + "/" + std::to_string(p));
    });
    // prefix lengths outside the range, up to the extremes of size_t
    h::phase("bad-prefix", 2 * 400, [](uint64_t i, Rng& r) {
        int ver = i % 2 ? 6 : 4; i /= 2;
        size_t p = i < 150 ? size_t(i) : i < 215 ? size_t(1) << (i - 150 < 64 ? i - 150 : 63) : i < 280 ? (size_t(1) << (i - 215 < 64 ? i - 215 : 63)) + size_t(r.below(130)) : i < 300 ? ~size_t(0) - (i - 280) : size_t(r.next());
        Addr a(ver, r.one_in(2) ? 0 : gen::value(r, ver));
        check(a, p, r);
        h::sample(ref::format(a) + " prefix " + std::to_string(p));
    });
    h::random_phase("random", 20000, [](uint64_t, Rng& r) {
        int ver = gen::ver(r); int p = gen::plen(r, ver);
        Addr a = gen::addr(r, ver); if (r.one_in(2)) a.v &= ref::netmask(ver, p);
        check(a, size_t(p), r);
        h::sample(ref::format(a) + "/" + std::to_string(p));
    });
    h::phase("default-prefix", 400, [](uint64_t, Rng& r) {
        Addr a4_ = gen::addr(r, 4), a6_ = gen::addr(r, 6);
        ip::error_code c = stale(r);
        ip::ipv4_network n = ip::ipv4_network::from_address(a4(a4_.v), c);
        CHECK(c == ip::error_code::no_error, "default-prefix", a4_);
        attrs("net4-default", n, Net(4, a4_.v, 32), "from_address(a)");
        c = stale(r);
        ip::ipv6_network m = ip::ipv6_network::from_address(a6(a6_.v, a6_.scope), c);
        CHECK(c == ip::error_code::no_error, "default-prefix", a6_);
        attrs("net6-default", m, Net(6, a6_.v, 128, a6_.scope), "from_address(a)");
        attrs("net4-empty", ip::ipv4_network(), Net(4, 0, 32), "default");
        attrs("net6-empty", ip::ipv6_network(), Net(6, 0, 128), "default");
        attrs("netany-empty", ip::ip_network(), Net(4, 0, 32), "default");
        // single bits of the prefix: exactly the promised static widths
        CHECK(size_t(ip::ipv4_address::base_max_prefixlen) == 32 && size_t(ip::ipv6_address::base_max_prefixlen) == 128, "max-prefixlen", "");
        HIT("defaults");
    });
}
