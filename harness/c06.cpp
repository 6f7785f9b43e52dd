// C06: Text round trip loses nothing
#include "fmtmon.hpp"
using namespace fmon;

template <class X, class T> void trip_one(const char* key, const X& x, ref::Fmt f, const char* tname, Rng& r) {
    std::basic_string<T> t = text_of(x, f, T());
    ip::error_code c = stale(r);
    X y = parse_ec<X, T>(t, c);
    CHECK(c == ip::error_code::no_error, std::string(key) + "-reparse", fname(f), " ", tname, ": ", narrow(t), " is rejected with ", c);
    if (c != ip::error_code::no_error) return;
    CHECK(y == x && of(y) == of(x), std::string(key) + "-roundtrip", fname(f), " ", tname, ": ", of(x), " printed ", narrow(t), " read back ", of(y));
    CHECK(text_of(y, f, T()) == t, std::string(key) + "-reprint", fname(f), " ", tname, ": ", narrow(t), " reprinted ", narrow(text_of(y, f, T())));
    CHECK(y.hash() == x.hash(), std::string(key) + "-hash", fname(f), " ", tname, ": ", narrow(t));
}
template <class X> void trip(const char* key, const X& x, bool wide, bool streams, Rng& r) {
    for (int i = 0; i < 3; ++i) {
        ref::Fmt f = ref::Fmt(i);
        trip_one<X, char>(key, x, f, "char", r);
        if (wide) {
            trip_one<X, wchar_t>(key, x, f, "wchar_t", r);
            trip_one<X, char16_t>(key, x, f, "char16_t", r);
            trip_one<X, char32_t>(key, x, f, "char32_t", r);
#if HAS_U8
            trip_one<X, char8_t>(key, x, f, "char8_t", r);
#endif
        }
#if HAS_STD
        if (streams) {
            std::stringstream ss;
            if (f == ref::FULL) ss << ip::full; else if (f == ref::COMPACT) ss << ip::compact; else ss << ip::compressed;
            bool up = r.one_in(2);
            if (up) ss << std::uppercase;
            ss << x;
            X y;
            ss >> y;
            bool okc = !ss.fail();
            CHECK(okc && y == x, std::string(key) + "-stream-roundtrip", fname(f), up ? " uppercase" : "", ": ", ss.str(), " read back ", of(y), okc ? "" : " (failed)");
            std::wstringstream ws;
            ws << x;
            X z;
            ws >> z;
            okc = !ws.fail();
            CHECK(okc && z == x, std::string(key) + "-wstream-roundtrip", narrow(ws.str()), " read back ", of(z));
        }
#endif
    }
#if H_EXC
    if (wide) {
        X y = parse_th<X, char>(x.to_string());
        CHECK(y == x, std::string(key) + "-throwing-roundtrip", of(x), " read back ", of(y));
    }
#endif
}
static void check(const Addr& a, bool wide, bool streams, Rng& r) {
    h::note(ref::str(a));
    if (a.ver == 4) trip("v4", a4(a.v), wide, streams, r); else trip("v6", a6(a.v, a.scope), wide, streams, r);
    ip::ip_address x = make<ip::ip_address>(a);
    trip("any", x, wide, streams, r);
    if (!a.scope.empty()) HIT("scoped");
    HIT("address");
    h::nt(h::hs(ref::format(a)));
}
static void check_net(const Net& n, bool wide, bool streams, Rng& r) {
    h::note(ref::str(n));
    if (n.ver == 4) trip("net4", n4(n), wide, streams, r); else trip("net6", n6(n), wide, streams, r);
    trip("netany", maken<ip::ip_network>(n), wide, streams, r);
    if (!n.scope.empty()) HIT("scoped-network");
    HIT("network");
    h::nt(h::hs(ref::format(n)));
}
void workload() {
    h::phase("zero-patterns", 256 * 12, [](uint64_t i, Rng& r) {
        unsigned m = unsigned(i & 255);
        u128 v = 0;
        for (int g = 0; g < 8; ++g) v = (v << 16) | ((m >> g) & 1 ? (r.one_in(4) ? r.below(65536) : r.one_in(2) ? 0xffffu : 1 + r.below(15)) : 0u);
        Addr a(6, v);
        if (HAS_SCOPE && i % 3 == 0) a.scope = gen::scope_text(r, H_SCOPE_MAX);
        check(a, i % 4 == 0, i % 16 == 0, r);
        h::sample(ref::format(a));
    });
    h::phase("prefixes", 33 + 129, [](uint64_t i, Rng& r) {
        int ver = i < 33 ? 4 : 6, p = int(ver == 4 ? i : i - 33);
        for (int k = 0; k < 8; ++k) {
            Net n(ver, gen::value(r, ver) & ref::netmask(ver, p), p);
            if (ver == 6 && HAS_SCOPE && k % 2) n.scope = gen::scope_text(r, H_SCOPE_MAX);
            check_net(n, true, k == 0, r);
            h::sample(ref::format(n));
        }
    });
    h::phase("scopes", 5 * 128, [](uint64_t i, Rng& r) {
        // every scope character, first, inner, last and alone
        char c = char(i % 128); int pos = int(i / 128);
        if (!HAS_SCOPE || !ref::scope_char_ok(c)) { HIT("skipped"); return; }
        std::string s = pos == 0 ? std::string(1, c) : pos == 1 ? std::string(1, c) + "a" : pos == 2 ? "a" + std::string(1, c) + "b" : pos == 3 ? std::string(size_t(H_SCOPE_MAX), c) : "1" + std::string(1, c);
        if (s.size() > size_t(H_SCOPE_MAX)) return;
        check(Addr(6, gen::value(r, 6), s), true, ref::scope_char_ok(c) && c != ' ' && !(c >= 9 && c <= 13), r);
        check_net(Net(6, gen::value(r, 6), 128, s), true, c != ' ' && !(c >= 9 && c <= 13), r);
        h::sample(s);
    });
    h::random_phase("addresses", 12000, [](uint64_t i, Rng& r) {
        Addr a = gen::addr(r, r.one_in(4) ? 4 : 6);
        check(a, i % 2 == 0, i % 8 == 0, r);
        h::sample(ref::format(a));
    });
    h::random_phase("networks", 8000, [](uint64_t i, Rng& r) {
        Net n = gen::net(r, gen::ver(r), true);
        check_net(n, i % 2 == 0, i % 8 == 0, r);
        h::sample(ref::format(n));
    });
    // text first: any accepted spelling prints to text that reads back the same
    h::random_phase("spellings", 12000, [](uint64_t, Rng& r) {
        std::string t = r.one_in(2) ? gen::addr_text(r, 6, 30) : gen::net_text(r, gen::ver(r), 30);
        h::note(h::q(t));
        ip::error_code c = stale(r);
        ip::ip_address a = parse_ec<ip::ip_address, char>(t, c);
        if (c == ip::error_code::no_error) { trip("any-from-text", a, false, false, r); HIT("spelled-address"); }
        c = stale(r);
        ip::ip_network n = parse_ec<ip::ip_network, char>(t, c, false);
        if (c == ip::error_code::no_error) { trip("netany-from-text", n, false, false, r); HIT("spelled-network"); }
        h::nt(h::hs(t));
        h::sample(h::q(t));
    });
}
