// C23: stream insertion and extraction agree with to_string and parse
// Every library operation on a stream is mirrored on a twin stream with a plain string: content, position, flags, width and
// state of the two must stay equal (plus failbit when the text does not parse).
#include "fmtmon.hpp"
#include <iomanip>
#include <algorithm>
using namespace fmon;
typedef ip::error_code EC;
#define OKC ip::error_code::no_error
#if HAS_STD
template <class T> struct Nm; template <> struct Nm<char> { static const char* s() { return "narrow"; } }; template <> struct Nm<wchar_t> { static const char* s() { return "wide"; } };
static std::string upper(const std::string& s) { std::string o; bool sc = false; for (char c : s) { if (c == '%') sc = true; o += !sc && c >= 'a' && c <= 'z' ? char(c - 32) : c; } return o; }

struct Obj { int type; Addr a; Net n; };   // 0..2 addresses v4 v6 any, 3..5 networks
static Obj some(Rng& r) {
    Obj o; o.type = int(r.below(6));
    int v = o.type % 3 == 0 ? 4 : o.type % 3 == 1 ? 6 : gen::ver(r);
    o.a = gen::addr(r, v); o.n = gen::net(r, v, true);
    return o;
}
static std::string text(const Obj& o, ref::Fmt f) { return o.type < 3 ? ref::format(o.a, f) : ref::format(o.n, f); }
template <class S> void put(S& s, const Obj& o) {
    switch (o.type) {
        case 0: s << a4(o.a.v); break; case 1: s << a6(o.a.v, o.a.scope); break; case 2: s << L::make<ip::ip_address>(o.a); break;
        case 3: s << n4(o.n); break; case 4: s << n6(o.n); break; default: s << maken<ip::ip_network>(o.n);
    }
}
template <class T> struct Writer {
    std::basic_ostringstream<T> s, twin;
    ref::Fmt next;
    std::string trail;
    Writer() : next(ref::COMPRESSED) {}
    void same(const char* when) {
        const std::string k = std::string("write-") + Nm<T>::s();
        CHECK(s.str() == twin.str(), k + "-content", when, " after ", trail, ": ", narrow(s.str()), " instead of ", narrow(twin.str()));
        CHECK(s.flags() == twin.flags() && s.width() == twin.width() && s.fill() == twin.fill(), k + "-format-state", when, " after ", trail, " width ", int(s.width()), " instead of ", int(twin.width()));
        CHECK(s.rdstate() == twin.rdstate(), k + "-state", when, " after ", trail);
    }
    void step(Rng& r) {
        switch (r.below(15)) {
            case 0: s << ip::full; next = ref::FULL; trail += "full "; break;
            case 1: s << ip::compact; next = ref::COMPACT; trail += "compact "; break;
            case 2: s << ip::compressed; next = ref::COMPRESSED; trail += "compressed "; break;
            case 3: { int w = int(r.below(60)); s << std::setw(w); twin << std::setw(w); trail += "setw "; break; }
            case 4: { T f = T("*0 _"[r.below(4)]); s << std::setfill(f); twin << std::setfill(f); trail += "setfill "; break; }
            case 5: if (r.one_in(2)) { s << std::left; twin << std::left; } else { s << std::right; twin << std::right; } trail += "adjust "; break;
            case 6: if (r.one_in(2)) { s << std::uppercase; twin << std::uppercase; trail += "uppercase "; } else { s << std::nouppercase; twin << std::nouppercase; trail += "nouppercase "; } break;
            case 7: if (r.one_in(2)) { s << std::hex << std::showbase; twin << std::hex << std::showbase; } else { s << std::dec << std::noshowbase; twin << std::dec << std::noshowbase; } trail += "base "; break;
            case 8: { int x = int(r.below(1000)); s << x << T(' '); twin << x << T(' '); trail += "int "; break; }
            // a stream in a failed state writes nothing, but the selection was for that object
            case 9: if (r.one_in(3)) { std::ios_base::iostate f = r.one_in(2) ? std::ios_base::failbit : r.one_in(2) ? std::ios_base::badbit : std::ios_base::eofbit; s.setstate(f); twin.setstate(f); trail += "fail "; HIT("failed-writes"); } break;
            case 10: if (!s.good()) { s.clear(); twin.clear(); trail += "clear "; } break;
            default: {
                Obj o = some(r);
                trail += "obj" + std::to_string(o.type) + " ";
                h::note(trail + text(o, next));
                put(s, o);
                std::string t = text(o, next);
                if (twin.flags() & std::ios_base::uppercase) t = upper(t);
                twin << widen<T>(t);
                HIT("written");
                if (next == ref::FULL) HIT("written-full"); else if (next == ref::COMPACT) HIT("written-compact");
                next = ref::COMPRESSED;     // a manipulator holds for the next object only
                same("writing an object");
                s << T(' '); twin << T(' ');
            }
        }
    }
};
struct Reader_base { std::string trail; };
// one extraction from s (library) and from twin (string); returns whether both can go on
template <class T, class X, bool N> struct Parse;
template <class T, class X> struct Parse<T, X, false> { static X p(const std::basic_string<T>& t, EC& c, bool) { return X::parse(t, c); } };
template <class T, class X> struct Parse<T, X, true> { static X p(const std::basic_string<T>& t, EC& c, bool st) { return X::parse(t, c, st); } };
template <class T, class X, bool N> void get(std::basic_istream<T>& s, std::basic_istream<T>& twin, bool strict, const std::string& trail, Rng& r, X seed) {
    const std::string k = std::string("read-") + Nm<T>::s();
    X x = seed;                      // an old value must not matter
    std::basic_string<T> tok;
    bool lib_threw = false, twin_threw = false;
    const std::ios_base::iostate mask = s.exceptions();
    twin.exceptions(std::ios_base::goodbit);
    twin >> tok;
    const bool got = !twin.fail();
    EC c = OKC;
    X want = Parse<T, X, N>::p(tok, c, strict);
    const bool early = (twin.rdstate() & mask) != 0;     // reading the string itself raises already: nothing was parsed
    if (c != OKC && !early) twin.setstate(std::ios_base::failbit);
    const bool should_throw = (twin.rdstate() & mask) != 0;
#if H_EXC
    try { s >> x; }
    catch (const std::ios_base::failure&) { lib_threw = true; }
    catch (const std::exception& e) { lib_threw = true; h::bad(k + "-foreign-exception", h::cat("after ", trail, ": ", std::string(e.what()))); }
    CHECK(lib_threw == should_throw, k + "-throws", "after ", trail, " token ", narrow(tok), lib_threw ? " threw" : " did not throw");
    if (lib_threw) HIT("stream-threw");
#else
    (void)should_throw; (void)twin_threw;
    s >> x;
#endif
    CHECK(s.rdstate() == twin.rdstate(), k + "-state", "after ", trail, " token ", narrow(tok), " state ", int(s.rdstate()), " instead of ", int(twin.rdstate()));
    if (got && !lib_threw) CHECK(x == want && of(x) == of(want), k + "-value", "after ", trail, " token ", narrow(tok), " gave ", of(x), " instead of ", of(want));
    if (!twin.fail()) HIT("read"); else if (got) HIT("bad-token"); else HIT("at-end");
    (void)lib_threw; (void)r;
    twin.exceptions(std::ios_base::goodbit);
    if (early && N) s >> ip::strict;     // whether a read that never got its token uses the selection up is not specified
    if (!s.fail() && !twin.fail() && !s.eof()) CHECK(s.tellg() == twin.tellg(), k + "-consumed", "after ", trail, " token ", narrow(tok));
}
template <class T> void reading(Rng& r) {
    std::basic_string<T> all;
    std::string shown;
    int n = 2 + int(r.below(8));
    for (int i = 0; i < n; ++i) {
        std::string t;
        switch (r.below(8)) {
            case 0: t = gen::addr_text(r, gen::ver(r), 60); break;
            case 1: t = gen::net_text(r, gen::ver(r), 60); break;
            case 2: t = "x"; break;
            case 3: { Addr a = gen::addr(r, gen::ver(r)); t = ref::format(a) + "/" + std::to_string(r.below(33)); break; }        // often with host bits
            case 4: case 5: t = ref::format(gen::net(r, gen::ver(r), true), ref::Fmt(r.below(3))); break;
            default: t = ref::format(gen::addr(r, gen::ver(r)), ref::Fmt(r.below(3)));
        }
        bool clean = true; for (char c : t) if ((unsigned char)c > 127) clean = false;
        if (!clean) t = "1.2.3.4";
        static const char* ws[] = {" ", "\n", "\t", "  ", " \r\n ", "\v"};
        if (i || r.one_in(3)) { std::string w = ws[r.below(6)]; all += widen<T>(w); }
        all += widen<T>(t);
        shown += t + " ";
    }
    if (r.one_in(2)) all += T(' ');
    std::basic_stringstream<T> s(all), twin(all);
    std::string trail = shown + ": ";
#if H_EXC
    if (r.one_in(6)) s.exceptions(r.one_in(2) ? std::ios_base::failbit : std::ios_base::failbit | std::ios_base::badbit);
    else if (r.one_in(12)) s.exceptions(std::ios_base::eofbit);
#endif
    bool strict = true;
    for (int i = 0; i < n + 2; ++i) {
        if (r.one_in(3)) { s >> ip::non_strict; strict = false; trail += "non_strict "; }
        if (r.one_in(6)) { s >> ip::strict; strict = true; trail += "strict "; }
        if (r.one_in(6)) { s << ip::full; trail += "full "; }       // an output manipulator does not affect reading
        int type = int(r.below(6));
        trail += "read" + std::to_string(type) + " ";
        h::note(trail);
        switch (type) {
            case 0: get<T, ip::ipv4_address, false>(s, twin, true, trail, r, a4(gen::value(r, 4))); break;
            case 1: get<T, ip::ipv6_address, false>(s, twin, true, trail, r, a6(gen::value(r, 6), gen::scope_text(r, H_SCOPE_MAX))); break;
            case 2: get<T, ip::ip_address, false>(s, twin, true, trail, r, L::make<ip::ip_address>(gen::addr(r, gen::ver(r)))); break;
            case 3: get<T, ip::ipv4_network, true>(s, twin, strict, trail, r, n4(gen::net(r, 4))); strict = true; break;
            case 4: get<T, ip::ipv6_network, true>(s, twin, strict, trail, r, n6(gen::net(r, 6, true))); strict = true; break;
            default: get<T, ip::ip_network, true>(s, twin, strict, trail, r, maken<ip::ip_network>(gen::net(r, gen::ver(r), true))); strict = true;
        }
        if (s.fail() || twin.fail()) { if (r.one_in(8)) { trail += "(left failed) "; } else { s.clear(); twin.clear(); trail += "clear "; } }
    }
    h::nt(h::hs(trail)); h::sample(trail);
}
template <class T> void round_trip(Rng& r) {     // objects written one after another are read back in order
    std::basic_stringstream<T> s;
    std::vector<Obj> v;
    std::string trail;
    int n = 1 + int(r.below(8));
    for (int i = 0; i < n; ++i) {
        Obj o = some(r);
        // whitespace inside a scope would split the token
        for (char c : o.a.scope + o.n.scope) if (c == ' ' || (c >= 9 && c <= 13)) { o.a.scope.clear(); o.n.scope.clear(); break; }
        ref::Fmt f = ref::Fmt(r.below(3));
        if (f == ref::FULL) s << ip::full; else if (f == ref::COMPACT) s << ip::compact; else if (r.one_in(2)) s << ip::compressed;
        if (r.one_in(4)) s << std::uppercase; else if (r.one_in(4)) s << std::nouppercase;
        put(s, o);
        s << T(" \n\t"[r.below(3)]);
        v.push_back(o); trail += text(o, f) + " ";
    }
    h::note(trail);
    const std::string k = std::string("round-trip-") + Nm<T>::s();
    for (int i = 0; i < n; ++i) {
        const Obj& o = v[size_t(i)];
        bool ok = false;
        switch (o.type) {
            case 0: { ip::ipv4_address x; s >> x; ok = of(x) == o.a; break; } case 1: { ip::ipv6_address x; s >> x; ok = of(x) == o.a; break; } case 2: { ip::ip_address x; s >> x; ok = of(x) == o.a; break; }
            case 3: { ip::ipv4_network x; s >> x; ok = of(x) == o.n; break; } case 4: { ip::ipv6_network x; s >> x; ok = of(x) == o.n; break; } default: { ip::ip_network x; s >> x; ok = of(x) == o.n; }
        }
        CHECK(ok && !s.fail(), k, "item ", i, " of ", trail, " read back differently");
    }
    HIT("round-trip");
    h::nt(h::hs(trail)); h::sample(trail);
}
void workload() {
    // every object type x every format x flags, on a fresh stream
    h::phase("single", 6 * 3 * 2 * 2 * 30, [](uint64_t i, Rng& r) {
        Obj o = some(r); o.type = int(i % 6); int v = o.type % 3 == 0 ? 4 : o.type % 3 == 1 ? 6 : gen::ver(r); o.a = gen::addr(r, v); o.n = gen::net(r, v, true); i /= 6;
        ref::Fmt f = ref::Fmt(i % 3); i /= 3; bool up = i % 2; bool wide = i / 2 % 2;
        std::string want = text(o, f); if (up) want = upper(want);
        h::note(want);
        std::string got;
        if (!wide) { std::ostringstream s; if (up) s << std::uppercase; if (f == ref::FULL) s << ip::full; else if (f == ref::COMPACT) s << ip::compact; else s << ip::compressed; put(s, o); got = s.str(); }
        else { std::wostringstream s; if (up) s << std::uppercase; if (f == ref::FULL) s << ip::full; else if (f == ref::COMPACT) s << ip::compact; else s << ip::compressed; put(s, o); got = narrow(s.str()); }
        CHECK(got == want, "single", "wrote ", got, " instead of ", want);
        h::nt(h::hs(want, uint64_t(up * 2 + wide))); if (r.one_in(50)) h::sample(want);
    });
    h::random_phase("writes", 1500, [](uint64_t i, Rng& r) {
        // two streams of each width in turn: their selections do not mix
        Writer<char> a, b; Writer<wchar_t> w;
        for (int k = 0; k < 40; ++k) { switch (r.below(3)) { case 0: a.step(r); break; case 1: b.step(r); break; default: w.step(r); } }
        a.same("finally"); b.same("finally"); w.same("finally");
        h::nt(h::hs(a.trail + "|" + b.trail + "|" + w.trail)); if (i % 10 == 0) h::sample(a.trail);
    });
    h::random_phase("reads", 6000, [](uint64_t, Rng& r) { reading<char>(r); });
    h::random_phase("reads-wide", 3000, [](uint64_t, Rng& r) { reading<wchar_t>(r); });
    h::random_phase("round-trips", 3000, [](uint64_t, Rng& r) { if (r.one_in(2)) round_trip<char>(r); else round_trip<wchar_t>(r); });
}
#else
void workload() { h::phase("none", 1, [](uint64_t, Rng&) { HIT("no-std-overloads"); }); }
#endif
