// C22: scope ids are stored, compared, cleared and validated faithfully
#include "textmon.hpp"
#include <sstream>
#include <utility>
using namespace tmon;
typedef ip::error_code EC;
#define OKC ip::error_code::no_error
enum { S = H_SCOPE_MAX };

// the number a scope denotes, if any
static bool number(const std::string& s, uint32_t& v) {
    if (s.empty()) return false;
    unsigned long long n = 0;
    for (char c : s) { if (!ref::is_digit(c)) return false; n = n * 10 + unsigned(c - '0'); if (n > 0xffffffffULL) return false; }
    v = uint32_t(n);
    return true;
}
template <class Sc> void scope_truth(const char* key, const Sc& sc, const std::string& want, const std::string& how) {
    const std::string K(key);
    uint32_t n = 0; bool isn = number(want, n);
    CHECK(sc.get_string() == want, K + "-string", how, " scope is ", sc.get_string(), " instead of ", want);
    CHECK(sc.has_string() == !want.empty() && bool(sc) == !want.empty(), K + "-presence", how, " ", want);
    CHECK(sc.has_uint32() == isn, K + "-is-number", how, " ", want, isn ? " is a number" : " is not a number of 32 bits");
    if (isn) CHECK(sc.get_uint32() == n && uint32_t(sc) == n, K + "-number", how, " ", want, " read as ", sc.get_uint32());
    CHECK(std::string(sc) == want, K + "-conversion", how, " ", want);
    if (isn) HIT("numeric-scope"); else if (!want.empty()) HIT("text-scope"); else HIT("no-scope");
}
template <class X> void full_check(const char* key, const X& x, const Addr& a, const std::string& how) {
    const std::string K(key);
    CHECK(of(x) == a, K, how, " gives ", of(x), " instead of ", a);
    scope_truth(key, x.get_scope_id(), a.scope, how);
    for (int f = 0; f < 3; ++f) { std::string t = x.to_string(fmt(ref::Fmt(f))); CHECK(t == ref::format(a, ref::Fmt(f)), K + "-text", how, " prints ", t, " instead of ", ref::format(a, ref::Fmt(f))); }
}
// scope given in some form; returns whether it was taken (by error code), judged by the caller
template <class X, class T> EC set_form(X& x, const std::string& s, int form, Rng& r, bool& thrown) {
    EC c = form == 1 ? OKC : stale(r);
    thrown = false;
    std::basic_string<T> t = widen<T>(s);
    Exact<T> e(t);
    switch (form) {
#if H_EXC
        case 1: {
            Out o = guard([&] { x.set_scope_id(PARSE_ARG(T, e)); });
            thrown = o.kind != NONE; c = o.code;
            CHECK(o.kind == NONE || o.kind == PARSE_ERROR, "throw-kind", h::q(s), " kind ", o.kind);
            return c;
        }
#endif
        default: x.set_scope_id(PARSE_ARG(T, e), c); return c;
    }
}
template <class X> struct SetArr { X* x; EC* c; template <class T, size_t N> void operator()(const T (&a)[N]) const { x->set_scope_id(a, *c); } };
#if HAS_SCOPE
template <class X, class T> bool set_arr(X& x, const std::string& s, EC& c) {   // array overload: sizes up to the limit only
    SetArr<X> f; f.x = &x; f.c = &c;
    std::basic_string<T> t = widen<T>(s);
    if (t.find(T(0)) != std::basic_string<T>::npos) return false;
    return with_array_n<T, 1>(t, f) || (S >= 4 && with_array_n<T, (S >= 4 ? 5 : 1)>(t, f)) || with_array_n<T, S + 1>(t, f);
}
#endif
template <class X> EC set_any(X& x, const std::string& s, Rng& r) {
    bool th;
    switch (r.below(5)) {
        case 0: return set_form<X, wchar_t>(x, s, int(r.below(2)), r, th);
        case 1: return set_form<X, char16_t>(x, s, int(r.below(2)), r, th);
        case 2: return set_form<X, char32_t>(x, s, int(r.below(2)), r, th);
#if HAS_U8
        case 3: return set_form<X, char8_t>(x, s, int(r.below(2)), r, th);
#endif
        default: {
#if HAS_SCOPE
            EC c = stale(r);
            if (r.one_in(3) && set_arr<X, char>(x, s, c)) { HIT("array-form"); return c; }
            if (r.one_in(3)) { c = stale(r); if (set_arr<X, char16_t>(x, s, c)) { HIT("array-form"); return c; } }
#endif
            return set_form<X, char>(x, s, int(r.below(2)), r, th);
        }
    }
}
static bool acceptable(const std::string& s) {
    if (S == 0) return true;
    return s.empty() || ref::scope_ok(s);
}
template <class X> void set_and_check(const char* key, X& x, Addr& a, const std::string& s, Rng& r, bool heavy) {
    h::note(std::string(key) + " " + ref::str(a) + " <- " + h::q(s));
    const bool ok = acceptable(s);
    EC c = set_any(x, s, r);
    if (S > 0) {
        CHECK((c == OKC) == ok, std::string(key) + (ok ? "-refused" : "-taken"), ref::str(a), " <- ", h::q(s), " code ", c);
        if (ok) a.scope = s;
        if (ok) HIT("set"); else HIT("refused");
    }
    const std::string how = h::cat(ok ? "after setting " : "after refusing ", h::q(s));
    if (heavy) full_check(key, x, a, how);
    else CHECK(of(x) == a, std::string(key) + (ok ? "-value" : "-changed"), how, " gives ", of(x), " instead of ", a);
}
// relations between two addresses follow their bytes and scopes, whatever their past
template <class X> void relate(const char* key, const X& x, const Addr& a, const X& y, const Addr& b) {
    const int o = ref::cmp(a, b);
    const std::string w = h::cat(a, " and ", b);
    const std::string K(key);
    CHECK((x == y) == (o == 0) && (x != y) == (o != 0), K + "-equality", w);
    CHECK((x < y) == (o < 0) && (x > y) == (o > 0) && (x <= y) == (o <= 0) && (x >= y) == (o >= 0), K + "-order", w);
    if (o == 0) { CHECK(x.hash() == y.hash(), K + "-hash", w, " are equal with different hashes"); HIT("equal-pair"); } else HIT("unequal-pair");
    const int so = a.scope.compare(b.scope);
    auto sx = x.get_scope_id(); auto sy = y.get_scope_id();
    CHECK((sx == sy) == (so == 0) && (sx != sy) == (so != 0), K + "-scope-equality", w);
    CHECK((sx < sy) == (so < 0) && (sx > sy) == (so > 0) && (sx <= sy) == (so <= 0) && (sx >= sy) == (so >= 0), K + "-scope-order", w);
    std::vector<std::pair<std::string, int> > unused;
}
template <class X> void swap_some(X& x, X& y, Rng& r) {
#ifndef IPADDRESS_NO_OVERLOAD_STD
    if (r.one_in(2)) { using std::swap; swap(x, y); return; }
#endif
    (void)r; x.swap(y);
}
static std::string some_scope(Rng& r, const std::string& old) {
    std::string s;
    switch (r.below(9)) {
        case 0: return std::string();
        case 1: s = old; if (!s.empty()) s.resize(r.below(s.size() + 1)); return s;                        // prefix of the present one
        case 2: s = old + gen::scope_text(r, S ? S : 3); return s;                                         // extends it
        case 3: s = old; if (!s.empty()) s[r.below(s.size())] = char('0' + r.below(10)); return s;
        case 4: { static const char* n[] = {"0", "1", "4294967295", "4294967296", "4294967300", "42949672950", "9999999999", "00000000001", "0000004294967295", "2147483648", "18446744073709551617", "4294967295a", "-1", "+1", "1 ", "0x1"}; return n[r.below(16)]; }
        case 5: s = std::string(r.below(S + 4), char('a' + r.below(26))); return s;
        case 6: s = gen::scope_text(r, S ? S : 3); if (!s.empty()) s[r.below(s.size())] = "%/ \t\n\v\f\r\0\x1b\x1f\x7f!:."[r.below(15)]; return s;
        case 7: { uint64_t k = 0xfffffff0ull + r.below(32); return std::to_string(k); }
        default: return gen::scope_text(r, S ? S : 3);
    }
}

struct Pool {
    ip::ipv6_address x[4]; Addr a[4];
    ip::ip_address y[4]; Addr b[4];
    Pool() { for (int i = 0; i < 4; ++i) a[i] = Addr(6, 0), b[i] = Addr(4, 0); }
};
static void history(Rng& r, int steps) {
    Pool p;
    uint64_t hash = 0;
    u128 base = gen::value(r, 6);
    std::string trail;
    for (int i = 0; i < steps; ++i) {
        int k = int(r.below(4)), l = int(r.below(4)), op = int(r.below(12));
        trail += char('a' + op);
        switch (op) {
            case 0: case 1: set_and_check("v6", p.x[k], p.a[k], some_scope(r, p.a[k].scope), r, r.one_in(3)); break;
            case 2: case 3: {
                std::string s = some_scope(r, p.b[k].scope);
                if (p.b[k].ver == 4) {   // no effect on an IPv4 address
                    EC c = OKC; Exact<char> e(s);
                    h::note("v4 <- " + h::q(s));
                    p.y[k].set_scope_id(PARSE_ARG(char, e), c);
                    full_check("any-v4", p.y[k], p.b[k], "set_scope_id on an IPv4 address");
                } else set_and_check("any", p.y[k], p.b[k], s, r, r.one_in(3));
                break;
            }
            case 4: p.x[k] = p.x[l]; p.a[k] = p.a[l]; break;
            case 5: p.y[k] = p.y[l]; p.b[k] = p.b[l]; break;
            case 6: if (r.one_in(2)) { swap_some(p.x[k], p.x[l], r); std::swap(p.a[k], p.a[l]); } else { swap_some(p.y[k], p.y[l], r); std::swap(p.b[k], p.b[l]); } break;
            case 7: p.y[k] = p.x[l]; p.b[k] = p.a[l]; break;                                               // to the any type
            case 8: if (p.b[l].ver == 6) { auto o = p.y[l].v6(); CHECK(bool(o), "any-v6", "no v6 inside"); if (o) { p.x[k] = *o; p.a[k] = p.b[l]; } } else { CHECK(!p.y[l].v6(), "any-v6", "a v4 inside gave v6"); } break;
            case 9: {   // parse a text carrying a scope
                Addr a(6, r.one_in(2) ? base : gen::value(r, 6), r.one_in(2) ? gen::scope_text(r, S) : std::string());
                EC c = stale(r);
                p.x[k] = parse_ec<ip::ipv6_address, char>(ref::format(a, ref::Fmt(r.below(3))), c); p.a[k] = a;
                CHECK(c == OKC, "parse", a, " code ", c);
                break;
            }
            case 10: {  // through bytes: the scope is not part of them
                p.x[k] = ip::ipv6_address(p.x[l].bytes()); p.a[k] = Addr(6, p.a[l].v);
                break;
            }
            default: {  // through a network of full length
                EC c = stale(r);
                auto n = ip::ipv6_network::from_address(p.x[l], c, 128);
                CHECK(c == OKC && of(n.network_address()) == p.a[l], "network", "from_address of ", p.a[l], " holds ", of(n.network_address()), " code ", c);
                p.x[k] = n.network_address(); p.a[k] = p.a[l];
                p.y[k] = ip::ip_network(n).network_address(); p.b[k] = p.a[l];
            }
        }
        CHECK(of(p.x[k]) == p.a[k] && of(p.x[l]) == p.a[l], "history", "after ", trail, ": ", of(p.x[k]), " ", of(p.x[l]), " expected ", p.a[k], " ", p.a[l]);
        CHECK(of(p.y[k]) == p.b[k] && of(p.y[l]) == p.b[l], "history-any", "after ", trail, ": ", of(p.y[k]), " ", of(p.y[l]), " expected ", p.b[k], " ", p.b[l]);
        relate("v6", p.x[k], p.a[k], p.x[l], p.a[l]);
        if (p.b[k].ver == p.b[l].ver) relate("any", p.y[k], p.b[k], p.y[l], p.b[l]);
        // an object with the same value made from scratch is indistinguishable
        if (r.one_in(4)) { ip::ipv6_address fresh = a6(p.a[k].v, p.a[k].scope); relate("fresh", p.x[k], p.a[k], fresh, p.a[k]); HIT("fresh-twin"); }
        hash = h::hv(hash, op * 16 + k * 4 + l);
    }
    for (int i = 0; i < 4; ++i) { full_check("v6", p.x[i], p.a[i], "after " + trail); full_check("any", p.y[i], p.b[i], "after " + trail); }
    h::nt(h::hs(trail, hash)); h::sample(trail);
}

void workload() {
    // every ASCII character at every position, every length
    h::phase("characters", 128 * 20, [](uint64_t i, Rng& r) {
        char c = char(i % 128); size_t pos = size_t(i / 128);
        for (int k = 0; k < 2; ++k) {
            size_t n = k ? pos + 1 + r.below(4) : std::max<size_t>(pos + 1, 1);
            std::string s(n, 'x'); s[pos] = c;
            Addr a = gen::addr(r, 6), b = a;
            ip::ipv6_address x = a6(a.v, a.scope); ip::ip_address y = x;
            set_and_check("v6", x, a, s, r, true);
            set_and_check("any", y, b, s, r, false);
            // the same scope in a text
            std::string t = ref::format6(a.v, std::string(), ref::COMPRESSED) + "%" + s;
            EC ec = stale(r);
            h::note(t);
            ip::ipv6_address z = parse_ec<ip::ipv6_address, char>(t, ec);
            bool ok = S > 0 && ref::scope_ok(s);
            CHECK((ec == OKC) == ok, "text-verdict", t, " code ", ec);
            if (ok && ec == OKC) full_check("text", z, Addr(6, a.v, s), t);
            h::nt(h::hs(s));
        }
    });
    h::phase("lengths", 80 * 16, [](uint64_t i, Rng& r) {
        std::string s;
        size_t n = size_t(i / 16);
        for (size_t k = 0; k < n; ++k) s += i % 16 < 4 ? char('0' + r.below(10)) : i % 16 == 4 ? '0' : i % 16 == 5 ? '9' : char('a' + r.below(26));
        Addr a = gen::addr(r, 6), b = a;
        ip::ipv6_address x = a6(a.v, a.scope); ip::ip_address y = x;
        set_and_check("v6", x, a, s, r, true);
        set_and_check("any", y, b, s, r, true);
        h::nt(h::hs(s)); if (i % 40 == 0) h::sample(s);
    });
    h::phase("numbers", 6000, [](uint64_t i, Rng& r) {
        uint64_t v;
        switch (i % 6) {
            case 0: v = (uint64_t(1) << (i / 6 % 34)) + r.below(3) - 1; break;
            case 1: v = 0xffffffffull + r.below(40) - 20; break;
            case 2: v = r.next() >> (r.below(40)); break;
            case 3: v = 4294967290ull + i / 6 % 20; break;
            case 4: { v = 1; for (uint64_t k = 0; k < i / 6 % 12; ++k) v *= 10; v = v * (1 + r.below(9)) + r.below(3) - 1; break; }
            default: v = r.next() & 0xffffffff;
        }
        std::string s = std::string(r.one_in(3) ? r.below(8) : 0, '0') + std::to_string(v);
        if (r.one_in(8)) s[r.below(s.size())] = "/:-+ x"[r.below(6)];
        Addr a = gen::addr(r, 6);
        ip::ipv6_address x = a6(a.v, a.scope);
        set_and_check("v6", x, a, s, r, true);
        h::nt(h::hs(s)); h::sample(s);
    });
    h::random_phase("pairs", 6000, [](uint64_t, Rng& r) {
        Addr a(6, gen::value(r, 6), gen::scope_text(r, S)), b = a;
        b.scope = some_scope(r, a.scope);
        if (!acceptable(b.scope) || S == 0) b.scope.clear();
        if (r.one_in(4)) b.v = gen::value(r, 6);
        h::note(ref::str(a) + ref::str(b));
        relate("v6", a6(a.v, a.scope), a, a6(b.v, b.scope), b);
        relate("any", ip::ip_address(a6(a.v, a.scope)), a, ip::ip_address(a6(b.v, b.scope)), b);
        h::nt(h::hs(ref::str(a) + ref::str(b)));
    });
    h::random_phase("histories", 1500, [](uint64_t, Rng& r) { history(r, 20 + int(r.below(60))); });
}
