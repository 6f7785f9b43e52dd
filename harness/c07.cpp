// C07: the error channels agree and tell the truth
#include "lib.hpp"
using namespace L;
static const ip::error_code OK = ip::error_code::no_error;
typedef ip::optional<size_t> Opt;
typedef ip::error_code EC;

static bool logic_code(EC c) { return int(c) >= int(EC::invalid_version) && int(c) <= int(EC::not_contained_network); }

#if H_EXC
// the exception must be catchable at every level and carry a message
template <class F> Out levels(F f) {
    Out o = guard(f);
    if (o.kind == NONE) return o;
    bool se = false, re = false, ie = false;
    std::string w1, w2;
    try { f(); } catch (const std::exception& e) { se = true; w1 = e.what(); } catch (...) {}
    try { f(); } catch (const std::runtime_error&) { re = true; } catch (...) {}
    try { f(); } catch (const ip::error& e) { ie = true; w2 = e.what(); CHECK(e.code() == o.code, "levels-code", "code through the base differs"); } catch (...) {}
    CHECK(se && re && ie, "levels-base", "not catchable as std::exception / ipaddress::error: ", o.what);
    CHECK(!o.what.empty() && w1 == o.what && w2 == o.what, "levels-what", "message ", o.what, " ", w1, " ", w2);
    HIT("thrown-at-every-level");
    return o;
}
template <class F> void thrown(const char* key, const std::string& what, EC want, bool deep, F f) {
    Out o = deep ? levels(f) : guard(f);
    const ExKind k = want == OK ? NONE : logic_code(want) ? LOGIC_ERROR : PARSE_ERROR;
    CHECK(o.kind == k && o.code == want, std::string(key) + "-throw", what, " threw kind ", o.kind, " code ", o.code, " (", o.what, "), the error-code form gives ", want);
    if (o.kind != NONE) CHECK(!o.what.empty(), std::string(key) + "-message", what);
}
#endif

// ---- is the reported kind one the text really has?
static std::string upto(const std::string& s, char c) { size_t p = s.find(c); return p == std::string::npos ? s : s.substr(0, p); }
static bool truth4(EC c, const std::string& a) {
    std::vector<std::string> p = ref::split(a, '.');
    switch (c) {
        case EC::empty_address: return a.empty();
        case EC::empty_octet: for (auto& x : p) if (x.empty()) return true; return false;
        case EC::expected_4_octets: return p.size() != 4;
        case EC::leading_0_are_not_permitted: for (auto& x : p) if (x.size() > 1 && x[0] == '0' && ref::is_digit(x[1])) return true; return false;
        case EC::octet_more_3_characters: for (auto& x : p) if (x.size() > 3) return true; return false;
        case EC::octet_has_invalid_symbol: for (char x : a) if (x != '.' && !ref::is_digit(x)) return true; return false;
        case EC::octet_exceeded_255: for (auto& x : p) if (x.size() >= 3) { int v = 0; size_t i = 0; for (; i < x.size() && ref::is_digit(x[i]); ++i) v = v > 10000 ? v : v * 10 + (x[i] - '0'); if (v > 255) return true; } return false;
        default: return false;
    }
}
static bool truth6(EC c, const std::string& t) {
    std::string a = upto(t, '%');
    bool has = t.find('%') != std::string::npos;
    std::string sc = has ? t.substr(t.find('%') + 1) : std::string();
    int colons = 0; for (char x : a) colons += x == ':';
    std::vector<std::string> p = ref::split(a, ':');
    switch (c) {
        case EC::empty_address: return t.empty();
        case EC::scope_id_is_too_long: return has && sc.size() > size_t(H_SCOPE_MAX);
        case EC::invalid_scope_id: return has && !ref::scope_ok(sc);
        case EC::least_3_parts: return p.size() < 3;
        case EC::part_is_more_4_chars: for (auto& x : p) if (x.size() > 4) return true; return false;
        case EC::most_8_colons_permitted: return p.size() > 7;
        case EC::most_one_double_colon_permitted: { size_t d = a.find("::"); return d != std::string::npos && a.find("::", d + 1) != std::string::npos; }
        case EC::leading_colon_only_permitted_as_part_of_double_colon: return !a.empty() && a[0] == ':';
        case EC::trailing_colon_only_permitted_as_part_of_double_colon: return !a.empty() && a[a.size() - 1] == ':';
        case EC::exactly_8_parts_expected_without_double_colon: return p.size() != 8 || a.find('.') != std::string::npos;
        case EC::expected_at_most_7_other_parts_with_double_colon: return a.find("::") != std::string::npos && p.size() > 7;
        case EC::part_has_invalid_symbol: for (char x : a) if (x != ':' && ref::hexval(x) < 0) return true; return false;
        case EC::empty_octet: case EC::expected_4_octets: case EC::leading_0_are_not_permitted: case EC::octet_more_3_characters:
        case EC::octet_has_invalid_symbol: case EC::octet_exceeded_255: return a.find('.') != std::string::npos && truth4(c, p.back());
        default: return false;
    }
}
static bool truth_net(EC c, const std::string& t, int ver, bool strict) {
    Net n; unsigned e = ref::parse_net(ver, t, strict, n);
    switch (c) {
        case EC::empty_netmask: return (e >> ref::EMPTY_MASK) & 1;
        case EC::invalid_netmask: return (e >> ref::BAD_MASK) & 1;
        case EC::netmask_pattern_mixes_zeroes_and_ones: return (e >> ref::MIXED_MASK) & 1;
        case EC::has_host_bits_set: return (e >> ref::HOST_BITS) & 1;
        case EC::only_one_slash_permitted: return (e >> ref::TWO_SLASHES) & 1;
        default: {
            std::string a = upto(t, '/');
            if (ver == 4 ? truth4(c, a) : truth6(c, a)) return true;
            return false;
        }
    }
}
template <class X> struct Kind;
template <> struct Kind<ip::ipv4_address> { static bool truth(EC c, const std::string& t, bool) { return truth4(c, t); } static const char* key() { return "parse4"; } enum { NET = 0 }; };
template <> struct Kind<ip::ipv6_address> { static bool truth(EC c, const std::string& t, bool) { return truth6(c, t); } static const char* key() { return "parse6"; } enum { NET = 0 }; };
template <> struct Kind<ip::ip_address> { static bool truth(EC c, const std::string& t, bool) { return truth4(c, t) || truth6(c, t); } static const char* key() { return "parse-any"; } enum { NET = 0 }; };
template <> struct Kind<ip::ipv4_network> { static bool truth(EC c, const std::string& t, bool s) { return truth_net(c, t, 4, s); } static const char* key() { return "parse-net4"; } enum { NET = 1 }; };
template <> struct Kind<ip::ipv6_network> { static bool truth(EC c, const std::string& t, bool s) { return truth_net(c, t, 6, s); } static const char* key() { return "parse-net6"; } enum { NET = 1 }; };
template <> struct Kind<ip::ip_network> { static bool truth(EC c, const std::string& t, bool s) { return truth_net(c, t, 4, s) || truth_net(c, t, 6, s); } static const char* key() { return "parse-net-any"; } enum { NET = 1 }; };

template <class X, class T, bool N> struct Call;
template <class X, class T> struct Call<X, T, false> {
    static X ec(const std::basic_string<T>& s, EC& c, bool) { return parse_ec<X, T>(s, c); }
    static X th(const std::basic_string<T>& s, bool) { return parse_th<X, T>(s); }
};
template <class X, class T> struct Call<X, T, true> {
    static X ec(const std::basic_string<T>& s, EC& c, bool st) { return parse_ec<X, T>(s, c, st); }
    static X th(const std::basic_string<T>& s, bool st) { return parse_th<X, T>(s, st); }
};
template <class X> struct ArrTh { X* out; template <class T, size_t N> void operator()(const T (&a)[N]) const { *out = X::parse(a); } };

static bool ascii(const std::string& t) { for (char c : t) if ((unsigned char)c > 127) return false; return true; }
template <class T> bool encoded() {
#ifdef IPADDRESS_CHAR_IS_UTF8
    return true;
#else
    return !std::is_same<T, char>::value;
#endif
}
template <class X, class T> bool honest(EC c, const std::string& t, bool strict) { return Kind<X>::truth(c, t, strict) || (encoded<T>() && (c == EC::unexpected_symbol || c == EC::wrong_encoding_sequence) && !ascii(t)); }
// without exceptions the throwing forms yield a default object (of either family for the any types)
static bool is_default(const ip::ipv4_address& x) { return x == ip::ipv4_address(); }
static bool is_default(const ip::ipv6_address& x) { return x == ip::ipv6_address(); }
static bool is_default(const ip::ip_address& x) { return x == ip::ip_address() || x == ip::ip_address(ip::ipv6_address()); }
static bool is_default(const ip::ipv4_network& x) { return x == ip::ipv4_network(); }
static bool is_default(const ip::ipv6_network& x) { return x == ip::ipv6_network(); }
static bool is_default(const ip::ip_network& x) { return x == ip::ip_network() || x == ip::ip_network(ip::ipv6_network()); }
template <class X, class T> void parse_one(const std::string& t, Rng& r) {
    const std::string K = Kind<X>::key(), w = h::q(t) + " as " + (sizeof(T) == 1 ? "char" : sizeof(T) == 2 ? "char16" : "char32");
    typedef Call<X, T, bool(Kind<X>::NET)> C;
    const bool strict = r.one_in(2);
    const std::basic_string<T> s = widen<T>(t);
    h::note(K + " " + w);
    EC c1 = stale(r), c2 = OK;
    X x1 = C::ec(s, c1, strict), x2 = C::ec(s, c2, strict);
    CHECK(c1 == c2 && x1 == x2, K + "-stale", w, " code depends on the previous content: ", c1, " ", c2);
    if (c2 != OK) {
        CHECK(x1 == X() && of(x1) == of(X()), K + "-nondefault", w, " failed but gave ", of(x1));
        CHECK((honest<X, T>(c2, t, strict)), K + "-kind", w, strict ? " strict" : "", " reports code ", c2, ", which is not what is wrong with the text");
        HIT("parse-failed");
    } else HIT("parsed");
#if H_EXC
    if (c2 == OK || r.one_in(3)) {
        X y;
        thrown(K.c_str(), w, c2, r.one_in(16), [&] { y = C::th(s, strict); });
        if (c2 == OK) CHECK(y == x1 && of(y) == of(x1), K + "-value", w, " throwing form gives ", of(y), " error-code form ", of(x1));
        else CHECK(y == X(), K + "-assigned", w);
    }
#else
    X y = C::th(s, strict);
    CHECK(c2 == OK ? y == x1 : is_default(y), K + "-no-exceptions", w, " gives ", of(y), " error-code form ", of(x1));
#endif
    // array overloads agree with the text up to its end
    if (t.find('\0') == std::string::npos && r.one_in(2)) {
        X z; EC c = stale(r);
        bool done;
        if (Kind<X>::NET) c2 = OK, x2 = C::ec(s, c2, true);       // arrays are read strictly by default
        ArrEc<X> f; f.out = &z; f.c = &c;
        done = with_array<T>(s, f);
        const bool loose = encoded<T>() && !ascii(t);            // two reasons to refuse: which one is named may differ
        if (done && loose) CHECK(c != OK && c2 != OK && z == X() && (honest<X, T>(c, t, true)), K + "-array", w, " array form gives code ", c, " ", of(z), " text form ", c2);
        else if (done) CHECK(c == c2 && z == x2, K + "-array", w, " array form gives code ", c, " ", of(z), " text form ", c2, " ", of(x2));
#if H_EXC
        if (done && r.one_in(3)) {
            X q; ArrTh<X> g; g.out = &q;
            thrown((K + "-array").c_str(), w, c, false, [&] { with_array<T>(s, g); });
            if (c2 == OK) CHECK(q == x2, K + "-array-value", w);
        }
#endif
        if (done) HIT("array-form");
    }
}
template <class T> void parse_types(const std::string& t, Rng& r, bool net) {
    if (!net) { parse_one<ip::ipv4_address, T>(t, r); parse_one<ip::ipv6_address, T>(t, r); parse_one<ip::ip_address, T>(t, r); }
    else { parse_one<ip::ipv4_network, T>(t, r); parse_one<ip::ipv6_network, T>(t, r); parse_one<ip::ip_network, T>(t, r); }
}
// ---- literals called at run time (functions before C++20)
#ifndef IPADDRESS_NONTYPE_TEMPLATE_PARAMETER
template <class X, class T, class F> void literal(const char* key, const std::string& t, size_t max, F f, Rng& r) {
    if (t.find('\0') != std::string::npos) return;
    std::basic_string<T> s = widen<T>(t);
    Exact<T> e(s);
    EC c = stale(r);
    X want = X::parse(s, c);
    h::note(std::string(key) + " " + t);
#if H_EXC
    X got;
    Out o = guard([&] { got = f(e.p, e.n); });
    if (t.size() <= max) {
        CHECK((o.kind == NONE) == (c == OK) && o.code == c, std::string(key) + "-literal", h::q(t), " literal kind ", o.kind, " code ", o.code, " parse ", c);
        if (c == OK) CHECK(got == want, std::string(key) + "-literal-value", h::q(t));
    } else CHECK((o.kind == PARSE_ERROR && (o.code == EC::string_is_too_long || o.code == c)) || (c == OK && o.kind == NONE && got == want), std::string(key) + "-literal-long", h::q(t), " kind ", o.kind, " code ", o.code);
#else
    if (t.size() <= max) { X got = f(e.p, e.n); CHECK(c == OK ? got == want : is_default(got), std::string(key) + "-literal-value", h::q(t)); }
#endif
    HIT("literal");
}
#define LITERAL(X, op, max) \
    switch (r.below(4)) { \
        case 0: literal<X, char>(#op, t, max, [](const char* p, size_t n) { return ip::operator""##op(p, n); }, r); break; \
        case 1: literal<X, wchar_t>(#op, t, max, [](const wchar_t* p, size_t n) { return ip::operator""##op(p, n); }, r); break; \
        case 2: literal<X, char16_t>(#op, t, max, [](const char16_t* p, size_t n) { return ip::operator""##op(p, n); }, r); break; \
        default: literal<X, char32_t>(#op, t, max, [](const char32_t* p, size_t n) { return ip::operator""##op(p, n); }, r); break; }
static void literals(const std::string& t, Rng& r) {
    for (char c : t) if ((unsigned char)c > 127) return;
    const size_t m6 = 45 + (H_SCOPE_MAX ? 1 + H_SCOPE_MAX : 0);
    LITERAL(ip::ipv4_address, _ipv4, 15) LITERAL(ip::ipv6_address, _ipv6, m6) LITERAL(ip::ip_address, _ip, m6)
    LITERAL(ip::ipv4_network, _ipv4_net, 31) LITERAL(ip::ipv6_network, _ipv6_net, m6 + 4) LITERAL(ip::ip_network, _net, m6 + 4)
}
#else
static void literals(const std::string&, Rng&) {}
#endif
// ---- network algebra
template <class N> void algebra(const char* key, const Net& a, const Net& b, Rng& r) {
    const N x = maken<N>(a), y = maken<N>(b);
    const std::string K(key), w = ref::str(a) + " " + ref::str(b);
    typedef typename N::ip_address_type A;
    // from_address
    {
        Addr p(a.ver, r.one_in(2) ? a.v : gen::value(r, a.ver), a.scope);
        size_t pl = r.one_in(3) ? size_t(a.plen) : r.one_in(4) ? size_t(r.next()) : size_t(r.below(140));
        bool strict = r.one_in(2);
        const std::string ww = ref::str(p) + " /" + std::to_string(pl) + (strict ? " strict" : "");
        h::note(K + " from_address " + ww);
        EC c1 = stale(r), c2 = OK;
        A pa = make<A>(p);
        N n1 = N::from_address(pa, c1, pl, strict), n2 = N::from_address(pa, c2, pl, strict);
        CHECK(c1 == c2 && n1 == n2, K + "-from_address-stale", ww, " ", c1, " ", c2);
        bool too = pl > size_t(ref::width(a.ver)), host = !too && (p.v & ref::hostmask(a.ver, int(pl)));
        EC want = too ? EC::invalid_netmask : host && strict ? EC::has_host_bits_set : OK;
        CHECK(c2 == want, K + "-from_address-code", ww, " reports ", c2, " expected ", want);
        if (c2 != OK) { Net g = of(n2); CHECK(g == of(N()) || (g.v == 0 && g.plen == ref::width(g.ver)), K + "-from_address-nondefault", ww, " gave ", g); HIT("from_address-failed"); }
#if H_EXC
        if (c2 == OK || r.one_in(3)) { N n3; thrown((K + "-from_address").c_str(), ww, c2, r.one_in(16), [&] { n3 = N::from_address(pa, pl, strict); }); if (c2 == OK) CHECK(n3 == n2, K + "-from_address-value", ww); }
#else
        N n3 = N::from_address(pa, pl, strict);
        if (c2 == OK) CHECK(n3 == n2, K + "-from_address-no-exceptions", ww);
#endif
    }
    // subnets, supernet
    for (int sub = 0; sub < 2; ++sub) {
        size_t diff = r.one_in(2) ? 1 : r.one_in(3) ? size_t(r.next()) : size_t(r.below(140));
        Opt np = r.one_in(2) ? Opt() : Opt(r.one_in(8) ? size_t(r.next()) : size_t(r.below(140)));
        const size_t W = size_t(ref::width(a.ver)), P = size_t(a.plen);
        const std::string ww = ref::str(a) + (sub ? " subnets(" : " supernet(") + std::to_string(diff) + (np ? "," + std::to_string(np.value()) : std::string()) + ")";
        h::note(K + " " + ww);
        // the argument errors that really apply
        bool e_shorter = false, e_longer = false, e_both = np && diff != 1, e_diff = false, any;
        if (sub) { e_longer = np && np.value() < P; e_diff = np ? np.value() > W : diff > W - P; any = P != W && (e_longer || e_both || e_diff); }
        else { e_shorter = np && np.value() > P; e_diff = !np && diff > P; any = P != 0 && (e_shorter || e_both || e_diff); }
        EC c1 = stale(r), c2 = OK;
        if (sub) {
            auto s1 = x.subnets(c1, diff, np), s2 = x.subnets(c2, diff, np);
            CHECK(c1 == c2 && s1.empty() == s2.empty() && s1.begin() == s2.begin() && s1.end() == s2.end(), K + "-subnets-stale", ww, " ", c1, " ", c2);
            if (c2 != OK) CHECK(s2.empty() && s2.begin() == s2.end(), K + "-subnets-nonempty", ww); else CHECK(!s2.empty(), K + "-subnets-empty", ww);
#if H_EXC
            if (r.one_in(3)) thrown((K + "-subnets").c_str(), ww, c2, r.one_in(16), [&] { auto s = x.subnets(diff, np); CHECK(s.begin() == s2.begin() && s.end() == s2.end(), K + "-subnets-value", ww); });
#else
            auto s3 = x.subnets(diff, np); CHECK(s3.empty() == s2.empty(), K + "-subnets-no-exceptions", ww);
#endif
        } else {
            N s1 = x.supernet(c1, diff, np), s2 = x.supernet(c2, diff, np);
            CHECK(c1 == c2 && s1 == s2, K + "-supernet-stale", ww, " ", c1, " ", c2);
            if (c2 != OK) { Net g = of(s2); CHECK(g.v == 0 && g.plen == ref::width(g.ver), K + "-supernet-nondefault", ww, " gave ", g); }
#if H_EXC
            if (r.one_in(3)) thrown((K + "-supernet").c_str(), ww, c2, r.one_in(16), [&] { N s = x.supernet(diff, np); CHECK(s == s2, K + "-supernet-value", ww); });
#else
            N s3 = x.supernet(diff, np); CHECK(s3 == s2, K + "-supernet-no-exceptions", ww);
#endif
        }
        CHECK((c2 != OK) == any, K + (sub ? "-subnets-verdict" : "-supernet-verdict"), ww, " reports ", c2);
        bool honest = c2 == OK || (c2 == EC::new_prefix_must_be_longer && e_longer) || (c2 == EC::new_prefix_must_be_shorter && e_shorter) || (c2 == EC::cannot_set_prefixlen_diff_and_new_prefix && e_both) || (c2 == EC::invalid_prefixlen_diff && e_diff);
        CHECK(honest, K + (sub ? "-subnets-kind" : "-supernet-kind"), ww, " reports ", c2, ", which is not what is wrong");
        if (c2 != OK) HIT("algebra-failed"); else HIT("algebra-succeeded");
    }
    // address_exclude
    {
        h::note(K + " exclude " + w);
        EC c1 = stale(r), c2 = OK;
        auto s1 = x.address_exclude(y, c1), s2 = x.address_exclude(y, c2);
        const bool inside = a.ver == b.ver && a.plen <= b.plen && (b.v & ref::netmask(a.ver, a.plen)) == a.v;
        EC want = a.ver != b.ver ? EC::invalid_version : inside ? OK : EC::not_contained_network;
        CHECK(c1 == want && c2 == want, K + "-exclude-code", w, " reports ", c1, " ", c2, " expected ", want);
        if (c2 != OK) CHECK(s2.empty() && s2.begin() == s2.end() && s1.empty(), K + "-exclude-nonempty", w);
#if H_EXC
        if (r.one_in(3)) thrown((K + "-exclude").c_str(), w, want, r.one_in(16), [&] { auto s = x.address_exclude(y); CHECK(s.empty() == s2.empty(), K + "-exclude-value", w); });
#else
        auto s3 = x.address_exclude(y); CHECK(s3.empty() == s2.empty(), K + "-exclude-no-exceptions", w);
#endif
    }
}
// ---- scope ids
template <class X, class T> void scope_one(const char* key, const Addr& a, const std::string& s, Rng& r) {
#if HAS_SCOPE
    const std::string K(key), w = ref::str(a) + " set_scope_id " + h::q(s);
    h::note(K + " " + w);
    std::basic_string<T> t = widen<T>(s);
    bool ascii = true; for (char c : s) if ((unsigned char)c > 127) ascii = false;
    const bool ok = s.empty() || (ref::scope_ok(s) && ascii);
    X x1 = make<X>(a), x2 = make<X>(a);
    EC c1 = stale(r), c2 = OK;
    { Exact<T> e(t); x1.set_scope_id(PARSE_ARG(T, e), c1); x2.set_scope_id(PARSE_ARG(T, e), c2); }
    CHECK(c1 == c2 && x1 == x2, K + "-stale", w, " ", c1, " ", c2);
    Addr want = a; if (ok) want.scope = s;
    CHECK((c2 == OK) == ok, K + "-verdict", w, " reports ", c2);
    CHECK(of(x2) == want && of(x1) == want, K + (ok ? "-value" : "-changed"), w, " left ", of(x2));
    bool honest = c2 == OK || (c2 == EC::scope_id_is_too_long && s.size() > size_t(H_SCOPE_MAX)) || (c2 == EC::invalid_scope_id && !ref::scope_ok(s)) || ((c2 == EC::unexpected_symbol || c2 == EC::wrong_encoding_sequence) && !ascii);
    CHECK(honest, K + "-kind", w, " reports ", c2);
    X x3 = make<X>(a);
#if H_EXC
    if (ok || r.one_in(3)) { thrown(K.c_str(), w, c2, r.one_in(16), [&] { Exact<T> e(t); x3.set_scope_id(PARSE_ARG(T, e)); }); CHECK(of(x3) == want, K + "-throw-changed", w, " left ", of(x3)); }
#else
    { Exact<T> e(t); x3.set_scope_id(PARSE_ARG(T, e)); } CHECK(of(x3) == want, K + "-no-exceptions", w, " left ", of(x3));
#endif
    if (ok) HIT("scope-set"); else HIT("scope-refused");
#endif
}
// ---- what the message says: the offending text, the offending symbol, the offending octet
#if H_EXC
static void put(std::basic_string<char>& o, uint32_t c) {
    if (c < 0x80) o += char(c);
    else if (c < 0x800) { o += char(0xC0 | c >> 6); o += char(0x80 | (c & 63)); }
    else if (c < 0x10000) { o += char(0xE0 | c >> 12); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); }
    else { o += char(0xF0 | c >> 18); o += char(0x80 | (c >> 12 & 63)); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); }
}
#if HAS_U8
static void put(std::basic_string<char8_t>& o, uint32_t c) { std::string b; put(b, c); for (char x : b) o += char8_t(x); }
#endif
static void put(std::basic_string<char16_t>& o, uint32_t c) { if (c < 0x10000) o += char16_t(c); else { c -= 0x10000; o += char16_t(0xD800 + (c >> 10)); o += char16_t(0xDC00 + (c & 0x3FF)); } }
static void put(std::basic_string<char32_t>& o, uint32_t c) { o += char32_t(c); }
static void put(std::basic_string<wchar_t>& o, uint32_t c) { if (sizeof(wchar_t) >= 4) o += wchar_t(c); else { std::basic_string<char16_t> b; put(b, c); for (char16_t x : b) o += wchar_t(x); } }
static std::string token(uint32_t c) { char b[24]; snprintf(b, sizeof b, "{U+%04x}", unsigned(c)); return b; }
static long number_after(const std::string& s, const std::string& word) {
    size_t p = s.find(word); if (p == std::string::npos) return -1;
    p += word.size(); if (p >= s.size() || !ref::is_digit(s[p])) return -1;
    long v = 0; while (p < s.size() && ref::is_digit(s[p])) v = v * 10 + (s[p++] - '0');
    return v;
}
template <class T> void says(const std::string& K, const std::string& what, const std::vector<uint32_t>& cps, const std::basic_string<T>& s, EC c) {
    bool asc = true; std::string shown; std::vector<uint32_t> odd;
    for (uint32_t u : cps) if (u < 128) shown += char(u); else { asc = false; shown += token(u); odd.push_back(u); }
    if (c == EC::empty_address) return;
    if (s.size() <= 100) {
        CHECK(what.find(shown) != std::string::npos, K + "-quotes", "the message [", what, "] does not quote the text ", shown); HIT("message-quotes");
        if (!asc) {
            size_t n = 0;
            for (size_t p = what.find("{U+"); p != std::string::npos; p = what.find("{U+", p + 1)) {
                bool mine = false; for (uint32_t u : odd) if (what.compare(p, token(u).size(), token(u)) == 0) mine = true;
                ++n; CHECK(mine, K + "-symbol", "the message [", what, "] names a symbol that is not in the text");
            }
            if (c == EC::unexpected_symbol) { CHECK(n > odd.size(), K + "-symbol-named", "the message [", what, "] does not name the symbol"); HIT("message-symbol"); }
        }
    } else if (asc) { CHECK(what.find(shown.substr(0, 100) + "...") != std::string::npos, K + "-quotes-long", "the message [", what, "] does not quote the start of ", shown); HIT("message-quotes-long"); }
}
template <class X, class T> void message(const std::vector<uint32_t>& cps, Rng& r) {
    typedef Call<X, T, bool(Kind<X>::NET)> C;
    const std::string K = std::string(Kind<X>::key()) + "-message";
    std::basic_string<T> s; for (uint32_t u : cps) put(s, u);
    const bool strict = r.one_in(2);
    EC c = OK; (void)C::ec(s, c, strict);
    if (c == OK) return;
    std::string t; bool asc = true; for (uint32_t u : cps) { t += u < 128 ? char(u) : '?'; if (u > 127) asc = false; }
    h::note(K + " " + t);
    Out o = guard([&] { (void)C::th(s, strict); });
    CHECK(o.kind != NONE && o.code == c, K + "-code", h::q(t), " threw kind ", o.kind, " code ", o.code);
    if (o.kind == NONE) return;
    says<T>(K, o.what, cps, s, c);
    // the octet or part it names has the fault
    if (Kind<X>::NET || !asc || s.size() > 100) return;
    const bool six = std::is_same<X, ip::ipv6_address>::value, four = std::is_same<X, ip::ipv4_address>::value;
    std::string a = six ? upto(t, '%') : t;
    std::vector<std::string> q = ref::split(a, ':');
    if (six && c == EC::part_is_more_4_chars) {
        long k = number_after(o.what, "in part ");
        bool ok = k >= 0 && size_t(k) < q.size();
        if (ok) ok = q[size_t(k)].size() > 4;
        CHECK(ok, K + "-part", "the message [", o.what, "] names the wrong part"); HIT("message-part");
    } else if (four && int(c) >= int(EC::empty_octet) && int(c) <= int(EC::octet_exceeded_255) && c != EC::expected_4_octets) {
        std::vector<std::string> p = ref::split(four ? t : q.back(), '.');
        long k = number_after(o.what, "octet ");
        bool ok = k >= 0 && size_t(k) < p.size();
        if (ok) { std::string x = p[size_t(k)];
            if (c == EC::empty_octet) ok = x.empty();
            else if (c == EC::octet_more_3_characters) ok = x.size() > 3;
            else if (c == EC::leading_0_are_not_permitted) ok = x.size() > 1 && x[0] == '0';
            else if (c == EC::octet_has_invalid_symbol) { ok = false; for (char y : x) if (!ref::is_digit(y)) ok = true; }
            else { ok = x.size() >= 3; } }
        CHECK(ok, K + "-octet", "the message [", o.what, "] names the wrong octet"); HIT("message-octet");
    }
}
template <class T> void messages(Rng& r) {
    const bool net = r.one_in(3);
    int v = gen::ver(r);
    std::string t = net ? gen::net_text(r, v, 20) : gen::addr_text(r, v, 20);
    if (r.one_in(3)) t = gen::mutate(r, t);
    if (r.one_in(10)) while (t.size() < 120) t += "0123456789abcdef:./%"[r.below(20)];
    else if (r.one_in(8)) t.insert(r.below(t.size() + 1), 1 + r.below(3), "09a."[r.below(4)]);
    std::vector<uint32_t> cps;
    for (char ch : t) if ((unsigned char)ch < 128 && ch) cps.push_back(uint32_t(ch));
    if (encoded<T>() && r.one_in(3)) {
        static const uint32_t odd[] = {0x80, 0xFF, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF, 0x430, 0x1F600, 0x3042};
        for (size_t k = r.below(2) + 1; k--; ) {
            uint32_t u = r.one_in(2) ? odd[r.below(13)] : uint32_t(0x80 + r.below(r.one_in(2) ? 0x2000 : 0x10FF80));
            if (u >= 0xD800 && u < 0xE000) u = 0xE000;
            cps.insert(cps.begin() + long(r.below(cps.size() + 1)), u);
        }
    }
    if (net) { message<ip::ipv4_network, T>(cps, r); message<ip::ipv6_network, T>(cps, r); message<ip::ip_network, T>(cps, r); }
    else { message<ip::ipv4_address, T>(cps, r); message<ip::ipv6_address, T>(cps, r); message<ip::ip_address, T>(cps, r); }
    h::nt(h::hs(t, cps.size())); h::sample(t);
}
#endif
void workload() {
    static const char* fixed[] = {"", "/", "//", "/8", "1.2.3.4/", "1.2.3.4//8", "/255.0.0.0", "1.2.3.4/33", "1.2.3.4/8", "::/", "::/129", "::1/64", "%", "::%", "::%/1", "::1%eth0/64", "1.2.3", "1.2.3.4.5", "01.2.3.4", "1..2.3", "256.1.1.1", "1.2.3.4/255.0.255.0", "1.2.3.4/0.255.0.255", ".", ":", ":::", "::1::", "1:2:3:4:5:6:7:8:9", "1:2:3:4:5:6:7:8", "1:2:3:4:5:6:7::8", "::12345", "g::", "::1.2.3.4", "1:2:3:4:5:6:7:1.2.3.4", "::1.2.3.256", "::1.2.3", " ", "a", "1", "0"};
    h::phase("fixed", 40 * 2, [](uint64_t i, Rng& r) {
        const std::string t = fixed[i / 2];
        parse_types<char>(t, r, i % 2); parse_types<wchar_t>(t, r, i % 2); parse_types<char16_t>(t, r, i % 2); parse_types<char32_t>(t, r, i % 2);
#if HAS_U8
        parse_types<char8_t>(t, r, i % 2);
#endif
        literals(t, r);
        h::nt(h::hs(t, i % 2));
        if (i % 8 == 0) h::sample(t);
    }, false);
    // every short string over a small alphabet
    h::phase("short", 8 + 64 + 512 + 4096, [](uint64_t i, Rng& r) {
        static const char al[] = "1.:/%0a\xC3";
        std::string t; uint64_t n = 8, len = 1;
        while (i >= n) { i -= n; n *= 8; ++len; }
        for (uint64_t k = 0; k < len; ++k) { t += al[i % 8]; i /= 8; }
        parse_types<char>(t, r, r.one_in(2));
        literals(t, r);
        h::nt(h::hs(t));
    });
    h::random_phase("addresses", 12000, [](uint64_t, Rng& r) {
        std::string t = gen::addr_text(r, gen::ver(r), 70);
        switch (r.below(5)) {
            case 0: parse_types<wchar_t>(t, r, false); break;
            case 1: if (gen::value(r, 4) & 1) parse_types<char16_t>(t, r, false); else parse_types<char32_t>(t, r, false); break;
            default: parse_types<char>(t, r, false);
        }
        if (r.one_in(2)) literals(t, r);
        h::nt(h::hs(t)); h::sample(t);
    });
    h::random_phase("networks", 12000, [](uint64_t, Rng& r) {
        std::string t = gen::net_text(r, gen::ver(r), 50);
        bool ascii = true; for (char c : t) if ((unsigned char)c > 127) ascii = false;
        switch (ascii ? r.below(5) : 4) {
            case 0: parse_types<wchar_t>(t, r, true); break;
            case 1: if (gen::value(r, 4) & 1) parse_types<char16_t>(t, r, true); else parse_types<char32_t>(t, r, true); break;
            default: parse_types<char>(t, r, true);
        }
        if (r.one_in(2)) literals(t, r);
        h::nt(h::hs(t)); h::sample(t);
    });
    h::random_phase("algebra", 14000, [](uint64_t, Rng& r) {
        Net a = gen::net(r, gen::ver(r), true), b = r.one_in(2) ? gen::near(r, a) : gen::net(r, gen::ver(r), true);
        if (a.ver == 4 && b.ver == 4) algebra<ip::ipv4_network>("net4", a, b, r);
        else if (a.ver == 6 && b.ver == 6) algebra<ip::ipv6_network>("net6", a, b, r);
        algebra<ip::ip_network>("netany", a, b, r);
        h::nt(h::hs(ref::str(a) + ref::str(b))); h::sample(ref::str(a) + " " + ref::str(b));
    });
    h::random_phase("scope", 8000, [](uint64_t, Rng& r) {
        Addr a = gen::addr(r, 6);
        std::string s = gen::scope_text(r, H_SCOPE_MAX + 2);
        if (r.one_in(3)) s = gen::mutate(r, s);
        if (r.one_in(10)) s.clear();
        bool ascii = true; for (char c : s) if ((unsigned char)c > 127) ascii = false;
        if (!ascii) { std::string o; for (char c : s) o += char(c & 127); s = o; }
        switch (r.below(6)) {
            case 0: scope_one<ip::ipv6_address, wchar_t>("scope", a, s, r); break;
            case 1: scope_one<ip::ip_address, char16_t>("scope-any", a, s, r); break;
            case 2: scope_one<ip::ipv6_address, char32_t>("scope", a, s, r); break;
            case 3: scope_one<ip::ip_address, char>("scope-any", a, s, r); break;
#if HAS_U8
            case 4: scope_one<ip::ipv6_address, char8_t>("scope", a, s, r); break;
#endif
            default: scope_one<ip::ipv6_address, char>("scope", a, s, r);
        }
        h::nt(h::hs(ref::str(a) + s)); h::sample(ref::str(a) + " " + s);
    });
#if H_EXC
    h::random_phase("messages", 6000, [](uint64_t i, Rng& r) {
        switch (i % 5) {
            case 0: messages<wchar_t>(r); break;
            case 1: messages<char16_t>(r); break;
            case 2: messages<char32_t>(r); break;
#if HAS_U8
            case 3: messages<char8_t>(r); break;
#endif
            default: messages<char>(r);
        }
    });
#endif
#ifndef IPADDRESS_NONTYPE_TEMPLATE_PARAMETER
    h::random_phase("long-literals", 2000, [](uint64_t, Rng& r) {
        std::string t = gen::net_text(r, gen::ver(r), 0);
        std::string o; for (char ch : t) if ((unsigned char)ch < 128 && ch) o += ch;
        t = o;
        const size_t m6 = 45 + (H_SCOPE_MAX ? 1 + H_SCOPE_MAX : 0);
        const size_t edge[] = {15, 31, m6, m6 + 4};                       // the longest text each literal must take
        size_t want = r.one_in(2) ? edge[r.below(4)] - 1 + r.below(3) : r.one_in(8) ? 90 + r.below(40) : 10 + r.below(66);
        if (t.size() > want) t.resize(want);
        while (t.size() < want) t.insert(r.one_in(2) ? t.size() : r.below(t.size() + 1), 1, "0123456789abcdef:./%"[r.below(20)]);
        literals(t, r);
        h::nt(h::hs(t)); h::sample(t);
    });
#endif
}
