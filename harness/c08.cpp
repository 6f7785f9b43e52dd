// C08: text in any encoding means what its code points mean, and only ASCII means anything
#include "textmon.hpp"
#include <algorithm>
using namespace tmon;
typedef ip::error_code EC;
#define OK ip::error_code::no_error

// ---- reference decoder: true when the whole sequence is well formed and every code point is ASCII
template <class T> bool decode(const std::basic_string<T>& s, std::string& out) {
    out.clear();
    for (T u : s) {
        // a multi-unit sequence never denotes an ASCII code point in a well-formed text, so every unit must be ASCII itself
        if (u < T(0) || uint32_t(u) > 127) return false;
        out += char(u);
    }
    return true;
}
template <class T> struct Name;
template <> struct Name<char> { static const char* s() { return "char"; } };
template <> struct Name<wchar_t> { static const char* s() { return "wchar_t"; } };
template <> struct Name<char16_t> { static const char* s() { return "char16_t"; } };
template <> struct Name<char32_t> { static const char* s() { return "char32_t"; } };
#if HAS_U8
template <> struct Name<char8_t> { static const char* s() { return "char8_t"; } };
#endif
template <class T> std::string show(const std::basic_string<T>& s) {
    std::string o = std::string(Name<T>::s()) + "[";
    char b[16];
    for (T c : s) {
        uint32_t u = sizeof(T) == 1 ? uint32_t((unsigned char)c) : sizeof(T) == 2 ? uint32_t(uint16_t(c)) : uint32_t(c);
        if (u >= 32 && u < 127) o += char(u); else { snprintf(b, sizeof b, "<%x>", u); o += b; }
    }
    return o + "]";
}
template <class X> struct Ref;
template <> struct Ref<ip::ipv4_address> { typedef Addr V; enum { NET = 0 }; static bool read(const std::string& t, bool, Addr& o) { return ref::parse(4, t, o); } static const char* key() { return "v4"; } };
template <> struct Ref<ip::ipv6_address> { typedef Addr V; enum { NET = 0 }; static bool read(const std::string& t, bool, Addr& o) { return ref::parse(6, t, o); } static const char* key() { return "v6"; } };
template <> struct Ref<ip::ip_address> { typedef Addr V; enum { NET = 0 }; static bool read(const std::string& t, bool, Addr& o) { return ref::parse_any(t, o); } static const char* key() { return "any"; } };
template <> struct Ref<ip::ipv4_network> { typedef Net V; enum { NET = 1 }; static bool read(const std::string& t, bool s, Net& o) { return ref::parse_net(4, t, s, o) == 0; } static const char* key() { return "net4"; } };
template <> struct Ref<ip::ipv6_network> { typedef Net V; enum { NET = 1 }; static bool read(const std::string& t, bool s, Net& o) { return ref::parse_net(6, t, s, o) == 0; } static const char* key() { return "net6"; } };
template <> struct Ref<ip::ip_network> { typedef Net V; enum { NET = 1 }; static bool read(const std::string& t, bool s, Net& o) { return ref::parse_net_any(t, s, o); } static const char* key() { return "netany"; } };

template <class X, class T, bool N> struct Call;
template <class X, class T> struct Call<X, T, false> {
    static X ec(const std::basic_string<T>& s, EC& c, bool) { return parse_ec<X, T>(s, c); }
    static X th(const std::basic_string<T>& s, bool) { return parse_th<X, T>(s); }
    template <class S> static X raw(const S& s, EC& c, bool) { return X::parse(s, c); }
};
template <class X, class T> struct Call<X, T, true> {
    static X ec(const std::basic_string<T>& s, EC& c, bool st) { return parse_ec<X, T>(s, c, st); }
    static X th(const std::basic_string<T>& s, bool st) { return parse_th<X, T>(s, st); }
    template <class S> static X raw(const S& s, EC& c, bool st) { return X::parse(s, c, st); }
};
template <class X, class T> void verdict(const char* how, const std::basic_string<T>& s, bool want_ok, const typename Ref<X>::V& want, EC c, const X& got) {
    ++h::st().checks;
    const std::string k = std::string(Ref<X>::key()) + "-" + Name<T>::s();
    if ((c == OK) != want_ok) h::bad(k + (want_ok ? "-rejected" : "-accepted"), h::cat(how, " ", show(s), want_ok ? " must be read" : " must be refused; gave ", of(got), " ", c));
    else if (want_ok && of(got) != want) h::bad(k + "-value", h::cat(how, " ", show(s), " gave ", of(got), " instead of ", want));
    else if (!want_ok && got != X()) h::bad(k + "-nondefault", h::cat(how, " ", show(s), " gave ", of(got)));
}
template <class X, class T> void judge(const std::basic_string<T>& s, Rng& r) {
    std::string t;
    const bool dec = decode(s, t), strict = r.one_in(2);
    typename Ref<X>::V want;
    const bool ok = dec && Ref<X>::read(t, strict, want);
    typedef Call<X, T, bool(Ref<X>::NET)> C;
    EC c = stale(r);
    X x = C::ec(s, c, strict);
    verdict<X, T>("parse", s, ok, want, c, x);
    if (ok) HIT("read"); else if (dec) HIT("refused-ascii"); else HIT("refused-non-ascii");
    // array form: the text ends at the first NUL
    if (r.one_in(4)) {
        size_t z = 0; while (z < s.size() && s[z] != T(0)) ++z;
        std::basic_string<T> sa(s, 0, z);
        std::string ta;
        typename Ref<X>::V wa;
        const bool oka = decode(sa, ta) && Ref<X>::read(ta, true, wa);
        ArrEc<X> f; f.out = &x; f.c = &c; c = stale(r);
        if (with_array<T>(s, f)) {
            // whether units after the NUL are looked at is not specified for arrays: only judge arrays holding one text
            if (z == s.size()) { verdict<X, T>("parse(array)", s, oka, wa, c, x); HIT("array"); }
        }
    }
#if H_EXC
    if (ok ? r.one_in(4) : r.one_in(48)) {
        X y; bool threw = false;
        Out o = guard([&] { y = C::th(s, strict); });
        threw = o.kind != NONE;
        CHECK(threw == !ok && (!threw || o.kind == PARSE_ERROR), std::string(Ref<X>::key()) + "-throw", show(s), " kind ", o.kind, " ", o.what);
        if (ok && !threw) CHECK(of(y) == want, std::string(Ref<X>::key()) + "-throw-value", show(s));
        if (threw) CHECK(!o.what.empty(), std::string(Ref<X>::key()) + "-message", show(s));
        HIT("throwing-form");
    }
#else
    if (r.one_in(4)) { X y = C::th(s, strict); if (ok) CHECK(of(y) == want, std::string(Ref<X>::key()) + "-noexc-value", show(s)); }
#endif
#if CPP17
    // a view into a longer buffer: what follows must not matter
    if (r.one_in(3)) {
        static const uint32_t tail[] = {0x80, 0xBF, 0xDC00, 0xDFFF, '1', '.', ':', '/', 0, 0xD800, 'f'};
        std::basic_string<T> b = s;
        for (int i = 0; i < 4; ++i) b += T(tail[r.below(11)]);
        c = stale(r);
        X y = C::raw(std::basic_string_view<T>(b.data(), s.size()), c, strict);
        verdict<X, T>("parse(view into a longer buffer)", s, ok, want, c, y);
        HIT("view");
    }
#endif
}
template <class T> void scope(const std::basic_string<T>& s, Rng& r) {
#if HAS_SCOPE
    std::string t;
    const bool ok = decode(s, t) && (t.empty() || ref::scope_ok(t));
    Addr a = gen::addr(r, 6);
    ip::ipv6_address x = a6(a.v, a.scope);
    ip::ip_address y = x;
    EC c = stale(r), d = stale(r);
    { Exact<T> e(s); x.set_scope_id(PARSE_ARG(T, e), c); y.set_scope_id(PARSE_ARG(T, e), d); }
    const std::string k = std::string("scope-") + Name<T>::s();
    CHECK((c == OK) == ok && (d == OK) == ok, k, show(s), ok ? " must be taken " : " must be refused ", c, " ", d);
    if (ok) a.scope = t;
    CHECK(of(x) == a && of(y) == a, k + "-value", show(s), " left ", of(x), " and ", of(y), " expected ", a);
    HIT("scope");
#endif
}
// uint128 numbers in text obey the same rule
template <class T> void number(const std::basic_string<T>& s, Rng& r) {
    std::string t;
    bool ok = decode(s, t) && !t.empty() && t.find('\0') == std::string::npos;
    for (char ch : t) if (!ref::is_digit(ch)) ok = false;
    if (t.size() > 30) return;
    for (T u : s) if (u == T(0)) return;
    Exact<T> e(s);
    auto v = ip::uint128_t::from_string(s);
    CHECK(bool(v) == ok, std::string("number-") + Name<T>::s(), show(s), ok ? " must be read" : " must be refused");
    if (ok && v) { u128 n = 0; for (char ch : t) n = n * 10 + u128(ch - '0'); CHECK(wide(*v) == n, std::string("number-value-") + Name<T>::s(), show(s)); }
    HIT("number");
    (void)r;
}

static const char* base4[] = {"1.2.3.4", "255.255.255.255", "10.20.30.40"};
static const char* base6[] = {"::", "1:2:3:4:5:6:7:8", "fe80::1%eth0", "::ffff:1.2.3.4", "2001:db8::", "::1%1"};
static const char* basen4[] = {"1.2.3.0/24", "10.0.0.0/255.0.0.0", "0.0.0.0/0", "1.2.3.4"};
static const char* basen6[] = {"::/0", "2001:db8::/32", "::1/128", "fe80::%eth0/64", "1:2::"};

// put u at a position of a base text (replace, insert or append) and judge it with the types that could read the base
template <class T> void planted(const std::basic_string<T>& u, Rng& r) {
    for (int fam = 0; fam < 4; ++fam) {
        std::string b = fam == 0 ? base4[r.below(3)] : fam == 1 ? base6[r.below(6)] : fam == 2 ? basen4[r.below(4)] : basen6[r.below(5)];
        std::basic_string<T> s = widen<T>(b);
        size_t at;
        switch (r.below(4)) {
            case 0: at = s.size(); s += u; break;
            case 1: at = r.below(s.size() + 1); s.insert(at, u); break;
            case 2: at = r.below(s.size()); s = s.substr(0, at) + u; break;                         // truncated right after it
            default: at = r.below(s.size()); s.replace(at, 1, u);
        }
        if (h::st().viols.size() < 20) h::note(show(s));
        switch (fam) {
            case 0: judge<ip::ipv4_address, T>(s, r); break;
            case 1: judge<ip::ipv6_address, T>(s, r); break;
            case 2: judge<ip::ipv4_network, T>(s, r); break;
            default: judge<ip::ipv6_network, T>(s, r);
        }
        if (r.one_in(4)) { if (fam < 2) judge<ip::ip_address, T>(s, r); else judge<ip::ip_network, T>(s, r); }
        h::nt(h::hv(h::hs(show(s)), fam));
    }
    if (r.one_in(4)) { std::basic_string<T> s = widen<T>(std::string("eth01")); if (r.one_in(2)) s.insert(r.below(6), u); else s.replace(r.below(5), 1, u); scope<T>(s, r); }
    if (r.one_in(8)) { std::basic_string<T> s = widen<T>(std::string("1234567")); s.replace(r.below(7), 1, u); number<T>(s, r); }
}
// the same through the positions exhaustively: u replaces / is inserted at every position of the text
template <class T> void everywhere(const std::basic_string<T>& u, Rng& r) {
    static const char* b[] = {"1.2.3.4", "::1%e0", "::1.2.3.4"};
    for (int k = 0; k < 3; ++k)
        for (size_t at = 0; at <= strlen(b[k]); ++at)
            for (int ins = 0; ins < 2; ++ins) {
                std::basic_string<T> s = widen<T>(std::string(b[k]));
                if (ins) s.insert(at, u); else { if (at == s.size()) continue; s.replace(at, 1, u); }
                h::note(show(s));
                if (k == 0) judge<ip::ipv4_address, T>(s, r); else judge<ip::ipv6_address, T>(s, r);
            }
}
template <class T> std::basic_string<T> units(std::initializer_list<uint32_t> l) { std::basic_string<T> s; for (uint32_t x : l) s += T(x); return s; }

#if defined(IPADDRESS_CHAR_IS_UTF8)
#define U8CHAR char
#elif HAS_U8
#define U8CHAR char8_t
#endif

#ifdef U8CHAR
// every encoding of cp in n bytes, well formed or overlong
static std::basic_string<U8CHAR> enc8(uint32_t cp, int n) {
    std::basic_string<U8CHAR> s;
    if (n == 1) { s += U8CHAR(cp); return s; }
    static const unsigned lead[] = {0, 0, 0xC0, 0xE0, 0xF0, 0xF8, 0xFC};
    s += U8CHAR(lead[n] | (cp >> (6 * (n - 1))));
    for (int i = n - 2; i >= 0; --i) s += U8CHAR(0x80 | ((cp >> (6 * i)) & 63));
    return s;
}
#endif

void workload() {
    const char* syms = "0123456789abcdefABCDEF.:/%eth";
    (void)syms;
    // every 16-bit unit
    h::phase("u16-unit", 65536, [](uint64_t i, Rng& r) { planted<char16_t>(units<char16_t>({uint32_t(i)}), r); if (i % 512 == 0) h::sample("unit " + std::to_string(i)); });
    h::phase("u16-unit-everywhere", h::thorough() ? 65536 : 1024, [](uint64_t i, Rng& r) { everywhere<char16_t>(units<char16_t>({h::thorough() ? uint32_t(i) : uint32_t(i * 64 + r.below(64))}), r); });
    // pairs: surrogates in and out of order, and near them
    h::phase("u16-pair", 24 * 24 * 16, [](uint64_t i, Rng& r) {
        static const uint32_t e[] = {0x31, 0x2e, 0x3a, 0x2f, 0x25, 0x61, 0, 0x80, 0xff, 0x131, 0xd7ff, 0xd800, 0xd801, 0xd831, 0xdbff, 0xdc00, 0xdc01, 0xdc2e, 0xdc31, 0xdfff, 0xe000, 0xfffe, 0xffff, 0x3030};
        uint32_t a = e[i % 24], b = e[i / 24 % 24];
        if (r.one_in(2)) { if (a >= 0xd800 && a < 0xe000) a = (a & 0xfc00) | uint32_t(r.below(1024)); if (b >= 0xd800 && b < 0xe000) b = (b & 0xfc00) | uint32_t(r.below(1024)); }
        planted<char16_t>(units<char16_t>({a, b}), r);
    });
    // 32-bit units: equal to an ASCII character in any of the low bits, every single high bit, and everything around the planes
    h::phase("u32-alias", 128 * 64, [](uint64_t i, Rng& r) {
        uint32_t c = uint32_t(i % 128), k = uint32_t(i / 128), u;
        if (k < 25) u = c | (1u << (7 + k));
        else if (k < 42) u = c + (k - 24) * 0x10000;
        else switch (k) {
            case 42: u = c + 0x100; break; case 43: u = c + 0xff00; break; case 44: u = c + 0xffffff00u; break; case 45: u = c + 0x80000000u; break;
            case 46: u = c + 0xd800; break; case 47: u = c + 0xdc00; break; case 48: u = c + 0xff10; break; case 49: u = c + 0x10ff80; break;
            case 50: u = c + 0x660; break; case 51: u = ~c; break; case 52: u = c << 8; break; case 53: u = c << 16; break; case 54: u = c << 24; break;
            default: u = c | (uint32_t(r.next()) << 8);
        }
        planted<char32_t>(units<char32_t>({u}), r);
        planted<wchar_t>(units<wchar_t>({u}), r);
        if (i % 1000 == 0) h::sample("unit " + std::to_string(u));
    });
    h::phase("u32-low", 0x3000, [](uint64_t i, Rng& r) { planted<char32_t>(units<char32_t>({uint32_t(i)}), r); planted<wchar_t>(units<wchar_t>({uint32_t(i)}), r); });
    h::phase("u32-everywhere", 600, [](uint64_t i, Rng& r) {
        uint32_t u = i < 300 ? uint32_t(i) : uint32_t("0123456789abf.:/%"[r.below(17)]) | (uint32_t(r.next()) << (r.one_in(2) ? 8 : 16));
        everywhere<char32_t>(units<char32_t>({u}), r); everywhere<wchar_t>(units<wchar_t>({u}), r);
    });
#ifdef U8CHAR
    h::phase("u8-pairs", 65536, [](uint64_t i, Rng& r) { planted<U8CHAR>(units<U8CHAR>({uint32_t(i >> 8), uint32_t(i & 255)}), r); });
    h::phase("u8-bytes-everywhere", 256, [](uint64_t i, Rng& r) { everywhere<U8CHAR>(units<U8CHAR>({uint32_t(i)}), r); });
    // overlong and over-wide forms of every ASCII character, whole, truncated, with each byte replaced
    h::phase("u8-overlong", 128 * 5 * 16, [](uint64_t i, Rng& r) {
        uint32_t c = uint32_t(i % 128);
        int n = 2 + int(i / 128 % 5), how = int(i / 640);
        std::basic_string<U8CHAR> u = enc8(c, n);
        if (how >= 1 && how <= 5) { if (size_t(how) < u.size()) u.resize(size_t(how)); else u[u.size() - 1] = U8CHAR(r.below(256)); }
        else if (how == 6) u[0] = U8CHAR(r.below(256));
        else if (how == 7) u[1] = U8CHAR(r.below(256));
        else if (how == 8) u += U8CHAR(0x80 | r.below(64));
        else if (how == 9) u = enc8(c + 128 * uint32_t(1 + r.below(15)), 2);
        else if (how == 10) u = enc8((c + uint32_t(r.next() << 7)) & 0xffff, 3);
        else if (how == 11) u = enc8((c + uint32_t(r.next() << 7)) & 0x1fffff, 4);
        else if (how == 12) u = enc8(c + (uint32_t(r.below(0x110)) << 8), 3 + int(r.below(2)));
        else if (how == 13) u = enc8(0xd800 + uint32_t(r.below(0x800)), 3) + enc8(0xd800 + uint32_t(r.below(0x800)), 3);
        else if (how == 14) { u = enc8(c, n); std::reverse(u.begin(), u.end()); }
        planted<U8CHAR>(u, r);
        if (how == 0) everywhere<U8CHAR>(u, r);
    });
    // three bytes: every lead, continuation classes
    h::phase("u8-triples", 256 * 18 * 18, [](uint64_t i, Rng& r) {
        static const uint32_t e[] = {0x00, 0x2e, 0x31, 0x3a, 0x61, 0x7f, 0x80, 0x81, 0xae, 0xb0, 0xb1, 0xba, 0xbf, 0xc0, 0xc2, 0xe0, 0xf0, 0xff};
        planted<U8CHAR>(units<U8CHAR>({uint32_t(i % 256), e[i / 256 % 18], e[i / 256 / 18]}), r);
    });
#endif
    // plain texts in every encoding: same as ASCII
    h::random_phase("ascii", 12000, [](uint64_t, Rng& r) {
        std::string t = r.one_in(2) ? gen::addr_text(r, gen::ver(r), 60) : gen::net_text(r, gen::ver(r), 60);
        if (!ascii(t)) return;
        h::note(t);
        std::u16string s16 = widen<char16_t>(t); std::u32string s32 = widen<char32_t>(t); std::wstring sw = widen<wchar_t>(t);
        judge<ip::ipv4_address, char16_t>(s16, r); judge<ip::ipv6_address, char16_t>(s16, r); judge<ip::ip_address, char32_t>(s32, r); judge<ip::ipv6_address, char32_t>(s32, r); judge<ip::ip_address, wchar_t>(sw, r);
        judge<ip::ipv4_network, char32_t>(s32, r); judge<ip::ipv6_network, char16_t>(s16, r); judge<ip::ip_network, char16_t>(s16, r); judge<ip::ipv6_network, wchar_t>(sw, r);
#ifdef U8CHAR
        std::basic_string<U8CHAR> s8 = widen<U8CHAR>(t);
        judge<ip::ipv6_address, U8CHAR>(s8, r); judge<ip::ip_network, U8CHAR>(s8, r); judge<ip::ipv4_address, U8CHAR>(s8, r); judge<ip::ip_address, U8CHAR>(s8, r);
#endif
        h::nt(h::hs(t)); h::sample(t);
    });
    // random unit soup
    h::random_phase("soup", 8000, [](uint64_t, Rng& r) {
        std::string t = r.one_in(2) ? gen::addr_text(r, gen::ver(r), 0) : gen::net_text(r, gen::ver(r), 0);
        std::u16string s16 = widen<char16_t>(t); std::u32string s32 = widen<char32_t>(t);
        int k = 1 + int(r.below(3));
        for (int i = 0; i < k && !t.empty(); ++i) {
            size_t p = r.below(t.size());
            s16[p] = char16_t(r.next()); s32[p] = r.one_in(2) ? char32_t(r.next()) : char32_t(r.below(0x110000));
            if (r.one_in(2)) s16[p] = char16_t((s16[p] & 0xff00) | (unsigned char)(t[p]));
            if (r.one_in(2)) s32[p] = char32_t((s32[p] & 0xffffff00u) | (unsigned char)(t[p]));
        }
        h::note(show(s16));
        judge<ip::ip_address, char16_t>(s16, r); judge<ip::ip_network, char32_t>(s32, r); judge<ip::ipv6_address, char32_t>(s32, r); judge<ip::ipv4_network, char16_t>(s16, r);
#ifdef U8CHAR
        std::basic_string<U8CHAR> s8 = widen<U8CHAR>(t);
        for (int i = 0; i < k && !t.empty(); ++i) s8[r.below(s8.size())] = U8CHAR(r.next());
        judge<ip::ip_address, U8CHAR>(s8, r); judge<ip::ip_network, U8CHAR>(s8, r);
#endif
        h::nt(h::hs(show(s16) + show(s32)));
    });
}
#ifdef H_FUZZ
template <class T> std::vector<T> fuzz_units(const std::string& b);
template <class T> static void fuzz_as(const std::string& b, Rng& r) {
    std::vector<T> v = fuzz_units<T>(b);
    std::basic_string<T> s(v.begin(), v.end());
    h::note(show(s));
    judge<ip::ipv4_address, T>(s, r); judge<ip::ipv6_address, T>(s, r); judge<ip::ip_address, T>(s, r);
    judge<ip::ipv4_network, T>(s, r); judge<ip::ipv6_network, T>(s, r); judge<ip::ip_network, T>(s, r);
    scope<T>(s, r); number<T>(s, r);
    h::nt(h::hs(show(s)));
}
static void fuzz_case(const std::string& b, Rng& r) {
    if (b.empty()) return;
    std::string t = b.substr(1);
    switch ((unsigned char)b[0] % 4) {
        case 0: fuzz_as<wchar_t>(t, r); break;
        case 1: fuzz_as<char16_t>(t, r); break;
        case 2: fuzz_as<char32_t>(t, r); break;
#ifdef U8CHAR
        default: fuzz_as<U8CHAR>(t, r);
#else
        default: fuzz_as<char16_t>(t, r);
#endif
    }
}
#define H_FUZZ_TEXT 1
#include "fuzz.hpp"
#endif
