// C10: uint128_t text and floating-point conversions are exact
#include "lib.hpp"
#include <sstream>
#include <iomanip>
#include <locale>
#include <cmath>
using namespace L;
typedef ip::uint128_t U;
#ifndef IPADDRESS_NO_OVERLOAD_STD
#define HAS_STD 1
#else
#define HAS_STD 0
#endif
static std::string digits(u128 v, unsigned base) {
    if (!v) return "0";
    std::string s;
    while (v) { s.insert(s.begin(), "0123456789abcdef"[unsigned(v % base)]); v /= base; }
    return s;
}
static U::format F(unsigned base) { return base == 10 ? U::format::decimal : base == 8 ? U::format::octal : U::format::hexadecimal; }
// reference reader: digits of the base up to the end, at least one, below 2^128
static bool read(const std::string& s, unsigned base, u128& out) {
    if (s.empty()) return false;
    u128 v = 0;
    for (char c : s) {
        int d = ref::hexval(c);
        if (d < 0 || d >= int(base)) return false;
        if (v > (~u128(0) - unsigned(d)) / base) return false;
        v = v * base + unsigned(d);
    }
    out = v;
    return true;
}
static u128 val(Rng& r) {
    switch (r.below(8)) {
        case 0: return r.wide();
        case 1: return r.next();
        case 2: { u128 v = u128(1) << r.below(128); return r.one_in(3) ? v - 1 : r.one_in(2) ? v : ~v; }
        case 3: return r.below(1000);
        case 4: return ~u128(0) - r.below(1000);
        case 5: { u128 v = 1; for (uint64_t k = r.below(39); k; --k) v *= 10; return v + r.below(3) - 1; }
        case 6: return r.wide() >> r.below(128);
        default: { u128 v = r.wide() >> r.below(75); int z = int(r.below(75)); return (v >> z) << z; }
    }
}
template <class T> void from_one(const char* tn, const std::string& s, unsigned base, bool ok, u128 want) {
    auto o = U::from_string(widen<T>(s), F(base));
    CHECK(bool(o) == ok && o.has_value() == ok, std::string("from_string-") + (ok ? "rejected" : "accepted"), tn, " base ", int(base), " ", h::q(s), o ? " gave " + digits(wide(o.value()), 10) : std::string(" gave none"));
    if (ok && o) CHECK(wide(o.value()) == want, "from_string-value", tn, " base ", int(base), " ", h::q(s), " gave ", wide(o.value()), " expected ", want);
}
struct FromArr { bool ok; u128 want; unsigned base; std::string s;
    template <class T, size_t N> void operator()(const T (&a)[N]) const {
        auto o = U::from_string(a, F(base));
        CHECK(bool(o) == ok && (!ok || wide(o.value()) == want), "from_string-array", "base ", int(base), " ", h::q(s), " in an array of ", uint64_t(N));
    } };
static void text(const std::string& s, unsigned base, Rng& r, bool all) {
    h::note(h::q(s));
    // an embedded NUL ends the text (accepted limitation, see DESIGN.md)
    std::string t = s.substr(0, s.find('\0'));
    if (t.size() != s.size()) HIT("embedded-nul");
    u128 want = 0; bool ok = read(t, base, want);
    from_one<char>("char", s, base, ok, want);
    if (all) {
        bool asc = true; for (char c : s) if ((unsigned char)c > 127) asc = false;
        if (asc) {
            from_one<wchar_t>("wchar_t", s, base, ok, want); from_one<char16_t>("char16_t", s, base, ok, want); from_one<char32_t>("char32_t", s, base, ok, want);
#if HAS_U8
            from_one<char8_t>("char8_t", s, base, ok, want);
#endif
            FromArr f; f.ok = ok; f.want = want; f.base = base; f.s = s;
            with_array<char>(s, f); with_array<char16_t>(widen<char16_t>(s), f);
        }
        // characters that narrow to a digit but are not one
        if (ok && r.one_in(3)) {
            size_t p = r.below(t.size());
            std::u16string a = widen<char16_t>(s); a[p] = char16_t(a[p] + (r.one_in(2) ? 0x100 : 0xff00 - 0x20 + 0x20));
            CHECK(!U::from_string(a, F(base)), "from_string-wide-alias", h::q(s), " with a non-ASCII character at ", uint64_t(p));
            std::u32string b = widen<char32_t>(s); b[p] = char32_t(b[p] + (r.one_in(2) ? 0x10000 : 0x100));
            CHECK(!U::from_string(b, F(base)), "from_string-wide-alias", h::q(s), " with a non-ASCII character at ", uint64_t(p));
            HIT("wide-alias");
        }
        if (base == 10) { auto o = U::from_string(s); CHECK(bool(o) == ok && (!ok || wide(o.value()) == want), "from_string-default-base", h::q(s)); }
    }
    if (ok) HIT("text-accepted"); else HIT("text-rejected");
    h::nt(h::hs(s, base));
}
static void value(u128 v, Rng& r, bool streams) {
    const U x = u128_of(v);
    h::note(h::str(v));
    static const unsigned bases[] = {10, 8, 16};
    for (unsigned b : bases) {
        std::string w = digits(v, b);
        CHECK(x.to_string(F(b)) == w, "to_string", "base ", int(b), " of ", v, " gave ", x.to_string(F(b)), " expected ", w);
        CHECK(narrow(x.to_wstring(F(b))) == w && narrow(x.to_u16string(F(b))) == w && narrow(x.to_u32string(F(b))) == w, "to_string-wide", "base ", int(b), " of ", v);
#if HAS_U8
        CHECK(narrow(x.to_u8string(F(b))) == w, "to_string-wide", "u8 base ", int(b), " of ", v);
#endif
        text(w, b, r, streams);
        if (b == 16) { std::string up = w; for (char& c : up) if (c >= 'a') c = char(c - 32); text(up, b, r, false); }
        if (r.one_in(4)) text(std::string(r.below(60), '0') + w, b, r, false);
#if HAS_STD
        if (streams) {
            std::ostringstream o; std::wostringstream wo;
            std::string e = w;
            if (b == 16) { o << std::hex; wo << std::hex; } else if (b == 8) { o << std::oct; wo << std::oct; } else if (r.one_in(2)) { o << std::dec; wo << std::dec; }
            if (r.one_in(2)) { o << std::uppercase; wo << std::uppercase; for (char& c : e) if (c >= 'a') c = char(c - 32); }
            size_t wd = r.one_in(2) ? 0 : size_t(r.below(50));
            char fill = r.one_in(2) ? ' ' : r.one_in(2) ? '0' : '*';
            int adj = int(r.below(3));
            o << std::setw(int(wd)) << std::setfill(fill); wo << std::setw(int(wd)) << std::setfill(wchar_t(fill));
            if (adj == 0) { o << std::left; wo << std::left; } else if (adj == 1) { o << std::right; wo << std::right; }
            if (e.size() < wd) e = adj == 0 ? e + std::string(wd - e.size(), fill) : std::string(wd - e.size(), fill) + e;
            o << x << ';' << x; wo << x << L';' << x;
            std::string e2 = w; if (o.flags() & std::ios_base::uppercase) for (char& c : e2) if (c >= 'a') c = char(c - 32);
            CHECK(o.str() == e + ";" + e2, "stream-out", "base ", int(b), " width ", uint64_t(wd), " of ", v, " gave ", h::q(o.str()), " expected ", h::q(e + ";" + e2));
            CHECK(narrow(wo.str()) == e + ";" + e2, "wstream-out", "base ", int(b), " of ", v, " gave ", h::q(narrow(wo.str())));
            // reading back the same base, in company
            std::istringstream in("  " + w + "\n" + w + " zz"); std::wistringstream win(widen<wchar_t>(w + " " + w));
            if (b == 16) { in >> std::hex; win >> std::hex; } else if (b == 8) { in >> std::oct; win >> std::oct; }
            U y, z, k(7), wy, wz;
            in >> y >> z; win >> wy >> wz;
            CHECK(!in.fail() && y == x && z == x && !win.fail() && wy == x && wz == x, "stream-in", "base ", int(b), " ", w, " gave ", wide(y), " ", wide(z));
            in >> k;
            CHECK(in.fail(), "stream-in-accepted", "zz read as ", wide(k));
            HIT("streams");
        }
#endif
    }
    CHECK(x.to_string() == digits(v, 10), "to_string-default", v);
#if HAS_STD
    if (streams) CHECK(std::to_string(x) == digits(v, 10) && narrow(std::to_wstring(x)) == digits(v, 10), "std-to_string", v);
#endif
    h::nt(h::hv(v, 10));
}
static void to_float(u128 v) {
    const U x = u128_of(v);
    h::note(h::str(v));
    double d = double(v);
    CHECK(double(x) == d, "to-double", v, " gave ", double(x), " expected ", d);
    CHECK(float(x) == float(d), "to-float", v, " gave ", double(float(x)));
    CHECK((long double)(x) == (long double)(d), "to-long-double", v);
    h::nt(h::hv(v, 53));
}
static u128 trunc_ref(double d) {
    if (!(d >= 1.0)) return 0;      // negatives, NaN and fractions
    if (d >= 340282366920938463463374607431768211456.0) return ~u128(0);
    return u128(d);
}
static void from_float(double d) {
    h::note(h::str(d));
    u128 w = trunc_ref(d);
    CHECK(wide(U(d)) == w, "from-double", d, " gave ", wide(U(d)), " expected ", w);
    CHECK(wide(U((long double)d)) == w, "from-long-double", d, " gave ", wide(U((long double)d)));
    float f = float(d);
    CHECK(wide(U(f)) == trunc_ref(double(f)), "from-float", double(f), " gave ", wide(U(f)));
    // mixed arithmetic with a floating left operand goes through the same conversion
    CHECK(wide(d + U(1)) == w + 1, "double-plus", d);
    uint64_t b; memcpy(&b, &d, 8); h::nt(h::mix(b));
    if (w == 0) HIT("float-zero"); else if (w == ~u128(0)) HIT("float-saturated"); else HIT("float-inside");
}
struct Group : std::numpunct<char> { char do_thousands_sep() const { return '.'; } std::string do_grouping() const { return "\3"; } std::string do_truename() const { return "ja"; } };
struct GroupW : std::numpunct<wchar_t> { wchar_t do_thousands_sep() const { return L'.'; } std::string do_grouping() const { return "\3"; } };

void workload() {
    h::phase("powers", 3 * 130 * 5, [](uint64_t i, Rng& r) {
        unsigned b = i % 3 == 0 ? 2 : i % 3 == 1 ? 10 : 16; i /= 3; int k = int(i % 130); i /= 130;
        u128 v = 1; for (int j = 0; j < k; ++j) v *= b;
        value(v + i - 2, r, i == 2); to_float(v + i - 2);
    });
    h::random_phase("values", 6000, [](uint64_t i, Rng& r) { u128 v = val(r); value(v, r, i % 4 == 0); h::sample(digits(v, 10)); });
    // texts near 2^128 in every base
    h::phase("limit", 3 * 400, [](uint64_t i, Rng& r) {
        unsigned b = i % 3 == 0 ? 10 : i % 3 == 1 ? 8 : 16; i /= 3;
        std::string m = digits(~u128(0), b);
        if (i < 200) { size_t p = i % m.size(); char c = b == 16 ? "0123456789abcdef"[r.below(16)] : char('0' + r.below(b)); m[p] = c; }
        else if (i < 260) m += char('0' + r.below(b));
        else if (i < 300) m = std::string(r.below(100), '0') + m;
        else { m = "1"; for (uint64_t k = 0; k < i - 300; ++k) m += '0'; }
        text(m, b, r, true);
        h::sample(std::to_string(b) + ":" + m);
    });
    // the largest value with every digit at every position replaced by every digit
    h::phase("limit-digits", 39 * 10 + 43 * 8 + 32 * 16, [](uint64_t i, Rng& r) {
        unsigned b = 10;
        if (i >= 390) { i -= 390; b = 8; if (i >= 344) { i -= 344; b = 16; } }
        std::string m = digits(~u128(0), b);
        m[size_t(i / b)] = "0123456789abcdef"[i % b];
        text(m, b, r, true);
        h::sample(std::to_string(b) + ":" + m);
    });
    h::random_phase("mutated", 8000, [](uint64_t i, Rng& r) {
        unsigned b = i % 3 == 0 ? 10 : i % 3 == 1 ? 8 : 16;
        std::string s = digits(val(r), b);
        static const char al[] = "0123456789abcdefABCDEFgGxX+-. 89:/@`\t";
        int n = 1 + int(r.below(3));
        for (int k = 0; k < n; ++k) { size_t p = r.below(s.size() + 1); if (r.one_in(2) && p < s.size()) s[p] = al[r.below(sizeof al - 1)]; else if (r.one_in(3) && p < s.size()) s.erase(p, 1); else s.insert(p, 1, al[r.below(sizeof al - 1)]); }
        text(s, b, r, i % 2 == 0);
        h::sample(std::to_string(b) + ":" + h::q(s));
    });
    // every byte value at start, middle, end
    h::phase("bytes", 3 * 256 * 3, [](uint64_t i, Rng& r) {
        unsigned b = i % 3 == 0 ? 10 : i % 3 == 1 ? 8 : 16; i /= 3; int pos = int(i % 3); char c = char(i / 3);
        std::string s = "1234567"; if (pos == 0) s[0] = c; else if (pos == 1) s[3] = c; else s += c;
        text(s, b, r, true);
        text(std::string(1, c), b, r, true);
    });
    h::phase("empty", 3, [](uint64_t i, Rng& r) { text("", i == 0 ? 10 : i == 1 ? 8 : 16, r, true); }, false);
    // doubles: every exponent with extreme and random mantissas, both signs
    h::phase("doubles", 2048 * 2 * 8, [](uint64_t i, Rng& r) {
        uint64_t e = i % 2048, s = (i / 2048) % 2, m = i / 4096;
        uint64_t man = m == 0 ? 0 : m == 1 ? (1ull << 52) - 1 : m == 2 ? 1 : m == 3 ? 1ull << 51 : r.next() >> 12;
        uint64_t bits = s << 63 | e << 52 | man;
        double d; memcpy(&d, &bits, 8);
        from_float(d);
    });
    h::random_phase("double-values", 30000, [](uint64_t, Rng& r) { double d = double(val(r)); if (r.one_in(2)) d = std::nextafter(d, r.one_in(2) ? 0 : 1e300); if (r.one_in(4)) d += 0.5; from_float(d); h::sample(h::str(d)); });
    // rounding: 53 significant bits, then every kind of tail, at every position
    h::random_phase("rounding", 60000, [](uint64_t, Rng& r) {
        int len = 54 + int(r.below(75)); if (len > 128) len = 128;
        u128 top = (u128(1) << 52) | (r.next() & ((1ull << 52) - 1));
        if (r.one_in(4)) top = (u128(1) << 53) - 1 - r.below(2);
        int tail = len - 53;
        u128 half = u128(1) << (tail - 1);
        u128 t;
        switch (r.below(7)) { case 0: t = half; break; case 1: t = half + 1; break; case 2: t = half - 1; break; case 3: t = half | (u128(1) << r.below(uint64_t(tail))); break; case 4: t = (half << 1) - 1; break; case 5: t = (u128(1) << r.below(uint64_t(tail))); break; default: t = r.wide() & ((half << 1) - 1); }
        t &= (half << 1) - 1;
        to_float((top << tail) | t);
        HIT("rounding");
        h::sample(h::str((top << tail) | t));
    });
    h::random_phase("float-values", 40000, [](uint64_t, Rng& r) { to_float(val(r)); });
    // the digits do not depend on the process's global locale
    h::phase("locale", 40, [](uint64_t i, Rng& r) {
        std::locale old = std::locale::global(std::locale(std::locale(std::locale::classic(), new Group), new GroupW));
        u128 v = i < 4 ? u128(1234567) << (10 * i) : val(r);
        const U x = u128_of(v);
        std::string d = x.to_string(), o = x.to_string(U::format::octal), hx = x.to_string(U::format::hexadecimal), w = narrow(x.to_wstring());
        auto back = U::from_string(d);
        bool back_ok = back && wide(back.value()) == v;
#if HAS_STD
        std::ostringstream os; os << x; std::string st = os.str(); std::istringstream in(st); U y; in >> y; bool in_ok = !in.fail() && wide(y) == v;
#else
        std::string st = d; bool in_ok = true;
#endif
        std::locale::global(old);
        CHECK(d == digits(v, 10) && o == digits(v, 8) && hx == digits(v, 16) && w == d, "locale-to_string", v, " gave ", d, " ", o, " ", hx);
        CHECK(back_ok && st == d && in_ok, "locale-stream", v, " streamed ", st);
        HIT("grouping-locale");
    }, false);
}
#ifdef H_FUZZ
static void fuzz_case(const std::string& b, Rng& r) {
    static const unsigned bases[] = {10, 8, 16};
    if (!b.empty()) text(b.substr(1), bases[(unsigned char)b[0] % 3], r, true);
}
#include "fuzz.hpp"
#endif
