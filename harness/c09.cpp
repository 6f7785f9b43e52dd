// C09: uint128_t integer arithmetic is exact arithmetic modulo 2^128
#include "lib.hpp"
#include <limits>
#include <utility>
#include <functional>
using namespace L;
typedef ip::uint128_t U;

static u128 val(Rng& r) {
    switch (r.below(10)) {
        case 0: return r.wide();
        case 1: return r.next();
        case 2: { u128 v = u128(1) << r.below(128); return r.one_in(3) ? v - 1 : r.one_in(2) ? v : ~v; }
        case 3: return r.below(20);
        case 4: return ~u128(0) - r.below(20);
        case 5: {   // 32-bit digits from an extreme set: reaches the correction steps of long division
            static const uint32_t d[] = {0, 1, 2, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff};
            u128 v = 0;
            for (int i = 0; i < 4; ++i) v = (v << 32) | d[r.below(8)];
            return v >> (r.one_in(2) ? 0 : r.below(128));
        }
        case 6: return r.wide() >> r.below(128);
        case 7: return (u128(r.below(3)) << 64) + r.next();
        case 8: { u128 m = ~u128(0); int a = int(r.below(128)), b = int(r.below(128)); return (m << a) & (m >> b); }
        default: { u128 v = r.wide() >> r.below(128); return v & ~(~u128(0) >> r.below(128)); }
    }
}
#define EQ(expr, want, key) do { U got_ = (expr); CHECK(wide(got_) == u128(want), key, #expr, " a=", a, " b=", b, " gave ", wide(got_), " expected ", u128(want)); } while (0)
#define EQB(expr, want, key) do { bool got_ = bool(expr); CHECK(got_ == bool(want), key, #expr, " a=", a, " b=", b, " gave ", got_); } while (0)

static void pair_check(u128 a, u128 b) {
    h::note(h::cat("a=", a, " b=", b));
    const U x = u128_of(a), y = u128_of(b);
    CHECK(wide(x) == a && x.upper() == uint64_t(a >> 64) && x.lower() == uint64_t(a), "construct", a);
    EQ(x + y, a + b, "add"); EQ(x - y, a - b, "sub"); EQ(x * y, a * b, "mul");
    if (b != 0) {
        EQ(x / y, a / b, "div"); EQ(x % y, a % b, "mod");
        CHECK((x / y) * y + (x % y) == x && (x % y) < y, "div-mod-identity", a, " ", b);
        U t = x; t /= y; CHECK(wide(t) == a / b, "div-assign", a, " ", b, " gave ", wide(t));
        t = x; t %= y; CHECK(wide(t) == a % b, "mod-assign", a, " ", b, " gave ", wide(t));
        if (a >= b && b > 0xffffffffu) HIT("long-division"); else HIT("short-division");
    }
    EQ(x & y, a & b, "and"); EQ(x | y, a | b, "or"); EQ(x ^ y, a ^ b, "xor"); EQ(~x, ~a, "not"); EQ(+x, a, "plus"); EQ(-x, u128(0) - a, "negate");
    { U t = x; U& q = (t += y); CHECK(wide(t) == a + b && &q == &t, "add-assign", a, " ", b); }
    { U t = x; U& q = (t -= y); CHECK(wide(t) == a - b && &q == &t, "sub-assign", a, " ", b); }
    { U t = x; U& q = (t *= y); CHECK(wide(t) == a * b && &q == &t, "mul-assign", a, " ", b); }
    { U t = x; U& q = (t &= y); CHECK(wide(t) == (a & b) && &q == &t, "and-assign", a, " ", b); }
    { U t = x; U& q = (t |= y); CHECK(wide(t) == (a | b) && &q == &t, "or-assign", a, " ", b); }
    { U t = x; U& q = (t ^= y); CHECK(wide(t) == (a ^ b) && &q == &t, "xor-assign", a, " ", b); }
    // aliasing
    { U t = x; t += t; CHECK(wide(t) == a + a, "alias-add", a); }
    { U t = x; t -= t; CHECK(wide(t) == 0, "alias-sub", a); }
    { U t = x; t *= t; CHECK(wide(t) == a * a, "alias-mul", a); }
    if (a) { U t = x; t /= t; CHECK(wide(t) == 1, "alias-div", a); t = x; t %= t; CHECK(wide(t) == 0, "alias-mod", a); }
    { U t = x; U o = t++; CHECK(wide(o) == a && wide(t) == a + 1, "post-increment", a); }
    { U t = x; U& o = ++t; CHECK(&o == &t && wide(t) == a + 1, "pre-increment", a); }
    { U t = x; U o = t--; CHECK(wide(o) == a && wide(t) == a - 1, "post-decrement", a); }
    { U t = x; U& o = --t; CHECK(&o == &t && wide(t) == a - 1, "pre-decrement", a); }
    EQB(x == y, a == b, "eq"); EQB(x != y, a != b, "ne"); EQB(x < y, a < b, "lt"); EQB(x <= y, a <= b, "le"); EQB(x > y, a > b, "gt"); EQB(x >= y, a >= b, "ge");
    EQB(x == x, true, "eq-self"); EQB(x < x, false, "lt-self"); EQB(x <= x, true, "le-self");
    EQB(!x, a == 0, "lnot"); EQB(bool(x), a != 0, "bool"); EQB(x && y, a && b, "land"); EQB(x || y, a || b, "lor");
    if (a == b) CHECK(x.hash() == y.hash(), "hash", a);
    { U p = u128_of(a), s = u128_of(b); p.swap(s); CHECK(wide(p) == b && wide(s) == a, "swap", a, " ", b); p.swap(p); CHECK(wide(p) == b, "swap-self", b); }
#ifndef IPADDRESS_NO_OVERLOAD_STD
    { U p = u128_of(a), s = u128_of(b); std::swap(p, s); CHECK(wide(p) == b && wide(s) == a, "std-swap", a, " ", b); }
    CHECK(std::hash<U>()(x) == u128_of(a).hash(), "std-hash", a);
    CHECK(wide(std::abs(x)) == a, "abs", a);
#endif
    h::nt(h::hv(a, uint64_t(b) ^ h::mix(uint64_t(b >> 64))));
}
template <class T> void shifts(u128 a, T n, const char* tn) {
    const U x = u128_of(a);
    u128 l = u128(n) >= 128 ? 0 : a << int(n), g = u128(n) >= 128 ? 0 : a >> int(n);
    CHECK(wide(x << n) == l, "shl", tn, " ", a, " << ", u128(n), " gave ", wide(x << n), " expected ", l);
    CHECK(wide(x >> n) == g, "shr", tn, " ", a, " >> ", u128(n), " gave ", wide(x >> n), " expected ", g);
    U t = x; t <<= n; CHECK(wide(t) == l, "shl-assign", tn, " ", a, " ", u128(n));
    t = x; t >>= n; CHECK(wide(t) == g, "shr-assign", tn, " ", a, " ", u128(n));
}
static void shift_check(u128 a, unsigned n) {
    h::note(h::cat("shift ", a, " by ", n));
    shifts<int>(a, int(n), "int"); shifts<unsigned>(a, n, "unsigned"); shifts<long long>(a, (long long)n, "long long"); shifts<unsigned long long>(a, n, "unsigned long long");
    shifts<long>(a, long(n), "long"); shifts<unsigned long>(a, n, "unsigned long"); shifts<short>(a, short(n), "short"); shifts<unsigned short>(a, (unsigned short)n, "unsigned short");
    if (n < 128) { shifts<signed char>(a, (signed char)n, "signed char"); shifts<char>(a, char(n), "char"); }
    if (n < 256) shifts<unsigned char>(a, (unsigned char)n, "unsigned char");
    if (n < 2) shifts<bool>(a, n != 0, "bool");
    h::nt(h::hv(a, n + 1000));
}
template <class T> u128 as128(T v) { return v < 0 ? u128(0) - u128(-(__int128)v) : u128(v); }
// built-in integers on either side
template <class T> void mixed(u128 a, T v, const char* tn) {
    const U x = u128_of(a);
    const u128 b = as128(v);
    h::note(h::cat(tn, " a=", a, " v=", b));
    CHECK(wide(U(v)) == b, "from-integer", tn, " ", b, " gave ", wide(U(v)));
    { U t; t = v; CHECK(wide(t) == b, "assign-integer", tn, " ", b); }
#define MX(op, key) do { CHECK(wide(x op v) == u128(a op b), key, tn, " ", a, " " #op " ", b, " gave ", wide(x op v)); CHECK(wide(v op x) == u128(b op a), key, tn, " ", b, " " #op " ", a, " gave ", wide(v op x)); } while (0)
    MX(+, "mixed-add"); MX(-, "mixed-sub"); MX(*, "mixed-mul"); MX(&, "mixed-and"); MX(|, "mixed-or"); MX(^, "mixed-xor");
    if (b) { CHECK(wide(x / v) == a / b, "mixed-div", tn, " ", a, " / ", b); CHECK(wide(x % v) == a % b, "mixed-mod", tn, " ", a, " % ", b); }
    if (a) { CHECK(wide(v / x) == b / a, "mixed-div", tn, " ", b, " / ", a); CHECK(wide(v % x) == b % a, "mixed-mod", tn, " ", b, " % ", a); }
#define MC(op, key) do { CHECK((x op v) == (a op b), key, tn, " ", a, " " #op " ", b); CHECK((v op x) == (b op a), key, tn, " ", b, " " #op " ", a); } while (0)
    MC(==, "mixed-eq"); MC(!=, "mixed-ne"); MC(<, "mixed-lt"); MC(<=, "mixed-le"); MC(>, "mixed-gt"); MC(>=, "mixed-ge");
    { U t = x; t += v; CHECK(wide(t) == a + b, "mixed-add-assign", tn); t = x; t -= v; CHECK(wide(t) == a - b, "mixed-sub-assign", tn); t = x; t *= v; CHECK(wide(t) == a * b, "mixed-mul-assign", tn);
      t = x; t &= v; CHECK(wide(t) == (a & b), "mixed-and-assign", tn); t = x; t |= v; CHECK(wide(t) == (a | b), "mixed-or-assign", tn); t = x; t ^= v; CHECK(wide(t) == (a ^ b), "mixed-xor-assign", tn);
      if (b) { t = x; t /= v; CHECK(wide(t) == a / b, "mixed-div-assign", tn); t = x; t %= v; CHECK(wide(t) == a % b, "mixed-mod-assign", tn); } }
    // back: the value modulo the width of T
    CHECK(T(x) == T(uint64_t(a)), "to-integer", tn, " ", a, " gave ", as128(T(x)));
    CHECK(static_cast<T>(U(v)) == v, "integer-roundtrip", tn, " ", b);
}
template <class T> T edge(Rng& r) {
    switch (r.below(6)) {
        case 0: return std::numeric_limits<T>::max();
        case 1: return std::numeric_limits<T>::min();
        case 2: return T(0);
        case 3: return T(1);
        case 4: return T(-1);
        default: return T(r.next());
    }
}
static void mixed_all(u128 a, Rng& r) {
    mixed<int>(a, edge<int>(r), "int"); mixed<unsigned>(a, edge<unsigned>(r), "unsigned"); mixed<long>(a, edge<long>(r), "long"); mixed<unsigned long>(a, edge<unsigned long>(r), "unsigned long");
    mixed<long long>(a, edge<long long>(r), "long long"); mixed<unsigned long long>(a, edge<unsigned long long>(r), "unsigned long long");
    mixed<short>(a, edge<short>(r), "short"); mixed<unsigned short>(a, edge<unsigned short>(r), "unsigned short");
    mixed<signed char>(a, edge<signed char>(r), "signed char"); mixed<unsigned char>(a, edge<unsigned char>(r), "unsigned char"); mixed<char>(a, edge<char>(r), "char");
    h::nt(h::hv(a, r.s));
}

void workload() {
    h::phase("small", 48 * 48, [](uint64_t i, Rng&) { u128 a = i % 48, b = i / 48; if (a >= 24) a = u128(0) - (a - 23); if (b >= 24) b = u128(0) - (b - 23); pair_check(a, b); });
    // every pair of powers of two and their neighbours
    h::phase("powers", 128 * 128 * 9, [](uint64_t i, Rng&) {
        u128 a = u128(1) << (i % 128); i /= 128; u128 b = u128(1) << (i % 128); i /= 128;
        a += i % 3; a -= 1; b += i / 3; b -= 1;
        pair_check(a, b);
    });
    // all combinations of extreme 32-bit digits
    h::phase("digits", 6 * 6 * 6 * 6 * 64, [](uint64_t i, Rng& r) {
        static const uint32_t d[] = {0, 1, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff};
        u128 a = 0, b = 0;
        for (int k = 0; k < 4; ++k) { a = (a << 32) | d[i % 6]; i /= 6; }
        for (int k = 0; k < 4; ++k) b = (b << 32) | d[r.below(6)];
        if (r.one_in(2)) b >>= 32 * r.below(4);
        if (r.one_in(3)) b |= 1;
        pair_check(a, b);
    });
    h::random_phase("pairs", 200000, [](uint64_t, Rng& r) { u128 a = val(r), b = val(r); pair_check(a, b); h::sample(h::cat("a=", a, " b=", b)); });
    // dividends built so that the quotient estimate is off: q*b + small / q*b - small
    h::random_phase("near-multiples", 150000, [](uint64_t, Rng& r) {
        u128 b = val(r); if (!b) b = 1;
        u128 q = val(r); q = q % (~u128(0) / b + 1 ? ~u128(0) / b + 1 : ~u128(0));
        u128 a = q * b;
        switch (r.below(4)) { case 0: a -= 1; break; case 1: a += b - 1; break; case 2: a += b >> 1; break; default: break; }
        pair_check(a, b);
        h::sample(h::cat("a=", a, " b=", b));
    });
    h::phase("shift-amounts", 300 * 40, [](uint64_t i, Rng& r) { u128 a = i / 300 == 0 ? ~u128(0) : i / 300 == 1 ? 1 : i / 300 == 2 ? u128(1) << 127 : val(r); shift_check(a, unsigned(i % 300)); });
    h::random_phase("big-shifts", 4000, [](uint64_t, Rng& r) {
        u128 a = val(r);
        uint64_t n = r.one_in(3) ? (uint64_t(1) << r.below(64)) : r.one_in(2) ? (uint64_t(1) << (7 + r.below(57))) + r.below(130) : ~uint64_t(0) - r.below(200);
        shifts<unsigned long long>(a, n, "unsigned long long"); shifts<unsigned long>(a, n, "unsigned long");
        if (n >> 63 == 0) { shifts<long long>(a, (long long)n, "long long"); shifts<long>(a, long(n), "long"); }
        if (n >> 31 == 0) shifts<int>(a, int(n), "int");
        if (n >> 32 == 0) shifts<unsigned>(a, unsigned(n), "unsigned");
        h::nt(h::hv(a, n)); HIT("big-shift");
        h::sample(h::cat(a, " by ", n));
    });
    h::random_phase("mixed", 20000, [](uint64_t, Rng& r) { mixed_all(val(r), r); HIT("mixed"); });
    h::phase("mixed-edges", 60, [](uint64_t i, Rng& r) { for (int k = 0; k < 12; ++k) mixed_all(i < 30 ? u128(i) : u128(0) - (i - 29), r); });
#ifndef IPADDRESS_NO_OVERLOAD_STD
    h::phase("limits", 1, [](uint64_t, Rng&) {
        typedef std::numeric_limits<U> N;
        CHECK(wide((N::max)()) == ~u128(0) && wide((N::min)()) == 0 && wide(N::lowest()) == 0, "numeric-limits", "");
        CHECK(N::is_integer && !N::is_signed && N::digits == 128 && N::digits10 == 38 && N::is_exact && N::is_bounded && N::is_specialized && N::radix == 2 && N::is_modulo, "numeric-limits", "");
        CHECK(wide(U()) == 0, "default", wide(U()));
    }, false);
#endif
}
