// C29: fixed_string, byte_array and optional honour their container contracts
#include "lib.hpp"
#include <algorithm>
#include <array>
#include <iterator>
using namespace L;
typedef ip::error_code EC;
#define OKC ip::error_code::no_error
static int sgn(int x) { return x < 0 ? -1 : x > 0; }

// ---------------------------------------------------------------- fixed_string
// the contract against a plain std::string
template <size_t N> void contract(const char* key, const ip::fixed_string<N>& f, const std::string& want, const std::string& how) {
    const std::string K(key);
    CHECK(f.size() == want.size() && f.empty() == want.empty() && f.capacity() == N, K + "-size", how, " size ", f.size(), " expected ", want.size());
    CHECK(std::string(f.begin(), f.end()) == want && std::string(f.cbegin(), f.cend()) == want, K + "-content", how, " holds ", std::string(f.begin(), f.end()), " expected ", want);
    std::string rv(want.rbegin(), want.rend());
    CHECK(std::string(f.rbegin(), f.rend()) == rv && std::string(f.crbegin(), f.crend()) == rv, K + "-reverse", how);
    CHECK(size_t(f.end() - f.begin()) == want.size(), K + "-distance", how);
    for (size_t i = 0; i < want.size(); ++i) CHECK(f[i] == want[i] && f.at(i) == want[i] && f.data()[i] == want[i], K + "-index", how, " at ", i);
    if (!want.empty()) CHECK(f.front() == want[0] && f.back() == want[want.size() - 1], K + "-ends", how);
}
template <class T, size_t N> struct Arr {   // exact heap storage of an array
    T* p;
    explicit Arr(const std::string& s, bool terminated = true) : p(new T[N]) { for (size_t i = 0; i < N; ++i) p[i] = i < s.size() ? T((unsigned char)s[i]) : T(0); if (!terminated) p[N - 1] = T('!'); }
    ~Arr() { delete[] p; }
    const T (&ref() const)[N] { return *reinterpret_cast<const T(*)[N]>(p); }
    Arr(const Arr&) = delete; Arr& operator=(const Arr&) = delete;
};
template <size_t N, class T> void made_from(const char* key, const std::string& s, Rng& r) {   // s.size() <= N, no NUL, ASCII
    const std::string how = h::cat(key, " capacity ", N, " from ", s);
    h::note(how);
    Arr<T, N + 1> a(s);
    ip::fixed_string<N> f(a.ref());
    contract<N>("fixed", f, s, how);
    contract<N>("make", ip::make_fixed_string(a.ref()), s, how);
    EC c = stale(r);
    ip::fixed_string<N> g(a.ref(), c);
    CHECK(c == OKC, "fixed-code", how, " code ", c);
    contract<N>("fixed-ec", g, s, how);
    c = stale(r);
    ip::fixed_string<N> m = ip::make_fixed_string(a.ref(), c);
    CHECK(c == OKC, "make-code", how, " code ", c);
    contract<N>("make-ec", m, s, how);
    CHECK(f == g && !(f != g) && f.compare(g) == 0 && f.hash() == g.hash(), "fixed-twin", how);
    HIT("made");
}
// a character outside ASCII at position p: refused
template <size_t N, class T> void refused(const char* key, const std::string& s, size_t p, uint32_t u, Rng& r) {
    Arr<T, N + 1> a(s);
    a.p[p] = T(u);
    const std::string how = h::cat(key, " capacity ", N, " from ", s, " with unit ", int(u), " at ", p);
    h::note(how);
    EC c = stale(r);
    ip::fixed_string<N> f(a.ref(), c);
    CHECK(c == EC::unexpected_symbol || c == EC::wrong_encoding_sequence, "refused-code", how, " code ", c);
    CHECK(f.size() <= p, "refused-content", how, " holds ", f.size());
    c = stale(r);
    { auto m = ip::make_fixed_string(a.ref(), c); (void)m; }
    CHECK(c == EC::unexpected_symbol || c == EC::wrong_encoding_sequence, "refused-make-code", how, " code ", c);
#if H_EXC
    if (r.one_in(4)) {
        Out o = guard([&] { ip::fixed_string<N> x(a.ref()); (void)x; });
        CHECK(o.kind == PARSE_ERROR, "refused-throw", how, " kind ", o.kind);
        o = guard([&] { auto x = ip::make_fixed_string(a.ref()); (void)x; });
        CHECK(o.kind == PARSE_ERROR && (o.code == EC::unexpected_symbol || o.code == EC::wrong_encoding_sequence), "refused-make-throw", how, " kind ", o.kind);
    }
#endif
    HIT("refused");
}
template <size_t N> ip::fixed_string<N> fs(const std::string& s) { Arr<char, N + 1> a(s); return ip::fixed_string<N>(a.ref()); }
template <size_t N1, size_t N2> void compared(const std::string& s, const std::string& t) {
    const std::string how = h::cat(s, " (", N1, ") and ", t, " (", N2, ")");
    h::note(how);
    ip::fixed_string<N1> a = fs<N1>(s);
    ip::fixed_string<N2> b = fs<N2>(t);
    const int o = sgn(s.compare(t));
    CHECK(sgn(a.compare(b)) == o && sgn(b.compare(a)) == -o, "compare", how, " compare gives ", a.compare(b), " and ", b.compare(a));
    CHECK((a == b) == (o == 0) && (a != b) == (o != 0), "equality", how);
    CHECK((a < b) == (o < 0) && (a > b) == (o > 0) && (a <= b) == (o <= 0) && (a >= b) == (o >= 0), "order", how);
    CHECK((b < a) == (o > 0) && (b > a) == (o < 0) && (b <= a) == (o >= 0) && (b >= a) == (o <= 0), "order-reversed", how);
#ifdef IPADDRESS_HAS_SPACESHIP_OPERATOR
    CHECK(((a <=> b) < 0) == (o < 0) && ((a <=> b) > 0) == (o > 0) && ((a <=> b) == 0) == (o == 0), "spaceship", how);
#endif
    if (o == 0 && N1 > 0 && N2 > 0) CHECK(a.hash() == b.hash(), "hash", how);
    HIT("compared");
}
template <size_t N> void swapped(const std::string& s, const std::string& t, Rng& r) {
    const std::string how = h::cat("swap ", s, " ", t, " capacity ", N);
    h::note(how);
    ip::fixed_string<N> a = fs<N>(s), b = fs<N>(t), c = a, d;
    d = b;
    a.swap(b);
    contract<N>("swap", a, t, how); contract<N>("swap", b, s, how);
    contract<N>("copy", c, s, how); contract<N>("assign", d, t, how);
    CHECK(a == d && b == c && a.hash() == d.hash(), "swap-equal", how);
    a.swap(b); a.swap(a);
    contract<N>("swap-back", a, s, how); contract<N>("swap-back", b, t, how);
    // longer then shorter then longer: nothing of an earlier value shows through
    std::string u = s.substr(0, r.below(s.size() + 1));
    a = fs<N>(u); contract<N>("reassign", a, u, how);
    b = fs<N>(t); a.swap(b); contract<N>("reswap", b, u, how);
    HIT("swapped");
}
template <size_t N> std::string text(Rng& r) {
    std::string s;
    size_t n = r.one_in(3) ? N : r.below(N + 1);
    static const char al[] = "ab0\x01\x7f ~AZ.:";
    for (size_t i = 0; i < n; ++i) s += r.one_in(2) ? al[r.below(sizeof al - 1)] : char(1 + r.below(127));
    return s;
}
static std::string variant(Rng& r, const std::string& s, size_t cap) {
    std::string t = s;
    switch (r.below(6)) {
        case 0: break;
        case 1: t.resize(r.below(t.size() + 1)); break;
        case 2: while (t.size() < cap && !r.one_in(3)) t += char(1 + r.below(127)); break;
        case 3: if (!t.empty()) { size_t p = r.below(t.size()); t[p] = char(t[p] == 127 ? 126 : t[p] + 1); } break;
        case 4: if (!t.empty()) { size_t p = r.below(t.size()); t[p] = char(t[p] == 1 ? 2 : t[p] - 1); } break;
        default: for (auto& c : t) if (r.one_in(4)) c = char(1 + r.below(127));
    }
    if (t.size() > cap) t.resize(cap);
    return t;
}
template <size_t N> void strings(Rng& r) {
    std::string s = text<N>(r), t = variant(r, s, N);
    made_from<N, char>("char", s, r);
    switch (r.below(4)) {
        case 0: made_from<N, wchar_t>("wchar_t", s, r); break;
        case 1: made_from<N, char16_t>("char16_t", s, r); break;
        case 2: made_from<N, char32_t>("char32_t", s, r); break;
        default:
#if HAS_U8
            made_from<N, char8_t>("char8_t", s, r);
#endif
            break;
    }
    compared<N, N>(s, t); compared<N, N>(s, s);
    compared<N, N + 7>(s, variant(r, s, N + 7)); compared<N + 3, N>(variant(r, s, N + 3), s);
    compared<N, 0>(s, ""); compared<0, N>("", t);
    swapped<N>(s, t, r);
    if (!s.empty()) {
        size_t p = r.below(s.size());
        uint32_t lo = (unsigned char)s[p];
        switch (r.below(4)) {
            case 0: refused<N, wchar_t>("wchar_t", s, p, r.one_in(2) ? lo + 0x100 * uint32_t(1 + r.below(0xffff)) : 128 + uint32_t(r.below(0x7fffff00)), r); break;
            case 1: refused<N, char16_t>("char16_t", s, p, r.one_in(2) ? lo + 0x100 * uint32_t(1 + r.below(0xff)) : 128 + uint32_t(r.below(0xff80)), r); break;
            case 2: refused<N, char32_t>("char32_t", s, p, r.one_in(2) ? lo + 0x100 * uint32_t(1 + r.below(0xffffff)) : 128 + uint32_t(r.below(0xffffff00u)), r); break;
            default:
#if HAS_U8
                refused<N, char8_t>("char8_t", s, p, 128 + uint32_t(r.below(128)), r);
#endif
                break;
        }
    }
    h::nt(h::hs(s + "/" + t, N)); h::sample(h::q(s));
}
// ---------------------------------------------------------------- byte_array
template <size_t N> ip::byte_array<N> ba(const std::array<uint8_t, N>& s) { ip::byte_array<N> b; for (size_t i = 0; i < N; ++i) b[i] = s[i]; return b; }
template <size_t N> std::array<uint8_t, N> bytes(Rng& r) { std::array<uint8_t, N> a; unsigned k = unsigned(r.below(4)); for (auto& x : a) x = uint8_t(k == 0 ? 0 : k == 1 ? 255 : r.next()); return a; }
template <size_t N> void holds(const char* key, const ip::byte_array<N>& b, const std::array<uint8_t, N>& s, const std::string& how) {
    const std::string K(key);
    CHECK(std::vector<uint8_t>(b.begin(), b.end()) == std::vector<uint8_t>(s.begin(), s.end()), K + "-content", how);
    CHECK(std::vector<uint8_t>(b.cbegin(), b.cend()) == std::vector<uint8_t>(s.begin(), s.end()), K + "-ccontent", how);
    CHECK(std::vector<uint8_t>(b.rbegin(), b.rend()) == std::vector<uint8_t>(s.rbegin(), s.rend()), K + "-reverse", how);
    CHECK(std::vector<uint8_t>(b.crbegin(), b.crend()) == std::vector<uint8_t>(s.rbegin(), s.rend()), K + "-creverse", how);
    CHECK(b.size() == N && b.max_size() == N && b.empty() == (N == 0), K + "-size", how);
    for (size_t i = 0; i < N; ++i) CHECK(b[i] == s[i] && b.at(i) == s[i] && b.data()[i] == s[i], K + "-index", how, " at ", i);
    if (N) CHECK(b.front() == s[0] && b.back() == s[N ? N - 1 : 0], K + "-ends", how);
}
template <size_t N> void arrays(Rng& r) {
    std::array<uint8_t, N> s = bytes<N>(r), t = s;
    switch (r.below(4)) { case 0: t = bytes<N>(r); break; case 1: { size_t p = r.below(N); t[p] = uint8_t(t[p] + 1); break; } case 2: { size_t p = r.below(N); t[p] = uint8_t(t[p] ^ 0x80); for (size_t i = p + 1; i < N; ++i) t[i] = uint8_t(r.next()); break; } default: break; }
    std::string how = "byte_array<" + std::to_string(N) + "> ";
    for (auto x : s) how += h::hex(x) + ".";
    how += " ";
    for (auto x : t) how += h::hex(x) + ".";
    h::note(how);
    ip::byte_array<N> a = ba<N>(s), b = ba<N>(t), c = a, d{};
    holds<N>("array", a, s, how); holds<N>("array", b, t, how);
    std::array<uint8_t, N> z; z.fill(0);
    holds<N>("zero", d, z, how);
    CHECK((a == b) == (s == t) && (a != b) == (s != t), "array-equality", how);
    CHECK((a < b) == (s < t) && (a > b) == (s > t) && (a <= b) == (s <= t) && (a >= b) == (s >= t), "array-order", how);
    CHECK((b < a) == (t < s) && (b > a) == (t > s) && (b <= a) == (t <= s) && (b >= a) == (t >= s), "array-order-reversed", how);
#ifdef IPADDRESS_HAS_SPACESHIP_OPERATOR
    CHECK(((a <=> b) < 0) == (s < t) && ((a <=> b) > 0) == (s > t) && ((a <=> b) == 0) == (s == t), "array-spaceship", how);
#endif
    CHECK(a == c && !(a < c) && a <= c && a >= c && !(a > c), "array-copy", how);
    // writes through every accessor reach the element and nothing else
    size_t p = r.below(N); uint8_t v = uint8_t(r.next());
    std::array<uint8_t, N> m = s;
    switch (r.below(5)) { case 0: a[p] = v; m[p] = v; break; case 1: a.at(p) = v; m[p] = v; break; case 2: a.data()[p] = v; m[p] = v; break; case 3: a.front() = v; m[0] = v; break; default: a.back() = v; m[N - 1] = v; }
    holds<N>("write", a, m, how); holds<N>("write-other", c, s, how);
    a.swap(b);
    holds<N>("swap", a, t, how); holds<N>("swap", b, m, how);
    a.swap(a); holds<N>("self-swap", a, t, how);
    d = b; b[p] = uint8_t(v + 1);
    holds<N>("assign", d, m, how);
    HIT("arrays");
    h::nt(h::hs(how)); h::sample(how);
}
// ---------------------------------------------------------------- optional
template <class V, class Gen> void optionals(const char* key, Gen gen, Rng& r) {
    typedef ip::optional<V> O;
    const std::string K = std::string("optional-") + key;
    O pool[3]; bool has[3] = {false, false, false};
    std::vector<V> val(3, V());
    std::string trail;
    for (int i = 0; i < 16; ++i) {
        int k = int(r.below(3)), l = int(r.below(3)), op = int(r.below(9));
        trail += char('a' + op);
        V v = gen(r);
        switch (op) {
            case 0: pool[k] = nullptr; has[k] = false; break;
            case 1: { V w = v; pool[k] = std::move(w); has[k] = true; val[k] = v; break; }
            case 2: pool[k] = O(v); has[k] = true; val[k] = v; break;
            case 3: pool[k] = pool[l]; has[k] = has[l]; val[k] = val[l]; break;
            case 4: { O c(pool[l]); if (has[l]) *c = v; pool[k] = c; if (k != l) { has[k] = has[l]; } if (has[l]) { if (k == l) val[k] = v; else val[k] = v; } break; }
            case 5: pool[k] = O(); has[k] = false; break;
            case 6: pool[k] = O(nullptr); has[k] = false; break;
            case 7: if (has[k]) { *pool[k] = v; val[k] = v; } break;
            default: if (has[k]) { pool[k].value() = v; val[k] = v; }
        }
        for (int j = 0; j < 3; ++j) {
            const O& o = pool[j];
            CHECK(o.has_value() == has[j] && bool(o) == has[j], K + "-presence", "after ", trail, " slot ", j);
            if (has[j] && o.has_value()) {
                CHECK(*o == val[j] && o.value() == val[j] && *(o.operator->()) == val[j], K + "-value", "after ", trail, " slot ", j);
                CHECK(*pool[j] == val[j] && pool[j].value() == val[j], K + "-mutable-value", "after ", trail, " slot ", j);
                CHECK(O(o).value() == val[j], K + "-rvalue", "after ", trail, " slot ", j);
            }
        }
    }
    CHECK(!O() && !O(nullptr) && O(V()), K + "-constructors", key);
    HIT("optionals");
    h::nt(h::hs(trail, h::hs(K)));
}
void workload() {
    h::random_phase("strings", 3000, [](uint64_t i, Rng& r) {
        switch (i % 5) { case 0: strings<1>(r); break; case 1: strings<2>(r); break; case 2: strings<5>(r); break; case 3: strings<16>(r); break; default: strings<33>(r); }
    });
    // every pair of strings over {a, b, \x7f} up to length 3, at equal and different capacities
    h::phase("all-pairs", 40 * 40, [](uint64_t i, Rng&) {
        auto mk = [](uint64_t k) { uint64_t n = 1; size_t len = 0; while (k >= n) { k -= n; n *= 3; ++len; } std::string s; for (size_t j = 0; j < len; ++j) { s += "ab\x7f"[k % 3]; k /= 3; } return s; };
        std::string s = mk(i % 40), t = mk(i / 40);
        compared<3, 3>(s, t); compared<3, 8>(s, t); compared<8, 3>(s, t);
        h::nt(h::hs(s + "/" + t));
    });
    // every character, every array type; arrays without a terminator; characters after the first NUL
    h::phase("characters", 127, [](uint64_t i, Rng& r) {
        std::string s(1, char(i + 1)), t = "x" + s + "y";
        made_from<1, char>("char", s, r); made_from<3, char>("char", t, r); made_from<3, wchar_t>("wchar_t", t, r); made_from<3, char16_t>("char16_t", t, r); made_from<3, char32_t>("char32_t", t, r);
#if HAS_U8
        made_from<3, char8_t>("char8_t", t, r);
#endif
        Arr<char, 4> a("xyz", false);                         // not terminated: the last element is not part of the text
        contract<3>("unterminated", ip::fixed_string<3>(a.ref()), "xyz", "unterminated array");
        Arr<char16_t, 4> b("xyz", false);
        contract<3>("unterminated", ip::fixed_string<3>(b.ref()), "xyz", "unterminated array");
        Arr<char, 6> n(t); n.p[4] = 'q';                      // xcy\0q\0
        if (i + 1 != 0) contract<5>("after-nul", ip::fixed_string<5>(n.ref()), t, "text with characters after the NUL");
        contract<0>("empty", ip::make_fixed_string(""), "", "empty literal"); contract<0>("empty", ip::make_fixed_string(L""), "", "empty literal"); contract<0>("empty", ip::make_fixed_string(u""), "", "empty literal");
        EC c = stale(r); contract<0>("empty", ip::make_fixed_string(U"", c), "", "empty literal"); CHECK(c == OKC, "empty-code", "code ", c);
        contract<0>("empty", ip::fixed_string<0>(), "", "default"); contract<9>("default", ip::fixed_string<9>(), "", "default");
        h::nt(i);
    });
    h::random_phase("arrays", 4000, [](uint64_t i, Rng& r) {
        switch (i % 5) { case 0: arrays<1>(r); break; case 1: arrays<4>(r); break; case 2: arrays<16>(r); break; case 3: arrays<2>(r); break; default: arrays<33>(r); }
        ip::byte_array<0> e, g; const ip::byte_array<0>& ce = e;
        e.swap(g);
        CHECK(ce.size() == 0 && ce.max_size() == 0 && ce.empty() && ce.begin() == ce.end() && ce.cbegin() == ce.cend() && ce.rbegin() == ce.rend() && e == g && !(e != g) && !(e < g) && e <= g && e >= g, "array-zero", "byte_array<0>");
    });
    h::random_phase("optionals", 1500, [](uint64_t, Rng& r) {
        optionals<int>("int", [](Rng& q) { return int(q.next()); }, r);
        optionals<size_t>("size_t", [](Rng& q) { return size_t(q.below(3)); }, r);
        optionals<std::string>("string", [](Rng& q) { return std::string(q.below(40), 'x'); }, r);
        optionals<ip::ipv4_address>("ipv4", [](Rng& q) { return a4(gen::value(q, 4)); }, r);
        optionals<ip::ip_address>("ip", [](Rng& q) { return make<ip::ip_address>(gen::addr(q, gen::ver(q))); }, r);
        optionals<ip::ipv6_network>("net6", [](Rng& q) { return n6(gen::net(q, 6, true)); }, r);
    });
#ifdef __cpp_deduction_guides
    h::phase("deduction", 1, [](uint64_t, Rng&) {
        ip::fixed_string a("abc"); ip::fixed_string b(u"abc"); ip::fixed_string c(L"abc"); ip::fixed_string d(U"abc"); ip::fixed_string e(a); ip::fixed_string z("");
        contract<3>("deduced", a, "abc", "deduced"); contract<3>("deduced", b, "abc", "deduced"); contract<3>("deduced", c, "abc", "deduced"); contract<3>("deduced", d, "abc", "deduced"); contract<3>("deduced", e, "abc", "deduced"); contract<0>("deduced", z, "", "deduced");
        h::nt(1);
    });
#endif
}
