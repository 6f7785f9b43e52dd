// C03: Network text is accepted exactly when address and prefix/mask are valid
#include "textmon.hpp"
using namespace tmon;

template <class N> struct want_t { bool ok; Net n; unsigned errs; };
static std::string errs_str(unsigned e) { static const char* n[] = {"ok", "empty-address", "bad-address", "empty-mask", "bad-mask", "mixed-mask", "host-bits", "two-slashes"}; std::string s; for (int i = 0; i < 8; ++i) if (e & (1u << i)) s += std::string(s.empty() ? "" : "+") + n[i]; return s.empty() ? "valid" : s; }

template <class N> void judge_net(const char* key, const char* how, const std::string& t, bool strict, unsigned errs, const Net& want, ip::error_code c, const N& got) {
    ++h::st().checks;
    bool lib_ok = c == ip::error_code::no_error, ok = errs == 0;
    if (lib_ok != ok) { h::bad(std::string(key) + (ok ? "-rejected" : "-accepted"), h::cat(how, strict ? " strict: " : " non-strict: ", t, " is ", errs_str(errs), " but code ", c, " value ", of_net(got))); return; }
    if (ok && of_net(got) != want) h::bad(std::string(key) + "-value", h::cat(how, strict ? " strict: " : " non-strict: ", t, " gave ", of_net(got), " instead of ", want));
}
template <class N> void judge_all(const char* key, const std::string& t, bool strict, unsigned errs, const Net& want, unsigned errs_a, const Net& want_a, Rng& r, bool all) {
    ip::error_code c = stale(r);
    N x = parse_ec<N, char>(t, c, strict);
    judge_net(key, "parse(char)", t, strict, errs, want, c, x);
    if (strict) { c = stale(r); x = parse_ec<N, char>(t, c); judge_net(key, "parse(char) default", t, strict, errs, want, c, x); }
#if H_EXC
    if (errs == 0 || r.one_in(5)) {   // (throwing is slow under ASan)
        N y;
        Out o = guard([&] { if (strict && r.one_in(2)) y = parse_th<N, char>(t); else y = parse_th<N, char>(t, strict); });
        c = o.kind == NONE ? ip::error_code::no_error : ip::error_code::invalid_version;
        judge_net(key, "throwing parse(char)", t, strict, errs, want, c, y);
    }
#else
    if (errs == 0) { N y = parse_th<N, char>(t, strict); judge_net(key, "no-exception parse(char)", t, strict, errs, want, ip::error_code::no_error, y); }
#endif
    if (strict && literal(t, errs == 0, r, c, x)) judge_net(key, "literal", t, strict, errs, want, c, x);
    if (!all) return;
    if (ascii(t)) {
        c = stale(r); x = parse_ec<N, wchar_t>(widen<wchar_t>(t), c, strict); judge_net(key, "parse(wchar_t)", t, strict, errs, want, c, x);
        c = stale(r); x = parse_ec<N, char16_t>(widen<char16_t>(t), c, strict); judge_net(key, "parse(char16_t)", t, strict, errs, want, c, x);
        c = stale(r); x = parse_ec<N, char32_t>(widen<char32_t>(t), c, strict); judge_net(key, "parse(char32_t)", t, strict, errs, want, c, x);
#if HAS_U8
        c = stale(r); x = parse_ec<N, char8_t>(widen<char8_t>(t), c, strict); judge_net(key, "parse(char8_t)", t, strict, errs, want, c, x);
#endif
    }
    // the default strictness of every overload
    if (strict && ascii(t)) {
        c = stale(r); x = parse_ec<N, wchar_t>(widen<wchar_t>(t), c); judge_net(key, "parse(wchar_t) default", t, strict, errs, want, c, x);
        c = stale(r); x = parse_ec<N, char16_t>(widen<char16_t>(t), c); judge_net(key, "parse(char16_t) default", t, strict, errs, want, c, x);
        c = stale(r); x = parse_ec<N, char32_t>(widen<char32_t>(t), c); judge_net(key, "parse(char32_t) default", t, strict, errs, want, c, x);
#if HAS_U8
        c = stale(r); x = parse_ec<N, char8_t>(widen<char8_t>(t), c); judge_net(key, "parse(char8_t) default", t, strict, errs, want, c, x);
#endif
#if H_EXC
        if (errs == 0 || r.one_in(8)) {
            for (int k = errs ? int(r.below(6)) : 0, last = errs ? k : 5; k <= last; ++k) {
                N y; bool st = strict; const char* how = "throwing default";
                Out o = guard([&] { switch (k) {
                    case 0: y = parse_th<N, wchar_t>(widen<wchar_t>(t)); break;
                    case 1: y = parse_th<N, char16_t>(widen<char16_t>(t)); break;
                    case 2: y = parse_th<N, char32_t>(widen<char32_t>(t)); break;
                    case 3: y = parse_th<N, wchar_t>(widen<wchar_t>(t), true); how = "throwing strict"; break;
                    case 4: y = parse_th<N, char16_t>(widen<char16_t>(t), true); how = "throwing strict"; break;
                    default: y = parse_th<N, char32_t>(widen<char32_t>(t), true); how = "throwing strict"; break; } });
                c = o.kind == NONE ? ip::error_code::no_error : ip::error_code::invalid_version;
                judge_net(key, how, t, st, errs, want, c, y);
            }
        }
#endif
    }
    ArrEcS<N> f; f.out = &x; f.c = &c; f.strict = strict;
    c = stale(r);
    if (with_array<char>(t, f)) judge_net(key, "parse(char[N])", t, strict, errs_a, want_a, c, x);
    if (ascii(t)) { c = stale(r); if (with_array<char32_t>(widen<char32_t>(t), f)) judge_net(key, "parse(char32_t[N])", t, strict, errs_a, want_a, c, x); }
}
static void check(const std::string& t, Rng& r, bool all) {
    h::note(h::q(t));
    if (!ascii(t)) { size_t pc = t.find('%'); if (pc != std::string::npos) { HIT("non-ascii-scope-skipped"); return; } }
    bool any_ok = false;
    for (int strict = 0; strict < 2; ++strict) {
        Net w4, w6, a4n, a6n;
        unsigned e4 = ref::parse_net(4, t, strict, w4), e6 = ref::parse_net(6, t, strict, w6);
        std::string ta = upto_nul(t);
        unsigned ea4 = ref::parse_net(4, ta, strict, a4n), ea6 = ref::parse_net(6, ta, strict, a6n);
        judge_all<ip::ipv4_network>("net4", t, strict, e4, w4, ea4, a4n, r, all);
        judge_all<ip::ipv6_network>("net6", t, strict, e6, w6, ea6, a6n, r, all);
        judge_all<ip::ip_network>("netany", t, strict, e4 == 0 ? 0 : e6, e4 == 0 ? w4 : w6, ea4 == 0 ? 0 : ea6, ea4 == 0 ? a4n : a6n, r, all && r.one_in(2));
        if (!e4) HIT("valid4");
        if (!e6) HIT("valid6");
        if (e4 & e6 & (1u << ref::TWO_SLASHES)) HIT("two-slashes");
        if ((e4 | e6) & (1u << ref::HOST_BITS)) HIT("host-bits");
        if (e4 & (1u << ref::MIXED_MASK)) HIT("mixed-mask");
        if ((e4 | e6) & (1u << ref::EMPTY_MASK)) HIT("empty-mask");
        any_ok = any_ok || !e4 || !e6;
    }
    if (any_ok) HIT("valid"); else HIT("invalid");
    h::nt(h::hs(t));
}

void workload() {
    // every small number (with leading zeros) as prefix, with address bits set below or not
    h::phase("prefix-numbers", 2 * 1300, [](uint64_t i, Rng& r) {
        int ver = i % 2 ? 6 : 4; i /= 2;
        std::string p = std::to_string(i % 300);
        if (i >= 300) p = std::string(1 + (i - 300) / 300, '0') + p;
        int pl = int(i % 300) > ref::width(ver) ? ref::width(ver) : int(i % 300);
        u128 v = gen::value(r, ver);
        if (!r.one_in(3)) v &= ref::netmask(ver, pl);
        check(gen::spell(r, Addr(ver, v)) + "/" + p, r, i % 4 == 0);
        h::sample(gen::spell(r, Addr(ver, v)) + "/" + p);
    });
    // 2^k + small as prefix text: wrap-around candidates
    h::phase("wrap-numbers", 2 * 130 * 8, [](uint64_t i, Rng& r) {
        int ver = i % 2 ? 6 : 4; i /= 2;
        int k = int(i % 130); int d = int(i / 130);
        static const int add[] = {0, 1, 8, 24, 32, 64, 127, 128};
        // decimal of 2^k + add, by long addition
        std::string s = "1";
        for (int j = 0; j < k; ++j) { int c = 0; for (size_t x = s.size(); x-- > 0;) { int y = (s[x] - '0') * 2 + c; s[x] = char('0' + y % 10); c = y / 10; } if (c) s.insert(s.begin(), char('0' + c)); }
        int c = add[d]; for (size_t x = s.size(); x-- > 0 && c;) { int y = (s[x] - '0') + c; s[x] = char('0' + y % 10); c = y / 10; } if (c) s.insert(0, std::to_string(c));
        check((ver == 4 ? std::string("0.0.0.0") : std::string("::")) + "/" + s, r, false);
        h::sample("/" + s);
    });
    // every contiguous netmask/hostmask, each with every single bit flipped
    h::phase("masks", 33 * 2 * 33, [](uint64_t i, Rng& r) {
        int p = int(i % 33); i /= 33;
        bool host = i % 2; i /= 2;
        uint32_t m = uint32_t(host ? ref::hostmask(4, p) : ref::netmask(4, p));
        if (i) m ^= 1u << (i - 1);
        u128 v = gen::value(r, 4);
        if (r.one_in(2)) v &= ref::netmask(4, p);
        check(ref::format4(uint32_t(v)) + "/" + ref::format4(m), r, i % 4 == 0);
        h::sample(ref::format4(uint32_t(v)) + "/" + ref::format4(m));
    });
    // strictness: every prefix length with every single host bit
    h::phase("host-bits", 33 * 33 + 129 * 129, [](uint64_t i, Rng& r) {
        int ver = i < 33 * 33 ? 4 : 6, w = ref::width(ver);
        if (ver == 6) i -= 33 * 33;
        int p = int(i % uint64_t(w + 1)), b = int(i / uint64_t(w + 1));
        u128 v = gen::value(r, ver) & ref::netmask(ver, p);
        if (b < w) v |= u128(1) << b;
        Addr a(ver, v);
        if (ver == 6 && HAS_SCOPE && r.one_in(3)) a.scope = gen::scope_text(r, H_SCOPE_MAX);
        check(gen::spell(r, a) + "/" + std::to_string(p), r, false);
        h::sample(gen::spell(r, a) + "/" + std::to_string(p));
    });
    h::phase("short", h::thorough() ? 960800 : 40000, [](uint64_t i, Rng& r) {
        static const char al[] = {':', '1', '0', '/', '.', '%', '8'};
        std::string t;
        uint64_t n = 1, k = i; size_t len = 0;
        while (k >= n) { k -= n; n *= 7; ++len; }
        for (size_t j = 0; j < len; ++j) { t += al[k % 7]; k /= 7; }
        check(t, r, false);
    });
    h::phase("bytes", 256 * 2 * 24 * 6, [](uint64_t i, Rng& r) {
        static const char* base[] = {"10.0.0.0/8", "10.1.0.0/255.255.0.0", "fe80::/64", "fe80::%eth0/128", "1.2.3.4", "::/0"};
        std::string t = base[i % 6]; i /= 6;
        size_t pos = size_t(i % 24); i /= 24;
        bool ins = i % 2; i /= 2;
        char c = char(i);
        if (pos > t.size() || (pos == t.size() && !ins)) { HIT("skipped"); return; }
        if (ins) t.insert(pos, 1, c); else t[pos] = c;
        check(t, r, (i + pos) % 16 == 0);
        if (pos == 3) h::sample(h::q(t));
    });
    h::random_phase("valid", 8000, [](uint64_t i, Rng& r) {
        int ver = gen::ver(r);
        Net n = gen::net(r, ver, true);
        std::string t = gen::spell(r, Addr(ver, n.v, n.scope)) + (n.plen == ref::width(ver) && r.one_in(2) ? std::string() : "/" + gen::suffix(r, ver, n.plen));
        check(t, r, i % 2 == 0);
        h::sample(h::q(t));
    });
    h::random_phase("mutated", 30000, [](uint64_t i, Rng& r) {
        std::string t = gen::net_text(r, gen::ver(r), 70);
        check(t, r, i % 3 == 0);
        h::sample(h::q(t));
    });
    h::random_phase("long", 2000, [](uint64_t, Rng& r) {
        std::string t = gen::addr_text(r, gen::ver(r), 30);
        size_t n = size_t(r.below(260));
        switch (r.below(5)) {
            case 0: t += std::string(n, "0a:.%"[r.below(5)]) + "/8"; break;
            case 1: t += "/" + std::string(n, '0') + "8"; break;
            case 2: t = std::string(n, '0') + t + "/24"; break;
            case 3: t += "%" + std::string(n, 'z') + "/64"; break;
            default: t += "/" + std::string(n, '9'); break;
        }
        check(t, r, true);
        h::sample(h::q(t));
    });
}
#ifdef H_FUZZ
static void fuzz_case(const std::string& b, Rng& r) { check(b, r, r.one_in(8)); }
#define H_FUZZ_TEXT 0
#include "fuzz.hpp"
#endif
