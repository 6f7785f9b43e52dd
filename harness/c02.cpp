// C02: IPv6 text is accepted exactly when it is RFC 4291 text with optional scope
#include "textmon.hpp"
using namespace tmon;

static void check(const std::string& t, Rng& r, bool all) {
    h::note(h::q(t));
    u128 v = 0, va = 0;
    std::string s, sa;
    bool ok = ref::parse6(t, v, s);
    bool oka = ref::parse6(upto_nul(t), va, sa);
    if (!ascii(t)) {   // narrow char carries bytes; whether bytes above 127 may be scope characters is not specified (C08 covers Unicode)
        HIT("non-ascii");
        size_t pc = t.find('%');
        bool in_scope_only = pc != std::string::npos && ascii(t.substr(0, pc));
        if (in_scope_only) return;
    }
    if (ok) HIT("valid"); else HIT("invalid");
    if (ok && !s.empty()) HIT("valid-with-scope");
    one<ip::ipv6_address>("v6", t, ok, Addr(6, v, s), r, all, oka, Addr(6, va, sa));
    uint32_t v4;
    bool is4 = ref::parse4(t, v4);
    ip::error_code c = stale(r);
    ip::ip_address x = parse_ec<ip::ip_address, char>(t, c);
    ++h::st().checks;
    if (ok ? !(c == ip::error_code::no_error && x.is_v6() && of(x) == Addr(6, v, s)) : ((c == ip::error_code::no_error) != is4))
        h::bad("v6-any", h::cat("ip_address::parse(", t, ") gave ", of(x), " ", c, ok ? " expected v6 " : " not a v6 text ", Addr(6, v, s)));
    h::nt(h::hs(t));
}

void workload() {
    // every string over small alphabets, lengths in order
    h::phase("short-colon", h::thorough() ? 2391485 : 137257, [](uint64_t i, Rng& r) {
        static const char al[] = {':', '1', '0', 'f', '.', '%', 'G'};
        std::string t;
        uint64_t n = 1, k = i; size_t len = 0;
        while (k >= n) { k -= n; n *= 7; ++len; }
        for (size_t j = 0; j < len; ++j) { t += al[k % 7]; k /= 7; }
        check(t, r, false);
    });
    // group shapes: every combination of number of groups before/after '::', group lengths and an optional dotted quad
    h::phase("shapes", 11 * 12 * 2 * 6 * 5, [](uint64_t i, Rng& r) {
        int a = int(i % 11); i /= 11;
        int b = int(i % 12) - 1; i /= 12;      // -1: no '::'
        bool v4 = i % 2; i /= 2;
        int len = int(i % 6); i /= 6;
        int sc = int(i % 5);
        std::string t;
        for (int j = 0; j < a; ++j) { if (j) t += ':'; for (int k = 0; k < len; ++k) t += "0123456789abcdefABCDEF"[r.below(22)]; }
        if (b >= 0) { t += "::"; for (int j = 0; j < b; ++j) { if (j) t += ':'; t += gen::hextet(r, unsigned(r.below(65536))); } }
        if (v4) { if (!t.empty() && t[t.size() - 1] != ':') t += ':'; t += ref::format4(uint32_t(r.next())); }
        if (sc == 1) t += "%" + gen::scope_text(r, H_SCOPE_MAX + 2);
        if (sc == 2) t += "%";
        if (sc == 3) t += "%" + std::string(size_t(H_SCOPE_MAX), 'x');
        if (sc == 4) t += "%" + std::string(size_t(H_SCOPE_MAX) + 1, '7');
        check(t, r, i % 2 == 0);
        h::sample(h::q(t));
    });
    // every byte at every position of valid texts
    h::phase("bytes", 256 * 2 * 48 * 6, [](uint64_t i, Rng& r) {
        static const char* base[] = {"1:2:3:4:5:6:7:8", "::", "fe80::1%eth0", "::ffff:1.2.3.4", "abcd:ef01:2345:6789:ABCD:EF01:2345:6789", "1::2:3:4:5:6.7.8.9%1"};
        std::string t = base[i % 6]; i /= 6;
        size_t pos = size_t(i % 48); i /= 48;
        bool ins = i % 2; i /= 2;
        char c = char(i);
        if (pos > t.size() || (pos == t.size() && !ins)) { HIT("skipped"); return; }
        if (ins) t.insert(pos, 1, c); else t[pos] = c;
        check(t, r, (i + pos) % 8 == 0);
        if (pos == 3) h::sample(h::q(t));
    });
    // every scope length around the maximum, in every position of byte classes
    h::phase("scopes", 70 * 8, [](uint64_t i, Rng& r) {
        size_t len = size_t(i % 70); int mode = int(i / 70);
        std::string s;
        for (size_t j = 0; j < len; ++j) s += mode < 3 ? char('a' + r.below(26)) : mode < 5 ? char('0' + r.below(10)) : char(1 + r.below(127));
        if (mode == 7 && len) s[r.below(len)] = r.pick({'%', '/', ' ', '\t', '\n', '\0', '\r', '\v'});
        std::string t = gen::spell6(r, gen::value(r, 6)) + "%" + s;
        check(t, r, true);
        h::sample(h::q(t));
    });
    h::random_phase("valid", 15000, [](uint64_t i, Rng& r) {
        Addr a = gen::addr(r, 6);
        std::string t = gen::spell(r, a);
        check(t, r, i % 2 == 0);
        h::sample(h::q(t));
    });
    h::random_phase("mutated", 50000, [](uint64_t i, Rng& r) {
        std::string t = gen::addr_text(r, r.one_in(10) ? 4 : 6, 100);
        check(t, r, i % 3 == 0);
        h::sample(h::q(t));
    });
    h::random_phase("long", 2500, [](uint64_t, Rng& r) {
        static const char* tok[] = {":", "::", "ffff", "0", "00000", "10000", "1.2.3.4", ".", "%", "0000", "fffff", "x", "255", "g", "-1", "1"};
        std::string t;
        int n = r.range(1, 24);
        for (int j = 0; j < n; ++j) { t += tok[r.below(16)]; if (r.one_in(2)) t += ':'; }
        if (r.one_in(5)) t += std::string(size_t(r.below(300)), "0:f%."[r.below(5)]);
        check(t, r, true);
        h::sample(h::q(t));
    });
}
#ifdef H_FUZZ
static void fuzz_case(const std::string& b, Rng& r) { check(b, r, r.one_in(8)); }
#define H_FUZZ_TEXT 0
#include "fuzz.hpp"
#endif
