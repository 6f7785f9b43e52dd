// C01: IPv4 text is accepted exactly when it is a canonical dotted quad
#include "textmon.hpp"
using namespace tmon;

static void check(const std::string& t, Rng& r, bool all) {
    h::note(h::q(t));
    uint32_t v = 0, va = 0;
    bool ok = ref::parse4(t, v);
    bool oka = ref::parse4(upto_nul(t), va);
    if (ok) HIT("valid"); else HIT("invalid");
    one<ip::ipv4_address>("v4", t, ok, Addr(4, v), r, all, oka, Addr(4, va));
    // the version-independent reader takes it as IPv4 exactly then
    ip::error_code c = stale(r);
    ip::ip_address x = parse_ec<ip::ip_address, char>(t, c);
    ++h::st().checks;
    if (ok ? !(c == ip::error_code::no_error && x.is_v4() && of(x) == Addr(4, v)) : (c == ip::error_code::no_error && x.is_v4()))
        h::bad("v4-any", h::cat("ip_address::parse(", t, ") gave ", of(x), " ", c, ok ? " expected v4 " : " not a v4 text ", Addr(4, v)));
    h::nt(h::hs(t));
}

void workload() {
    // every digit string of 1..4 digits in every octet position
    h::phase("octets", 4 * 11110, [](uint64_t i, Rng& r) {
        uint64_t pos = i % 4, k = i / 4;
        std::string d;
        size_t len = 1; uint64_t n = 10;
        while (k >= n) { k -= n; n *= 10; ++len; }
        for (size_t j = 0; j < len; ++j) { d.insert(d.begin(), char('0' + k % 10)); k /= 10; }
        std::string t;
        for (uint64_t j = 0; j < 4; ++j) { if (j) t += '.'; t += j == pos ? d : std::to_string(r.below(256)); }
        check(t, r, i % 16 == 0);
        h::sample(h::q(t));
    });
    // every string over small alphabets
    h::phase("short01", h::thorough() ? 1594323 : 88573, [](uint64_t i, Rng& r) {
        std::string t;
        static const char al[] = "01.";
        // lengths 0.. enumerated in order
        uint64_t n = 1, k = i; size_t len = 0;
        while (k >= n) { k -= n; n *= 3; ++len; }
        for (size_t j = 0; j < len; ++j) { t += al[k % 3]; k /= 3; }
        check(t, r, false);
    });
    h::phase("short6", h::thorough() ? 2000000 : 60000, [](uint64_t i, Rng& r) {
        std::string t;
        static const char al[] = {'2', '5', '.', 'a', ' ', '\0'};
        uint64_t n = 1, k = i; size_t len = 0;
        while (k >= n) { k -= n; n *= 6; ++len; }
        for (size_t j = 0; j < len; ++j) { t += al[k % 6]; k /= 6; }
        check(t, r, false);
    });
    // every byte at every position of valid texts, replacing and inserting
    h::phase("bytes", 256 * 2 * 16 * 4, [](uint64_t i, Rng& r) {
        static const char* base[] = {"1.2.3.4", "255.255.255.255", "0.0.0.0", "192.168.10.20"};
        std::string t = base[i % 4]; i /= 4;
        size_t pos = size_t(i % 16); i /= 16;
        bool ins = i % 2; i /= 2;
        char c = char(i);
        if (pos > t.size() || (pos == t.size() && !ins)) { HIT("skipped"); return; }
        if (ins) t.insert(pos, 1, c); else t[pos] = c;
        check(t, r, (i + pos) % 4 == 0);
        if (pos == 3) h::sample(h::q(t));
    });
    h::random_phase("valid", 15000, [](uint64_t, Rng& r) {
        Addr a = gen::addr(r, 4);
        std::string t = ref::format4(uint32_t(a.v));
        check(t, r, true);
        h::sample(h::q(t));
    });
    h::random_phase("mutated", 40000, [](uint64_t i, Rng& r) {
        std::string t = gen::addr_text(r, r.one_in(8) ? 6 : 4, 100);
        check(t, r, i % 2 == 0);
        h::sample(h::q(t));
    });
    // long inputs, and numbers that would wrap an accumulator
    h::random_phase("long", 4000, [](uint64_t, Rng& r) {
        static const char* big[] = {"256", "4294967296", "4294967297", "18446744073709551616", "65536", "65537", "511", "512", "768", "1000", "00", "01", "000", "0000000001"};
        std::string t;
        int n = r.range(1, 7);
        for (int j = 0; j < n; ++j) {
            if (j) t += '.';
            if (r.one_in(3)) t += big[r.below(14)];
            else if (r.one_in(6)) t += std::string(size_t(r.below(120)), char('0' + r.below(10)));
            else t += std::to_string(r.below(256));
        }
        check(t, r, true);
        h::sample(h::q(t));
    });
}
#ifdef H_FUZZ
static void fuzz_case(const std::string& b, Rng& r) { check(b, r, r.one_in(8)); }
#define H_FUZZ_TEXT 0
#include "fuzz.hpp"
#endif
