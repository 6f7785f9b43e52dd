// C11: Binary conversions are exact and in network byte order
#include "lib.hpp"
#include <algorithm>
using namespace L;

static void bytes_of(u128 v, int n, uint8_t* b) { for (int i = 0; i < n; ++i) b[i] = uint8_t(v >> (8 * (n - 1 - i))); }

template <class F> void check_one(u128 v, const std::string& scope, Rng& r) {
    typedef typename F::A A;
    const int n = F::BYTES;
    std::string k = F::name();
    uint8_t b[16];
    bytes_of(v, n, b);
    Addr want(F::V, v), scoped(F::V, v, F::V == 6 ? scope : std::string());
    h::note(ref::str(scoped));
    typename A::base_type arr = {};
    for (int i = 0; i < n; ++i) arr[size_t(i)] = b[i];

    // every constructor from binary gives exactly the address, without a scope
    A x1 = A::from_bytes(arr), x2(arr), x4 = A::from_uint(F::uint_of(v));
    uint8_t* hb = new uint8_t[size_t(n)];
    memcpy(hb, b, size_t(n));
    A x3 = A::from_bytes(hb, size_t(n));
    delete[] hb;
    CHECK(of(x1) == want, k + "-from_bytes", want, " became ", of(x1));
    CHECK(of(x2) == want, k + "-ctor", want, " became ", of(x2));
    CHECK(of(x3) == want, k + "-from_bytes-ptr", want, " became ", of(x3));
    CHECK(of(x4) == want, k + "-from_uint", want, " became ", of(x4));
    CHECK(x1 == x2 && x1 == x3 && x1 == x4, k + "-constructors-differ", want);
    ip::ip_address a1 = ip::ip_address::from_bytes(arr), a2(arr), a3 = ip::ip_address::from_bytes(b, size_t(n), F::V == 4 ? ip::ip_version::V4 : ip::ip_version::V6), a4_ = ip::ip_address::from_uint(F::uint_of(v)), a5(x1);
    CHECK(of(a1) == want && of(a2) == want && of(a3) == want && of(a4_) == want && of(a5) == want, k + "-any-constructors", want, " became ", of(a1), of(a2), of(a3), of(a4_), of(a5));
    CHECK(a1 == a5 && a2 == a5 && a3 == a5 && a4_ == a5, k + "-any-constructors-differ", want);

    // and every observer gives the bytes back, also from an object that carries a scope
    A y = make<A>(scoped);
    CHECK(y.size() == size_t(n), k + "-size", y.size());
    CHECK(memcmp(y.data(), b, size_t(n)) == 0, k + "-data", scoped);
    CHECK(y.bytes().size() == size_t(n) && std::equal(y.bytes().begin(), y.bytes().end(), b), k + "-bytes", scoped);
    CHECK(wide(y.to_uint()) == v, k + "-to_uint", scoped, " gave ", wide(y.to_uint()));
    CHECK(wide(typename F::U(y)) == v, k + "-conversion-uint", scoped, " gave ", wide(typename F::U(y)));
    ip::ip_address z(y);
    CHECK(z.size() == size_t(n) && memcmp(z.data(), b, size_t(n)) == 0, k + "-any-data", scoped);
    CHECK(wide(z.to_uint128()) == v && wide(ip::uint128_t(z)) == v, k + "-any-to_uint128", scoped, " gave ", wide(z.to_uint128()));
    if (F::V == 4) CHECK(u128(z.to_uint32()) == v && u128(uint32_t(z)) == v, k + "-any-to_uint32", scoped, " gave ", z.to_uint32());
    CHECK(z.is_v4() == (F::V == 4) && z.is_v6() == (F::V == 6) && int(z.version()) == F::V && int(y.version()) == F::V, k + "-version", scoped);
    // inverses drop the scope, nothing else
    CHECK(of(A::from_bytes(y.bytes())) == want && of(A::from_uint(y.to_uint())) == want && of(A::from_bytes(y.data(), y.size())) == want, k + "-inverse", scoped, " became ", of(A::from_uint(y.to_uint())));
    // assigning bytes over a scoped object keeps no scope
    y = A::from_bytes(arr);
    CHECK(of(y) == want && y == x1 && y.hash() == x1.hash(), k + "-assign-drops-scope", scoped, " became ", of(y));
    // documented: missing bytes are zero, surplus bytes are ignored
    size_t cnt = size_t(r.below(uint64_t(n) + 4));
    uint8_t* p = new uint8_t[cnt ? cnt : 1];
    u128 w = 0;
    for (size_t i = 0; i < cnt; ++i) p[i] = i < size_t(n) ? b[i] : uint8_t(r.next());
    for (int i = 0; i < n; ++i) w = (w << 8) | (size_t(i) < cnt ? b[i] : 0);
    CHECK(of(A::from_bytes(p, cnt)) == Addr(F::V, w), k + "-from_bytes-count", cnt, " bytes of ", want, " became ", of(A::from_bytes(p, cnt)));
    CHECK(of(ip::ip_address::from_bytes(p, cnt, F::V == 4 ? ip::ip_version::V4 : ip::ip_version::V6)) == Addr(F::V, w), k + "-any-from_bytes-count", cnt);
    delete[] p;
    if (F::V == 4) HIT("v4"); else HIT("v6");
    if (!scoped.scope.empty()) HIT("scoped");
    h::nt(h::hv(v, F::V));
}
static void check(int ver, u128 v, Rng& r) {
    std::string s = HAS_SCOPE && r.one_in(3) ? gen::scope_text(r, H_SCOPE_MAX) : std::string();
    if (ver == 4) check_one<F4>(v, s, r); else check_one<F6>(v, s, r);
    h::sample(ref::format(Addr(ver, v)));
}
void workload() {
    h::phase("bits", 32 + 128, [](uint64_t i, Rng& r) { int ver = i < 32 ? 4 : 6; u128 b = u128(1) << (ver == 4 ? i : i - 32); check(ver, b, r); check(ver, ref::all_ones(ver) ^ b, r); check(ver, b - 1, r); });
    h::phase("byte-values", (4 + 16) * 256, [](uint64_t i, Rng& r) {
        int p = int(i % 20); u128 x = i / 20;
        int ver = p < 4 ? 4 : 6; int sh = 8 * (p < 4 ? p : p - 4);
        check(ver, x << sh, r);
        check(ver, (ref::all_ones(ver) & ~(u128(255) << sh)) | (x << sh), r);
    });
    // the integer literal: an IPv4 address is the integer (a consteval function from C++20 on)
#ifndef IPADDRESS_NONTYPE_TEMPLATE_PARAMETER
    h::random_phase("integer-literal", 4000, [](uint64_t i, Rng& r) {
        unsigned long long v = i < 33 ? (1ull << i) - 1 : i < 65 ? 1ull << (i - 33) : r.one_in(3) ? uint32_t(r.next()) : uint32_t(gen::value(r, 4));
        h::note(h::cat("_ipv4 of ", uint64_t(v)));
        ip::ipv4_address a = ip::operator""_ipv4(v);
        CHECK(of(a) == Addr(4, u128(v)), "integer-literal", uint64_t(v), " gave ", of(a));
        HIT("integer-literal");
        h::nt(h::hv(u128(v), 44));
    });
#else
    h::phase("integer-literal", 5, [](uint64_t i, Rng&) {
        using ip::operator""_ipv4;
        static const ip::ipv4_address a[] = {0_ipv4, 1_ipv4, 0x0a0b0c0d_ipv4, 2130706433_ipv4, 4294967295_ipv4};
        static const uint32_t v[] = {0, 1, 0x0a0b0c0d, 2130706433u, 4294967295u};
        CHECK(of(a[i]) == Addr(4, u128(v[i])), "integer-literal", uint64_t(v[i]), " gave ", of(a[i]));
        HIT("integer-literal");
    }, false);
#endif
    h::random_phase("random", 60000, [](uint64_t, Rng& r) { int ver = gen::ver(r); check(ver, gen::value(r, ver), r); });
    if (h::thorough()) h::phase("all-16-bit-halves", 2 * 65536, [](uint64_t i, Rng& r) { check(4, (i >> 16) ? u128(i & 0xffff) << 16 | r.below(65536) : u128(i) | (u128(r.below(65536)) << 16), r); });
}
