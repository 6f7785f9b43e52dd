// C26: no input causes undefined behaviour, a crash, termination, a leak or a hang.
// The monitors: ASan+UBSan (and pointer-pair checks, MSan, valgrind in other builds), guard pages, an allocation ledger, injected
// allocation failures, the watchdog, and the process itself surviving.
#include "ops.hpp"
#include <new>
using namespace L;

// ---- allocation ledger and fault injection
static long g_live, g_allocs, g_fail = -1;
#ifndef C26_PLAIN      // under MSan and valgrind the tool's own allocator stays
static void* take(size_t n) {
    ++g_allocs;
#if H_EXC
    if (g_fail >= 0 && g_fail-- == 0) throw std::bad_alloc();
#endif
    void* p = malloc(n ? n : 1);
    if (!p) abort();
    ++g_live;
    return p;
}
void* operator new(size_t n) { return take(n); }
void* operator new[](size_t n) { return take(n); }
void operator delete(void* p) noexcept { if (p) { --g_live; free(p); } }
void operator delete[](void* p) noexcept { if (p) { --g_live; free(p); } }
void operator delete(void* p, size_t) noexcept { if (p) { --g_live; free(p); } }
void operator delete[](void* p, size_t) noexcept { if (p) { --g_live; free(p); } }
#endif

// ---- text against an inaccessible page
struct Guarded {
    char* base; size_t len;
    enum { MAXB = 1 << 21 };
#ifdef C26_HEAP      // a heap block of the exact size instead: lets the address sanitizer judge pairs of pointers
    char* heap = nullptr;
    template <class T> const T* at_end(const std::vector<T>& v) { free(heap); heap = (char*)malloc(v.size() * sizeof(T)); if (!v.empty()) memcpy(heap, v.data(), v.size() * sizeof(T)); return (const T*)heap; }
    template <class T> const T* at_start(const std::vector<T>& v) { return at_end(v); }
#else
    Guarded() : len(MAXB) {
        base = (char*)mmap(0, len + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (base == (char*)MAP_FAILED) abort();
        mprotect(base, 4096, PROT_NONE);
        mprotect(base + 4096 + len, 4096, PROT_NONE);
    }
    template <class T> const T* at_end(const std::vector<T>& v) { char* p = base + 4096 + len - v.size() * sizeof(T); if (!v.empty()) memcpy(p, v.data(), v.size() * sizeof(T)); return (const T*)p; }
    template <class T> const T* at_start(const std::vector<T>& v) { char* p = base + 4096; if (!v.empty()) memcpy(p, v.data(), v.size() * sizeof(T)); return (const T*)p; }
#endif
};
#ifdef C26_HEAP
enum { LONGTEXT = 400 };
#else
enum { LONGTEXT = 20000 };
#endif
static Guarded& pages() { static Guarded g; return g; }

#ifdef C26_MSAN      // the library prints numbers with a standard stream, whose own code is not instrumented
template <class X> void use_number(const X& x) { CHECK((x >> 1) <= x, "unusable-result", ""); }
#else
template <class X> void use_number(const X& x) { CHECK(!x.to_string().empty(), "unusable-result", ""); }
#endif

static void sane(ip::error_code c, const char* what) { CHECK(int(c) >= 0 && int(c) <= int(ip::error_code::wrong_encoding_sequence), "unknown-error-code", what, " ", int(c)); }
// whatever was parsed can be used
template <class X> void use_addr(const X& x) {
    std::string s = x.to_string(), f = x.to_string(ip::format::full);
    ip::error_code c = ip::error_code::no_error;
    X y = X::parse(s, c);
    CHECK(c == ip::error_code::no_error && y == x && y.hash() == x.hash() && f.size() >= s.size() - 0 * 1, "unusable-result", s);
    (void)x.is_global(); (void)x.reverse_pointer();
}
template <class N> void use_net(const N& x) {
    std::string s = x.to_string();
    ip::error_code c = ip::error_code::no_error;
    N y = N::parse(s, c);
    CHECK(c == ip::error_code::no_error && y == x, "unusable-result", s);
    if (x.prefixlen()) { auto h = x.hosts(); (void)h.size(); (void)*h.begin(); (void)*h.rbegin(); }
    (void)x.is_global(); (void)x.contains(x.broadcast_address());
}
template <class X> void use(const X& x, long) { use_addr(x); }
template <class X> auto use(const X& x, int) -> decltype(x.prefixlen(), void()) { use_net(x); }

#if CPP17
#define TEXT(T) std::basic_string_view<T>
#else
#define TEXT(T) std::basic_string<T>
#endif
template <class X, class S> void try_addr(const S& t, Rng& r) {
    ip::error_code c = stale(r);
    X x = X::parse(t, c);
    sane(c, "parse");
    if (c == ip::error_code::no_error) { use(x, 0); HIT("accepted"); } else HIT("rejected");
#if H_EXC
    if (r.one_in(4)) {
        Out o = guard([&] { X y = X::parse(t); (void)y; });
        CHECK(o.kind != OTHER, "foreign-exception", o.what);
        HIT("throwing-form");
    }
#endif
}
template <class X, class S> void try_net(const S& t, Rng& r) {
    ip::error_code c = stale(r);
    bool st = r.one_in(2);
    X x = X::parse(t, c, st);
    sane(c, "parse");
    if (c == ip::error_code::no_error) { use(x, 0); HIT("accepted"); } else HIT("rejected");
#if H_EXC
    if (r.one_in(4)) {
        Out o = guard([&] { X y = X::parse(t, st); (void)y; });
        CHECK(o.kind != OTHER, "foreign-exception", o.what);
        HIT("throwing-form");
    }
#endif
}
template <class T> struct ArrayUser {
    Rng* r;
    template <size_t N> void operator()(const T (&a)[N]) const {
        switch (r->below(8)) {
            case 0: { ip::error_code c = stale(*r); auto x = ip::ipv4_address::parse(a, c); sane(c, "array"); if (c == ip::error_code::no_error) use(x, 0); break; }
            case 1: { ip::error_code c = stale(*r); auto x = ip::ipv6_address::parse(a, c); sane(c, "array"); if (c == ip::error_code::no_error) use(x, 0); break; }
            case 2: { ip::error_code c = stale(*r); auto x = ip::ip_address::parse(a, c); sane(c, "array"); if (c == ip::error_code::no_error) use(x, 0); break; }
            case 3: { ip::error_code c = stale(*r); auto x = ip::ipv4_network::parse(a, c); sane(c, "array"); if (c == ip::error_code::no_error) use(x, 0); break; }
            case 4: { ip::error_code c = stale(*r); auto x = ip::ipv6_network::parse(a, c, false); sane(c, "array"); if (c == ip::error_code::no_error) use(x, 0); break; }
            case 5: { ip::error_code c = stale(*r); auto x = ip::ip_network::parse(a, c, false); sane(c, "array"); if (c == ip::error_code::no_error) use(x, 0); break; }
            case 6: { auto v = ip::uint128_t::from_string(a, ip::uint128_t::format(r->below(3))); if (v) use_number(v.value()); break; }
            default: { ip::error_code c = ip::error_code::no_error; ip::fixed_string<N - 1> f(a, c); sane(c, "fixed_string"); CHECK(f.size() <= f.capacity(), "fixed_string-size", f.size()); (void)f.hash(); break; }
        }
        HIT("array-form");
    }
};
template <class T> struct ScopeUser {
    Rng* r;
    template <size_t N> void operator()(const T (&a)[N], typename std::enable_if<(N <= H_SCOPE_MAX + 1 && N > 0)>::type* = 0) const {
        ip::ipv6_address x = a6(r->wide()); ip::error_code c = stale(*r);
        x.set_scope_id(a, c); sane(c, "scope-array"); use(x, 0);
    }
    template <size_t N> void operator()(const T (&)[N], typename std::enable_if<(N > H_SCOPE_MAX + 1)>::type* = 0) const {}
};
template <class T, size_t N> void scope_array(const std::basic_string<T>& s, Rng& r) {
    ScopeUser<T> u = {&r};
    with_array_n<T, N>(s, u);
}
template <class T> void hostile(const std::vector<T>& v, Rng& r) {
    bool end = !r.one_in(3);
    const T* p = end ? pages().at_end(v) : pages().at_start(v);
    std::basic_string<T> copy(p, p + v.size());
#if CPP17
    std::basic_string_view<T> t(p, v.size());
#else
    const std::basic_string<T>& t = copy;
#endif
    switch (r.below(10)) {
        case 0: try_addr<ip::ipv4_address>(t, r); break;
        case 1: try_addr<ip::ipv6_address>(t, r); break;
        case 2: try_addr<ip::ip_address>(t, r); break;
        case 3: try_net<ip::ipv4_network>(t, r); break;
        case 4: try_net<ip::ipv6_network>(t, r); break;
        case 5: try_net<ip::ip_network>(t, r); break;
        case 6: { ip::ipv6_address x = a6(r.wide(), r.one_in(2) && HAS_SCOPE ? "eth0" : ""), y = x; ip::error_code c = ip::error_code::no_error; x.set_scope_id(t, c); sane(c, "set_scope_id"); use(x, 0); if (c != ip::error_code::no_error) CHECK(x == y, "failed-set-changed", ""); HIT("set_scope_id"); break; }
        case 7: { ip::ip_address x = make<ip::ip_address>(gen::addr(r, gen::ver(r))); ip::error_code c = ip::error_code::no_error; x.set_scope_id(t, c); sane(c, "set_scope_id"); use(x, 0); HIT("set_scope_id"); break; }
        case 8: { auto x = ip::uint128_t::from_string(copy, ip::uint128_t::format(r.below(3))); if (x) use_number(x.value()); HIT("from_string"); break; }
        default:
            if (v.size() < 128) { ArrayUser<T> u = {&r}; with_array<T>(copy, u); }
            scope_array<T, 1>(copy, r); scope_array<T, 5>(copy, r); scope_array<T, H_SCOPE_MAX + 1>(copy, r);
    }
}
template <class T> std::vector<T> text(Rng& r, size_t limit) {
    std::vector<T> v;
    std::string s;
    switch (r.below(8)) {
        case 0: s = gen::addr_text(r, gen::ver(r), 70); break;
        case 1: s = gen::net_text(r, gen::ver(r), 70); break;
        case 2: { size_t n = size_t(r.below(40)); for (size_t i = 0; i < n; ++i) v.push_back(T(r.next())); return v; }
        case 3: { static const char al[] = ":./%0123fF \0a-"; size_t n = size_t(r.below(30)); for (size_t i = 0; i < n; ++i) s += al[r.below(sizeof al - 1)]; break; }
        case 4: {   // long repetitions of a short unit between two ends
            static const char* unit[] = {":", ".", "/", "%", "0", "1", "f", "1.", ":1", "::", "0:", "1/", "%a", " ", "255.", "ffff:", "\xc3\xa9", "9"};
            static const char* head[] = {"", "1.2.3.4", "::1", "::1%", "::", "1.2.3.", "::1/", "1.2.3.4/", "fe80::1%eth0/"};
            size_t n = size_t(r.one_in(3) ? r.below(limit) : r.below(300));
            std::string u = unit[r.below(18)];
            s = head[r.below(9)];
            while (s.size() < n) s += u;
            if (r.one_in(2)) s += head[r.below(9)];
            break;
        }
        default: s = r.one_in(2) ? gen::addr_text(r, gen::ver(r), 0) : gen::net_text(r, gen::ver(r), 0);
    }
    for (char c : s) v.push_back(T((unsigned char)c));
    int n = r.one_in(2) ? 0 : int(r.below(4));
    for (int i = 0; i < n; ++i) {
        uint64_t x;
        switch (r.below(5)) { case 0: x = 0xd800 + r.below(0x800); break; case 1: x = 0x80 + r.below(0x80); break; case 2: x = r.next(); break; case 3: x = 0xf0 + r.below(16); break; default: x = r.below(0x110000); }
        size_t p = r.one_in(2) ? v.size() : size_t(r.below(v.size() + 1));
        if (p < v.size() && r.one_in(2)) v[p] = T(x); else v.insert(v.begin() + long(p), T(x));
    }
    return v;
}
template <class T> uint64_t hostile_case(Rng& r, size_t limit) {
    std::vector<T> v = text<T>(r, limit);
    std::string n = "unit size " + std::to_string(sizeof(T)) + " text";
    for (size_t i = 0; i < v.size() && i < 60; ++i) { char b[16]; snprintf(b, sizeof b, v[i] >= T(33) && v[i] < T(127) ? " %c" : " \\x%llx", (unsigned long long)(uint32_t(v[i]) & (sizeof(T) == 1 ? 0xffu : sizeof(T) == 2 ? 0xffffu : 0xffffffffu))); n += b; }
    n += " length " + std::to_string(v.size());
    h::note(n);
    if (v.size() > 200) HIT("long-text");
    double t0 = 0;
    if (v.size() > 10000) t0 = double(clock()) / CLOCKS_PER_SEC;
    hostile<T>(v, r);
    if (v.size() > 10000) { double d = double(clock()) / CLOCKS_PER_SEC - t0; CHECK(d < 5.0, "too-slow", "one call on ", v.size(), " units took ", d); HIT("huge-text"); }
    h::sample(n);
    return h::fnv((const char*)v.data(), v.size() * sizeof(T));
}

// ---- moves by the most extreme amounts that stay inside the sequence
template <class S> void moves(const S& s, u128 last, Rng& r) {
    typedef typename S::difference_type D;
    static const int64_t ex[] = {INT64_MAX, INT64_MIN, INT64_MIN + 1, INT64_MAX - 1, INT32_MAX, INT32_MIN, -1, 1, 0, int64_t(1) << 62, -(int64_t(1) << 62)};
    u128 pos = 0;
    auto it = s.begin();
    for (int k = 0; k < 12; ++k) {
        int64_t d = ex[r.below(11)];
        bool back = r.one_in(3);
        // position after the move, in wide arithmetic
        __int128 step = back ? -__int128(d) : __int128(d);
        if (step < 0 ? u128(-step) > pos : u128(step) > last - pos) { u128 p = smon::index(r, last); it = s.begin() + smon::To<D>::of(p); pos = p; HIT("jump"); continue; }
        if (back) { if (r.one_in(2)) it -= d; else it = it - d; } else { if (r.one_in(2)) it += d; else it = it + d; }
        pos += u128(step);
        CHECK(*it == s[smon::To<D>::of(pos)], "extreme-move", "moved by ", (long long)d, " to ", pos);
        HIT("extreme-move");
    }
}

#if HAS_STD
template <class C> void stream_case(Rng& r) {
    std::vector<C> v = text<C>(r, 3000);
    std::basic_string<C> s(v.begin(), v.end());
    std::basic_istringstream<C> in(s);
#if H_EXC
    if (r.one_in(4)) in.exceptions(std::ios_base::iostate(r.below(8)));
#endif
    for (int k = 0; k < 3; ++k) {
#if H_EXC
        try {
#endif
            if (r.one_in(4)) in >> ip::non_strict;
            switch (r.below(7)) {
                case 0: { ip::ipv4_address x; in >> x; break; }
                case 1: { ip::ipv6_address x; in >> x; break; }
                case 2: { ip::ip_address x; in >> x; break; }
                case 3: { ip::ipv4_network x; in >> x; break; }
                case 4: { ip::ipv6_network x; in >> x; break; }
                case 5: { ip::ip_network x; in >> x; break; }
                default: { ip::uint128_t x; in >> x; break; }
            }
#if H_EXC
        } catch (const std::ios_base::failure&) { HIT("stream-exception"); } catch (const ip::error&) { HIT("stream-exception"); }
#endif
        HIT("stream-read");
    }
}
#endif

void workload() {
    using h::phase; using h::random_phase; using h::scaled;
    // the catalogue, with a balanced ledger
    random_phase("ops", 26000, [](uint64_t i, Rng& r) {
#ifdef C26_MSAN
        if (std::string(ops::kind_name(ops::kind_of(i))) == "numbers") return;
#endif
        h::note(ops::kind_name(ops::kind_of(i)));
        uint64_t k = 0;
        for (int pass = 0; pass < 2; ++pass) {
            Rng q = r;
            long before = g_live;
            { std::string s = ops::run(i, q); k = h::hs(s); }
            const long after = g_live;
            if (pass == 0) { h::sample(std::string(ops::kind_name(ops::kind_of(i)))); } else { CHECK(after <= before, "leak", ops::kind_name(ops::kind_of(i)), " left ", after - before, " allocations"); HIT("ledger-balanced"); }
        }
        h::nt(k);
        h::hit(ops::kind_name(ops::kind_of(i)));
    });
    random_phase("hostile", 60000, [](uint64_t i, Rng& r) {
        uint64_t x;
        switch (r.below(HAS_U8 ? 5 : 4)) {
            case 0: x = hostile_case<char>(r, LONGTEXT); break;
            case 1: x = hostile_case<wchar_t>(r, LONGTEXT); break;
            case 2: x = hostile_case<char16_t>(r, LONGTEXT); break;
            case 3: x = hostile_case<char32_t>(r, LONGTEXT); break;
#if HAS_U8
            default: x = hostile_case<char8_t>(r, LONGTEXT); break;
#else
            default: x = 0;
#endif
        }
        h::nt(x);
    });
#ifndef C26_HEAP
    random_phase("huge", 60, [](uint64_t, Rng& r) { h::nt(r.one_in(2) ? hostile_case<char>(r, 1000000) : r.one_in(2) ? hostile_case<char16_t>(r, 400000) : hostile_case<char32_t>(r, 400000)); });
#endif
    random_phase("moves", 4000, [](uint64_t, Rng& r) {
        Net n = gen::net(r, gen::ver(r));
        h::note("moves in " + ref::str(n));
        smon::Model m = smon::hosts_model(n);
        if (n.plen == 0) n.plen = 1, n.v = 0, m = smon::hosts_model(n);
        if (n.ver == 4) { auto s = n4(n).hosts(); moves(s, m.last, r); }
        else { auto s = n6(n).hosts(); moves(s, m.last, r); }
        { auto s = maken<ip::ip_network>(n).hosts(); moves(s, m.last, r); }
        int np = n.plen + int(r.below(uint64_t(ref::width(n.ver) - n.plen + 1)));
        smon::Model k = smon::subnets_model(n, np);
        ip::error_code c = ip::error_code::no_error;
        if (n.ver == 6) { auto s = n6(n).subnets(c, size_t(np - n.plen)); moves(s, k.last, r); }
        else { auto s = n4(n).subnets(c, size_t(np - n.plen)); moves(s, k.last, r); }
        h::nt(h::hv(n.v, uint64_t(n.plen * 200 + np)));
    });
#if HAS_STD
    random_phase("streams", 12000, [](uint64_t, Rng& r) { if (r.one_in(2)) stream_case<char>(r); else stream_case<wchar_t>(r); });
#endif
#if H_EXC && !defined(C26_PLAIN)
    // every allocation of an operation fails in turn: std::bad_alloc (or a reported failure) comes out, nothing leaks or terminates
    random_phase("allocation-failure", 2600, [](uint64_t i, Rng& r) {
        const char* nm = ops::kind_name(ops::kind_of(i));
        { Rng q = r; std::string s = ops::run(i, q); h::nt(h::hs(s)); }
        Rng q = r;
        long a0 = g_allocs;
        { std::string s = ops::run(i, q); }
        long n = g_allocs - a0, step = n > 60 ? n / 60 : 1;
        for (long k = long(r.below(uint64_t(step))); k < n; k += step) {
            h::note(std::string(nm) + " with allocation " + std::to_string(k) + " failing");
            Rng z = r;
            long before = g_live;
            int how = 0;
            g_fail = k;
            try { std::string s = ops::run(i, z); } catch (const std::bad_alloc&) { how = 1; } catch (const std::exception& e) { how = 2; } 
            g_fail = -1;
            const long after = g_live;
            if (how == 1) HIT("bad_alloc-propagated"); else if (how == 2) HIT("other-exception"); else HIT("failure-absorbed");
            CHECK(after <= before, "leak-after-failure", nm, " allocation ", k, " failing left ", after - before, " allocations");
        }
    });
#endif
}
#ifdef H_FUZZ
template <class T> std::vector<T> fuzz_units(const std::string& b);
static void fuzz_case(const std::string& b, Rng& r) {
    h::nt(h::hs(b));
    if (b.empty()) return;
    std::string t = b.substr(1);
    h::note("bytes " + h::q(b));
    for (int k = 0; k < 3; ++k)
        switch ((unsigned char)b[0] % 5) {
            case 0: hostile<char>(fuzz_units<char>(t), r); break;
            case 1: hostile<wchar_t>(fuzz_units<wchar_t>(t), r); break;
            case 2: hostile<char16_t>(fuzz_units<char16_t>(t), r); break;
            case 3: hostile<char32_t>(fuzz_units<char32_t>(t), r); break;
#if HAS_U8
            default: hostile<char8_t>(fuzz_units<char8_t>(t), r); break;
#else
            default: hostile<char>(fuzz_units<char>(t), r);
#endif
        }
}
#define H_FUZZ_TEXT 1
#include "fuzz.hpp"
#endif
