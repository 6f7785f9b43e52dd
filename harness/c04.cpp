// C04: version-independent types behave exactly like the concrete types
#include "fmtmon.hpp"
#include "seqmon.hpp"
using namespace L;
using namespace smon;
static const ip::error_code OK = ip::error_code::no_error;
typedef ip::optional<size_t> Opt;

// ---- every query, as a labelled list of answers; the same template runs on both kinds of type
struct Facts {
    std::vector<std::pair<const char*, std::string> > v;
    void add(const char* k, const std::string& s) { v.push_back(std::make_pair(k, s)); }
    template <class T> void put(const char* k, const T& x) { add(k, h::cat(x)); }
};
template <class T> std::string units(const std::basic_string<T>& s) { std::string o; for (T c : s) o += std::to_string(uint32_t(c)) + ","; return o; }
static bool site(const ip::ipv4_address&) { return false; }
static bool site(const ip::ipv6_address& a) { return a.is_site_local(); }
static bool site(const ip::ip_address& a) { return a.is_site_local(); }
static bool site(const ip::ipv4_network&) { return false; }
static bool site(const ip::ipv6_network& a) { return a.is_site_local(); }
static bool site(const ip::ip_network& a) { return a.is_site_local(); }
static ip::uint128_t num(const ip::ipv4_address& a) { return ip::uint128_t(a.to_uint()); }
static ip::uint128_t num(const ip::ipv6_address& a) { return a.to_uint(); }
static ip::uint128_t num(const ip::ip_address& a) { return a.to_uint128(); }
static std::string scope(const ip::ipv4_address&) { return std::string(); }
static std::string scope(const ip::ipv6_address& a) { return a.get_scope_id().get_string() + "|" + (a.get_scope_id().has_string() ? "s" : "") + (a.get_scope_id().has_uint32() ? std::to_string(a.get_scope_id().get_uint32()) : std::string()); }
static std::string scope(const ip::ip_address& a) { if (a.is_v4()) { CHECK(!a.get_scope_id() && !a.get_scope_id().has_string() && !a.get_scope_id().has_uint32() && a.get_scope_id().get_string().empty(), "any-scope-v4", of(a)); return std::string(); } return a.get_scope_id().get_string() + "|" + (a.get_scope_id().has_string() ? "s" : "") + (a.get_scope_id().has_uint32() ? std::to_string(a.get_scope_id().get_uint32()) : std::string()); }
static ip::optional<ip::ipv4_address> mapped(const ip::ipv4_address&) { return ip::optional<ip::ipv4_address>(); }
template <class A> ip::optional<ip::ipv4_address> mapped(const A& a) { return a.ipv4_mapped(); }
static ip::optional<ip::ipv4_address> s64(const ip::ipv4_address&) { return ip::optional<ip::ipv4_address>(); }
template <class A> ip::optional<ip::ipv4_address> s64(const A& a) { return a.sixtofour(); }
static ip::optional<std::pair<ip::ipv4_address, ip::ipv4_address> > ter(const ip::ipv4_address&) { return ip::optional<std::pair<ip::ipv4_address, ip::ipv4_address> >(); }
template <class A> ip::optional<std::pair<ip::ipv4_address, ip::ipv4_address> > ter(const A& a) { return a.teredo(); }

template <class X> void common(Facts& f, const X& x) {
    f.put("is_multicast", x.is_multicast()); f.put("is_private", x.is_private()); f.put("is_global", x.is_global());
    f.put("is_reserved", x.is_reserved()); f.put("is_loopback", x.is_loopback()); f.put("is_link_local", x.is_link_local());
    f.put("is_unspecified", x.is_unspecified()); f.put("is_site_local", site(x));
    f.put("hash", uint64_t(x.hash())); f.put("version", int(x.version()));
    static const ref::Fmt fm[] = {ref::FULL, ref::COMPACT, ref::COMPRESSED};
    for (ref::Fmt m : fm) {
        f.add("to_string", x.to_string(fmt(m)));
        f.add("to_wstring", units(x.to_wstring(fmt(m)))); f.add("to_u16string", units(x.to_u16string(fmt(m)))); f.add("to_u32string", units(x.to_u32string(fmt(m))));
#if HAS_U8
        f.add("to_u8string", units(x.to_u8string(fmt(m))));
#endif
    }
    f.add("to_string()", x.to_string()); f.add("basic_string", std::string(x)); f.add("wide conversion", units(std::wstring(x)));
#if HAS_STD
    f.put("std::hash", uint64_t(std::hash<X>()(x)));
    f.add("std::to_string", std::to_string(x)); f.add("std::to_wstring", units(std::to_wstring(x)));
    f.add("stream", fmon::streamed<char>(x, ref::FULL)); f.add("wstream", units(fmon::streamed<wchar_t>(x, ref::COMPACT)));
    { std::ostringstream os; os << std::uppercase << x; f.add("uppercase stream", os.str()); }
#endif
}
template <class A> Facts address_facts(const A& a) {
    Facts f;
    common(f, a);
    f.put("size", uint64_t(a.size()));
    f.put("data", from_data(a.data(), int(a.size())));
    f.put("number", wide(num(a)));
    f.add("scope", scope(a));
    f.add("reverse_pointer", a.reverse_pointer());
    f.put("mapped", bool(mapped(a)) ? of(mapped(a).value()) : Addr(6, 77)); f.put("sixtofour", bool(s64(a)) ? of(s64(a).value()) : Addr(6, 77));
    f.put("teredo", bool(ter(a)) ? ref::str(of(ter(a).value().first)) + ref::str(of(ter(a).value().second)) : std::string("none"));
    return f;
}
static u128 count(uint32_t v) { return v; }
static u128 count(const ip::uint128_t& v) { return wide(v); }
template <class N> Facts network_facts(const N& n) {
    Facts f;
    common(f, n);
    f.put("size", uint64_t(n.size()));
    f.put("prefixlen", uint64_t(n.prefixlen()));
    f.put("network_address", of(n.network_address())); f.put("broadcast", of(n.broadcast_address()));
    f.put("netmask", of(n.netmask())); f.put("hostmask", of(n.hostmask())); f.put("addresses_count", count(n.addresses_count()));
    return f;
}
static void same_facts(const char* key, const std::string& what, const Facts& c, const Facts& a) {
    for (size_t i = 0; i < c.v.size() && i < a.v.size(); ++i)
        CHECK(c.v[i].second == a.v[i].second, std::string(key) + "-" + c.v[i].first, what, " concrete ", c.v[i].second, " any ", a.v[i].second);
    CHECK(c.v.size() == a.v.size(), std::string(key) + "-facts", what);
}
template <class C, class A> void order(const char* key, const std::string& what, const C& x, const C& y, const A& ax, const A& ay) {
    CHECK((x == y) == (ax == ay) && (x != y) == (ax != ay) && (x < y) == (ax < ay) && (x <= y) == (ax <= ay) && (x > y) == (ax > ay) && (x >= y) == (ax >= ay), std::string(key) + "-order", what);
#ifdef IPADDRESS_HAS_SPACESHIP_OPERATOR
    CHECK((x <=> y) == (ax <=> ay), std::string(key) + "-spaceship", what);
#endif
    CHECK((ax == A(y)) == (x == y), std::string(key) + "-mixed-equality", what);
}
template <class A> void mixed_order(const std::string& what, const A& x4, const A& x6) {
    CHECK(x4 < x6 && x4 <= x6 && !(x4 > x6) && !(x4 >= x6) && x4 != x6 && !(x4 == x6) && x6 > x4 && x6 >= x4 && !(x6 < x4) && !(x6 <= x4) && x6 != x4, "mixed-order", what);
}

// ---- addresses
template <class C> C get(const ip::ip_address& a);
template <> ip::ipv4_address get(const ip::ip_address& a) { return a.v4().value(); }
template <> ip::ipv6_address get(const ip::ip_address& a) { return a.v6().value(); }
template <class C> C get(const ip::ip_network& a);
template <> ip::ipv4_network get(const ip::ip_network& a) { return a.v4().value(); }
template <> ip::ipv6_network get(const ip::ip_network& a) { return a.v6().value(); }

template <class X> void version(const char* key, const X& any, int ver, const std::string& w) {
    CHECK(any.is_v4() == (ver == 4) && any.is_v6() == (ver == 6) && any.version() == (ver == 4 ? ip::ip_version::V4 : ip::ip_version::V6), std::string(key) + "-version", w);
    CHECK(bool(any.v4()) == (ver == 4) && bool(any.v6()) == (ver == 6) && any.v4().has_value() == (ver == 4) && any.v6().has_value() == (ver == 6), std::string(key) + "-accessor", w);
}
template <class C> void one_address(const Addr& x, const Addr& y, Rng& r) {
    const C cx = make<C>(x), cy = make<C>(y);
    const std::string w = ref::str(x) + (y != x ? " " + ref::str(y) : std::string());
    h::note(w);
    const ip::ip_address ax(cx), ay(cy);
    version("address", ax, x.ver, w);
    CHECK(get<C>(ax) == cx && of(get<C>(ax)) == x, "address-get", w);
    same_facts("address", w, address_facts(cx), address_facts(ax));
    // the same object reached by other routes
    ip::error_code c = stale(r);
    ip::ip_address p = ip::ip_address::parse(cx.to_string(), c);
    CHECK(c == OK && p == ax && of(p) == x, "address-parsed", w);
    same_facts("address-parsed", w, address_facts(cx), address_facts(p));
    ip::ip_address q = ip::ip_address::from_bytes(cx.bytes());
    ip::ip_address q2 = ip::ip_address::from_bytes(cx.data(), cx.size(), cx.version());
    ip::ip_address q3 = ip::ip_address::from_uint(cx.to_uint());
    ip::ip_address q4(cx.bytes());
    Addr bare(x.ver, x.v);
    CHECK(of(q) == bare && of(q2) == bare && of(q3) == bare && of(q4) == bare, "address-from", w, " gave ", of(q), of(q2), of(q3), of(q4));
    CHECK(ax.to_uint32() == uint32_t(x.v) && uint32_t(ax) == uint32_t(x.v) && wide(ip::uint128_t(ax)) == x.v, "address-to_uint", w);
    // assignment over an object of the other family
    ip::ip_address z = x.ver == 4 ? ip::ip_address(a6(r.wide(), HAS_SCOPE ? "zz9" : "")) : ip::ip_address(a4(r.next()));
    version("other", z, x.ver == 4 ? 6 : 4, w);
    z = ax; version("assigned", z, x.ver, w); same_facts("address-assigned", w, address_facts(cx), address_facts(z));
    ip::ip_address z2 = x.ver == 4 ? ip::ip_address(a6(r.wide(), HAS_SCOPE ? "zz9" : "")) : ip::ip_address(a4(r.next()));
    const Addr o2 = of(z2);
    z.swap(z2);
    CHECK(of(z2) == x && of(z) == o2, "address-swap", w);
    same_facts("address-swapped", w, address_facts(cx), address_facts(z2));
    order("address", w, cx, cy, ax, ay);
    HIT("address");
}
static void scopes(const Addr& x, const std::string& s, Rng& r) {   // set_scope_id through both
    ip::ipv6_address c = a6(x.v, x.scope); ip::ip_address a(c);
    ip::error_code e1 = stale(r), e2 = e1;
    const std::string w = ref::str(x) + " scope " + h::q(s);
    h::note(w);
    c.set_scope_id(s, e1); a.set_scope_id(s, e2);
    CHECK(e1 == e2 && a.is_v6() && a.v6().value() == c && of(a) == of(c), "set_scope_id", w, " codes ", e1, e2, of(a), of(c));
    same_facts("scoped", w, address_facts(c), address_facts(a));
    ip::ip_address f(a4(x.v)); ip::error_code e3 = OK;
    f.set_scope_id(s, e3);
    CHECK(of(f) == Addr(4, x.v & 0xffffffffu), "set_scope_id-v4", w);
#if H_EXC
    if (r.one_in(16)) {
        ip::ipv6_address c2 = a6(x.v, x.scope); ip::ip_address a2(c2);
        Out o1 = guard([&] { c2.set_scope_id(s); }), o2 = guard([&] { a2.set_scope_id(s); });
        CHECK(o1.kind == o2.kind && o1.code == o2.code && o1.what == o2.what && of(a2) == of(c2), "set_scope_id-throw", w);
    }
#endif
    HIT("set_scope_id");
}
// ---- networks
template <class C, class A> void same_seq(const char* key, const std::string& w, const C& c, const A& a, bool forward_only) {
    // lockstep over both sequences from both ends, bounded
    std::string K(key);
    auto ci = c.begin(); auto ai = a.begin(); int n = 0;
    for (; n < 40; ++n) {
        bool ce = ci == c.end(), ae = ai == a.end();
        CHECK(ce == ae, K + "-end", w, " element ", n, " concrete ended ", ce, " any ended ", ae);
        if (ce || ae) break;
        CHECK(of(*ci) == of(*ai), K + "-element", w, " element ", n, " concrete ", of(*ci), " any ", of(*ai));
        ++ci; ++ai;
    }
    CHECK(c.empty() == a.empty(), K + "-empty", w);
    (void)forward_only;
}
template <class C, class A> void same_random_access(const char* key, const std::string& w, const C& c, const A& a, int ver, Rng& r) {
    std::string K(key);
    same_seq(key, w, c, a, false);
    CHECK(count(c.size()) == wide(a.size()), K + "-size", w, " concrete ", count(c.size()), " any ", wide(a.size()));
    if (c.empty()) return;
    CHECK(of(c.front()) == of(a.front()) && of(c.back()) == of(a.back()), K + "-front-back", w);
    auto cr = c.rbegin(); auto ar = a.rbegin();
    for (int n = 0; n < 12; ++n) {
        bool ce = cr == c.rend(), ae = ar == a.rend();
        CHECK(ce == ae, K + "-rend", w, " element ", n);
        if (ce || ae) break;
        CHECK(of(*cr) == of(*ar), K + "-reverse-element", w, " element ", n, " concrete ", of(*cr), " any ", of(*ar));
        ++cr; ++ar;
    }
    u128 sz = count(c.size());
    for (int j = 0; j < 4; ++j) {
        u128 i = sz == 0 ? (ver == 4 ? r.wide() & 0xffffffffu : r.wide()) : index(r, sz - 1);
        CHECK(of(c[To<typename C::difference_type>::of(i)]) == of(a[u128_of(i)]), K + "-index", w, " ", i);
        CHECK(of(c.at(To<typename C::difference_type>::of(i))) == of(a.at(u128_of(i))), K + "-at", w, " ", i);
        auto ci = c.begin() + To<typename C::difference_type>::of(i); auto ai = a.begin() + u128_of(i);
        CHECK(of(*ci) == of(*ai) && ci - c.begin() == ai - a.begin() && count(ci.uint_diff(c.begin())) == wide(ai.uint_diff(a.begin())) && (ci < c.end()) == (ai < a.end()) && (ci == c.begin()) == (ai == a.begin()), K + "-iterator", w, " ", i);
        CHECK(of(*(c.end() - To<typename C::difference_type>::of(i + 1))) == of(*(a.end() - u128_of(i + 1))), K + "-end-minus", w, " ", i);
    }
}
template <class C> void one_network(const Net& x, const Net& y, Rng& r) {
    const C cx = maken<C>(x), cy = maken<C>(y);
    const ip::ip_network ax(cx), ay(cy);
    const std::string w = ref::str(x) + " " + ref::str(y);
    h::note(w);
    version("network", ax, x.ver, w);
    CHECK(get<C>(ax) == cx && of(get<C>(ax)) == x, "network-get", w);
    same_facts("network", w, network_facts(cx), network_facts(ax));
    ip::error_code c = stale(r);
    ip::ip_network p = ip::ip_network::parse(cx.to_string(), c, r.one_in(2));
    CHECK(c == OK && p == ax && of(p) == x, "network-parsed", w);
    same_facts("network-parsed", w, network_facts(cx), network_facts(p));
    order("network", w, cx, cy, ax, ay);
    // assignment and swap across families
    ip::ip_network z = x.ver == 4 ? ip::ip_network(n6(Net(6, u128(0xabcd) << 112, 17, HAS_SCOPE ? "e1" : ""))) : ip::ip_network(n4(Net(4, 0x0a000000, 9)));
    const Net oz = of(z);
    ip::ip_network z2 = z;
    z = ax; CHECK(of(z) == x, "network-assigned", w);
    z.swap(z2); CHECK(of(z2) == x && of(z) == oz, "network-swap", w);
    same_facts("network-swapped", w, network_facts(cx), network_facts(z2));
    // from_address with good and bad prefix lengths, strict and not
    {
        Addr b(x.ver, r.one_in(2) ? x.v : gen::value(r, x.ver), x.scope);
        size_t pl = r.one_in(4) ? size_t(r.below(300)) : r.one_in(12) ? size_t(r.next()) : size_t(x.plen);
        bool strict = r.one_in(2);
        ip::error_code e1 = stale(r), e2 = stale(r);
        C d = C::from_address(make<typename C::ip_address_type>(b), e1, pl, strict);
        ip::ip_network e = ip::ip_network::from_address(make<ip::ip_address>(b), e2, pl, strict);
        CHECK(e1 == e2, "from_address-code", ref::str(b), " /", uint64_t(pl), strict ? " strict" : " non-strict", " codes ", e1, " ", e2);
        if (e1 == OK) CHECK(e.version() == cx.version() && of(e) == of(d), "from_address", ref::str(b), " /", uint64_t(pl), " gave ", of(e), " instead of ", of(d));
#if H_EXC
        if (r.one_in(20)) {
            Out o1 = guard([&] { C::from_address(make<typename C::ip_address_type>(b), pl, strict); }), o2 = guard([&] { ip::ip_network::from_address(make<ip::ip_address>(b), pl, strict); });
            CHECK(o1.kind == o2.kind && o1.code == o2.code && o1.what == o2.what, "from_address-throw", ref::str(b), " /", uint64_t(pl));
        }
#endif
    }
    // relations
    {
        Addr b(x.ver, r.one_in(3) ? x.last() + r.below(2) : r.one_in(2) ? x.first() - r.below(2) : gen::value(r, x.ver), r.one_in(4) && HAS_SCOPE && x.ver == 6 ? "q" : "");
        b.v &= ref::all_ones(x.ver);
        CHECK(cx.contains(make<typename C::ip_address_type>(b)) == ax.contains(make<ip::ip_address>(b)), "contains", w, " ", ref::str(b));
        CHECK(cx.overlaps(cy) == ax.overlaps(ay) && cx.subnet_of(cy) == ax.subnet_of(ay) && cx.supernet_of(cy) == ax.supernet_of(ay), "relations", w);
    }
    // enumeration
    same_random_access("hosts", w, cx.hosts(), ax.hosts(), x.ver, r);
    {
        size_t diff = r.one_in(3) ? size_t(r.below(200)) : r.one_in(8) ? size_t(r.next()) : 1;
        Opt np = r.one_in(3) ? Opt(size_t(r.below(140))) : Opt();
        std::string ww = w + " subnets/supernet(" + std::to_string(diff) + (np ? "," + std::to_string(np.value()) : std::string()) + ")";
        h::note(ww);
        ip::error_code e1 = stale(r), e2 = stale(r);
        auto s1 = cx.subnets(e1, diff, np); auto s2 = ax.subnets(e2, diff, np);
        CHECK(e1 == e2, "subnets-code", ww, " codes ", e1, " ", e2);
        if (e1 == OK) same_random_access("subnets", ww, s1, s2, x.ver, r); else { CHECK(s1.empty() && s2.empty() && s2.begin() == s2.end(), "subnets-refused", ww); HIT("subnets-refused"); }
        e1 = stale(r); e2 = stale(r);
        C u1 = cx.supernet(e1, diff, np); ip::ip_network u2 = ax.supernet(e2, diff, np);
        CHECK(e1 == e2 && (e1 != OK || (of(u1) == of(u2) && u2.version() == cx.version())), "supernet", ww, " codes ", e1, " ", e2, " ", of(u1), of(u2));
#if H_EXC
        if (r.one_in(20)) {
            Out o1 = guard([&] { auto s = cx.subnets(diff, np); }), o2 = guard([&] { auto s = ax.subnets(diff, np); });
            CHECK(o1.kind == o2.kind && o1.code == o2.code && o1.what == o2.what, "subnets-throw", ww);
            o1 = guard([&] { cx.supernet(diff, np); }); o2 = guard([&] { ax.supernet(diff, np); });
            CHECK(o1.kind == o2.kind && o1.code == o2.code && o1.what == o2.what, "supernet-throw", ww);
        }
#endif
    }
    {
        h::note(w + " address_exclude");
        ip::error_code e1 = stale(r), e2 = stale(r);
        auto s1 = cx.address_exclude(cy, e1); auto s2 = ax.address_exclude(ay, e2);
        CHECK(e1 == e2, "exclude-code", w, " codes ", e1, " ", e2);
        auto i1 = s1.begin(); auto i2 = s2.begin(); int n = 0;
        for (; n < 140; ++n) {
            bool d1 = i1 == s1.end(), d2 = i2 == s2.end();
            CHECK(d1 == d2, "exclude-end", w, " element ", n);
            if (d1 || d2) break;
            CHECK(of(*i1) == of(*i2), "exclude-element", w, " element ", n, " ", of(*i1), of(*i2));
            ++i1; ++i2;
        }
        if (n) HIT("exclude");
#if H_EXC
        if (r.one_in(20)) {
            Out o1 = guard([&] { auto s = cx.address_exclude(cy); }), o2 = guard([&] { auto s = ax.address_exclude(ay); });
            CHECK(o1.kind == o2.kind && o1.code == o2.code && o1.what == o2.what, "exclude-throw", w);
        }
#endif
    }
    HIT("network");
}
// the two families in one operation
static void mixed(const Addr& a, const Addr& b, const Net& m, const Net& n, Rng& r) {   // a, m IPv4; b, n IPv6
    const std::string w = ref::str(a) + ref::str(b) + ref::str(m) + ref::str(n);
    h::note(w);
    ip::ip_address xa = make<ip::ip_address>(a), xb = make<ip::ip_address>(b);
    ip::ip_network xm = maken<ip::ip_network>(m), xn = maken<ip::ip_network>(n);
    mixed_order(w, xa, xb);
    mixed_order(w, xm, xn);
    CHECK(!xm.contains(xb) && !xn.contains(xa), "mixed-contains", w);
    CHECK(!xm.overlaps(xn) && !xn.overlaps(xm) && !xm.subnet_of(xn) && !xn.subnet_of(xm) && !xm.supernet_of(xn) && !xn.supernet_of(xm), "mixed-relations", w);
    ip::error_code c = stale(r); auto s = xm.address_exclude(xn, c); CHECK(c == ip::error_code::invalid_version && s.empty() && s.begin() == s.end(), "mixed-exclude", w, " code ", c);
    c = stale(r); auto t = xn.address_exclude(xm, c); CHECK(c == ip::error_code::invalid_version && t.empty() && t.begin() == t.end(), "mixed-exclude", w, " code ", c);
#if H_EXC
    if (r.one_in(10)) {
        Out o = guard([&] { xm.address_exclude(xn); }); CHECK(o.kind == LOGIC_ERROR && o.code == ip::error_code::invalid_version, "mixed-exclude-throw", w);
    }
#endif
    CHECK(!xa.v6() && !xb.v4() && !xm.v6() && !xn.v4(), "wrong-family-accessor", w);
    HIT("mixed-families");
}
// ---- text: IPv4 if valid IPv4, otherwise IPv6
template <class T> void text_address(const std::string& t, Rng& r) {
    std::basic_string<T> s = widen<T>(t);
    ip::error_code c4 = stale(r), c6 = stale(r), ca = stale(r);
    ip::ipv4_address x4 = parse_ec<ip::ipv4_address, T>(s, c4);
    ip::ipv6_address x6 = parse_ec<ip::ipv6_address, T>(s, c6);
    ip::ip_address xa = parse_ec<ip::ip_address, T>(s, ca);
    if (c4 == OK) CHECK(ca == OK && xa.is_v4() && of(xa) == of(x4), "parse-v4", t, " gave ", ca, of(xa));
    else if (c6 == OK) CHECK(ca == OK && xa.is_v6() && of(xa) == of(x6), "parse-v6", t, " gave ", ca, of(xa));
    else CHECK(ca == c6 && of(xa) == Addr(4, 0), "parse-neither", t, " gave ", ca, " expected ", c6);
    if (ca == OK) HIT("parsed-address"); else HIT("refused-address");
#if H_EXC
    if (ca == OK || r.one_in(8)) {
        ip::ip_address y;
        Out o = guard([&] { y = parse_th<ip::ip_address, T>(s); });
        CHECK((o.kind == NONE) == (ca == OK) && o.code == ca && (ca != OK || y == xa), "parse-throw", t, " kind ", o.kind, " code ", o.code);
    }
#endif
}
template <class T> void text_network(const std::string& t, Rng& r) {
    std::basic_string<T> s = widen<T>(t);
    bool strict = r.one_in(2);
    ip::error_code c4 = stale(r), c6 = stale(r), ca = stale(r);
    ip::ipv4_network x4 = parse_ec<ip::ipv4_network, T>(s, c4, strict);
    ip::ipv6_network x6 = parse_ec<ip::ipv6_network, T>(s, c6, strict);
    ip::ip_network xa = parse_ec<ip::ip_network, T>(s, ca, strict);
    if (c4 == OK) CHECK(ca == OK && xa.is_v4() && of(xa) == of(x4), "parse-net-v4", t, " gave ", ca, of(xa));
    else if (c6 == OK) CHECK(ca == OK && xa.is_v6() && of(xa) == of(x6), "parse-net-v6", t, " gave ", ca, of(xa));
    else CHECK(ca == c6 && of(xa) == Net(), "parse-net-neither", t, " gave ", ca, " expected ", c6, " ", of(xa));
    if (ca == OK) HIT("parsed-network"); else HIT("refused-network");
#if H_EXC
    if (ca == OK || r.one_in(8)) {
        ip::ip_network y;
        Out o = guard([&] { y = parse_th<ip::ip_network, T>(s, strict); });
        CHECK((o.kind == NONE) == (ca == OK) && o.code == ca && (ca != OK || y == xa), "parse-net-throw", t, " kind ", o.kind, " code ", o.code);
    }
#endif
}
static void text(const std::string& t, Rng& r) {
    h::note(t);
    text_address<char>(t, r); text_network<char>(t, r);
    bool ascii = true; for (char c : t) if ((unsigned char)c > 127) ascii = false;
    if (ascii) switch (r.below(4)) {
        case 0: text_address<wchar_t>(t, r); text_network<wchar_t>(t, r); break;
        case 1: text_address<char16_t>(t, r); text_network<char16_t>(t, r); break;
        case 2: text_address<char32_t>(t, r); text_network<char32_t>(t, r); break;
#if HAS_U8
        default: text_address<char8_t>(t, r); text_network<char8_t>(t, r); break;
#endif
    }
    h::nt(h::hs(t));
}
void workload() {
    h::random_phase("addresses", 12000, [](uint64_t, Rng& r) {
        int v = gen::ver(r);
        Addr a = gen::addr(r, v), b = gen::addr(r, v);
        if (r.one_in(2)) { b = a; if (r.one_in(2)) b.v = (b.v ^ (u128(1) << r.below(uint64_t(ref::width(v))))); else if (v == 6 && HAS_SCOPE) b.scope = r.one_in(2) ? "" : gen::scope_text(r, H_SCOPE_MAX); }
        if (v == 4) one_address<ip::ipv4_address>(a, b, r); else one_address<ip::ipv6_address>(a, b, r);
        h::nt(h::hs(ref::str(a) + ref::str(b)));
        h::sample(ref::str(a) + ref::str(b));
    });
    h::random_phase("scopes", 4000, [](uint64_t, Rng& r) {
        Addr a = gen::addr(r, 6);
        std::string s = gen::scope_text(r, H_SCOPE_MAX > 0 ? H_SCOPE_MAX + 3 : 4);
        if (r.one_in(3)) s = gen::mutate(r, s);
        if (r.one_in(8)) s.clear();
        if (H_SCOPE_MAX > 0) scopes(a, s, r);
        h::nt(h::hs(ref::str(a) + s));
    });
    h::phase("network-prefixes", 33 * 3 + 129 * 3, [](uint64_t i, Rng& r) {
        int v = i < 99 ? 4 : 6; if (v == 6) i -= 99; int mode = int(i % 3), p = int(i / 3);
        u128 val = mode == 0 ? 0 : mode == 1 ? ref::all_ones(v) : gen::value(r, v);
        Net n(v, val & ref::netmask(v, p), p), m = gen::near(r, n);
        if (v == 4) one_network<ip::ipv4_network>(n, m, r); else one_network<ip::ipv6_network>(n, m, r);
        h::nt(h::hs(ref::str(n) + ref::str(m)));
    }, false);
    h::random_phase("networks", 6000, [](uint64_t, Rng& r) {
        int v = gen::ver(r);
        Net n = gen::net(r, v, true), m = r.one_in(3) ? gen::net(r, v, true) : gen::near(r, n);
        if (v == 4) one_network<ip::ipv4_network>(n, m, r); else one_network<ip::ipv6_network>(n, m, r);
        h::nt(h::hs(ref::str(n) + ref::str(m)));
        h::sample(ref::str(n) + ref::str(m));
    });
    h::random_phase("mixed", 4000, [](uint64_t, Rng& r) {
        Addr a = gen::addr(r, 4), b = gen::addr(r, 6); Net m = gen::net(r, 4), n = gen::net(r, 6, true);
        if (r.one_in(3)) { b.v = a.v; n.v = m.v; n.plen = 96 + m.plen; }             // the same low bytes
        if (r.one_in(4)) { b.v = a.v << 96; n.v = m.v << 96; n.plen = m.plen; }        // the same leading bytes
        mixed(a, b, m, n, r);
        h::nt(h::hs(ref::str(a) + ref::str(b)));
    });
    h::random_phase("text", 20000, [](uint64_t, Rng& r) {
        std::string t = r.one_in(2) ? gen::addr_text(r, gen::ver(r), 40) : gen::net_text(r, gen::ver(r), 40);
        text(t, r);
        h::sample(t);
    });
}
