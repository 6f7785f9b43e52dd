// C28: addresses and networks are regular values
#include "seqmon.hpp"
#include <utility>
using namespace smon;
typedef ip::error_code EC;

// ---------------------------------------------------------------- what an object is, completely
static std::string tag(const char* a, const std::string& b) { return std::string(a) + "=" + b + " "; }
template <class A> std::string whole_addr(const A& a) {
    return tag("text", a.to_string(ip::format::full)) + tag("ver", std::to_string(int(a.version()))) + tag("scope", a.get_scope_id().get_string()) + tag("hash", std::to_string(a.hash())) + tag("uint", h::hex(of(a).v));
}
static std::string whole(const ip::ipv4_address& a) { return tag("text", a.to_string(ip::format::full)) + tag("hash", std::to_string(a.hash())) + tag("uint", h::hex(a.to_uint())); }
static std::string whole(const ip::ipv6_address& a) { return whole_addr(a); }
static std::string whole(const ip::ip_address& a) { return whole_addr(a) + tag("size", std::to_string(a.size())) + tag("v4", a.v4() ? whole(a.v4().value()) : "-") + tag("v6", a.v6() ? whole(a.v6().value()) : "-"); }
template <class N> std::string whole_net(const N& n) {
    return tag("text", n.to_string(ip::format::full)) + tag("net", whole(n.network_address())) + tag("mask", whole(n.netmask())) + tag("host", whole(n.hostmask())) + tag("bcast", whole(n.broadcast_address())) +
           tag("plen", std::to_string(n.prefixlen())) + tag("hash", std::to_string(n.hash()));
}
static std::string whole(const ip::ipv4_network& n) { return whole_net(n) + tag("count", std::to_string(uint64_t(wide(n.addresses_count())))); }
static std::string whole(const ip::ipv6_network& n) { return whole_net(n) + tag("count", h::hex(wide(n.addresses_count()))); }
static std::string whole(const ip::ip_network& n) { return whole_net(n) + tag("count", h::hex(wide(n.addresses_count()))) + tag("v4", n.v4() ? whole(n.v4().value()) : "-") + tag("v6", n.v6() ? whole(n.v6().value()) : "-"); }

template <class X> struct Tr;
template <> struct Tr<ip::ipv4_address> { typedef Addr M; static M gen(Rng& r) { return gen::addr(r, 4); } static ip::ipv4_address make(const M& m) { return a4(m.v); } static M zero() { return Addr(4, 0); } static const char* key() { return "ipv4_address"; } };
template <> struct Tr<ip::ipv6_address> { typedef Addr M; static M gen(Rng& r) { return gen::addr(r, 6); } static ip::ipv6_address make(const M& m) { return a6(m.v, m.scope); } static M zero() { return Addr(6, 0); } static const char* key() { return "ipv6_address"; } };
template <> struct Tr<ip::ip_address> { typedef Addr M; static M gen(Rng& r) { return gen::addr(r, gen::ver(r)); } static ip::ip_address make(const M& m) { return L::make<ip::ip_address>(m); } static M zero() { return Addr(4, 0); } static const char* key() { return "ip_address"; } };
template <> struct Tr<ip::ipv4_network> { typedef Net M; static M gen(Rng& r) { return gen::net(r, 4); } static ip::ipv4_network make(const M& m) { return n4(m); } static M zero() { return Net(4, 0, 32); } static const char* key() { return "ipv4_network"; } };
template <> struct Tr<ip::ipv6_network> { typedef Net M; static M gen(Rng& r) { return gen::net(r, 6, true); } static ip::ipv6_network make(const M& m) { return n6(m); } static M zero() { return Net(6, 0, 128); } static const char* key() { return "ipv6_network"; } };
template <> struct Tr<ip::ip_network> { typedef Net M; static M gen(Rng& r) { return gen::net(r, gen::ver(r), true); } static ip::ip_network make(const M& m) { return maken<ip::ip_network>(m); } static M zero() { return Net(4, 0, 32); } static const char* key() { return "ip_network"; } };

// change one object in place, if its type has such an operation
static void touch(ip::ipv6_address& x, Addr& m, Rng& r) { if (!HAS_SCOPE) return; std::string s = r.one_in(3) ? std::string() : gen::scope_text(r, H_SCOPE_MAX); EC c; x.set_scope_id(s, c); m.scope = s; }
static void touch(ip::ip_address& x, Addr& m, Rng& r) { if (!HAS_SCOPE) return; std::string s = r.one_in(3) ? std::string() : gen::scope_text(r, H_SCOPE_MAX); EC c; x.set_scope_id(s, c); if (m.ver == 6) m.scope = s; }
template <class X, class M> void touch(X&, M&, Rng&) {}

template <class X> X by_value(X x) { return x; }
template <class X> struct Box { X a; int pad; X b; };

template <class X> void history(Rng& r, int steps) {
    typedef Tr<X> T; typedef typename T::M M;
    const std::string K = T::key();
    const int n = 5;
    X pool[n]; M model[n];
    for (int i = 0; i < n; ++i) model[i] = T::zero();
    std::string trail;
    uint64_t hash = h::hs(K);
    for (int s = 0; s < steps; ++s) {
        int k = int(r.below(n)), l = int(r.below(n)), op = int(r.below(18));
        trail += char('a' + op); trail += char('0' + k); trail += char('0' + l); trail += ' ';
        h::note(K + " " + trail);
        switch (op) {
            case 0: case 1: model[k] = T::gen(r); pool[k] = T::make(model[k]); break;
            case 2: pool[k] = pool[l]; model[k] = model[l]; break;
            case 3: { X c(pool[l]); touch(pool[l], model[l], r); M was = of(c); pool[k] = c; model[k] = was; break; }         // a copy keeps the old value
            case 4: { X c(pool[l]); M was = model[l]; touch(c, was, r); CHECK(of(pool[l]) == model[l], K + "-copy-not-independent", "changing a copy of ", model[l], " gives ", of(pool[l])); pool[k] = std::move(c); model[k] = was; break; }
            case 5: { X c(pool[l]); X d(std::move(c)); pool[k] = d; model[k] = model[l]; break; }
            case 6: pool[k].swap(pool[l]); std::swap(model[k], model[l]); break;
            case 7: { using std::swap; swap(pool[k], pool[l]); std::swap(model[k], model[l]); break; }
            case 8: std::swap(pool[k], pool[l]); std::swap(model[k], model[l]); break;
            case 9: { X& self = pool[k]; pool[k] = self; break; }
            case 10: { X& self = pool[k]; pool[k].swap(self); break; }
            case 11: touch(pool[k], model[k], r); break;
            case 12: pool[k] = by_value(pool[l]); model[k] = model[l]; break;
            case 13: pool[k] = X(); model[k] = T::zero(); break;
            case 14: { Box<X> b = {pool[k], 7, pool[l]}; Box<X> c = b; std::swap(c.a, c.b); CHECK(c.pad == 7 && of(b.a) == model[k] && of(b.b) == model[l], K + "-aggregate", "members changed"); pool[k] = c.a; pool[l] = c.b; M t = model[l]; if (k != l) { model[l] = model[k]; model[k] = t; } break; }
            case 15: { std::vector<X> v(pool, pool + n); v.insert(v.begin() + k, pool[l]); v.erase(v.begin() + int(r.below(uint64_t(n)))); v.resize(9); for (int i = n; i < 9; ++i) CHECK(of(v[size_t(i)]) == T::zero(), K + "-default-in-container", of(v[size_t(i)])); break; }
            case 16: { ip::optional<X> o(pool[l]); ip::optional<X> q; q = o; o = nullptr; pool[k] = *q; model[k] = model[l]; break; }
            default: { X* heap = new X(pool[l]); pool[k] = *heap; delete heap; model[k] = model[l]; }
        }
        for (int i = 0; i < n; ++i) CHECK(of(pool[i]) == model[i], K + "-value", "after ", trail, " slot ", i, " is ", of(pool[i]), " instead of ", model[i]);
        CHECK((pool[k] == pool[l]) == (model[k] == model[l]) && (pool[k] != pool[l]) == !(model[k] == model[l]), K + "-equality", "after ", trail, model[k], " ", model[l]);
        if (r.one_in(4)) {   // complete: every attribute equals that of a fresh object
            int i = int(r.below(n));
            std::string a = whole(pool[i]), b = whole(T::make(model[i]));
            CHECK(a == b, K + "-whole", "after ", trail, ": ", a, " instead of ", b);
            HIT("whole-object");
        }
        hash = h::hv(hash, uint64_t(op * 25 + k * 5 + l));
    }
    X a, b = X(), c{};
    CHECK(of(a) == T::zero() && of(b) == T::zero() && of(c) == T::zero() && a == b && b == c, K + "-default", "a default object is ", of(a));
    CHECK(whole(a) == whole(T::make(T::zero())), K + "-default-whole", whole(a));
    h::nt(hash); h::sample(K + " " + trail);
    HIT("histories");
}
// conversions between the types carry the whole value
static void conversions(Rng& r) {
    Addr a = gen::addr(r, gen::ver(r)); Net n = gen::net(r, gen::ver(r), true);
    h::note(ref::str(a) + ref::str(n));
    ip::ip_address x = L::make<ip::ip_address>(a);
    if (a.ver == 4) { ip::ipv4_address y = *x.v4(); ip::ip_address z(y), w; w = y; CHECK(whole(y) == whole(a4(a.v)) && whole(z) == whole(x) && whole(w) == whole(x), "convert-v4", a); }
    else { ip::ipv6_address y = *x.v6(); ip::ip_address z(y), w; w = y; CHECK(whole(y) == whole(a6(a.v, a.scope)) && whole(z) == whole(x) && whole(w) == whole(x), "convert-v6", a); }
    ip::ip_network p = maken<ip::ip_network>(n);
    if (n.ver == 4) { ip::ipv4_network y = *p.v4(); ip::ip_network z(y), w; w = y; CHECK(whole(y) == whole(n4(n)) && whole(z) == whole(p) && whole(w) == whole(p), "convert-net4", n); }
    else { ip::ipv6_network y = *p.v6(); ip::ip_network z(y), w; w = y; CHECK(whole(y) == whole(n6(n)) && whole(z) == whole(p) && whole(w) == whole(p), "convert-net6", n); }
    // the address handed out by a network is a copy
    ip::ipv6_network q = n6(Net(6, gen::value(r, 6), 128, gen::scope_text(r, H_SCOPE_MAX)));
    std::string before = whole(q);
    ip::ipv6_address c = q.network_address(); EC ec; c.set_scope_id(std::string("zz"), ec);
    ip::ipv6_address d = *q.hosts().begin(); d.set_scope_id(std::string("yy"), ec);
    CHECK(whole(q) == before, "handed-out", "changing the address taken from a network changes the network");
    HIT("conversions");
    h::nt(h::hs(ref::str(a) + ref::str(n)));
}
// ---------------------------------------------------------------- iterators and sequences
template <class Seq> void iterators(const char* key, const std::string& what, const Seq& seq, const Model& m, const Seq& other, const Model& om, Rng& r) {
    typedef typename std::decay<decltype(seq.begin())>::type It;
    const std::string K = std::string("iterator-") + key;
    It pool[4] = {seq.begin(), seq.begin(), other.begin(), seq.begin()};
    struct Pos { const Model* m; u128 i; } pos[4] = {{&m, 0}, {&m, 0}, {&om, 0}, {&m, 0}};
    std::string trail;
    Seq kept = seq, third = other;
    for (int s = 0; s < 24; ++s) {
        int k = int(r.below(4)), l = int(r.below(4)), op = int(r.below(8));
        trail += char('a' + op); trail += char('0' + k); trail += char('0' + l); trail += ' ';
        h::note(what + " " + trail);
        switch (op) {
            case 0: pool[k] = pool[l]; pos[k] = pos[l]; break;
            case 1: if (pos[k].i < pos[k].m->last) { ++pool[k]; ++pos[k].i; } break;
            case 2: if (pos[k].i > 0) { --pool[k]; --pos[k].i; } break;
            case 3: if (pos[k].i < pos[k].m->last) { It old = pool[k]++; CHECK(same(*pos[k].m, pos[k].i, *old), K + "-postfix", what, " after ", trail); ++pos[k].i; } break;
            case 4: { It c(pool[l]); if (pos[l].i < pos[l].m->last) { ++c; CHECK(same(*pos[l].m, pos[l].i + 1, *c), K + "-copy-step", what, " after ", trail); } break; }
            case 5: std::swap(pool[k], pool[l]); std::swap(pos[k], pos[l]); break;
            case 6: { Seq c = r.one_in(2) ? seq : other; kept = c; c = third; third = c; It b = kept.begin(); (void)b; break; }
            default: { auto e = *pool[k]; auto f = *pool[l]; e = f; CHECK(same(*pos[l].m, pos[l].i, f), K + "-element", what, " after ", trail); break; }
        }
        for (int i = 0; i < 4; ++i) CHECK(same(*pos[i].m, pos[i].i, *pool[i]), K + "-value", what, " after ", trail, " slot ", i);
    }
    CHECK(same(m, 0, *seq.begin()) && same(om, 0, *other.begin()), K + "-sequence", what, " the sequences changed after ", trail);
    HIT("iterator-histories");
    h::nt(h::hs(what + trail));
}
static void walk(Rng& r) {
    Net a = gen::net(r, gen::ver(r)), b = gen::net(r, gen::ver(r));
    Net b2 = gen::net(r, a.ver);
    if (a.plen == ref::width(a.ver) || b.plen == ref::width(b.ver) || b2.plen == ref::width(b2.ver)) return;
    Model ma = hosts_model(a), mb = hosts_model(b), mb2 = hosts_model(b2), sa = subnets_model(a, a.plen + 1), sb = subnets_model(b, b.plen + 1), sb2 = subnets_model(b2, b2.plen + 1);
    const std::string w = ref::str(a) + ref::str(b);
    ip::ip_network x = maken<ip::ip_network>(a), y = maken<ip::ip_network>(b);
    iterators("hosts-any", w, x.hosts(), ma, y.hosts(), mb, r);                  // the two may be of different families
    iterators("subnets-any", w, x.subnets(), sa, y.subnets(), sb, r);
    if (a.ver == 4) { iterators("hosts4", w, n4(a).hosts(), ma, n4(b2).hosts(), mb2, r); iterators("subnets4", w, n4(a).subnets(), sa, n4(b2).subnets(), sb2, r); }
    else { iterators("hosts6", w, n6(a).hosts(), ma, n6(b2).hosts(), mb2, r); iterators("subnets6", w, n6(a).subnets(), sa, n6(b2).subnets(), sb2, r); }
}
// ---------------------------------------------------------------- numbers
static void numbers(Rng& r) {
    u128 v[4]; ip::uint128_t x[4];
    std::string trail;
    for (int i = 0; i < 4; ++i) v[i] = 0;
    for (int s = 0; s < 20; ++s) {
        int k = int(r.below(4)), l = int(r.below(4)), op = int(r.below(6));
        trail += char('a' + op); trail += char('0' + k); trail += char('0' + l);
        switch (op) {
            case 0: v[k] = gen::value(r, 6); x[k] = u128_of(v[k]); break;
            case 1: x[k] = x[l]; v[k] = v[l]; break;
            case 2: x[k].swap(x[l]); std::swap(v[k], v[l]); break;
            case 3: { using std::swap; swap(x[k], x[l]); std::swap(v[k], v[l]); break; }
            case 4: { ip::uint128_t c(x[l]); ++x[l]; ++v[l]; CHECK(wide(c) == v[l] - 1, "uint128-copy", trail); break; }
            default: { ip::uint128_t c(std::move(x[l])); c += 5; x[l] = ip::uint128_t(7); v[l] = 7; x[k] = c - 5; v[k] = wide(c) - 5; }
        }
        for (int i = 0; i < 4; ++i) CHECK(wide(x[i]) == v[i], "uint128-value", trail, " slot ", i);
    }
    CHECK(wide(ip::uint128_t()) == 0, "uint128-default", "");
}
void workload() {
    h::random_phase("v4", 800, [](uint64_t, Rng& r) { history<ip::ipv4_address>(r, 30); });
    h::random_phase("v6", 1200, [](uint64_t, Rng& r) { history<ip::ipv6_address>(r, 40); });
    h::random_phase("any", 1500, [](uint64_t, Rng& r) { history<ip::ip_address>(r, 50); });
    h::random_phase("net4", 800, [](uint64_t, Rng& r) { history<ip::ipv4_network>(r, 30); });
    h::random_phase("net6", 1200, [](uint64_t, Rng& r) { history<ip::ipv6_network>(r, 40); });
    h::random_phase("netany", 1500, [](uint64_t, Rng& r) { history<ip::ip_network>(r, 50); });
    h::random_phase("conversions", 2500, [](uint64_t, Rng& r) { conversions(r); });
    h::random_phase("iterators", 1500, [](uint64_t, Rng& r) { walk(r); });
    h::random_phase("numbers", 1500, [](uint64_t, Rng& r) { numbers(r); });
}
