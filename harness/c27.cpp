// C27: threads that share nothing mutable do not race and get the results of a single thread, from the first use in the process on.
// Every case is a fresh process (cold start). Monitors: ThreadSanitizer on every access, and the same operations repeated by one thread.
// Threads record start/end times without synchronising; the interleaving seen is computed afterwards.
#define H_NO_MAIN
#include "ops.hpp"
#include <thread>
#include <atomic>
#include <algorithm>
#include <memory>
#include <cerrno>
#include <sys/wait.h>
using namespace L;
using ops::Sink;
typedef ip::error_code EC;

enum { KINDS = ops::KINDS + 7 };
static const char* kname(int k) {
    static const char* n[] = {"throwing", "throwing-net", "stream-out", "stream-in", "enumerate", "throwing-refusals", "hash-sort"};
    return k < ops::KINDS ? ops::kind_name(k) : n[k - ops::KINDS];
}
static int group(int k) {      // coarse kinds for the overlap table
    static const char* g[] = {"parse", "format", "stream", "throwing"};
    std::string s = kname(k);
    for (int i = 0; i < 4; ++i) if (s.compare(0, strlen(g[i]), g[i]) == 0) return i;
    return s == "embedded" || s == "address-flags" || s == "attributes" ? 4 : s.compare(0, 9, "sequences") == 0 || s == "enumerate" ? 5 : s.compare(0, 8, "relation") == 0 ? 6 : s == "numbers" ? 7 : 8;
}
static const char* gname(int g) { static const char* n[] = {"parse", "format", "stream", "throwing", "queries", "sequences", "relations", "numbers", "other"}; return n[g]; }

#if HAS_STD
template <class X> void stream_out(Sink& o, const X& x, Rng& r) {
    std::ostringstream s;
    for (int k = 0; k < 3; ++k) switch (r.below(5)) { case 0: s << ip::full << x; break; case 1: s << ip::compact << x; break; case 2: s << ip::compressed << x; break; case 3: s << std::uppercase << x; break; default: s << x; }
    std::wostringstream w; if (r.one_in(2)) w << ip::full; w << x;
    o << s.str() << narrow(w.str());
}
template <class X> void stream_in(Sink& o, const std::string& t, Rng& r, bool net) {
    std::istringstream s(t);
    if (net && r.one_in(2)) { if (r.one_in(3)) s >> ip::strict; else s >> ip::non_strict; }
    X x; s >> x;
    o << bool(s) << x;
}
#else
template <class X> void stream_out(Sink& o, const X& x, Rng&) { o << x.to_string(); }
template <class X> void stream_in(Sink& o, const std::string& t, Rng&, bool) { EC c = EC::no_error; X x = X::parse(t, c); o << (c == EC::no_error) << x; }
#endif
template <class X, class S> void throwing(Sink& o, const S& t) {
#if H_EXC
    X y; Out e = guard([&] { y = X::parse(t); });
    o << e.kind << int(e.code) << e.what << y;
#else
    (void)t;
#endif
}
static std::string run_op(int kind, Rng r) {
    if (kind < ops::KINDS) return ops::run(uint64_t(kind), r);
    Sink o;
    switch (kind - ops::KINDS) {
        case 0: { std::string t = gen::addr_text(r, gen::ver(r), 90); throwing<ip::ipv4_address>(o, t); throwing<ip::ipv6_address>(o, t); throwing<ip::ip_address>(o, t); break; }
        case 1: { std::string t = gen::net_text(r, gen::ver(r), 90); throwing<ip::ipv4_network>(o, t); throwing<ip::ipv6_network>(o, t); throwing<ip::ip_network>(o, t); break; }
        case 2: { Addr a = gen::addr(r, gen::ver(r)); Net n = gen::net(r, gen::ver(r)); stream_out(o, make<ip::ip_address>(a), r); if (a.ver == 4) stream_out(o, a4(a.v), r); else stream_out(o, a6(a.v, a.scope), r); stream_out(o, maken<ip::ip_network>(n), r); if (n.ver == 4) stream_out(o, n4(n), r); else stream_out(o, n6(n), r); break; }
        case 3: { std::string t = gen::addr_text(r, gen::ver(r), 20), n = gen::net_text(r, gen::ver(r), 20); stream_in<ip::ip_address>(o, t, r, false); stream_in<ip::ipv4_address>(o, t, r, false); stream_in<ip::ipv6_address>(o, t, r, false); stream_in<ip::ip_network>(o, n, r, true); stream_in<ip::ipv4_network>(o, n, r, true); stream_in<ip::ipv6_network>(o, n, r, true); break; }
        case 4: { Net n = gen::net(r, gen::ver(r)); n.plen = ref::width(n.ver) - int(r.below(5)); n.v &= ref::netmask(n.ver, n.plen); auto x = maken<ip::ip_network>(n); for (const auto& a : x.hosts()) o << a; EC c = EC::no_error; for (const auto& s : x.subnets(c, 1)) o << s; break; }
        case 5: {   // refusals of wide texts, scopes and network operations: each builds its own message
            std::string t = r.one_in(2) ? gen::addr_text(r, gen::ver(r), 60) : gen::net_text(r, gen::ver(r), 60);
            size_t at = size_t(r.below(t.size() + 1)), at2 = size_t(r.below(t.size() + 1));
            const uint32_t sym = r.one_in(3) ? 0x80 + uint32_t(r.below(0x700)) : r.one_in(2) ? 0x800 + uint32_t(r.below(0xd000)) : 0x10000 + uint32_t(r.below(0x100000));
            std::u32string w; for (size_t k = 0; k < t.size(); ++k) { if (k == at) w += char32_t(sym); if (k == at2 && r.one_in(2)) w += char32_t(sym ^ 1); w += char32_t((unsigned char)t[k]); }
            if (at == t.size()) w += char32_t(sym);
            std::wstring ww; std::u16string w16;
            for (char32_t c : w) { ww += wchar_t(c); if (c < 0x10000) w16 += char16_t(c); else { w16 += char16_t(0xd800 + ((c - 0x10000) >> 10)); w16 += char16_t(0xdc00 + ((c - 0x10000) & 0x3ff)); } }
            throwing<ip::ipv6_address>(o, w); throwing<ip::ip_network>(o, ww); throwing<ip::ip_address>(o, w16); throwing<ip::ipv4_network>(o, w); throwing<ip::ipv4_address>(o, ww); throwing<ip::ipv6_network>(o, w16);
#if H_EXC
            Addr a = gen::addr(r, 6); ip::ipv6_address x = a6(a.v, a.scope);
            Out e = guard([&] { if (HAS_SCOPE) x.set_scope_id(r.one_in(2) ? std::u32string(w) : std::u32string(widen<char32_t>(std::string("ab/c")))); });
            o << e.kind << int(e.code) << e.what << x;
            Net n = gen::net(r, gen::ver(r)), m = gen::net(r, gen::ver(r)); auto N = maken<ip::ip_network>(n), M = maken<ip::ip_network>(m);
            const size_t d = size_t(r.below(200));
            e = guard([&] { (void)N.subnets(d).size(); }); o << e.kind << int(e.code) << e.what;
            e = guard([&] { (void)N.supernet(d); }); o << e.kind << int(e.code) << e.what;
            e = guard([&] { (void)N.address_exclude(M).begin(); }); o << e.kind << int(e.code) << e.what;
            e = guard([&] { (void)ip::ip_network::from_address(make<ip::ip_address>(gen::addr(r, n.ver)), d, r.one_in(2)); }); o << e.kind << int(e.code) << e.what;
#endif
            break;
        }
        default: {
            std::vector<ip::ip_address> v; for (int k = 0; k < 12; ++k) v.push_back(make<ip::ip_address>(gen::addr(r, gen::ver(r))));
            std::sort(v.begin(), v.end());
            for (auto& x : v) o << x << (x.hash() == ip::ip_address(x).hash());
        }
    }
    return o.s;
}

// ---- objects every thread may look at
struct Shared {
    std::vector<ip::ipv4_address> a4s; std::vector<ip::ipv6_address> a6s; std::vector<ip::ip_address> as;
    std::vector<ip::ipv4_network> n4s; std::vector<ip::ipv6_network> n6s; std::vector<ip::ip_network> ns;
    std::vector<Net> nets4, nets6, nets;
    typedef decltype(std::declval<const ip::ipv4_network&>().hosts()) H4; typedef decltype(std::declval<const ip::ipv6_network&>().hosts()) H6; typedef decltype(std::declval<const ip::ip_network&>().hosts()) H;
    std::vector<H4> h4; std::vector<H6> h6; std::vector<H> h;
    std::vector<ip::uint128_t> u; std::vector<decltype(std::declval<const H6&>().begin())> i6; std::vector<decltype(std::declval<const H&>().rbegin())> ri;
    explicit Shared(Rng r) {
        for (int k = 0; k < 4; ++k) {
            a4s.push_back(a4(gen::value(r, 4))); { Addr a = gen::addr(r, 6); a6s.push_back(a6(a.v, a.scope)); } as.push_back(make<ip::ip_address>(gen::addr(r, gen::ver(r))));
            Net n = gen::net(r, 4); if (!n.plen) { n.plen = 8; n.v = 0x0a000000; } nets4.push_back(n); n4s.push_back(n4(n)); h4.push_back(n4(n).hosts());
            n = gen::net(r, 6); if (!n.plen) { n.plen = 7; n.v = 0; } nets6.push_back(n); n6s.push_back(n6(n)); h6.push_back(n6(n).hosts()); i6.push_back(h6.back().begin());
            n = gen::net(r, gen::ver(r)); if (!n.plen) { n.plen = 9; n.v = 0; } nets.push_back(n); ns.push_back(maken<ip::ip_network>(n)); h.push_back(maken<ip::ip_network>(n).hosts()); ri.push_back(h.back().rbegin());
            u.push_back(u128_of(r.wide() >> r.below(128)));
        }
    }
};
template <class X> void look_addr(Sink& o, const X& x, const X& y, Rng& r) {
    ops::flags(o, x); ops::site(o, x); ops::format_all(o, x, r); ops::order(o, x, y); stream_out(o, x, r);
    o << x.reverse_pointer() << uint64_t(x.hash() == X(x).hash()) << int(x.version()) << uint64_t(x.size());
#if HAS_STD
    o << std::to_string(x) << (std::hash<X>()(x) == std::hash<X>()(X(x)));
#endif
}
template <class N> void look_net(Sink& o, const N& x, const N& y, const Net& n, Rng& r) {
    ops::attributes(o, x); ops::format_all(o, x, r); ops::order(o, x, y); stream_out(o, x, r); ops::sequences(o, x, n, r); ops::relation(o, x, y);
}
template <class S> void look_seq(Sink& o, const S& s, const Net& n, Rng& r) { ops::window(o, s, r, smon::hosts_model(n)); o << (s.size() == s.size()); }
static const int LOOKS = 12;
static std::string look(const Shared& s, int what, Rng r) {
    Sink o;
    size_t i = size_t(r.below(4)), j = size_t(r.below(4));
    switch (what) {
        case 0: look_addr(o, s.a4s[i], s.a4s[j], r); break;
        case 1: look_addr(o, s.a6s[i], s.a6s[j], r); ops::embedded(o, s.a6s[i]); break;
        case 2: look_addr(o, s.as[i], s.as[j], r); ops::opt(o, s.as[i].v4()); ops::opt(o, s.as[i].v6()); break;
        case 3: look_net(o, s.n4s[i], s.n4s[j], s.nets4[i], r); break;
        case 4: look_net(o, s.n6s[i], s.n6s[j], s.nets6[i], r); break;
        case 5: look_net(o, s.ns[i], s.ns[j], s.nets[i], r); ops::opt(o, s.ns[i].v4()); ops::opt(o, s.ns[i].v6()); break;
        case 6: look_seq(o, s.h4[i], s.nets4[i], r); break;
        case 7: look_seq(o, s.h6[i], s.nets6[i], r); { auto it = s.i6[i]; o << *s.i6[i] << s.i6[i][0]; o << (it == s.i6[i]); if (++it != s.h6[i].end()) o << *it; } break;
        case 8: look_seq(o, s.h[i], s.nets[i], r); { o << *s.ri[i]; auto it = s.ri[i]; o << (it == s.ri[i]) << *it; } break;
        case 9: { const ip::uint128_t &a = s.u[i], &b = s.u[j]; o << (a + b) << (a * b) << (a - b) << (b ? a / b : a) << (a < b) << (a == b) << a.to_string() << a.to_string(ip::uint128_t::format::hexadecimal) << double(a) << uint64_t(a) << (a << 5) << (a >> 70); break; }
        case 10: { ip::ipv6_address x = s.a6s[i]; EC c = EC::no_error; x.set_scope_id(std::string(HAS_SCOPE ? "shared1" : ""), c); o << x << s.a6s[i]; auto sc = s.a6s[i].get_scope_id(); o << sc.get_string() << sc.has_uint32(); break; }   // changing a copy
        default: { std::vector<ip::ip_network> v(s.ns.begin(), s.ns.end()); std::sort(v.begin(), v.end()); for (auto& x : v) o << x; o << ip::ip_address(s.a4s[i]) << ip::ip_network(s.n6s[j]) << ip::ip_address(s.a6s[j]); }
    }
    return o.s;
}

// ---- use before main: the results must be those of later. (In C++11 the tables of special networks are dynamically initialised, after this.)
#if __cplusplus < 201402L
#define TABLES_LATE 1
#else
#define TABLES_LATE 0
#endif
static bool early_kind(int k) { std::string s = kname(k); return !TABLES_LATE || (s != "address-flags" && s != "attributes"); }
static std::string tables() {
    Sink o;
    o << a4(0x0a000001).is_private() << a4(0xe0000001).is_multicast() << a4(0x7f000001).is_loopback() << a4(0xa9fe0001).is_link_local() << a4(0xf0000001).is_reserved() << a4(0x08080808).is_global();
    o << a6(u128(0xfe80) << 112).is_private() << a6(u128(0xff02) << 112).is_multicast() << a6(u128(0xfec0) << 112).is_site_local() << a6(u128(0xfe80) << 112).is_link_local();
    return o.s;
}
struct Early {
    std::vector<std::string> s; std::string t; uint64_t n;
    Early() : n(0) {
        if (!getenv("C27_EARLY")) return;
        for (int k = 0; k < KINDS; ++k) for (int j = 0; j < 4; ++j) { s.push_back(early_kind(k) ? run_op(k, Rng(h::mix(uint64_t(k * 4 + j) + 77))) : std::string()); ++n; }
        t = tables();
    }
};
__attribute__((init_priority(101))) static Early early;

// ---- child: one case
struct Rec { double t0, t1; int kind; };
static void put(const std::string& s) { fwrite(s.data(), 1, s.size(), stdout); fputc('\n', stdout); }
static int child(const char* phase, uint64_t seed) {
    Rng r(seed);
    const bool cold = strstr(phase, "cold") != 0, share = strstr(phase, "shared") != 0;
    if (strstr(phase, "before-main")) {
        for (int k = 0; k < KINDS; ++k) for (int j = 0; j < 4; ++j) {
            std::string late = early_kind(k) ? run_op(k, Rng(h::mix(uint64_t(k * 4 + j) + 77))) : std::string(), was = early.s[size_t(k * 4 + j)];
            if (late != was) put("BAD before-main " + std::string(kname(k)) + " gave " + was.substr(0, 200) + " and later " + late.substr(0, 200));
        }
        if (tables() != early.t) put(std::string("BAD before-main tables ") + (TABLES_LATE ? "(C++11, dynamic initialisation)" : "") + " classification gave " + early.t + " and later " + tables());
        put("OPS " + std::to_string(early.n));
        return 0;
    }
    const unsigned nt = 2 + unsigned(r.below(r.one_in(3) ? 15 : 7));
    const int per = cold ? 3 : 24;
    struct Job { int kind; uint64_t seed; std::string res; };
    std::vector<std::vector<Job>> jobs(nt);
    const int first = int(r.below(KINDS)), narrow_to = r.one_in(3) ? int(r.below(KINDS)) : -1;
    const uint64_t same = r.one_in(2) ? r.next() | 1 : 0;
    for (auto& l : jobs)
        for (int k = 0; k < per; ++k) {
            Job j;
            if (share) j.kind = narrow_to >= 0 ? narrow_to % LOOKS : int(r.below(LOOKS)); else j.kind = cold && k == 0 && !r.one_in(4) ? first : narrow_to >= 0 ? narrow_to : int(r.below(KINDS));
            j.seed = k == 0 && same ? same : r.next();
            if (share) j.seed = h::mix(j.seed % 7);       // threads looking at the same object the same way
            l.push_back(j);
        }
    std::unique_ptr<const Shared> sh;
    if (share) sh.reset(new Shared(Rng(r.next())));
    const Shared* sp = sh.get();
    std::vector<std::vector<Rec>> log(nt);
    std::vector<unsigned> spins(nt * unsigned(per));
    for (auto& s : spins) s = r.one_in(3) ? unsigned(r.below(3000)) : 0;
    std::atomic<unsigned> ready(0); std::atomic<bool> go(false);
    std::vector<std::thread> th;
    for (unsigned t = 0; t < nt; ++t) {
        log[t].reserve(size_t(per));
        th.emplace_back([&, t, sp] {
            ready.fetch_add(1);
            while (!go.load(std::memory_order_acquire)) {}
            for (int k = 0; k < per; ++k) {
                Job& j = jobs[t][size_t(k)];
                for (volatile unsigned z = spins[t * unsigned(per) + unsigned(k)]; z; z = z - 1) {}
                Rec q; q.kind = j.kind; q.t0 = h::now_s();
                j.res = sp ? look(*sp, j.kind, Rng(j.seed)) : run_op(j.kind, Rng(j.seed));
                q.t1 = h::now_s();
                log[t].push_back(q);
            }
        });
    }
    while (ready.load() != nt) std::this_thread::yield();
    go.store(true, std::memory_order_release);
    for (auto& t : th) t.join();
    // the oracle: one thread, the same operations
    uint64_t n = 0;
    for (unsigned t = 0; t < nt; ++t) for (auto& j : jobs[t]) {
        ++n;
        std::string want = sp ? look(*sp, j.kind, Rng(j.seed)) : run_op(j.kind, Rng(j.seed));
        if (want != j.res) put("BAD " + std::string(sp ? "shared object look " + std::to_string(j.kind) : kname(j.kind)) + " in one of " + std::to_string(nt) + " threads gave " + j.res.substr(0, 150) + " but a single thread gets " + want.substr(0, 150));
    }
    // what interleaving was it
    std::vector<std::pair<double, unsigned>> ord; uint64_t over = 0; std::map<std::string, uint64_t> pairs;
    for (unsigned t = 0; t < nt; ++t) for (auto& q : log[t]) ord.push_back(std::make_pair(q.t0, t));
    std::sort(ord.begin(), ord.end());
    uint64_t sig = nt; for (auto& e : ord) sig = h::mix(sig * 31 + e.second);
    for (unsigned t = 0; t < nt; ++t) for (unsigned u = t + 1; u < nt; ++u) for (auto& a : log[t]) for (auto& b : log[u]) if (a.t0 < b.t1 && b.t0 < a.t1) {
        ++over;
        if (sp) ++pairs["overlap shared " + std::to_string(std::min(a.kind, b.kind)) + "+" + std::to_string(std::max(a.kind, b.kind))];
        else { int x = group(a.kind), y = group(b.kind); ++pairs[std::string("overlap ") + gname(std::min(x, y)) + "+" + gname(std::max(x, y))]; }
    }
    put("OPS " + std::to_string(n)); put("THREADS " + std::to_string(nt)); put("SIG " + std::to_string(sig)); put("OVER " + std::to_string(over));
    for (auto& p : pairs) put("HIT " + std::to_string(p.second) + " " + p.first);
    return 0;
}

// ---- parent: never touches the library
static char self[4096];
static std::string slurp(const std::string& f) { std::string s; FILE* i = fopen(f.c_str(), "rb"); if (!i) return s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, i)) > 0) s.append(b, n); fclose(i); return s; }
static void spawn(const char* phase, Rng& r) {
    const uint64_t seed = r.next();
    static int serial = 0;
    std::string base = (h::st().out.empty() ? std::string("/tmp/c27.") + std::to_string(getpid()) : h::st().out) + ".child", of_ = base + ".o", ef = base + ".e", sd = std::to_string(seed);
    ++serial;
    h::note(std::string(phase) + " seed " + sd);
    int rc = -1;
    for (int attempt = 0; attempt < 2; ++attempt) {
        pid_t p = fork();
        if (p == 0) {
            int o = open(of_.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), e = open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
            dup2(o, 1); dup2(e, 2);
            struct itimerval z; memset(&z, 0, sizeof z); setitimer(ITIMER_PROF, &z, 0);
            alarm(120);
            if (strstr(phase, "before-main")) setenv("C27_EARLY", "1", 1);
            execl(self, self, "--child", phase, sd.c_str(), (char*)0);
            _exit(126);
        }
        int st = 0;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        rc = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
        if (rc != 1000 + SIGKILL && rc != 126) break;
    }
    std::string out = slurp(of_), err = slurp(ef);
    unlink(of_.c_str()); unlink(ef.c_str());
    size_t at = 0; uint64_t sig = 0;
    while (at < out.size()) {
        size_t e = out.find('\n', at); if (e == std::string::npos) e = out.size();
        std::string l = out.substr(at, e - at); at = e + 1;
        if (l.compare(0, 4, "BAD ") == 0) h::bad(l.compare(0, 24, "BAD before-main tables (") == 0 ? "classification-before-main-cxx11" : l.compare(0, 15, "BAD before-main") == 0 ? "differs-before-main" : "differs-in-threads", l.substr(4));
        else if (l.compare(0, 4, "OPS ") == 0) { h::st().checks += strtoull(&l[4], 0, 10); h::st().hits["operations-compared"] += strtoull(&l[4], 0, 10); }
        else if (l.compare(0, 4, "SIG ") == 0) sig = strtoull(&l[4], 0, 10);
        else if (l.compare(0, 8, "THREADS ") == 0) h::st().hits["threads-started"] += strtoull(&l[8], 0, 10);
        else if (l.compare(0, 5, "OVER ") == 0) h::st().hits["overlapping-operation-pairs"] += strtoull(&l[5], 0, 10);
        else if (l.compare(0, 4, "HIT ") == 0) { char* q; uint64_t n = strtoull(&l[4], &q, 10); h::st().hits[std::string(q + 1)] += n; }
    }
    if (rc == 1000 + SIGALRM) { h::bad("hang", h::cat(std::string(phase), " seed ", sd, " did not finish")); return; }
    if (rc != 0) {
        size_t w = err.find("WARNING: ThreadSanitizer"); std::string d = w == std::string::npos ? err.substr(0, 500) : err.substr(w, 1500);
        for (char& c : d) if (c == '\n') c = ' ';
        h::bad(w != std::string::npos ? (err.find("data race", w) != std::string::npos ? "data-race" : "tsan") : "crash", h::cat(std::string(phase), " seed ", sd, " rc ", rc, ": ", d));
    }
    h::nt(sig ? sig : h::mix(seed));
    h::sample(std::string(phase) + " seed " + sd);
}
void workload() {
    h::phase("before-main", 2, [](uint64_t, Rng& r) { spawn("before-main", r); }, false);
    h::random_phase("cold", 240, [](uint64_t, Rng& r) { spawn("cold", r); });
    h::random_phase("cold-shared", 60, [](uint64_t, Rng& r) { spawn("cold-shared", r); });
    h::random_phase("mix", 160, [](uint64_t, Rng& r) { spawn("mix", r); });
    h::random_phase("shared", 160, [](uint64_t, Rng& r) { spawn("shared", r); });
}
int main(int argc, char** argv) {
    if (argc == 4 && !strcmp(argv[1], "--child")) { int rc = child(argv[2], strtoull(argv[3], 0, 10)); fflush(stdout); return rc; }
    ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1);
    self[n > 0 ? n : 0] = 0;
    h::init(argc, argv);
    workload();
    return h::finish();
}
