// C24 generator: writes a translation unit whose cases evaluate each operation in a constant expression and at run time.
// No library code; what should be a constant is decided by the reference model (C++14/17) or by the run-time call (C++20).
#define H_NO_MAIN
#include "gen.hpp"
#include <fstream>
using h::Rng; using h::u128; using ref::Addr; using ref::Net;
static std::string out, decls;
static int id_, std_, exc_;
static int nk[64]; static const char* kn[64];

static std::string num(uint64_t v) { char b[32]; snprintf(b, sizeof b, "0x%llxu", (unsigned long long)v); return std::string(b) + "ll"; }
static std::string n32(uint32_t v) { char b[32]; snprintf(b, sizeof b, "0x%xu", v); return b; }
static std::string dec(long long v) { if (v == (-9223372036854775807LL - 1)) return "(-9223372036854775807ll-1)"; return "(" + std::to_string(v) + "ll)"; }
static std::string hl(u128 v) { return num(uint64_t(v >> 64)) + "," + num(uint64_t(v)); }
static std::string op(const std::string& e) { return "opaque(" + e + ")"; }
static std::string ohl(u128 v) { return op(num(uint64_t(v >> 64))) + "," + op(num(uint64_t(v))); }
static const char* tname(int t) { static const char* n[] = {"char", "wchar_t", "char16_t", "char32_t", "char8_t"}; return n[t]; }
static int tsize(int t) { static const int n[] = {1, 4, 2, 4, 1}; return n[t]; }
typedef std::vector<uint32_t> Units;
static Units units(const std::string& s) { Units u; for (char c : s) u.push_back((unsigned char)c); return u; }
// two arrays with these units: a constant one k<id><x> and a modifiable one r<id><x>
static void arrays(int t, const Units& u, const char* x, int pad) {
    std::string l;
    for (size_t i = 0; i < u.size() + size_t(pad); ++i) {
        uint32_t v = i < u.size() ? u[i] : 0;
        if (i) l += ',';
        l += std::string(tname(t)) + "(" + (t == 0 ? std::to_string(int((signed char)v)) : std::to_string(v)) + (t ? "u)" : ")");
    }
    if (u.size() + size_t(pad) == 0) l = std::string(tname(t)) + "(49)";
    char n[24]; snprintf(n, sizeof n, "%d%s", id_, x);
    decls += "constexpr " + std::string(tname(t)) + " k" + n + "[] = {" + l + "}; " + std::string(tname(t)) + " r" + n + "[] = {" + l + "};\n";
}
static std::string nm(const char* p, const char* x) { return p + std::to_string(id_) + x; }
static std::string strip(const std::string& s) { std::string o; for (char c : s) o += (c >= 32 && c < 127 && c != 92) ? c : '?'; return o; }
static void emit(const std::string& k, const std::string& v, const std::string& what) {
    out += "{ constexpr auto k = " + k + "; const auto v = " + v + "; judge(" + std::to_string(id_) + ", k, v); } //CASE " + std::to_string(id_) + " " + strip(what) + "\n";
}
// may throw; valid: the reference model says it succeeds
static void emit_th(const std::string& k, const std::string& v, bool valid, const std::string& what) {
    if (std_ < 20 || !exc_) { if (valid) emit(k, v, what); return; }
    decls += "struct S" + std::to_string(id_) + " { template<int> static constexpr auto f() { return " + k + "; } }; //CASE " + std::to_string(id_) + " " + strip(what) + "\n";
    out += "judge_th<S" + std::to_string(id_) + ">(" + std::to_string(id_) + ", []{ return " + v + "; }); //CASE " + std::to_string(id_) + " " + strip(what) + "\n";
}
static std::string quoted(const std::string& s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; if (c == '?') { o += "\\?"; continue; } o += c; } return o; }
static bool printable(const std::string& s) { for (char c : s) if (c < 32 || c > 126) return false; return true; }
static const char* prefix(int t) { static const char* n[] = {"", "L", "u", "U", "u8"}; return n[t]; }

static int pick_t(Rng& r) { return int(r.below(std_ >= 20 ? 5 : 4)); }
static Units wild(Rng& r, int t, const std::string& s) {
    Units u = units(s);
    if (!r.one_in(3)) { if (t == 0 || t == 4 || t == 2) return u; return u; }
    int n = 1 + int(r.below(2));
    for (int i = 0; i < n; ++i) {
        uint32_t x;
        switch (r.below(5)) { case 0: x = 0x80 + uint32_t(r.below(0x780)); break; case 1: x = 0xd7f0 + uint32_t(r.below(0x820)); break; case 2: x = uint32_t(r.next()); break; case 3: x = 0x10000 + uint32_t(r.below(0x100100)); break; default: x = 0xff10 + uint32_t(r.below(16)); }
        if (tsize(t) == 1) x = 0x80 | (x & 0x7f);
        if (tsize(t) == 2) x &= 0xffff;
        size_t p = size_t(r.below(u.size() + 1));
        if (p < u.size() && r.one_in(2)) u[p] = x; else u.insert(u.begin() + long(p), x);
        if (tsize(t) == 2 && x >= 0xd800 && x < 0xdc00 && r.one_in(2)) u.insert(u.begin() + long(p) + 1, 0xdc00 + uint32_t(r.below(0x400)));
    }
    return u;
}
static bool ascii(const Units& u) { for (uint32_t x : u) if (x > 127) return false; return true; }
static std::string as_text(const Units& u) { std::string s; for (uint32_t x : u) s += char(x); return s; }
static std::string till_nul(const std::string& s) { return s.substr(0, s.find('\0') == std::string::npos ? s.size() : s.find('\0')); }
static bool valid_addr(int ver, const std::string& t) { Addr a; return ver ? ref::parse(ver, t, a) : ref::parse_any(t, a); }
static bool valid_net(int ver, const std::string& t, bool st) { Net n; return ver ? ref::parse_net(ver, t, st, n) == 0 : ref::parse_net_any(t, st, n); }

static const char* A[] = {"ip::ipv4_address", "ip::ipv6_address", "ip::ip_address"};
static const char* N[] = {"ip::ipv4_network", "ip::ipv6_network", "ip::ip_network"};
static const int VER[] = {4, 6, 0};

static void k_parse(Rng& r) {
    bool net = r.one_in(2);
    int x = int(r.below(3));
    int ver = VER[x] ? (r.one_in(8) ? 10 - VER[x] : VER[x]) : gen::ver(r);
    bool st = r.one_in(2);
    std::string base = net ? gen::net_text(r, ver, 45) : gen::addr_text(r, ver, 45);
    if (base.size() > 90) base.resize(90);
    int t = pick_t(r);
    Units u = wild(r, t, base);
    std::string X = net ? N[x] : A[x], T = tname(t), S = net ? (st ? ", true" : ", false") : "";
    bool th = r.one_in(2), sv = std_ >= 17 && r.one_in(2);
    bool a = ascii(u);
    std::string text = as_text(u), seen = sv ? text : till_nul(text);
    bool valid = a && (net ? valid_net(VER[x], seen, st) : valid_addr(VER[x], seen));
    arrays(t, u, "", sv ? 0 : 1 + (r.one_in(3) ? int(r.below(4)) : 0));
    std::string n = std::to_string(u.size()), fn, arg;
    if (sv) {
        std::string f = std::string("sv_") + (th ? "th" : "ec") + "<" + X + ", " + T + ">(";
        std::string k = f + nm("k", "") + ", " + n + S + ")", v = f + nm("r", "") + ", " + op("size_t(" + n + ")") + S + ")";
        if (th) emit_th(k, v, valid, f + text); else emit(k, v, f + text);
    } else {
        std::string f = std::string("arr_") + (th ? "th" : "ec") + "<" + X + ">(";
        std::string k = f + nm("k", "") + S + ")", v = f + nm("r", "") + S + ")";
        if (th) emit_th(k, v, valid, f + text); else emit(k, v, f + text);
    }
}
// literals and parse<"...">
static void k_literal(Rng& r) {
    bool net = r.one_in(2);
    int x = int(r.below(3));
    int ver = VER[x] ? VER[x] : gen::ver(r);
    std::string text;
    do { text = net ? gen::net_text(r, ver, 35) : gen::addr_text(r, ver, 35); } while (!printable(text) || text.empty() || text.size() > 80);
    bool st = net && std_ >= 20 ? !r.one_in(3) : true;
    bool valid = net ? valid_net(VER[x], text, st) : valid_addr(VER[x], text);
    int t = int(r.below(4));
    std::string X = net ? N[x] : A[x], lit = std::string(prefix(t)) + "\"" + quoted(text) + "\"";
    static const char* suf[2][3] = {{"_ipv4", "_ipv6", "_ip"}, {"_ipv4_net", "_ipv6_net", "_net"}};
    arrays(t, units(text), "", 1);
    std::string run = "arr_th<" + X + ">(" + nm("r", "") + (net ? (st ? ", true)" : ", false)") : ")");
    if (std_ >= 20 && exc_ && (!valid || r.one_in(2))) {
        std::string id = std::to_string(id_), arg = net && (!st || r.one_in(2)) ? lit + (st ? ", true" : ", false") : lit;
        decls += "template<class A> concept P" + id + " = requires { typename std::integral_constant<int, (A::template parse<" + arg + ">(), 0)>; }; "
                 "template<class A> void Q" + id + "() { bool threw = false; A v; try { v = " + run + "; } catch (const ip::error&) { threw = true; } "
                 "if constexpr (P" + id + "<A>) { constexpr A k = A::template parse<" + arg + ">(); if (threw) { ++stat().cases; fail(" + id + ", \"constant-but-throws\", \"parse<> accepts what parse rejects\"); } else judge(" + id + ", k, v); } "
                 "else { ++stat().cases; ++stat().rejected; if (!threw) fail(" + id + ", \"not-constant\", \"parse<> rejects what parse accepts\"); } } //CASE " + id + " parse<" + strip(lit) + ">\n";
        out += "Q" + id + "<" + X + ">(); //CASE " + id + " parse<" + strip(lit) + ">\n";
        return;
    }
    if (!valid || !st) return;
    emit(lit + suf[net ? 1 : 0][x], run, lit + suf[net ? 1 : 0][x]);
}
static std::string a4(const Addr& a) { return "A4(" + n32(uint32_t(a.v)) + ")"; }
static std::string o4(const Addr& a) { return "A4(" + op(n32(uint32_t(a.v))) + ")"; }
static std::string a6(u128 v) { return "A6(" + hl(v) + ")"; }
static std::string o6(u128 v) { return "A6(" + ohl(v) + ")"; }
static std::string net(const Net& n, bool opq) {
    std::string p = opq ? op("size_t(" + std::to_string(n.plen) + ")") : "size_t(" + std::to_string(n.plen) + ")";
    if (n.ver == 4) return "N4(" + (opq ? op(n32(uint32_t(n.v))) : n32(uint32_t(n.v))) + "," + p + ")";
    return "N6(" + (opq ? ohl(n.v) : hl(n.v)) + "," + p + ")";
}
static std::string str_n(const Net& n) { return ref::format(n); }
static void k_query(Rng& r) {
    if (r.one_in(2)) { Addr a = gen::addr(r, 4); emit("query4(" + a4(a) + ")", "query4(" + o4(a) + ")", "query " + ref::format(a)); return; }
    Addr a = gen::addr(r, 6);
    if (a.scope.empty()) { emit("query6(" + a6(a.v) + ")", "query6(" + o6(a.v) + ")", "query " + ref::format(a)); return; }
    arrays(0, units(a.scope), "", 1);
    emit("query6s(" + hl(a.v) + "," + nm("k", "") + ")", "query6s(" + ohl(a.v) + "," + nm("r", "") + ")", "query " + ref::format(a));
}
static void k_scope(Rng& r) {
    std::string s = gen::scope_text(r, H_SCOPE_MAX);
    if (r.one_in(3)) s[r.below(s.size())] = " %/\t\n"[r.below(5)];
    if (r.one_in(8)) s = "";
    int t = pick_t(r);
    Units u = r.one_in(5) ? wild(r, t, s) : units(s);
    if (int(u.size()) > H_SCOPE_MAX) u.resize(H_SCOPE_MAX);
    u128 v = gen::value(r, 6);
    arrays(t, u, "", 1);
    bool ok = ascii(u) && (as_text(u).empty() || ref::scope_ok(till_nul(as_text(u))) || till_nul(as_text(u)).empty());
    if (r.one_in(2)) emit("set_scope(" + hl(v) + "," + nm("k", "") + ")", "set_scope(" + ohl(v) + "," + nm("r", "") + ")", "set_scope " + as_text(u));
    else emit_th("set_scope_th(" + hl(v) + "," + nm("k", "") + ")", "set_scope_th(" + ohl(v) + "," + nm("r", "") + ")", ok, "set_scope_th " + as_text(u));
}
static void k_compare(Rng& r) {
    if (r.one_in(2)) {
        Addr a = gen::addr(r, 4), b = r.one_in(3) ? a : gen::addr(r, 4);
        if (r.one_in(3)) b.v = (a.v ^ (u128(1) << r.below(32)));
        emit("compare4(" + a4(a) + "," + a4(b) + ")", "compare4(" + o4(a) + "," + o4(b) + ")", "compare " + ref::format(a) + " " + ref::format(b));
        return;
    }
    Addr a = gen::addr(r, 6), b = r.one_in(3) ? a : gen::addr(r, 6);
    if (r.one_in(3)) b.v = a.v; else if (r.one_in(2)) b.v = (a.v ^ (u128(1) << r.below(128)));
    if (r.one_in(3)) b.scope = a.scope + (r.one_in(2) && a.scope.size() < H_SCOPE_MAX ? "1" : "");
    arrays(0, units(a.scope), "", 1); arrays(0, units(b.scope), "b", 1);
    emit("compare6(" + hl(a.v) + "," + nm("k", "") + "," + hl(b.v) + "," + nm("k", "b") + ")", "compare6(" + ohl(a.v) + "," + nm("r", "") + "," + ohl(b.v) + "," + nm("r", "b") + ")", "compare " + ref::format(a) + " " + ref::format(b));
}
static void k_net(Rng& r) {
    Net n = gen::net(r, gen::ver(r));
    std::string f = n.ver == 4 ? "netq4(" : "netq6(";
    emit(f + net(n, false) + ")", f + net(n, true) + ")", "attributes " + str_n(n));
}
static void k_relate(Rng& r) {
    Net n = gen::net(r, gen::ver(r));
    if (r.one_in(6)) {
        Net a = gen::net(r, 4), b = gen::net(r, 6);
        emit("relate_mixed(" + net(a, false) + "," + net(b, false) + ")", "relate_mixed(" + net(a, true) + "," + net(b, true) + ")", "relate " + str_n(a) + " " + str_n(b));
        return;
    }
    Net m = r.one_in(5) ? gen::net(r, n.ver) : gen::near(r, n);
    emit("relate(" + net(n, false) + "," + net(m, false) + ")", "relate(" + net(n, true) + "," + net(m, true) + ")", "relate " + str_n(n) + " " + str_n(m));
}
static std::string diff_type(int ver, u128 v, bool opq) {   // position as the unsigned counting type
    if (ver == 4) return opq ? op(n32(uint32_t(v))) : n32(uint32_t(v));
    return "U128(" + (opq ? ohl(v) : hl(v)) + ")";
}
static void k_hosts(Rng& r) {
    Net n = gen::net(r, gen::ver(r));
    if (r.one_in(3)) { n.plen = ref::width(n.ver) - int(r.below(4)); n.v &= ref::netmask(n.ver, n.plen); }
    int w = ref::width(n.ver), hb = w - n.plen;
    u128 total;   // hosts - 1
    u128 all = hb >= 128 ? ~u128(0) : (u128(1) << hb) - 1;
    if (hb == 0) total = 0; else if (hb == 1) total = 1; else total = n.ver == 4 ? all - 2 : all - 1;
    u128 mid = total == 0 ? 0 : (r.one_in(2) ? total / 2 : r.wide() % total);
    bool any = r.one_in(2);
    std::string f = any ? "hosts_any(" : "hosts(";
    int iv = any ? 6 : n.ver;
    emit(f + net(n, false) + ",5," + diff_type(iv, total, false) + "," + diff_type(iv, mid, false) + ")", f + net(n, true) + "," + op("5") + "," + diff_type(iv, total, true) + "," + diff_type(iv, mid, true) + ")", "hosts of " + str_n(n));
}
static void k_subnets(Rng& r) {
    Net n = gen::net(r, gen::ver(r));
    int w = ref::width(n.ver), d = r.one_in(2) ? int(r.below(5)) : int(r.below(uint64_t(w - n.plen + 3)));
    if (n.ver == 6 && d == 0 && r.one_in(2)) d = 1;
    bool any = r.one_in(2), bad = n.plen + d > w;
    u128 total = bad ? 0 : d >= 128 ? ~u128(0) : (u128(1) << d) - 1;
    if (n.plen == w) total = 0;
    u128 mid = total == 0 ? 0 : (r.one_in(2) ? total / 2 : r.wide() % total);
    int iv = any ? 6 : n.ver;
    if (r.one_in(3)) {
        size_t np = r.one_in(2) ? 0 : size_t(r.below(uint64_t(w + 4)));
        size_t dd = np ? (r.one_in(4) ? 2 : 1) : size_t(d);
        if (np) { bool ok = (n.plen == w) || (dd == 1 && int(np) >= n.plen && int(np) <= w);
            emit_th("subnets_np_th(" + net(n, false) + "," + std::to_string(dd) + "," + std::to_string(np) + ")", "subnets_np_th(" + net(n, true) + "," + op("size_t(" + std::to_string(dd) + ")") + "," + op("size_t(" + std::to_string(np) + ")") + ")", ok, "subnets of " + str_n(n) + " new prefix " + std::to_string(np)); }
        else emit_th("subnets_th(" + net(n, false) + "," + std::to_string(dd) + ")", "subnets_th(" + net(n, true) + "," + op("size_t(" + std::to_string(dd) + ")") + ")", n.plen == w || !bad, "subnets of " + str_n(n) + " diff " + std::to_string(dd));
        return;
    }
    std::string f = any ? "subnets_any(" : "subnets(";
    std::string a = std::to_string(any ? n.plen + d : d);
    emit(f + net(n, false) + "," + a + ",4," + diff_type(iv, total, false) + "," + diff_type(iv, mid, false) + ")", f + net(n, true) + "," + op("size_t(" + a + ")") + "," + op("4") + "," + diff_type(iv, total, true) + "," + diff_type(iv, mid, true) + ")", "subnets of " + str_n(n) + " by " + std::to_string(d));
}
static void k_supernet(Rng& r) {
    Net n = gen::net(r, gen::ver(r));
    size_t d = r.one_in(6) ? size_t(r.next()) : size_t(r.below(uint64_t(n.plen + 3))), np = size_t(r.below(uint64_t(ref::width(n.ver) + 3)));
    std::string D = "size_t(" + num(d) + ")", P = "size_t(" + std::to_string(np) + ")";
    switch (r.below(4)) {
        case 0: emit_th("supernet_th(" + net(n, false) + "," + D + ")", "supernet_th(" + net(n, true) + "," + op(D) + ")", n.plen == 0 || d <= size_t(n.plen), "supernet of " + str_n(n) + " diff " + std::to_string(d)); break;
        case 1: emit_th("supernet_np_th(" + net(n, false) + ",1," + P + ")", "supernet_np_th(" + net(n, true) + ",1," + op(P) + ")", n.plen == 0 || int(np) <= n.plen, "supernet of " + str_n(n) + " new " + std::to_string(np)); break;
        default: emit("supernet(" + net(n, false) + "," + D + "," + P + ")", "supernet(" + net(n, true) + "," + op(D) + "," + op(P) + ")", "supernet of " + str_n(n) + " diff " + std::to_string(d) + " new " + std::to_string(np));
    }
}
static void k_exclude(Rng& r) {
    Net n = gen::net(r, gen::ver(r)), m = r.one_in(4) ? gen::near(r, n) : gen::shrink(r, n);
    bool ok = m.plen >= n.plen && (m.v & ref::netmask(n.ver, n.plen)) == n.v;
    std::string k = net(n, false) + "," + net(m, false) + ")", v = net(n, true) + "," + net(m, true) + ")", w = str_n(n) + " without " + str_n(m);
    if (r.one_in(3)) emit_th("exclude_th(" + k, "exclude_th(" + v, ok, w); else emit("exclude(" + k, "exclude(" + v, w);
}
static void k_from(Rng& r) {
    int ver = gen::ver(r);
    Net n = gen::net(r, ver);
    u128 v = r.one_in(2) ? n.v : gen::value(r, ver);
    size_t p = r.one_in(8) ? size_t(r.below(300)) : size_t(n.plen);
    bool st = r.one_in(2);
    int w = ref::width(ver);
    bool ok = p <= size_t(w) && (!st || (v & ref::hostmask(ver, int(p))) == 0);
    std::string X = ver == 4 ? "ip::ipv4_network" : "ip::ipv6_network", k = ver == 4 ? a4(Addr(4, v)) : a6(v), o = ver == 4 ? o4(Addr(4, v)) : o6(v);
    std::string P = "size_t(" + std::to_string(p) + ")", S = st ? ",true)" : ",false)", what = "from_address " + ref::format(Addr(ver, v)) + " " + std::to_string(p) + (st ? " strict" : "");
    if (r.one_in(2)) emit("from_addr<" + X + ">(" + k + "," + P + S, "from_addr<" + X + ">(" + o + "," + op(P) + S, what);
    else emit_th("from_addr_th<" + X + ">(" + k + "," + P + S, "from_addr_th<" + X + ">(" + o + "," + op(P) + S, ok, what);
}
static u128 word(Rng& r) {
    switch (r.below(7)) {
        case 0: return r.wide();
        case 1: return r.wide() >> r.below(128);
        case 2: return ~(r.wide() >> r.below(128));
        case 3: return u128(1) << r.below(128);
        case 4: return (u128(1) << r.below(128)) - 1;
        case 5: return r.below(5);
        default: { u128 hi = r.next() >> r.below(64); u128 lo = ~uint64_t(0) << r.below(64); return (hi << 64) | uint64_t(lo); }
    }
}
static void k_u128(Rng& r) {
    u128 a = word(r), b = word(r);
    if (r.one_in(6)) b = uint64_t(b);
    unsigned sh = unsigned(r.one_in(4) ? r.below(300) : r.below(130));
    long long i = (long long)(r.next() >> r.below(64)); if (r.one_in(2)) i = -i;
    emit("u128ops(" + hl(a) + "," + hl(b) + "," + std::to_string(sh) + "u," + dec(i) + ")", "u128ops(" + ohl(a) + "," + ohl(b) + "," + op(std::to_string(sh) + "u") + "," + op(dec(i)) + ")", "uint128 " + h::hex(a) + " " + h::hex(b) + " " + std::to_string(sh) + " " + std::to_string(i));
}
static void k_u128str(Rng& r) {
    static const int bases[] = {8, 10, 16};
    int b = bases[r.below(3)];
    u128 v = word(r);
    std::string s;
    for (u128 x = v; x || s.empty(); x /= u128(b)) { int d = int(x % u128(b)); s.insert(s.begin(), d < 10 ? char('0' + d) : char((r.one_in(2) ? 'a' : 'A') + d - 10)); if (!x) break; }
    if (r.one_in(4)) s += char('0' + r.below(8));
    if (r.one_in(5)) s[r.below(s.size())] = "gG-+ /:@`8"[r.below(10)];
    if (r.one_in(9)) s = r.one_in(2) ? "" : "0000" + s;
    int t = pick_t(r);
    arrays(t, units(s), "", 1);
    emit("u128str(" + nm("k", "") + "," + std::to_string(b) + ")", "u128str(" + nm("r", "") + "," + op(std::to_string(b)) + ")", "from_string " + s + " base " + std::to_string(b));
}
static void k_strings(Rng& r) {
    std::string s = gen::scope_text(r, 12), t = r.one_in(3) ? s : gen::scope_text(r, 20);
    if (r.one_in(4)) t = s + "x";
    if (r.one_in(5)) s[r.below(s.size())] = 0;
    int c1 = pick_t(r), c2 = pick_t(r);
    Units u = r.one_in(4) ? wild(r, c1, s) : units(s);
    arrays(c1, u, "", 1); arrays(c2, units(t), "b", 1);
    if (c1 != 0 && r.one_in(3)) { emit_th("strings_th(" + nm("k", "") + ")", "strings_th(" + nm("r", "") + ")", ascii(u), "fixed_string " + as_text(u)); return; }
    emit("strings(" + nm("k", "") + "," + nm("k", "b") + ")", "strings(" + nm("r", "") + "," + nm("r", "b") + ")", "fixed_string " + s + " " + t);
}
static void k_misc(Rng& r) {
    u128 a = word(r), b = word(r);
    switch (r.below(4)) {
        case 0: emit("bytes_ops(" + hl(a) + ")", "bytes_ops(" + ohl(a) + ")", "byte_array " + h::hex(a)); break;
        case 1: emit("optional_ops(U128(" + hl(a) + "),U128(" + hl(b) + "))", "optional_ops(U128(" + ohl(a) + "),U128(" + ohl(b) + "))", "optional"); break;
        case 2: emit("optional_ops(" + a6(a) + "," + a6(b) + ")", "optional_ops(" + o6(a) + "," + o6(b) + ")", "optional address"); break;
        default: { Net n = gen::net(r, 4), m = gen::net(r, 4); emit("optional_ops(" + net(n, false) + "," + net(m, false) + ")", "optional_ops(" + net(n, true) + "," + net(m, true) + ")", "optional network"); }
    }
}
static std::string list(const Units& u) { std::string o; for (size_t i = 0; i < u.size(); ++i) o += (i ? "," : "") + std::to_string(u[i]) + "u"; return o; }
static Units odd_units(Rng& r, int t, size_t n) {
    static const uint32_t one[] = {'0', '1', '9', 'a', 'F', 'g', ':', '.', '/', '%', ' ', '-', 0x7f, 0x80, 0xc3, 0xff};
    static const uint32_t two[] = {'0', '1', ':', '.', '/', '%', 'f', 0x80, 0xff, 0x100, 0x131, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xff11};
    Units u;
    for (size_t i = 0; i < n; ++i) { uint32_t x = tsize(t) == 1 || r.one_in(2) ? one[r.below(16)] : two[r.below(16)]; u.push_back(x); }
    return u;
}
static void k_sweep(Rng& r) {
    switch (r.below(9)) {
        case 8: {
            int ver = gen::ver(r), w = ref::width(ver); Net n = gen::net(r, ver);
            if (r.one_in(2)) n.plen = w - int(r.below(4));
            if (r.one_in(2)) n.v = 0; else n.v &= ref::netmask(ver, n.plen);
            emit("exclusions(" + net(n, false) + "," + std::to_string(w) + ")", "exclusions(" + net(n, true) + "," + op("size_t(" + std::to_string(w) + ")") + ")", "exclusions from " + str_n(n)); break;
        }
        case 0: { u128 a = word(r); emit("u128shifts(" + hl(a) + ")", "u128shifts(" + ohl(a) + ")", "every shift of " + h::hex(a)); break; }
        case 1: { u128 a = word(r); std::string f = std::to_string(r.below(4)) + "u"; emit("u128pairs(" + hl(a) + "," + f + ")", "u128pairs(" + ohl(a) + "," + op(f) + ")", "powers of two against " + h::hex(a)); break; }
        case 2: { Addr a = gen::addr(r, 4); emit("bits4(" + n32(uint32_t(a.v)) + ")", "bits4(" + op(n32(uint32_t(a.v))) + ")", "each bit of " + ref::format(a)); break; }
        case 3: { Addr a = gen::addr(r, 6); a.scope.clear(); emit("bits6(" + hl(a.v) + ")", "bits6(" + ohl(a.v) + ")", "each bit of " + ref::format(a)); break; }
        case 4: { Addr a = gen::addr(r, 4); emit("prefixes<ip::ipv4_network>(" + a4(a) + ",32)", "prefixes<ip::ipv4_network>(" + o4(a) + "," + op("size_t(32)") + ")", "each prefix of " + ref::format(a)); break; }
        case 5: { Addr a = gen::addr(r, 6); a.scope.clear(); emit("prefixes<ip::ipv6_network>(" + a6(a.v) + ",128)", "prefixes<ip::ipv6_network>(" + o6(a.v) + "," + op("size_t(128)") + ")", "each prefix of " + ref::format(a)); break; }
        case 6: {
            bool net = r.one_in(2); int x = int(r.below(3)), ver = VER[x] ? VER[x] : gen::ver(r), t = pick_t(r);
            std::string s; do s = net ? gen::net_text(r, ver, 8) : gen::addr_text(r, ver, 8); while (s.size() > 40 || s.empty() || s.find('\0') != std::string::npos);
            arrays(t, units(s), "", 1);
            std::string f = "parse_around<" + std::string(net ? N[x] : A[x]) + ">(";
            decls += "constexpr uint32_t u" + std::to_string(id_) + "[] = {" + list(odd_units(r, t, s.size() > 25 ? 3 : 6)) + "};\n";
            emit(f + nm("k", "") + "," + nm("u", "") + ")", f + nm("r", "") + "," + nm("u", "") + ")", f + std::string(tname(t)) + " " + s);
            break;
        }
        default: {
            bool net = r.one_in(2); int x = int(r.below(3)), t = pick_t(r);
            static const char* tails[] = {"", "1", ":", "::", ".1", ".1.", ":1", "/8", "%e", "0", "/0"};
            std::string tl = tails[r.below(11)]; Units tu = units(tl); tu.resize(4, 0);
            arrays(t, tu, "t", 0);
            std::string f = "parse_short<" + std::string(net ? N[x] : A[x]) + ">(";
            decls += "constexpr uint32_t u" + std::to_string(id_) + "[] = {" + list(odd_units(r, t, 6)) + "};\n";
            emit(f + nm("u", "") + "," + nm("k", "t") + ")", f + nm("u", "") + "," + nm("r", "t") + ")", f + std::string(tname(t)) + " tail " + tl);
        }
    }
}
struct K { const char* name; void (*f)(Rng&); int weight; };
static const K ks[] = {{"parse", k_parse, 10}, {"literal", k_literal, 4}, {"query", k_query, 4}, {"scope", k_scope, 3}, {"compare", k_compare, 3}, {"attributes", k_net, 3}, {"relations", k_relate, 3}, {"hosts", k_hosts, 3}, {"subnets", k_subnets, 4}, {"supernet", k_supernet, 2}, {"exclude", k_exclude, 2}, {"from_address", k_from, 3}, {"uint128", k_u128, 4}, {"uint128-text", k_u128str, 2}, {"fixed_string", k_strings, 2}, {"containers", k_misc, 1}, {"sweep", k_sweep, 2}};

int main(int argc, char** argv) {
    uint64_t seed = 1; int n = 200, only = -1; const char* file = "/dev/stdout"; exc_ = 1; std_ = 14;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i]; const char* v = argv[i + 1];
        if (a == "--seed") seed = strtoull(v, 0, 10); else if (a == "--n") n = atoi(v); else if (a == "--std") std_ = atoi(v); else if (a == "--exc") exc_ = atoi(v); else if (a == "--out") file = v; else if (a == "--only") only = atoi(v);
    }
    int total = 0; for (auto& k : ks) total += k.weight;
    int in_fn = 0, fns = 0;
    std::string body;
    for (int c = 0; c < n; ++c) {
        Rng r(h::mix(seed * 1000003 + uint64_t(c)));
        int w = int(r.below(uint64_t(total))), j = 0;
        while (w >= ks[j].weight) w -= ks[j++].weight;
        out.clear(); std::string d0 = decls;
        id_ = c;
        size_t before = body.size();
        ks[j].f(r);
        if (out.empty() || (only >= 0 && only != c)) { decls = d0; continue; }
        kn[j] = ks[j].name; ++nk[j];
        if (in_fn == 0) body += "static void t" + std::to_string(fns++) + "() {\n";
        body += out;
        if (++in_fn == 20) { body += "}\n"; in_fn = 0; }
        (void)before;
    }
    if (in_fn) body += "}\n";
    std::ofstream f(file);
    f << "#include \"c24_ops.hpp\"\nusing namespace c24;\nusing namespace IPADDRESS_NAMESPACE;\n" << decls << body << "int main() {\n";
    for (int i = 0; i < fns; ++i) f << "t" << i << "();\n";
    f << "return finish();\n}\n";
    for (size_t j = 0; j < sizeof ks / sizeof *ks; ++j) fprintf(stderr, "KIND %s %d\n", ks[j].name, nk[j]);
    return 0;
}
