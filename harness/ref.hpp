// Reference model: what the properties say, written without any library code.
#ifndef REF_HPP
#define REF_HPP
#include "h.hpp"

namespace ref {
using h::u128;

inline bool is_digit(char c) { return c >= '0' && c <= '9'; }
inline int hexval(char c) {
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}
inline std::vector<std::string> split(const std::string& s, char sep) {
    std::vector<std::string> r(1);
    for (char c : s) { if (c == sep) r.push_back(std::string()); else r.back() += c; }
    return r;
}

// ---------------------------------------------------------------- IPv4 text
inline bool parse4(const std::string& t, uint32_t& out) {
    std::vector<std::string> p = split(t, '.');
    if (p.size() != 4) return false;
    uint32_t v = 0;
    for (const std::string& o : p) {
        if (o.empty() || o.size() > 3) return false;
        unsigned x = 0;
        for (char c : o) { if (!is_digit(c)) return false; x = x * 10 + unsigned(c - '0'); }
        if (o.size() > 1 && o[0] == '0') return false;
        if (x > 255) return false;
        v = (v << 8) | x;
    }
    out = v;
    return true;
}
inline std::string format4(uint32_t v) {
    return std::to_string(v >> 24) + "." + std::to_string((v >> 16) & 255) + "." + std::to_string((v >> 8) & 255) + "." + std::to_string(v & 255);
}

// ---------------------------------------------------------------- IPv6 text
inline bool scope_char_ok(char c) {
    if (c == '%' || c == '/' || c == '\0') return false;
#ifndef IPADDRESS_SCOPE_ID_SUPPORT_SPACES
    if (c == ' ' || (c >= '\t' && c <= '\r')) return false;
#endif
    return true;
}
inline bool scope_ok(const std::string& s) {
    if (s.empty() || s.size() > size_t(H_SCOPE_MAX)) return false;
    for (char c : s) if (!scope_char_ok(c)) return false;
    return true;
}
// groups of one side of '::' (or of the whole address); false if malformed
inline bool groups(const std::string& s, bool last_side, std::vector<uint16_t>& out) {
    if (s.empty()) return true;
    std::vector<std::string> g = split(s, ':');
    for (size_t i = 0; i < g.size(); ++i) {
        const std::string& x = g[i];
        if (x.find('.') != std::string::npos) {
            uint32_t v4;
            if (!last_side || i + 1 != g.size() || !parse4(x, v4)) return false;
            out.push_back(uint16_t(v4 >> 16));
            out.push_back(uint16_t(v4));
            continue;
        }
        if (x.empty() || x.size() > 4) return false;
        unsigned v = 0;
        for (char c : x) { int d = hexval(c); if (d < 0) return false; v = v * 16 + unsigned(d); }
        out.push_back(uint16_t(v));
    }
    return true;
}
inline bool parse6(const std::string& t, u128& out, std::string& scope) {
    std::string a = t;
    scope.clear();
    size_t pc = t.find('%');
    if (pc != std::string::npos) {
        a = t.substr(0, pc);
        scope = t.substr(pc + 1);
        if (!scope_ok(scope)) return false;
    }
    std::vector<uint16_t> g;
    size_t dc = a.find("::");
    if (dc == std::string::npos) {
        if (a.empty() || !groups(a, true, g) || g.size() != 8) return false;
    } else {
        if (a.find("::", dc + 1) != std::string::npos) return false;
        std::vector<uint16_t> lo;
        std::string l = a.substr(0, dc), r = a.substr(dc + 2);
        if (!groups(l, false, g) || !groups(r, true, lo)) return false;
        if (g.size() + lo.size() > 7) return false;
        while (g.size() + lo.size() < 8) g.push_back(0);
        g.insert(g.end(), lo.begin(), lo.end());
    }
    u128 v = 0;
    for (uint16_t x : g) v = (v << 16) | x;
    out = v;
    return true;
}

enum Fmt { FULL, COMPACT, COMPRESSED };
inline std::string format6(u128 v, const std::string& scope, Fmt f) {
    unsigned g[8];
    for (int i = 0; i < 8; ++i) g[i] = unsigned(v >> (112 - 16 * i)) & 0xffffu;
    std::string o;
    char b[8];
    int bs = -1, bl = 0;
    if (f == COMPRESSED) {
        for (int i = 0; i < 8; ++i) {
            int n = 0;
            while (i + n < 8 && g[i + n] == 0) ++n;
            if (n > bl) { bl = n; bs = i; }
        }
        if (bl < 2) { bs = -1; bl = 0; }
    }
    for (int i = 0; i < 8;) {
        if (i == bs) { o += "::"; i += bl; continue; }
        if (!o.empty() && o[o.size() - 1] != ':') o += ':';
        snprintf(b, sizeof b, f == FULL ? "%04x" : "%x", g[i]);
        o += b;
        ++i;
    }
    if (!scope.empty()) o += "%" + scope;
    return o;
}

// ---------------------------------------------------------------- values
struct Addr {
    int ver;          // 4 or 6
    u128 v;
    std::string scope;
    Addr() : ver(4), v(0) {}
    Addr(int ver_, u128 v_, const std::string& s = std::string()) : ver(ver_), v(v_), scope(s) {}
    bool operator==(const Addr& o) const { return ver == o.ver && v == o.v && scope == o.scope; }
    bool operator!=(const Addr& o) const { return !(*this == o); }
};
inline int width(int ver) { return ver == 4 ? 32 : 128; }
inline u128 all_ones(int ver) { return ver == 4 ? u128(0xffffffffu) : ~u128(0); }
inline u128 netmask(int ver, int plen) {
    if (plen == 0) return 0;
    return all_ones(ver) & ~((u128(1) << (width(ver) - plen)) - 1) ;
}
inline u128 hostmask(int ver, int plen) { return all_ones(ver) ^ netmask(ver, plen); }
inline std::string format(const Addr& a, Fmt f = COMPRESSED) { return a.ver == 4 ? format4(uint32_t(a.v)) : format6(a.v, a.scope, f); }
inline int cmp(const Addr& a, const Addr& b) {
    if (a.ver != b.ver) return a.ver < b.ver ? -1 : 1;
    if (a.v != b.v) return a.v < b.v ? -1 : 1;
    // scope: lexicographic over characters (ASCII scopes only are compared)
    int c = a.scope.compare(b.scope);
    return c < 0 ? -1 : c > 0 ? 1 : 0;
}
struct Net {
    int ver;
    u128 v;
    int plen;
    std::string scope;
    Net() : ver(4), v(0), plen(32) {}
    Net(int ver_, u128 v_, int p, const std::string& s = std::string()) : ver(ver_), v(v_), plen(p), scope(s) {}
    bool operator==(const Net& o) const { return ver == o.ver && v == o.v && plen == o.plen && scope == o.scope; }
    bool operator!=(const Net& o) const { return !(*this == o); }
    u128 first() const { return v; }
    u128 last() const { return v | hostmask(ver, plen); }
};
inline std::string format(const Net& n, Fmt f = COMPRESSED) { return format(Addr(n.ver, n.v, n.scope), f) + "/" + std::to_string(n.plen); }
inline int cmp(const Net& a, const Net& b) {
    int c = cmp(Addr(a.ver, a.v, a.scope), Addr(b.ver, b.v, b.scope));
    if (c) return c;
    return a.plen < b.plen ? -1 : a.plen > b.plen ? 1 : 0;
}
inline bool parse(int ver, const std::string& t, Addr& out) {
    if (ver == 4) { uint32_t v; if (!parse4(t, v)) return false; out = Addr(4, v); return true; }
    u128 v; std::string s;
    if (!parse6(t, v, s)) return false;
    out = Addr(6, v, s);
    return true;
}
inline bool parse_any(const std::string& t, Addr& out) { return parse(4, t, out) || parse(6, t, out); }

// ---------------------------------------------------------------- network text
enum Kind { OK, EMPTY_ADDR, BAD_ADDR, EMPTY_MASK, BAD_MASK, MIXED_MASK, HOST_BITS, TWO_SLASHES };
inline bool digits(const std::string& s) { if (s.empty()) return false; for (char c : s) if (!is_digit(c)) return false; return true; }
inline bool mask_text(int ver, const std::string& s, int& plen, Kind& k) {
    k = BAD_MASK;
    if (digits(s)) {
        unsigned long v = 0;
        for (char c : s) { v = v * 10 + unsigned(c - '0'); if (v > 100000) v = 100000; }
        if (v > unsigned(width(ver))) return false;
        plen = int(v);
        k = OK;
        return true;
    }
    uint32_t m;
    if (ver == 4 && parse4(s, m)) {
        for (int p = 0; p <= 32; ++p) if (uint32_t(netmask(4, p)) == m) { plen = p; k = OK; return true; }
        for (int p = 0; p <= 32; ++p) if (uint32_t(hostmask(4, p)) == m) { plen = p; k = OK; return true; }
        k = MIXED_MASK;
    }
    return false;
}
// all error kinds the text really has, as a bit set (0 = accepted)
inline unsigned parse_net(int ver, const std::string& t, bool strict, Net& out) {
    unsigned errs = 0;
    std::vector<std::string> p = split(t, '/');
    if (p.size() > 2) errs |= 1u << TWO_SLASHES;
    int plen = width(ver);
    bool mask_ok = true;
    if (p.size() >= 2) {
        Kind k = OK;
        if (p[1].empty()) { errs |= 1u << EMPTY_MASK; mask_ok = false; }
        else if (!mask_text(ver, p[1], plen, k)) { errs |= 1u << k; mask_ok = false; }
    }
    Addr a;
    bool addr_ok = parse(ver, p[0], a);
    if (p[0].empty()) errs |= 1u << EMPTY_ADDR;
    else if (!addr_ok) errs |= 1u << BAD_ADDR;
    if (addr_ok && mask_ok && p.size() <= 2) {
        u128 host = a.v & hostmask(ver, plen);
        if (host && strict) errs |= 1u << HOST_BITS;
        out = Net(ver, a.v & netmask(ver, plen), plen, host && !strict ? std::string() : a.scope);
    }
    return errs;
}
inline bool parse_net_any(const std::string& t, bool strict, Net& out) {
    if (parse_net(4, t, strict, out) == 0) return true;
    return parse_net(6, t, strict, out) == 0;
}

// ---------------------------------------------------------------- classification
struct Block { u128 v; int plen; };
inline u128 hx6(uint64_t hi, uint64_t lo = 0) { return (u128(hi) << 64) | lo; }
inline bool in(int ver, u128 v, u128 block, int plen) { return ((v ^ block) & netmask(ver, plen)) == 0; }
inline u128 ip4(unsigned a, unsigned b, unsigned c, unsigned d) { return (u128(a) << 24) | (b << 16) | (c << 8) | d; }

inline const std::vector<Block>& private_blocks(int ver) {
    static const std::vector<Block> b4 = {
        {ip4(0,0,0,0),8},{ip4(10,0,0,0),8},{ip4(127,0,0,0),8},{ip4(169,254,0,0),16},{ip4(172,16,0,0),12},{ip4(192,0,0,0),29},
        {ip4(192,0,0,170),31},{ip4(192,0,2,0),24},{ip4(192,168,0,0),16},{ip4(198,18,0,0),15},{ip4(198,51,100,0),24},
        {ip4(203,0,113,0),24},{ip4(240,0,0,0),4},{ip4(255,255,255,255),32}};
    static const std::vector<Block> b6 = {
        {hx6(0,1),128},{hx6(0,0),128},{hx6(0,0x0000ffff00000000ULL),96},{hx6(0x0100000000000000ULL),64},{hx6(0x2001000000000000ULL),23},
        {hx6(0x2001000200000000ULL),48},{hx6(0x20010db800000000ULL),32},{hx6(0x2001001000000000ULL),28},{hx6(0xfc00000000000000ULL),7},
        {hx6(0xfe80000000000000ULL),10}};
    return ver == 4 ? b4 : b6;
}
inline const std::vector<Block>& reserved_blocks6() {
    static const std::vector<Block> b = {
        {hx6(0),8},{hx6(0x0100000000000000ULL),8},{hx6(0x0200000000000000ULL),7},{hx6(0x0400000000000000ULL),6},
        {hx6(0x0800000000000000ULL),5},{hx6(0x1000000000000000ULL),4},{hx6(0x4000000000000000ULL),3},{hx6(0x6000000000000000ULL),3},
        {hx6(0x8000000000000000ULL),3},{hx6(0xa000000000000000ULL),3},{hx6(0xc000000000000000ULL),3},{hx6(0xe000000000000000ULL),4},
        {hx6(0xf000000000000000ULL),5},{hx6(0xf800000000000000ULL),6},{hx6(0xfe00000000000000ULL),9}};
    return b;
}
inline bool in_any(int ver, u128 v, const std::vector<Block>& b) { for (const Block& x : b) if (in(ver, v, x.v, x.plen)) return true; return false; }
inline bool mapped(const Addr& a, u128& v4) {
    if (a.ver != 6 || (a.v >> 32) != 0xffff) return false;
    v4 = a.v & 0xffffffffu;
    return true;
}
enum Pred { MULTICAST, PRIVATE, GLOBAL, RESERVED, LOOPBACK, LINK_LOCAL, UNSPECIFIED, SITE_LOCAL, NPRED };
inline const char* pred_name(int p) {
    static const char* n[] = {"is_multicast", "is_private", "is_global", "is_reserved", "is_loopback", "is_link_local", "is_unspecified", "is_site_local"};
    return n[p];
}
inline bool plain(int p, int ver, u128 v) {   // classification by blocks only (no mapped delegation)
    bool f = ver == 4;
    switch (p) {
        case MULTICAST: return f ? in(4, v, ip4(224,0,0,0), 4) : in(6, v, hx6(0xff00000000000000ULL), 8);
        case PRIVATE: return in_any(ver, v, private_blocks(ver));
        case GLOBAL: return !in_any(ver, v, private_blocks(ver)) && !(f && in(4, v, ip4(100,64,0,0), 10));
        case RESERVED: return f ? in(4, v, ip4(240,0,0,0), 4) : in_any(6, v, reserved_blocks6());
        case LOOPBACK: return f ? in(4, v, ip4(127,0,0,0), 8) : v == 1;
        case LINK_LOCAL: return f ? in(4, v, ip4(169,254,0,0), 16) : in(6, v, hx6(0xfe80000000000000ULL), 10);
        case UNSPECIFIED: return v == 0;
        case SITE_LOCAL: return !f && in(6, v, hx6(0xfec0000000000000ULL), 10);
    }
    return false;
}
inline bool addr_is(int p, const Addr& a) {
    u128 m;
    if (p == PRIVATE && mapped(a, m)) return plain(PRIVATE, 4, m);
    if (p == GLOBAL && a.ver == 6) return !addr_is(PRIVATE, a);
    return plain(p, a.ver, a.v);
}
inline bool net_private(const Net& n) {
    for (const Block& b : private_blocks(n.ver)) if (in(n.ver, n.first(), b.v, b.plen) && in(n.ver, n.last(), b.v, b.plen)) return true;
    return false;
}
inline bool net_is(int p, const Net& n) {
    if (p == PRIVATE) return net_private(n);
    if (p == GLOBAL) {
        if (n.ver == 4 && in(4, n.first(), ip4(100,64,0,0), 10) && in(4, n.last(), ip4(100,64,0,0), 10)) return false;
        return !net_private(n);
    }
    return plain(p, n.ver, n.first()) && plain(p, n.ver, n.last());
}

inline std::string reverse_pointer(const Addr& a) {
    std::string o;
    if (a.ver == 4) {
        uint32_t v = uint32_t(a.v);
        for (int i = 0; i < 4; ++i) o += std::to_string((v >> (8 * i)) & 255) + ".";
        return o + "in-addr.arpa";
    }
    for (int i = 0; i < 32; ++i) { o += "0123456789abcdef"[unsigned(a.v >> (4 * i)) & 15]; o += '.'; }
    return o + "ip6.arpa";
}
inline std::string str(const Addr& a) { return "<" + format(a) + ">"; }
inline std::string str(const Net& n) { return "<" + format(n) + ">"; }
} // namespace ref
#endif
