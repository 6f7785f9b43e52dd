// Input generators, biased to the boundaries the properties name. No library code.
#ifndef GEN_HPP
#define GEN_HPP
#include "ref.hpp"
#ifndef GEN_SCOPE_MAX
#define GEN_SCOPE_MAX H_SCOPE_MAX    // C25 generates the same scopes for builds with different limits
#endif

namespace gen {
// Two draws never stand in one full expression without sequencing: every compiler and standard must generate the same inputs.
using h::Rng;
using h::u128;
using ref::Addr;
using ref::Net;

inline u128 low_bits(int n) { return n >= 128 ? ~u128(0) : (u128(1) << n) - 1; }

inline std::vector<std::pair<u128, int> > make_blocks(int ver) {
    std::vector<std::pair<u128, int> > x;
    {
        for (auto& p : ref::private_blocks(ver)) x.push_back(std::make_pair(p.v, p.plen));
        if (ver == 4) {
            x.push_back(std::make_pair(ref::ip4(100,64,0,0), 10));
            x.push_back(std::make_pair(ref::ip4(224,0,0,0), 4));
            x.push_back(std::make_pair(ref::ip4(192,0,0,0), 24));
            x.push_back(std::make_pair(ref::ip4(192,88,99,0), 24));
        } else {
            for (auto& p : ref::reserved_blocks6()) x.push_back(std::make_pair(p.v, p.plen));
            x.push_back(std::make_pair(ref::hx6(0xff00000000000000ULL), 8));
            x.push_back(std::make_pair(ref::hx6(0xfec0000000000000ULL), 10));
            x.push_back(std::make_pair(ref::hx6(0x2002000000000000ULL), 16));
            x.push_back(std::make_pair(ref::hx6(0x2001000000000000ULL), 32));
            x.push_back(std::make_pair(ref::hx6(0x0064ff9b00000000ULL), 96));
            x.push_back(std::make_pair(ref::hx6(0x2000000000000000ULL), 3));
        }
    }
    return x;
}
inline const std::vector<std::pair<u128, int> >& blocks(int ver) {
    static const std::vector<std::pair<u128, int> > b4 = make_blocks(4), b6 = make_blocks(6);
    return ver == 4 ? b4 : b6;
}

inline u128 value(Rng& r, int ver) {
    const int w = ref::width(ver);
    const u128 ones = ref::all_ones(ver);
    switch (r.below(12)) {
        case 0: case 1: return r.wide() & ones;
        case 2: { static const int s[] = {0, 1, 2, 3, 4, 255, 256, 257}; u128 d = u128(s[r.below(8)]); return r.one_in(2) ? d : (ones - d); }
        case 3: { u128 v = u128(1) << r.below(uint64_t(w)); return r.one_in(2) ? v : (r.one_in(2) ? ones ^ v : (v - 1)); }
        case 4: case 5: {  // around the edge of a special block
            auto& b = blocks(ver);
            auto p = b[r.below(b.size())];
            u128 first = p.first, last = p.first | ref::hostmask(ver, p.second);
            switch (r.below(6)) {
                case 0: return first;
                case 1: return last;
                case 2: return (first - 1) & ones;
                case 3: return (last + 1) & ones;
                case 4: return first | (r.wide() & ref::hostmask(ver, p.second));
                default: return (first ^ (u128(1) << r.below(uint64_t(w)))) & ones;
            }
        }
        case 6: case 7: {  // groups/octets from small sets, many zeros
            u128 v = 0;
            int step = ver == 4 ? 8 : 16, n = w / step;
            unsigned mask = unsigned(r.next());
            for (int i = 0; i < n; ++i) {
                unsigned g = 0;
                if (mask & (1u << i)) {
                    switch (r.below(6)) {
                        case 0: g = 1; break;
                        case 1: g = ver == 4 ? 255 : 0xffff; break;
                        case 2: g = unsigned(r.below(16)); break;
                        case 3: g = unsigned(r.below(256)); break;
                        case 4: g = ver == 4 ? 9 + unsigned(r.below(3)) : 0x0fff + unsigned(r.below(2)); break;
                        default: g = unsigned(r.below(ver == 4 ? 256 : 65536)); break;
                    }
                }
                v = (v << step) | g;
            }
            return v;
        }
        case 8: {  // prefix of random bits followed by zeros or ones
            int k = int(r.below(uint64_t(w + 1)));
            u128 m = low_bits(k) & ones, v = r.wide() & ones;
            return r.one_in(2) ? (v & ~m) & ones : (v | m) & ones;
        }
        case 9: if (ver == 6) return (u128(0xffff) << 32) | (value(r, 4)); return r.wide() & ones;
        case 10: if (ver == 6) { // 6to4, teredo, compat
            switch (r.below(4)) {
                case 0: return (u128(0x2002) << 112) | (r.wide() >> 16);
                case 1: return (u128(0x20010000) << 96) | (r.wide() >> 32);
                case 2: return value(r, 4);
                default: return (u128(0xfe80) << 112) | r.next();
            }
        } return r.wide() & ones;
        default: {  // upper/lower 64 bit boundary
            if (ver == 4) { u128 v = r.wide() & 0xffff; return r.one_in(2) ? v << 16 : v; }
            u128 hi = r.one_in(2) ? r.below(3) : r.next();
            u128 lo = r.one_in(2) ? ~uint64_t(0) - r.below(3) : r.below(3);
            return (hi << 64) | lo;
        }
    }
}

inline std::string scope_text(Rng& r, int maxlen) {
    static const char al[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.:-_~!@#$^&*()[]{}<>|?,;'\"+=`\\";
    static const char* names[] = {"eth0", "en1", "lo", "1", "0", "10", "eno16777984", "wlan0", "4294967295", "4294967296", "007"};
    if (maxlen <= 0) return std::string();
    if (r.one_in(3)) { std::string s = names[r.below(11)]; if (int(s.size()) <= maxlen) return s; }
    int n = r.one_in(3) ? maxlen : 1 + int(r.below(uint64_t(maxlen)));
    std::string s;
    bool dig = r.one_in(4);
    for (int i = 0; i < n; ++i) s += dig ? char('0' + r.below(10)) : al[r.below(sizeof(al) - 1)];
    return s;
}
inline Addr addr(Rng& r, int ver, bool with_scope = true) {
    Addr a(ver, value(r, ver));
    if (ver == 6 && with_scope && GEN_SCOPE_MAX > 0 && r.one_in(3)) a.scope = scope_text(r, GEN_SCOPE_MAX);
    return a;
}
inline int ver(Rng& r) { return r.one_in(2) ? 4 : 6; }
inline int plen(Rng& r, int ver) {
    int w = ref::width(ver);
    if (r.one_in(3)) { static const int e4[] = {0, 1, 2, 7, 8, 9, 30, 31, 32, 32}; static const int e6[] = {0, 1, 2, 63, 64, 65, 126, 127, 128, 96}; return ver == 4 ? e4[r.below(10)] : e6[r.below(10)]; }
    return int(r.below(uint64_t(w + 1)));
}
inline Net net(Rng& r, int ver, bool with_scope = false) {
    int p = plen(r, ver);
    if (r.one_in(6)) { auto& b = blocks(ver); auto& x = b[r.below(b.size())]; p = x.second; return Net(ver, x.first, p); }
    Net n(ver, value(r, ver) & ref::netmask(ver, p), p);
    if (with_scope && ver == 6 && GEN_SCOPE_MAX > 0 && r.one_in(4)) n.scope = scope_text(r, GEN_SCOPE_MAX);
    return n;
}
// a network that includes n / is included by n / is near n
inline Net enlarge(Rng& r, const Net& n) { int p = int(r.below(uint64_t(n.plen + 1))); return Net(n.ver, n.v & ref::netmask(n.ver, p), p); }
inline Net shrink(Rng& r, const Net& n) {
    int w = ref::width(n.ver), p = n.plen + int(r.below(uint64_t(w - n.plen + 1)));
    u128 host;
    switch (r.below(4)) { case 0: host = 0; break; case 1: host = ~u128(0); break; default: host = r.wide(); }
    u128 v = n.v | (host & ref::hostmask(n.ver, n.plen));
    return Net(n.ver, v & ref::netmask(n.ver, p), p);
}
inline Net near(Rng& r, const Net& n) {
    u128 ones = ref::all_ones(n.ver);
    switch (r.below(6)) {
        case 0: return n;
        case 1: return enlarge(r, n);
        case 2: return shrink(r, n);
        case 3: { Net s(n.ver, (n.last() + 1) & ones, n.plen); s.v &= ref::netmask(n.ver, s.plen); return s; }
        case 4: { Net s(n.ver, (n.first() - 1) & ones, n.plen); s.v &= ref::netmask(n.ver, s.plen); return s; }
        default: { Net e = enlarge(r, n); return shrink(r, e); }
    }
}

// ---------------------------------------------------------------- text
inline std::string hextet(Rng& r, unsigned v) {
    char b[8];
    snprintf(b, sizeof b, "%x", v);
    std::string s = b;
    while (s.size() < 4 && r.one_in(3)) s = "0" + s;
    for (char& c : s) if (c >= 'a' && r.one_in(2)) c = char(c - 32);
    return s;
}
// some valid spelling of an IPv6 address value
inline std::string spell6(Rng& r, u128 v, const std::string& scope = std::string()) {
    unsigned g[8];
    for (int i = 0; i < 8; ++i) g[i] = unsigned(v >> (112 - 16 * i)) & 0xffffu;
    bool v4tail = r.one_in(4);
    int n = v4tail ? 6 : 8;
    int bs = -1, bl = 0;
    if (!r.one_in(4)) {
        // any run of at least one zero group inside the first n groups
        std::vector<std::pair<int, int> > runs;
        for (int i = 0; i < n; ++i) for (int l = 1; i + l <= n && g[i + l - 1] == 0; ++l) runs.push_back(std::make_pair(i, l));
        if (!runs.empty()) {
            auto p = runs[r.below(runs.size())];
            if (r.one_in(2)) for (auto& x : runs) if (x.second > p.second) p = x;
            bs = p.first; bl = p.second;
        }
    }
    std::string o;
    for (int i = 0; i < n;) {
        if (i == bs) { o += "::"; i += bl; continue; }
        if (!o.empty() && o[o.size() - 1] != ':') o += ':';
        o += hextet(r, g[i]);
        ++i;
    }
    if (v4tail) {
        if (!o.empty() && o[o.size() - 1] != ':') o += ':';
        o += ref::format4(uint32_t(v));
    }
    if (!scope.empty()) o += "%" + scope;
    return o;
}
inline std::string spell(Rng& r, const Addr& a) { return a.ver == 4 ? ref::format4(uint32_t(a.v)) : spell6(r, a.v, a.scope); }

inline std::string suffix(Rng& r, int ver, int plen) {
    switch (ver == 4 ? r.below(5) : r.below(2)) {
        case 0: { std::string s = std::to_string(plen); if (r.one_in(6)) s = std::string(1 + r.below(4), '0') + s; return s; }
        case 2: return ref::format4(uint32_t(ref::netmask(4, plen)));
        case 3: if (plen != 32 && plen != 0) return ref::format4(uint32_t(ref::hostmask(4, plen))); return std::to_string(plen);
        default: return std::to_string(plen);
    }
}
inline char junk_char(Rng& r) {
    static const char al[] = "0123456789abcdefABCDEFgGxXzZ.:/%%::..// -+\t\n_,;#";
    if (r.one_in(30)) return '\0';
    if (r.one_in(30)) return char(r.below(256));
    return al[r.below(sizeof(al) - 1)];
}
inline std::string mutate(Rng& r, std::string s) {
    int n = r.one_in(3) ? 2 + int(r.below(3)) : 1;
    for (int k = 0; k < n; ++k) {
        size_t len = s.size(), p = size_t(r.below(len + 1));
        switch (r.below(10)) {
            case 0: s.insert(p, 1, junk_char(r)); break;
            case 1: if (len) s.erase(size_t(r.below(len)), 1); break;
            case 2: if (len) { size_t i = size_t(r.below(len)); s[i] = junk_char(r); } break;
            case 3: if (len) { size_t i = size_t(r.below(len)); s.insert(i, 1, s[i]); } break;
            case 4: s = s.substr(0, p); break;
            case 5: s = s.substr(p); break;
            case 6: if (len > 1) { size_t i = size_t(r.below(len - 1)); std::swap(s[i], s[i + 1]); } break;
            case 7: { size_t q = size_t(r.below(len + 1)); size_t a = p < q ? p : q, b = p < q ? q : p; s.insert(p, s.substr(a, b - a)); if (s.size() > 300) s.resize(300); break; }
            case 8: if (len) { size_t i = size_t(r.below(len)); if (ref::is_digit(s[i])) s[i] = char('0' + r.below(10)); else s[i] = char(s[i] ^ 0x20); } break;
            default: { static const char* ins[] = {"::", ".", ":", "0", "00", "255", "256", "%", "/", "1", "ffff", " ", "1.2.3.4", "%1", "/0", "/32", "/33", "-1", "0x"}; s.insert(p, ins[r.below(19)]); }
        }
    }
    return s;
}
// text of an address: valid or mutated
inline std::string addr_text(Rng& r, int ver, int mutate_pct = 50) {
    Addr a = addr(r, ver);
    std::string s = spell(r, a);
    if (int(r.below(100)) < mutate_pct) s = mutate(r, s);
    return s;
}
inline std::string net_text(Rng& r, int ver, int mutate_pct = 40) {
    Net n = net(r, ver, true);
    Addr a(ver, n.v, n.scope);
    if (r.one_in(3)) a.v |= r.wide() & ref::hostmask(ver, n.plen);
    std::string s = spell(r, a);
    switch (r.below(8)) {
        case 0: break;
        case 1: { static const char* w[] = {"33", "129", "256", "4294967296", "4294967328", "18446744073709551616", "18446744073709551640", "99999999999999999999999999", "", "-1", "+8", "1a", "0x10", " 8", "8 ", "255.0.255.0", "0.255.0.0", "255.255.255.256", "128.0.0.1", "::", "ffff::", "1.2.3", "254.255.255.255", "00000000000000000000008", "340282366920938463463374607431768211456"}; s += std::string("/") + w[r.below(25)]; break; }
        case 2: if (ver == 4) { s += "/" + ref::format4(uint32_t(ref::netmask(4, n.plen)) ^ (1u << r.below(32))); break; } s += "/" + std::to_string(r.below(140)); break;
        default: s += "/" + suffix(r, ver, n.plen);
    }
    if (int(r.below(100)) < mutate_pct) s = mutate(r, s);
    return s;
}
} // namespace gen
#endif
