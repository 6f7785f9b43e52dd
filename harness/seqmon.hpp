// Shared by C04, C15, C16, C18: a hosts()/subnets() sequence judged against an arithmetic model (first, step, count).
#ifndef SEQMON_HPP
#define SEQMON_HPP
#include "lib.hpp"
#include <iterator>
namespace smon {
using namespace L;

struct Model {
    int ver, plen;          // plen < 0: elements are addresses
    u128 first, step, last; // last = index of the last element (so that 2^128 elements can be described)
    Addr addr(u128 i) const { return Addr(ver, first + i * step); }
    Net net(u128 i) const { return Net(ver, first + i * step, plen); }
    std::string show(u128 i) const { return plen < 0 ? ref::str(addr(i)) : ref::str(net(i)); }
    std::string str() const { return (plen < 0 ? "hosts " : "subnets ") + show(0) + ".." + show(last); }
};
inline Model hosts_model(const Net& n) {
    Model m; m.ver = n.ver; m.plen = -1; m.step = 1;
    int w = ref::width(n.ver);
    u128 lo = n.first(), hi = n.last();
    if (n.plen < w - 1) { lo += 1; if (n.ver == 4) hi -= 1; }
    m.first = lo; m.last = hi - lo;
    return m;
}
inline Model subnets_model(const Net& n, int np) {   // np >= n.plen
    Model m; m.ver = n.ver; m.plen = np; m.first = n.v;
    int w = ref::width(n.ver), k = np - n.plen;
    m.step = w - np >= 128 ? 0 : u128(1) << (w - np);
    m.last = k == 0 ? 0 : k >= 128 ? ~u128(0) : (u128(1) << k) - 1;
    return m;
}
inline bool same(const Model& m, u128 i, const ip::ipv4_address& x) { return m.plen < 0 && of(x) == m.addr(i); }
inline bool same(const Model& m, u128 i, const ip::ipv6_address& x) { return m.plen < 0 && of(x) == m.addr(i); }
inline bool same(const Model& m, u128 i, const ip::ip_address& x) { return m.plen < 0 && of(x) == m.addr(i); }
inline bool same(const Model& m, u128 i, const ip::ipv4_network& x) { return of(x) == m.net(i); }
inline bool same(const Model& m, u128 i, const ip::ipv6_network& x) { return of(x) == m.net(i); }
inline bool same(const Model& m, u128 i, const ip::ip_network& x) { return of(x) == m.net(i); }

template <class U> struct To;
template <> struct To<uint32_t> { static uint32_t of(u128 v) { return uint32_t(v); } };
template <> struct To<ip::uint128_t> { static ip::uint128_t of(u128 v) { return u128_of(v); } };

// index of interest: ends, powers of two, random
inline u128 index(Rng& r, u128 last) {
    u128 v;
    switch (r.below(6)) {
        case 0: v = r.below(4); break;
        case 1: v = last - r.below(4); break;
        case 2: v = u128(1) << r.below(128); break;
        case 3: v = r.below(300); break;
        case 4: v = last >> (1 + r.below(127)); break;
        default: v = r.wide(); break;
    }
    return last == ~u128(0) ? v : v % (last + 1);
}

// everything C15/C16 promise about one sequence. k: how many steps to walk from each end
template <class S> void sequence(const char* key, const std::string& what, const S& s, const Model& m, Rng& r, unsigned k) {
    typedef typename S::const_iterator I;
    typedef typename S::const_reverse_iterator R;
    typedef typename S::difference_type D;
    typedef typename I::uint_type U;
    std::string K(key);
    h::note(K + " " + what + " " + m.str());
#define SQ(cond, name, ...) CHECK(cond, K + "-" name, what, " ", m.str(), " ", __VA_ARGS__)
    const u128 count = m.last + 1;   // 0 when it is 2^128
    const bool all = m.last < k;
    SQ(!s.empty(), "empty", "is empty");
    SQ(wide(s.size()) == (m.ver == 4 ? u128(uint32_t(count)) : count), "size", "has size ", wide(s.size()));
    // forward
    I b = s.begin(), e = s.end();
    SQ(b != e && !(b == e), "begin-is-end", "");
    {
        I it = b;
        u128 i = 0;
        for (; i <= m.last && i < k; ++i) {
            if (it == e) { SQ(false, "forward-short", "ended after ", i); break; }
            if (!same(m, i, *it)) { SQ(false, "forward", "element ", i, " is wrong: expected ", m.show(i)); break; }
            if (!same(m, i, *it.operator->())) { SQ(false, "forward-arrow", "element ", i); break; }
            if (r.one_in(4)) { I o = it++; if (!same(m, i, *o)) SQ(false, "post-increment", "element ", i); } else ++it;
        }
        h::st().checks += uint64_t(i);
        if (all) SQ(it == e && !(it != e), "forward-end", "did not end after ", count);
        else SQ(it != e, "forward-early-end", "ended after ", i);
    }
    // range for, with a bound
    if (all) {
        u128 n = 0; bool okv = true;
        for (auto x : s) { if (n > m.last) { okv = false; break; } okv = okv && same(m, n, x); ++n; }
        SQ(okv && n == count, "range-for", "visited ", n);
        HIT("walked-completely");
    } else HIT("walked-both-ends");
    // backward from end
    {
        I it = e;
        u128 i = 0;
        for (; i <= m.last && i < k; ++i) {
            if (it == b) { SQ(false, "backward-short", "reached begin after ", i); break; }
            if (r.one_in(4)) it--; else --it;
            if (!same(m, m.last - i, *it)) { SQ(false, "backward", "element ", m.last - i, " is wrong"); break; }
        }
        h::st().checks += uint64_t(i);
        if (all) SQ(it == b, "backward-begin", "begin not reached after ", count);
    }
    // reverse iteration is the mirror image
    {
        R it = s.rbegin(), re = s.rend();
        u128 i = 0;
        for (; i <= m.last && i < k; ++i) {
            if (it == re) { SQ(false, "reverse-short", "ended after ", i); break; }
            if (!same(m, m.last - i, *it) || !same(m, m.last - i, *it.operator->())) { SQ(false, "reverse", "element ", i, " from the end is wrong: expected ", m.show(m.last - i)); break; }
            if (r.one_in(4)) it++; else ++it;
        }
        h::st().checks += uint64_t(i);
        if (all) SQ(it == re && !(it != re), "reverse-end", "did not end after ", count);
        else SQ(it != re, "reverse-early-end", "ended after ", i);
        R jt = re;
        for (i = 0; i <= m.last && i < k; ++i) { --jt; if (!same(m, i, *jt)) { SQ(false, "reverse-back", "element ", i, " wrong"); break; } }
        SQ(s.crbegin() == s.rbegin() && s.crend() == s.rend() && s.cbegin() == b && s.cend() == e, "const-iterators", "");
        SQ(same(m, m.last - (m.last < 2 ? 0 : 2), s.rbegin()[To<U>::of(m.last < 2 ? 0 : 2)]), "reverse-index", "");
    }
    SQ(same(m, 0, s.front()), "front", "");
    SQ(same(m, m.last, s.back()), "back", "");
    for (int j = 0; j < 12; ++j) {
        u128 i = index(r, m.last);
        SQ(same(m, i, s[To<D>::of(i)]), "index", "element ", i, " expected ", m.show(i));
        SQ(same(m, i, s.at(To<D>::of(i))), "at", "element ", i, " expected ", m.show(i));
        SQ(same(m, i, *(b + To<U>::of(i))), "begin-plus", "element ", i);
        SQ(same(m, i, b[To<U>::of(i)]), "begin-index", "element ", i);
        SQ(same(m, m.last - i, *(e - To<U>::of(i + 1))), "end-minus", "element ", m.last - i);
        SQ(same(m, m.last - i, s.rbegin()[To<U>::of(i)]), "rbegin-index", "element ", m.last - i);
        SQ(same(m, m.last - i, *(s.rbegin() + To<U>::of(i))), "rbegin-plus", "element ", m.last - i);
        // continue walking from the middle
        if (i < m.last) { I it = b + To<U>::of(i); ++it; SQ(same(m, i + 1, *it) , "middle-step", "after element ", i); --it; SQ(same(m, i, *it), "middle-step-back", "element ", i); }
    }
#undef SQ
    h::nt(h::hs(what + K + m.str()));
}

// C18: a random walk of moves tracked against the position
template <class I> struct Tracked { I it; u128 pos; };   // pos 0..count (count = end; sequences here have < 2^128 elements)
template <class I, class F> void laws(const char* key, const std::string& what, I b, I e, const Model& m, F idx, Rng& r, int moves) {
    typedef typename I::uint_type U;
    typedef typename I::difference_type Df;
    std::string K(key);
    const u128 count = m.last + 1;
    if (count == 0) return;
    const u128 wrap = m.ver == 4 ? u128(1) << 32 : 0;     // a distance of exactly 2^32 is not representable in IPv4 counting types
    h::note(K + " " + what + " " + m.str());
    std::vector<Tracked<I> > v;
    { Tracked<I> t = {b, 0}; v.push_back(t); t.it = e; t.pos = count; v.push_back(t); t.it = b; t.pos = 0; v.push_back(t); v.push_back(t); }
    std::string log;
#define LW(cond, name, ...) CHECK(cond, K + "-" name, what, " ", m.str(), " moves:", log, " ", __VA_ARGS__)
    for (int step = 0; step < moves; ++step) {
        size_t w = 2 + r.below(2);
        Tracked<I>& t = v[w];
        u128 target = r.one_in(6) ? count : r.one_in(6) ? 0 : index(r, m.last);
        if (r.one_in(3)) { u128 d = r.below(5); target = r.one_in(2) ? (t.pos + d > count ? count : t.pos + d) : (t.pos < d ? 0 : t.pos - d); }
        bool up = target >= t.pos;
        u128 d = up ? target - t.pos : t.pos - target;
        bool small = d < (u128(1) << 62);
        Df sd = small ? (up ? Df(int64_t(d)) : Df(-int64_t(d))) : Df(0);
        bool usable = (m.ver == 6 || d < (u128(1) << 32));       // counting type of IPv4 is 32 bits
        int op = int(r.below(12));
        if (op < 7 && !(small && usable)) op = 7;
        if (!usable) continue;
        if (op == 9 && !(up && d == 1)) op = 7;
        if (op == 10 && !(!up && d == 1)) op = 7;
        log += h::cat(" ", op, ":", up ? "+" : "-", d);
        I before = t.it;
        switch (op) {
            case 0: { I& q = (t.it += sd); LW(&q == &t.it, "plus-assign-self", ""); break; }
            case 1: { I& q = (t.it -= -sd); LW(&q == &t.it, "minus-assign-self", ""); break; }
            case 2: t.it = t.it + sd; break;
            case 3: t.it = sd + t.it; break;
            case 4: t.it = t.it - (-sd); break;
            case 5: if (up) t.it = std::next(t.it, sd); else t.it = std::prev(t.it, -sd); break;
            case 6: std::advance(t.it, sd); break;
            case 7: if (up) t.it += To<U>::of(d); else t.it -= To<U>::of(d); break;
            case 8: if (up) t.it = t.it + To<U>::of(d); else t.it = t.it - To<U>::of(d); break;
            case 9: if (r.one_in(2)) { I& q = ++t.it; LW(&q == &t.it, "increment-self", ""); } else { I o = t.it++; LW(o == before, "post-increment-value", ""); } break;
            case 10: if (r.one_in(2)) { I& q = --t.it; LW(&q == &t.it, "decrement-self", ""); } else { I o = t.it--; LW(o == before, "post-decrement-value", ""); } break;
            default: if (up) t.it = To<U>::of(d) + t.it; else t.it = t.it - To<U>::of(d); break;
        }
        if (op == 9) t.pos += 1; else if (op == 10) t.pos -= 1; else t.pos = target;
        HIT("iterator-move");
        if (t.pos < count) {
            LW(same(m, idx(t.pos), *t.it), "dereference", "position ", t.pos, " gives a wrong element, expected ", m.show(idx(t.pos)));
            LW(same(m, idx(t.pos), *t.it.operator->()), "arrow", "position ", t.pos);
            u128 j = index(r, m.last);
            u128 jd = j > t.pos ? j - t.pos : t.pos - j;
            if (jd < (u128(1) << 62) && (m.ver == 6 || jd < (u128(1) << 32))) { Df q = j > t.pos ? Df(int64_t(jd)) : Df(-int64_t(jd)); LW(same(m, idx(j), t.it[q]), "subscript", "from ", t.pos, " to ", j); }
            if (j >= t.pos) LW(same(m, idx(j), t.it[To<U>::of(jd)]), "subscript-unsigned", "from ", t.pos, " to ", j);
        } else HIT("at-end");
        // relations with every tracked iterator
        for (size_t k = 0; k < v.size(); ++k) {
            const I &x = t.it, &y = v[k].it; u128 p = t.pos, q = v[k].pos;
            LW((x == y) == (p == q) && (x != y) == (p != q), "equality", "positions ", p, " ", q);
            LW((x < y) == (p < q) && (x <= y) == (p <= q) && (x > y) == (p > q) && (x >= y) == (p >= q), "order", "positions ", p, " ", q);
#ifdef IPADDRESS_HAS_SPACESHIP_OPERATOR
            LW((x <=> y < 0) == (p < q) && (x <=> y == 0) == (p == q), "spaceship", "positions ", p, " ", q);
#endif
            u128 df = p > q ? p - q : q - p;
            if (df < (u128(1) << 62) && (df != wrap || wrap == 0)) {
                int64_t want = p > q ? int64_t(df) : -int64_t(df);
                LW(int64_t(x - y) == want, "difference", "positions ", p, " ", q, " gave ", (long long)(x - y));
                if (small && (p > q) ) LW(std::distance(y, x) == want, "distance", "positions ", q, " ", p);
            }
            if (p >= q && (wrap == 0 || df != wrap)) LW(wide(x.uint_diff(y)) == df, "uint_diff", "positions ", p, " ", q, " gave ", wide(x.uint_diff(y)));
        }
        LW(b == v[0].it && e == v[1].it, "independent", "moving one iterator changed another");
    }
    LW(std::prev(e) == b + To<U>::of(m.last) && same(m, idx(m.last), *std::prev(e)), "prev-end", "");
#undef LW
    h::nt(h::hs(log + what + K + m.str()));
}
struct Fwd { u128 operator()(u128 p) const { return p; } };
struct Rev { u128 last; u128 operator()(u128 p) const { return last - p; } };
template <class S> void all_laws(const char* key, const std::string& what, const S& s, const Model& m, Rng& r, int moves) {
    std::string k(key);
    laws((k + "-fwd").c_str(), what, s.begin(), s.end(), m, Fwd(), r, moves);
    Rev rv; rv.last = m.last;
    laws((k + "-rev").c_str(), what, s.rbegin(), s.rend(), m, rv, r, moves);
    // base() of a reverse iterator designates the element after it
    typedef typename S::const_iterator I;
    typedef typename I::uint_type U;
    if (m.last == ~u128(0)) return;
    for (int j = 0; j < 4; ++j) {
        u128 i = index(r, m.last);
        auto ri = s.rbegin() + To<U>::of(i);
        I f = ri.base();
        CHECK(f == s.begin() + To<U>::of(m.last - i) + To<U>::of(1), k + "-base", what, " ", m.str(), " reverse position ", i);
        --f;
        CHECK(same(m, m.last - i, *f) && *f == *ri, k + "-base-value", what, " ", m.str(), " reverse position ", i);
    }
    CHECK(s.rbegin().base() == s.end() && s.rend().base() == s.begin(), k + "-base-ends", what, " ", m.str());
}
} // namespace smon
#endif
