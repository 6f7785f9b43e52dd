// libFuzzer driver around a harness that defines  static void fuzz_case(const std::string& bytes, Rng& r).
// Coverage feedback proposes inputs, the harness's own oracle judges them; the report is written as by the other runs.
#include "gen.hpp"
extern "C" size_t LLVMFuzzerMutate(uint8_t* d, size_t n, size_t max);
extern "C" int LLVMFuzzerInitialize(int*, char***) {
    static std::vector<std::string> a; static std::vector<char*> p;
    std::string e = getenv("H_FUZZ_ARGS") ? getenv("H_FUZZ_ARGS") : "", w;
    a.push_back("fuzz");
    for (char c : e + " ") { if (c != ' ') { w += c; continue; } if (!w.empty()) a.push_back(w); w.clear(); }
    for (auto& s : a) p.push_back(&s[0]);
    h::init(int(p.size()), p.data());
    h::st().phase = "fuzz";
    h::st().phases["fuzz"];
    strcpy(h::st().cur->name, "fuzz");
    atexit([] { int rc = h::finish(); if (rc) _exit(rc); });
    return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) {
    h::State& s = h::st();
    ++s.evals; ++s.phases["fuzz"]; ++s.idx; s.cur->idx = s.idx;
    Rng r(h::mix(h::fnv((const char*)d, n)));
    fuzz_case(std::string((const char*)d, n), r);
    h::wd_now() = h::wd_now() + 1;
    return 0;
}
#ifdef H_FUZZ_TEXT      // H_FUZZ_TEXT: bytes before the text; inputs are texts: propose well-formed and nearly well-formed ones too
extern "C" size_t LLVMFuzzerCustomMutator(uint8_t* d, size_t n, size_t max, unsigned seed) {
    Rng r(h::mix(seed));
    std::string t, head;
    while (head.size() < H_FUZZ_TEXT) head += head.size() < n ? char(d[head.size()]) : char(r.next());
    switch (r.below(8)) {
        case 0: t = gen::addr_text(r, gen::ver(r), 50); break;
        case 1: t = gen::net_text(r, gen::ver(r), 50); break;
        case 2: case 3: t = gen::mutate(r, std::string((const char*)d, n).substr(n < H_FUZZ_TEXT ? n : H_FUZZ_TEXT)); break;
        default: return LLVMFuzzerMutate(d, n, max);
    }
    t = head + t;
    if (t.size() > max) t.resize(max);
    memcpy(d, t.data(), t.size());
    return t.size();
}
#endif

// units of T from bytes: ASCII bytes stand for themselves, a byte from 0x80 up introduces one arbitrary unit
template <class T> std::vector<T> fuzz_units(const std::string& b) {
    std::vector<T> v;
    for (size_t i = 0; i < b.size(); ++i) {
        unsigned char c = (unsigned char)b[i];
        if (c < 0x80 || sizeof(T) == 1) { v.push_back(T(c)); continue; }
        uint32_t u = 0;
        size_t n = sizeof(T) == 2 ? 2 : 1 + (c & 3);
        for (size_t k = 0; k < n; ++k) { ++i; u = (u << 8) | (i < b.size() ? (unsigned char)b[i] : 0); }
        v.push_back(T(u));
    }
    return v;
}
