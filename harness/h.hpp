// Monitor runtime shared by all harnesses. C++11, usable with -fno-exceptions. Contains no library code.
#ifndef H_HPP
#define H_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <functional>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <fcntl.h>
#include <unistd.h>
#include <exception>
#include <stdexcept>
#include <type_traits>

#ifndef H_SCOPE_MAX
#define H_SCOPE_MAX 16
#endif
#if defined(__cpp_exceptions) && !defined(IPADDRESS_NO_EXCEPTIONS)
#define H_EXC 1
#else
#define H_EXC 0
#endif

namespace h {

typedef unsigned __int128 u128;

inline uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) {}
    uint64_t next() { uint64_t r = mix(s); s += 0x9e3779b97f4a7c15ULL; return r; }
    uint64_t below(uint64_t n) { return n == 0 ? 0 : next() % n; }
    int range(int a, int b) { return a + int(below(uint64_t(b - a + 1))); }
    bool one_in(uint64_t n) { return below(n) == 0; }
    template <class T, size_t N> T pick(const T (&a)[N]) { return a[below(N)]; }
    u128 wide() { u128 hi = next(); return (hi << 64) | next(); }
};

struct Cur { volatile uint64_t phase, idx; char name[64]; char note[1024]; };

struct Viol { std::string key, phase, detail; uint64_t idx; };

struct State {
    uint64_t seed = 1, salt = 0, shard = 0, nshards = 1, stride = 1;
    double scale = 1.0, budget = 0;
    bool truncated = false;
    double t0 = 0;
    bool thorough = false;
    std::string out, curfile, only_phase, dump;
    bool has_only = false;
    uint64_t only_idx = 0;
    std::vector<Viol> viols;
    uint64_t nviol = 0;
    std::map<std::string, uint64_t> perkey;
    std::map<std::string, uint64_t> hits;
    std::map<std::string, uint64_t> phases;
    uint64_t evals = 0, checks = 0;
    std::vector<uint64_t> table;
    uint64_t tcount = 0, tdropped = 0;
    std::vector<std::string> samples;
    std::map<std::string, int> samples_per_phase;
    Cur* cur = nullptr;
    Cur dummy;
    std::string phase;
    uint64_t idx = 0;
};
inline State& st() { static State s; return s; }

inline double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + double(t.tv_nsec) * 1e-9; }
inline bool over_budget() { State& s = st(); if (s.budget > 0 && now_s() - s.t0 > s.budget) s.truncated = true; return s.truncated; }
inline bool thorough() { return st().thorough; }
inline uint64_t scaled(uint64_t n) { double v = double(n) * st().scale; return v < 1 ? 1 : uint64_t(v); }

inline std::string q(const char* d, size_t n) {
    std::string o = "\"";
    char b[8];
    for (size_t i = 0; i < n; ++i) {
        unsigned char c = (unsigned char)d[i];
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += char(c);
    }
    return o + "\"";
}
inline std::string q(const std::string& s) { return q(s.data(), s.size()); }

inline std::string dec(u128 v) {
    if (v == 0) return "0";
    std::string s;
    while (v) { s.insert(s.begin(), char('0' + int(v % 10))); v /= 10; }
    return s;
}
inline std::string hex(u128 v) {
    if (v == 0) return "0";
    std::string s;
    while (v) { s.insert(s.begin(), "0123456789abcdef"[int(v & 15)]); v >>= 4; }
    return s;
}
inline std::string str(const std::string& s) { return q(s); }
inline std::string str(const char* s) { return s; }
inline std::string str(bool b) { return b ? "true" : "false"; }
inline std::string str(int v) { return std::to_string(v); }
inline std::string str(unsigned v) { return std::to_string(v); }
inline std::string str(long v) { return std::to_string(v); }
inline std::string str(unsigned long v) { return std::to_string(v); }
inline std::string str(long long v) { return std::to_string(v); }
inline std::string str(unsigned long long v) { return std::to_string(v); }
inline std::string str(u128 v) { return "0x" + hex(v); }
inline std::string str(__int128 v) { return v < 0 ? "-0x" + hex(u128(-v)) : "0x" + hex(u128(v)); }
inline std::string str(double v) { char b[64]; snprintf(b, sizeof b, "%a", v); return b; }
template <class T, bool E> struct Show { static std::string s(const T& t) { return str(t); } };          // ADL finds str() of ref types
template <class T> struct Show<T, true> { static std::string s(const T& t) { return "#" + std::to_string(int(t)); } };
inline std::string cat() { return ""; }
template <class T, class... A>
std::string cat(const T& t, const A&... a) { return Show<T, std::is_enum<T>::value>::s(t) + cat(a...); }

// ----- current-case record (read by the runner after a crash or hang)
inline void note(const std::string& s) {
    Cur* c = st().cur;
    size_t n = s.size() < sizeof(c->note) - 1 ? s.size() : sizeof(c->note) - 1;
    memcpy(c->note, s.data(), n);
    c->note[n] = 0;
    if (!st().dump.empty()) fprintf(stderr, "NOTE %s\n", s.c_str());
}

inline void bad(const std::string& key, const std::string& detail) {
    State& s = st();
    ++s.nviol;
    uint64_t& k = s.perkey[key];
    if (++k <= 4 && s.viols.size() < 60) {
        Viol v; v.key = key; v.phase = s.phase; v.detail = detail; v.idx = s.idx;
        s.viols.push_back(v);
    }
}

inline void hit(const char* name) { ++st().hits[name]; }
#define HIT(name) do { static uint64_t& h_slot_ = ::h::st().hits[name]; ++h_slot_; } while (0)

// CHECK(condition, key, details...)
#define CHECK(cond, key, ...) do { ++::h::st().checks; if (!(cond)) ::h::bad(key, ::h::cat(__VA_ARGS__)); } while (0)

inline uint64_t fnv(const char* d, size_t n, uint64_t seed = 1469598103934665603ULL) {
    uint64_t x = seed;
    for (size_t i = 0; i < n; ++i) { x ^= (unsigned char)d[i]; x *= 1099511628211ULL; }
    return x;
}
inline uint64_t hs(const std::string& s, uint64_t seed = 0) { return mix(fnv(s.data(), s.size()) ^ mix(seed)); }
inline uint64_t hv(u128 v, uint64_t seed = 0) { return mix(uint64_t(v) ^ mix(uint64_t(v >> 64) ^ mix(seed))); }

// count a distinct non-trivial case
inline void nt(uint64_t x) {
    State& s = st();
    if (s.table.empty()) s.table.resize(1u << 20);
    if (s.tcount > 500000) { ++s.tdropped; return; }
    if (x == 0) x = 1;
    size_t m = s.table.size() - 1;
    for (size_t i = size_t(x) & m;; i = (i + 1) & m) {
        if (s.table[i] == x) return;
        if (s.table[i] == 0) { s.table[i] = x; ++s.tcount; return; }
    }
}
inline void sample(const std::string& text) {
    State& s = st();
    int& n = s.samples_per_phase[s.phase];
    if (n < 3) { ++n; s.samples.push_back(s.phase + "#" + std::to_string(s.idx) + ": " + text); }
}

// ----- watchdog: CPU time without finishing a case
inline uint64_t& wd_last() { static uint64_t v = 0; return v; }
inline int& wd_ticks() { static int v = 0; return v; }
inline volatile uint64_t& wd_now() { static volatile uint64_t v = 0; return v; }
inline void wd_handler(int) {
    if (wd_now() == wd_last()) {
        if (++wd_ticks() >= 5) {
            static const char m[] = "H-WATCHDOG: no case finished in 20 s of CPU time\n";
            ssize_t r = write(2, m, sizeof m - 1); (void)r;
            _exit(77);
        }
    } else { wd_last() = wd_now(); wd_ticks() = 0; }
}

inline void init(int argc, char** argv) {
    State& s = st();
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        std::string v = i + 1 < argc ? argv[i + 1] : "";
        if (a == "--seed") { s.seed = strtoull(v.c_str(), 0, 10); ++i; }
        else if (a == "--salt") { s.salt = strtoull(v.c_str(), 0, 10); ++i; }
        else if (a == "--shard") { s.shard = strtoull(v.c_str(), 0, 10); ++i; }
        else if (a == "--nshards") { s.nshards = strtoull(v.c_str(), 0, 10); ++i; }
        else if (a == "--stride") { s.stride = strtoull(v.c_str(), 0, 10); ++i; }
        else if (a == "--scale") { s.scale = atof(v.c_str()); ++i; }
        else if (a == "--budget") { s.budget = atof(v.c_str()); ++i; }
        else if (a == "--thorough") { s.thorough = true; }
        else if (a == "--out") { s.out = v; ++i; }
        else if (a == "--cur") { s.curfile = v; ++i; }
        else if (a == "--phase") { s.only_phase = v; s.has_only = true; ++i; }
        else if (a == "--idx") { s.only_idx = strtoull(v.c_str(), 0, 10); ++i; }
        else if (a == "--dump") { s.dump = v; ++i; }
    }
    s.t0 = now_s();
    s.cur = &s.dummy;
    memset((void*)s.cur, 0, sizeof(Cur));
    if (!s.curfile.empty()) {
        int fd = open(s.curfile.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0 && ftruncate(fd, sizeof(Cur)) == 0) {
            void* p = mmap(0, sizeof(Cur), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (p != MAP_FAILED) s.cur = (Cur*)p;
        }
        if (fd >= 0) close(fd);
    }
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = wd_handler;
    sa.sa_flags = SA_RESTART;
    sigaction(SIGPROF, &sa, 0);
    struct itimerval it;
    it.it_interval.tv_sec = 4; it.it_interval.tv_usec = 0;
    it.it_value = it.it_interval;
    setitimer(ITIMER_PROF, &it, 0);
}

inline Rng case_rng(const char* name, uint64_t i) {
    return Rng(mix(st().seed) ^ mix(fnv(name, strlen(name)) + st().salt * 7919) ^ mix(i * 2 + 1));
}

template <class F>
void phase(const char* name, uint64_t count, F f, bool stride = true) {
    State& s = st();
    if (s.has_only && s.only_phase != name) return;
    s.phase = name;
    strncpy(s.cur->name, name, sizeof(s.cur->name) - 1);
    uint64_t& n = s.phases[name];
    const uint64_t step = stride ? s.nshards * s.stride : s.nshards;
    const uint64_t first = stride && s.stride > 1 ? (s.shard + s.nshards * (mix(s.seed + s.salt) % s.stride)) : s.shard;
    for (uint64_t j = s.has_only ? s.only_idx : first; j < count; j += step) {
        // with a stride, rotate within each window so that no residue class is favoured
        uint64_t i = j;
        if (stride && s.stride > 1 && !s.has_only) { uint64_t base = j - j % step; i = base + s.shard + s.nshards * (mix(base ^ s.seed ^ (s.salt << 32)) % s.stride); if (i >= count) i = j; }
        if ((n & 31) == 31 && over_budget()) break;
        s.idx = i;
        s.cur->idx = i;
        s.cur->note[0] = 0;
        Rng r = case_rng(name, i);
        ++s.evals; ++n;
#if H_EXC
        try { f(i, r); }
        catch (const std::exception& e) { bad("unexpected-exception", cat("uncaught exception: ", std::string(e.what()), " while: ", std::string(s.cur->note))); }
        catch (...) { bad("unexpected-exception", cat("uncaught exception while: ", std::string(s.cur->note))); }
#else
        f(i, r);
#endif
        wd_now() = wd_now() + 1;
        if (s.has_only) break;
    }
    s.cur->name[0] = 0;
}
// a phase whose case count follows --scale
template <class F>
void random_phase(const char* name, uint64_t count, F f) { phase(name, st().has_only ? ~0ULL : scaled(count), f, false); }

inline int finish() {
    State& s = st();
    FILE* o = s.out.empty() ? stdout : fopen(s.out.c_str(), "w");
    if (!o) return 3;
    fprintf(o, "{\"evals\":%llu,\"checks\":%llu,\"nviol\":%llu,\"distinct\":%llu,\"dropped\":%llu,\"truncated\":%s,\n\"phases\":{",
            (unsigned long long)s.evals, (unsigned long long)s.checks, (unsigned long long)s.nviol,
            (unsigned long long)s.tcount, (unsigned long long)s.tdropped, s.truncated ? "true" : "false");
    const char* sep = "";
    for (auto& p : s.phases) { fprintf(o, "%s%s:%llu", sep, q(p.first).c_str(), (unsigned long long)p.second); sep = ","; }
    fprintf(o, "},\n\"hits\":{");
    sep = "";
    for (auto& p : s.hits) { fprintf(o, "%s%s:%llu", sep, q(p.first).c_str(), (unsigned long long)p.second); sep = ","; }
    fprintf(o, "},\n\"violations\":[");
    sep = "";
    for (auto& v : s.viols) {
        fprintf(o, "%s{\"key\":%s,\"phase\":%s,\"idx\":%llu,\"detail\":%s}", sep, q(v.key).c_str(), q(v.phase).c_str(),
                (unsigned long long)v.idx, q(v.detail).c_str());
        sep = ",\n";
    }
    fprintf(o, "],\n\"samples\":[");
    sep = "";
    for (auto& v : s.samples) { fprintf(o, "%s%s", sep, q(v).c_str()); sep = ",\n"; }
    fprintf(o, "]}\n");
    if (o != stdout) fclose(o);
    if (!s.out.empty()) {
        FILE* t = fopen((s.out + ".h").c_str(), "wb");
        if (t) {
            for (uint64_t v : s.table) if (v) fwrite(&v, 8, 1, t);
            fclose(t);
        }
    }
    return s.nviol ? 1 : 0;
}

} // namespace h

void workload();
#if !defined(H_NO_MAIN) && !defined(H_FUZZ)
int main(int argc, char** argv) {
    h::init(argc, argv);
    workload();
    return h::finish();
}
#endif
#endif
