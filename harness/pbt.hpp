// Small property-based testing engine.
//
// A law is a function of a Source of choices (bounded integers).  Every value a
// case uses is decoded from those choices, so a case is replayed, shrunk and
// fuzzed by editing one vector of integers.  In the PBT tiers the choices come
// from a splitmix64 stream seeded by (VERIF_SEED, law, index); in the fuzzing
// tier (-DPBT_FUZZ, clang libFuzzer) they are decoded from the input bytes.
//
// Cases run in forked workers; a crash, a failed assertion, a sanitizer report
// or a case that burns CASE_CPU_S seconds of CPU is a failure of that case,
// like a failed oracle.  A failure is confirmed by three replays, each in a
// fresh process, then shrunk, written to a replay file and reported.
#pragma once
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace pbt {

using u64 = std::uint64_t;

inline u64 mix(u64 z) {
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
inline u64 hash_str(const std::string& s) {
    u64 h = 1469598103934665603ULL;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
    return h;
}

// ---------------------------------------------------------------- randomness
// The library seeds its generators from std::random_device and from the system
// clock.  The harness owns both: they are functions of `env_state`, which is
// itself a choice of the case.
#ifdef PBT_TSAN
#define PBT_TLS thread_local   // each thread has its own entropy, so that results do not depend on the schedule
#else
#define PBT_TLS
#endif
extern PBT_TLS u64 env_state;
extern PBT_TLS u64 env_draws;

// deliberately not a std::exception: no catch clause for errors of the code under test may swallow it
struct Failure { std::string m; explicit Failure(std::string s) : m(std::move(s)) {} const char* what() const { return m.c_str(); } };
struct Discard {};

// -------------------------------------------------------------------- source
class Source {
public:
    enum Mode { GEN, REPLAY, BYTES };
    Mode mode;
    u64 state = 0;
    std::vector<u64> rec;      // what was drawn, after reduction
    std::vector<u64> in;       // REPLAY
    const uint8_t* p = nullptr; const uint8_t* e = nullptr;
    size_t pos = 0;

    static Source gen(u64 seed) { Source s; s.mode = GEN; s.state = seed; return s; }
    static Source replay(std::vector<u64> v) { Source s; s.mode = REPLAY; s.in = std::move(v); return s; }
    static Source bytes(const uint8_t* b, size_t n) { Source s; s.mode = BYTES; s.p = b; s.e = b + n; return s; }

    u64 draw(u64 n) {           // uniform in [0, n)
        if (n <= 1) return 0;
        u64 v = 0;
        if (mode == GEN) { state += 0x9e3779b97f4a7c15ULL; v = mix(state) % n; }
        else if (mode == REPLAY) { v = pos < in.size() ? in[pos] : 0; if (v >= n) v %= n; ++pos; }
        else {
            int k = n <= 256 ? 1 : n <= 65536 ? 2 : n <= (1ULL << 32) ? 4 : 8;
            for (int i = 0; i < k; ++i) v = (v << 8) | (p < e ? *p++ : 0);
            v %= n;
        }
        rec.push_back(v);
        return v;
    }
    // --- derived generators (0 choices give the simplest value)
    long i(long lo, long hi) { return lo + (long)draw((u64)(hi - lo) + 1); }
    std::size_t sz(std::size_t lo, std::size_t hi) { return lo + (std::size_t)draw((u64)(hi - lo) + 1); }
    bool b() { return draw(2) == 1; }
    // a size: usually small, rarely far beyond, where block and buffer sizes are crossed
    std::size_t dim(std::size_t lo, std::size_t hi, std::size_t far, int permille = 12) { if ((int)draw(1000) >= 1000 - permille) return sz(hi, far); return sz(lo, hi); }
    bool chance(int pct) { return (int)draw(100) >= 100 - pct; }   // shrinks to false
    template <class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }
    double unit() { return (double)draw(1u << 24) / (double)(1u << 24); }        // [0,1)
    double sym() {                                                               // [-1,1]
        u64 v = draw((1u << 22) + 1); bool neg = v & 1; double m = (double)((v + 1) >> 1) / (double)(1u << 21);
        return neg ? -m : m;
    }
    long small(long m) {        // -m..m ordered 0,1,-1,2,-2..
        u64 v = draw(2 * (u64)m + 1); long h = (long)((v + 1) / 2); return (v & 1) ? h : -h;
    }
    double gauss() {            // bounded, roughly normal, three choices
        return (sym() + sym() + sym());
    }
};

extern char* desc_sink;             // shared page, so that a dying case still has a description
struct Ctx {
    bool want = false;                 // description wanted
    bool nontrivial_ = false;
    std::string desc;
    std::vector<std::string> labels;
    void nt(bool c = true) { nontrivial_ = nontrivial_ || c; }
    void label(const std::string& l) { labels.push_back(l); }
    template <class T> static void put(std::ostream& o, const std::vector<T>& v) {
        o << "["; for (size_t k = 0; k < v.size(); ++k) { if (k) o << ","; put(o, v[k]); } o << "]";
    }
    template <class T> static void put(std::ostream& o, const T& v) { o << v; }
    template <class T> void log(const char* name, const T& v) {
        if (!want) return;
        std::ostringstream o; o.precision(17); put(o, v);
        std::string s = o.str();
        for (char& c : s) if (c == '\n') c = ';';
        if (desc.size() < 6000) { desc += name; desc += "="; desc += s; desc += " "; }
        if (desc_sink) snprintf(desc_sink, 4096, "%s", desc.c_str());
    }
};

using LawFn = void (*)(Source&, Ctx&);
struct Law { std::string name; LawFn fn; long quick; };
inline std::vector<Law>& laws() { static std::vector<Law> v; return v; }
struct Reg { Reg(const char* n, LawFn f, long q) { laws().push_back({n, f, q}); } };

#define LAW(NAME, QUICK) \
    static void law_##NAME(pbt::Source& s, pbt::Ctx& c); \
    static pbt::Reg reg_##NAME(#NAME, law_##NAME, QUICK); \
    static void law_##NAME(pbt::Source& s, pbt::Ctx& c)

[[noreturn]] inline void fail(const std::string& m) { throw Failure(m); }
[[noreturn]] inline void discard() { throw Discard(); }
template <class... A> std::string cat(const A&... a) {
    std::ostringstream o; o.precision(12); (void)std::initializer_list<int>{((o << a), 0)...}; return o.str();
}
#define REQ(COND, ...) do { if (!(COND)) pbt::fail(pbt::cat(__VA_ARGS__)); } while (0)

void run_main_reset(u64 seed);

// ------------------------------------------------------------- shared memory
static const int MAXW = 16, MAXLAW = 64, MAXFAIL = 64, MAXLAB = 96, MAXSAMP = 3;
static const size_t MAXCH = 60000;
struct LabelCell { char s[56]; long n; };
struct FailCell { int law; long idx; u64 seed; char msg[1500]; };
struct Shm {
    volatile int law_failed[MAXLAW];
    struct W {
        volatile int law; volatile long idx; volatile bool in_case;
        volatile int next_law; volatile long next_idx;
        long evals[MAXLAW], discards[MAXLAW], nontriv[MAXLAW];
        int nlab[MAXLAW]; LabelCell lab[MAXLAW][MAXLAB];
        int nsamp[MAXLAW]; char samp[MAXLAW][MAXSAMP][700];
        int nfail; FailCell fails[MAXFAIL];
        volatile bool done;
        long nhash;
    } w[MAXW];
};

struct Outcome { bool failed; std::string msg; };

} // namespace pbt
