// Driver of the engine: include last, once, in each harness.
#pragma once
#include "pbt.hpp"

namespace pbt {
PBT_TLS u64 env_state = 1;
PBT_TLS u64 env_draws = 0;
char* desc_sink = nullptr;
inline u64 env_next() { ++env_draws; env_state += 0x9e3779b97f4a7c15ULL; return mix(env_state); }
} // namespace pbt

// Interposed entropy sources (see pbt.hpp).
unsigned int std::random_device::_M_getval() { return (unsigned int)pbt::env_next(); }
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
    return time_point(duration((rep)(pbt::env_next() >> 2)));
}
}}}

#if defined(PBT_TSAN)
extern "C" const char* __tsan_default_options() { return "halt_on_error=1:exitcode=66:symbolize=0:die_after_fork=0:report_signal_unsafe=0"; }
#endif
#if defined(__SANITIZE_ADDRESS__) || defined(PBT_FUZZ)
extern "C" const char* __asan_default_options() {
    // fresh heap memory is filled with 0xff, so that a value read before it is
    // written is a NaN (double) or a huge index (integer) in every run
    return "detect_leaks=0:abort_on_error=0:exitcode=99:max_malloc_fill_size=268435456:malloc_fill_byte=255:"
           "allocator_may_return_null=0:max_allocation_size_mb=4096:handle_abort=1:detect_stack_use_after_return=1:"
           "allow_user_segv_handler=1:symbolize=0:detect_odr_violation=0:strict_init_order=0";
}
extern "C" const char* __ubsan_default_options() { return "halt_on_error=1:print_stacktrace=0:exitcode=99:symbolize=0"; }
#endif

namespace pbt {

static const int CASE_CPU_S = 10;              // a case takes milliseconds
static const long CASE_RSS_MB = 3000;
static Shm* shm;
static volatile int ticks;
static const Source* cur_source;
static volatile u64* hang_used;                // shared: how many choices a hanging case had drawn

// A case may not use more CPU time or memory than any sane one needs. CPU time, not wall time: a
// loaded machine must not fail a case.
inline void on_cpu(int) {
    long rss = 0; char b[64]; int fd = open("/proc/self/statm", O_RDONLY);
    if (fd >= 0) { long n = read(fd, b, sizeof b - 1); close(fd); if (n > 0) { b[n] = 0; char* q = b; while (*q && *q != ' ') ++q; for (++q; *q >= '0' && *q <= '9'; ++q) rss = rss * 10 + (*q - '0'); } }
    rss /= 256;
    ticks = ticks + 1;
    if (ticks < CASE_CPU_S * 4 && rss < CASE_RSS_MB) return;
    static const char m[] = "\nPBT: case exceeded its CPU budget (does not terminate)\n", r[] = "\nPBT: case exceeded its memory budget (does not terminate)\n";
    if (rss < CASE_RSS_MB) (void)!write(2, m, sizeof m - 1); else (void)!write(2, r, sizeof r - 1);
    if (hang_used && cur_source) *hang_used = cur_source->rec.size();
    _exit(97);
}
inline void arm(bool on) {
    struct itimerval t; memset(&t, 0, sizeof t); ticks = 0;
    if (on) { t.it_value.tv_usec = 250000; t.it_interval.tv_usec = 250000; }
    setitimer(ITIMER_PROF, &t, nullptr);
}

inline u64 case_seed(u64 seed, const std::string& law, long idx) {
    return mix(mix(seed * 0x9e3779b97f4a7c15ULL + hash_str(law)) + (u64)idx * 0xd1342543de82ef95ULL);
}

// run one case in this process
inline Outcome run_case(const Law& l, Source& s, Ctx& c) {
    env_state = 0; env_draws = 0; cur_source = &s;
    env_state = mix(s.draw(1u << 16));
    std::srand((unsigned)s.draw(1u << 16));
    try {
        l.fn(s, c);
    } catch (const Failure& f) { return {true, f.what()}; }
    catch (const Discard&) { throw; }
    catch (const std::exception& e) { return {true, std::string("unexpected exception: ") + e.what()}; }
    return {false, ""};
}

inline u64 hash_choices(const std::vector<u64>& v, u64 h) { for (u64 x : v) h = mix(h ^ x) + x; return h; }

inline void dev_null(int fd) { int n = open("/dev/null", O_WRONLY); dup2(n, fd); close(n); }

inline void worker(int wi, int nw, u64 seed, long mult, double deadline_wall, const std::string& dir, int start_law, long start_idx, int only_law) {
    Shm::W& w = shm->w[wi];
    signal(SIGPROF, on_cpu);
    dev_null(1);
    std::string err = dir + "/w" + std::to_string(wi) + ".err";
    int fd = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(fd, 2); close(fd);
    std::string hf = dir + "/w" + std::to_string(wi) + ".hash";
    FILE* H = fopen(hf.c_str(), "ab");
    int nl = (int)laws().size();
    for (int li = start_law; li < nl; ++li) {
        const Law& l = laws()[li];
        long total = only_law == -2 ? 0 : l.quick * mult;
        for (long idx = (li == start_law ? start_idx : wi); idx < total; idx += nw) {
            if (shm->law_failed[li]) break;
            struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
            if (ts.tv_sec + ts.tv_nsec * 1e-9 > deadline_wall) { w.done = true; fclose(H); _exit(0); }
            w.law = li; w.idx = idx; w.next_law = li; w.next_idx = idx + nw; w.in_case = true;
            u64 cs = case_seed(seed, l.name, idx);
            Source s = Source::gen(cs);
            Ctx c; c.want = (idx / nw) < 40 && w.nsamp[li] < MAXSAMP;
            arm(true);
            try {
                Outcome o = run_case(l, s, c);
                w.evals[li]++;
                if (o.failed) {
                    shm->law_failed[li] = 1;
                    if (w.nfail < MAXFAIL) {
                        FailCell& f = w.fails[w.nfail]; f.law = li; f.idx = idx; f.seed = cs;
                        snprintf(f.msg, sizeof f.msg, "%s", o.msg.c_str()); w.nfail++;
                    }
                    w.in_case = false;
                    break;
                }
                if (c.nontrivial_) {
                    w.nontriv[li]++;
                    u64 h = hash_choices(s.rec, (u64)li + 1);
                    fwrite(&h, 8, 1, H);
                    if (c.want && w.nsamp[li] < MAXSAMP && !c.desc.empty()) {
                        snprintf(w.samp[li][w.nsamp[li]], 700, "%s", c.desc.c_str()); w.nsamp[li]++;
                    }
                }
                for (auto& lb : c.labels) {
                    int k = 0; for (; k < w.nlab[li]; ++k) if (lb == w.lab[li][k].s) break;
                    if (k == w.nlab[li]) { if (k == MAXLAB) continue; snprintf(w.lab[li][k].s, 56, "%s", lb.c_str()); w.lab[li][k].n = 0; w.nlab[li]++; }
                    w.lab[li][k].n++;
                }
            } catch (const Discard&) { w.evals[li]++; w.discards[li]++; }
            w.in_case = false;
        }
    }
    arm(false);
    fclose(H);
    w.done = true;
    _exit(0);
}

inline std::string tail(const std::string& f, size_t n) {
    std::ifstream i(f); std::stringstream b; b << i.rdbuf(); std::string s = b.str();
    // keep the most telling lines
    std::string out; std::istringstream is(s);
    for (std::string l; std::getline(is, l);) {
        if (l.find("Assertion") != std::string::npos || l.find("ERROR: AddressSanitizer") != std::string::npos ||
            l.find("runtime error") != std::string::npos || l.find("PBT:") != std::string::npos || l.find("terminate called") != std::string::npos ||
            l.find("what()") != std::string::npos) { out += l + " | "; }
        if (out.size() > n) break;
    }
    return out.substr(0, n);
}

// run in a fresh process: 0 pass, 1 fail, with message
inline Outcome isolated(const Law& l, const std::vector<u64>& ch, const std::string& dir, std::string* desc = nullptr, std::vector<u64>* used = nullptr, bool* hang = nullptr) {
    std::string err = dir + "/iso.err", msgf = dir + "/iso.msg";
    unlink(msgf.c_str());
    if (!hang_used) hang_used = (volatile u64*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    *hang_used = 0;
    if (!desc_sink) desc_sink = (char*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    desc_sink[0] = 0;
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
        signal(SIGPROF, on_cpu);
        dev_null(1);
        int fd = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(fd, 2); close(fd);
        arm(true);
        Source s = Source::replay(ch); Ctx c; c.want = true;
        int rc = 0; std::string m;
        // write what is known before the case can crash
        try { Outcome o = run_case(l, s, c); if (o.failed) { rc = 1; m = o.msg; } } catch (const Discard&) { rc = 2; }
        FILE* f = fopen(msgf.c_str(), "wb");
        fprintf(f, "%zu\n", s.rec.size()); for (u64 x : s.rec) fprintf(f, "%llu ", (unsigned long long)x);
        fprintf(f, "\n%zu\n%s\n%s\n", m.size(), m.c_str(), c.desc.c_str());
        fclose(f);
        _exit(rc);
    }
    int st; waitpid(p, &st, 0);
    Outcome o{false, ""};
    bool clean = WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 1 || WEXITSTATUS(st) == 2);
    std::ifstream i(msgf, std::ios::binary);
    if (clean && i) {
        size_t n; i >> n; std::vector<u64> u(n); for (auto& x : u) i >> x; size_t ml; i >> ml; i.get(); std::string m(ml, 0); i.read(&m[0], (long)ml); i.get();
        std::string d; std::getline(i, d, '\0');
        while (!d.empty() && d.back() == '\n') d.pop_back();
        if (desc) *desc = d; if (used) *used = u;
        o.failed = WEXITSTATUS(st) == 1; o.msg = m;
    } else {
        o.failed = true;
        if (hang) *hang = WIFEXITED(st) && WEXITSTATUS(st) == 97;
        if (used && *hang_used) used->assign(ch.begin(), ch.begin() + (long)std::min((size_t)*hang_used, ch.size()));
        if (desc) *desc = desc_sink;
        o.msg = cat("process died (", WIFSIGNALED(st) ? cat("signal ", WTERMSIG(st)) : cat("exit ", WEXITSTATUS(st)), "): ", tail(err, 900));
    }
    return o;
}

inline double now() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

inline std::vector<u64> shrink(const Law& l, std::vector<u64> best, const std::string& dir, double budget) {
    double t0 = now(); long tries = 0;
    auto ok = [&]() { return now() - t0 < budget && tries < 3000; };
    auto attempt = [&](std::vector<u64> c) {
        ++tries; std::vector<u64> used;
        Outcome o = isolated(l, c, dir, nullptr, &used);
        if (!o.failed) return false;
        if (!used.empty() && used.size() < c.size()) c = used;
        best = std::move(c); return true;
    };
    bool improved = true;
    while (improved && ok()) {
        improved = false;
        for (size_t k = best.size() / 2; k >= 1 && ok(); k /= 2) {          // delete blocks
            for (size_t i = 0; i + k <= best.size() && ok();) {
                std::vector<u64> c = best; c.erase(c.begin() + (long)i, c.begin() + (long)(i + k));
                if (attempt(c)) improved = true; else i += k;
            }
            if (k == 1) break;
        }
        for (size_t k = std::max<size_t>(best.size() / 2, 1); k >= 1 && ok(); k /= 2) {   // zero blocks
            for (size_t i = 0; i < best.size() && ok(); i += k) {
                std::vector<u64> c = best; bool any = false;
                for (size_t j = i; j < std::min(i + k, c.size()); ++j) if (c[j]) { c[j] = 0; any = true; }
                if (any && attempt(c)) improved = true;
            }
            if (k == 1) break;
        }
        for (size_t i = 0; i < best.size() && ok(); ++i) {                  // lower values
            u64 lo = 0;
            while (i < best.size() && best[i] > lo && ok()) {
                u64 mid = lo + (best[i] - lo) / 2;
                std::vector<u64> c = best; c[i] = mid;
                if (attempt(c)) improved = true; else lo = mid + 1;
            }
        }
    }
    return best;
}

inline std::string jesc(const std::string& s) {
    std::string o; char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o;
}

inline bool load_replay(const std::string& f, std::string& law, std::vector<u64>& ch) {
    std::ifstream i(f); if (!i) return false;
    std::string k;
    while (i >> k) {
        if (k == "law") i >> law;
        else if (k == "choices") { size_t n; i >> n; ch.resize(n); for (auto& x : ch) i >> x; }
        else { std::getline(i, k); }
    }
    return !law.empty();
}
inline void save_replay(const std::string& f, const std::string& law, const std::vector<u64>& ch, const std::string& msg, const std::string& desc) {
    std::ofstream o(f);
    o << "law " << law << "\nchoices " << ch.size(); for (u64 x : ch) o << " " << x;
    std::string m = msg, d = desc; for (char& c : m) if (c == '\n') c = ' '; for (char& c : d) if (c == '\n') c = ' ';
    o << "\n# " << m << "\n# " << d << "\n";
}
inline const Law* find_law(const std::string& n) { for (auto& l : laws()) if (l.name == n) return &l; return nullptr; }

inline int pbt_main(int argc, char** argv) {
    std::map<std::string, std::string> a;
    for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    auto get = [&](const char* k, const char* d) { return a.count(k) ? a[k] : std::string(d); };
    u64 seed = strtoull(get("--seed", "1").c_str(), 0, 10);
    long mult = atol(get("--mult", "1").c_str());
    int nw = std::min(MAXW, std::max(1, atoi(get("--jobs", "8").c_str())));
    double wall = atof(get("--wall", "420").c_str());
    double shrink_s = atof(get("--shrink", "45").c_str());
    std::string dir = get("--dir", "/tmp"), rdir = get("--replays", "/tmp"), out = get("--out", ""), prop = get("--property", "X");
    std::string only = get("--law", "");
    if (!only.empty()) {
        std::vector<Law> k; for (auto& l : laws()) if (l.name == only) k.push_back(l); laws() = k;
    }
    if (a.count("--replay")) {
        std::string ln; std::vector<u64> ch;
        if (!load_replay(a["--replay"], ln, ch)) { fprintf(stderr, "cannot read replay\n"); return 2; }
        const Law* l = find_law(ln); if (!l) { fprintf(stderr, "unknown law %s\n", ln.c_str()); return 2; }
        std::string d; Outcome o = isolated(*l, ch, dir, &d);
        printf("law %s: %s\n%s\n%s\n", ln.c_str(), o.failed ? "FAILS" : "passes", o.msg.c_str(), d.c_str());
        return o.failed ? 1 : 0;
    }
    if (a.count("--bytes")) {      // convert a libFuzzer input to a replay file and judge it
        std::ifstream i(a["--bytes"], std::ios::binary); std::string s((std::istreambuf_iterator<char>(i)), {});
        if (s.empty()) return 0;
        const Law& l = laws()[(uint8_t)s[0] % laws().size()];
        // decode in a child so that a crash still leaves the choices made so far
        std::vector<u64> ch;
        u64* sh = (u64*)mmap(nullptr, 8 * (MAXCH + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        // the byte decoding does not depend on the library: replay the bytes as choices through a copying source
        pid_t p = fork();
        if (p == 0) {
            signal(SIGPROF, on_cpu); arm(true); dev_null(1); dev_null(2);
            Source src = Source::bytes((const uint8_t*)s.data() + 1, s.size() - 1);
            src.rec.reserve(MAXCH);
            static Source* g = &src; static u64* gs = sh;
            struct H { static void dump() { gs[0] = std::min(g->rec.size(), MAXCH); for (size_t k = 0; k < gs[0]; ++k) gs[k + 1] = g->rec[k]; } };
            // dump also when dying
            for (int sg : {SIGABRT, SIGSEGV, SIGFPE, SIGILL, SIGBUS}) signal(sg, [](int) { H::dump(); _exit(98); });
            atexit(H::dump);
            Ctx c; try { run_case(l, src, c); } catch (const Discard&) {}
            H::dump(); _exit(0);
        }
        int st; waitpid(p, &st, 0);
        ch.assign(sh + 1, sh + 1 + sh[0]);
        if (ch.empty()) return 0;
        int k = 0; std::string d; Outcome o;
        bool hang = false;
        for (int r = 0; r < 3 && !hang; ++r) { o = isolated(l, ch, dir, &d, nullptr, &hang); k += hang ? 3 : o.failed; }
        if (k < 3) return 0;
        if (!hang) { ch = shrink(l, ch, dir, shrink_s); o = isolated(l, ch, dir, &d); }
        std::string f = rdir + "/" + l.name + "-fuzz.replay"; save_replay(f, l.name, ch, o.msg, d);
        printf("VIOLATION property=%s replay=%s\n  law %s: %s\n", prop.c_str(), f.c_str(), l.name.c_str(), o.msg.c_str());
        return 1;
    }

    double t0 = now();
    shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (int i = 0; i < nw; ++i) unlink((dir + "/w" + std::to_string(i) + ".hash").c_str());
    std::map<pid_t, int> pids;
    auto spawn = [&](int wi, int sl, long si) {
        fflush(stdout); fflush(stderr);
        pid_t p = fork();
        if (p == 0) worker(wi, nw, seed, mult, t0 + wall, dir, sl, si, -1);
        pids[p] = wi;
    };
    for (int i = 0; i < nw; ++i) spawn(i, 0, i);
    while (!pids.empty()) {
        int st; pid_t p = wait(&st); if (p < 0) break;
        int wi = pids[p]; pids.erase(p);
        Shm::W& w = shm->w[wi];
        if (w.done) continue;
        if (w.in_case && w.nfail < MAXFAIL) {
            FailCell& f = w.fails[w.nfail]; f.law = w.law; f.idx = w.idx; f.seed = case_seed(seed, laws()[w.law].name, w.idx);
            std::string m = cat("process died (", WIFSIGNALED(st) ? cat("signal ", WTERMSIG(st)) : cat("exit ", WEXITSTATUS(st)), "): ",
                tail(dir + "/w" + std::to_string(wi) + ".err", 900));
            snprintf(f.msg, sizeof f.msg, "%s", m.c_str()); w.nfail++; w.evals[w.law]++;
            shm->law_failed[w.law] = 1; w.in_case = false;
        }
        spawn(wi, w.next_law, w.next_idx);
    }
    // ---- judge failures: one per law
    const double late = now() + 240;       // the first violation decides; the others are a courtesy
    int violations = 0, unconfirmed = 0; std::set<int> seen; std::string vio_json;
    for (int wi = 0; wi < nw; ++wi) for (int k = 0; k < shm->w[wi].nfail; ++k) {
        FailCell& f = shm->w[wi].fails[k];
        if (seen.count(f.law) || (violations && now() > late)) continue;
        const Law& l = laws()[f.law];
        // recover the choices: they are a function of the seed; take them from a generating run in a child
        u64* sh = (u64*)mmap(nullptr, 8 * (MAXCH + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        // A generating source is a fixed stream of 64-bit words; a replaying source reduces each word modulo
        // the bound of its draw, which is what the generating source does.
        std::vector<u64> raw; { u64 stt = f.seed; for (size_t i = 0; i < MAXCH; ++i) { stt += 0x9e3779b97f4a7c15ULL; raw.push_back(mix(stt)); } }
        munmap(sh, 8 * (MAXCH + 1));
        int fails = 0; std::string d; std::vector<u64> used; Outcome o{false, ""}, last;
        bool hang = false;
        for (int r = 0; r < 3; ++r) { last = isolated(l, raw, dir, &d, &used, &hang); if (last.failed) { ++fails; o = last; } if (hang) { fails = 3; break; } }
        if (fails < 3) { ++unconfirmed; fprintf(stderr, "unconfirmed failure of law %s idx %ld (%d/3): %s\n", l.name.c_str(), f.idx, fails, f.msg); continue; }
        seen.insert(f.law);
        std::vector<u64> ch = used.empty() ? raw : used;
        if (used.empty()) {         // the case dies: find the shortest prefix that still fails
            size_t lo = 0, hi = ch.size();
            while (lo + 1 < hi) { size_t m = (lo + hi) / 2; std::vector<u64> c(raw.begin(), raw.begin() + (long)m); if (isolated(l, c, dir).failed) hi = m; else lo = m; }
            ch.assign(raw.begin(), raw.begin() + (long)hi);
            if (!isolated(l, ch, dir).failed) ch = raw;
        }
        // a case that never ends costs its whole budget at every attempt: keep it as it was found
        if (violations < 4 && !hang && now() < late) { ch = shrink(l, ch, dir, shrink_s); d.clear(); o = isolated(l, ch, dir, &d); }
        std::string rf = rdir + "/" + l.name + ".replay";
        save_replay(rf, l.name, ch, o.msg, d);
        printf("VIOLATION property=%s replay=%s\n  law %s: %s\n  case: %s\n", prop.c_str(), rf.c_str(), l.name.c_str(), o.msg.c_str(), d.substr(0, 1500).c_str());
        fflush(stdout);
        if (!vio_json.empty()) vio_json += ",";
        vio_json += "{\"law\":\"" + l.name + "\",\"replay\":\"" + jesc(rf) + "\",\"message\":\"" + jesc(o.msg) + "\"}";
        ++violations;
    }
    // ---- statistics
    std::unordered_set<u64> dist;
    for (int i = 0; i < nw; ++i) {
        std::ifstream h(dir + "/w" + std::to_string(i) + ".hash", std::ios::binary);
        u64 x; while (h.read((char*)&x, 8)) dist.insert(x);
        h.close(); unlink((dir + "/w" + std::to_string(i) + ".hash").c_str());
    }
    long ev = 0, dc = 0; std::string lj, sj;
    for (size_t li = 0; li < laws().size(); ++li) {
        long e = 0, n = 0, q = 0; std::map<std::string, long> lab;
        int sc = 0;
        for (int i = 0; i < nw; ++i) {
            auto& w = shm->w[i]; e += w.evals[li]; n += w.nontriv[li]; q += w.discards[li];
            for (int k = 0; k < w.nlab[li]; ++k) lab[w.lab[li][k].s] += w.lab[li][k].n;
            for (int k = 0; k < w.nsamp[li] && sc < 2; ++k, ++sc) {
                if (!sj.empty()) sj += ",";
                sj += "{\"law\":\"" + laws()[li].name + "\",\"case\":\"" + jesc(std::string(w.samp[li][k]).substr(0, 600)) + "\"}";
            }
        }
        ev += e; dc += q;
        if (!lj.empty()) lj += ",";
        lj += "\"" + laws()[li].name + "\":{\"planned\":" + std::to_string(laws()[li].quick * mult) + ",\"evaluations\":" + std::to_string(e) + ",\"nontrivial\":" + std::to_string(n) + ",\"discarded\":" + std::to_string(q) + ",\"labels\":{";
        bool first = true; for (auto& kv : lab) { if (!first) lj += ","; first = false; lj += "\"" + jesc(kv.first) + "\":" + std::to_string(kv.second); }
        lj += "}}";
    }
    if (!out.empty()) {
        std::ofstream o(out);
        o << "{\"evaluations\":" << ev << ",\"discarded\":" << dc << ",\"distinct_nontrivial\":" << dist.size() << ",\"violations\":" << violations
          << ",\"unconfirmed\":" << unconfirmed << ",\"run_s\":" << (now() - t0) << ",\"laws\":{" << lj << "},\"samples\":[" << sj << "],\"failures\":[" << vio_json << "]}\n";
    }
    fprintf(stderr, "%s: %ld cases, %zu distinct non-trivial, %d violation(s), %d unconfirmed, %.1fs\n", prop.c_str(), ev, dist.size(), violations, unconfirmed, now() - t0);
    return violations ? 1 : 0;
}
} // namespace pbt

#ifdef PBT_FUZZ
extern "C" int LLVMFuzzerInitialize(int*, char***) { if (!getenv("PBT_VERBOSE")) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); } return 0; }
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
    if (size < 3) return -1;
    auto& ls = pbt::laws();
    const pbt::Law& l = ls[data[0] % ls.size()];
    pbt::Source s = pbt::Source::bytes(data + 1, size - 1); pbt::Ctx c;
    try {
        pbt::Outcome o = pbt::run_case(l, s, c);
        if (o.failed) { fprintf(stderr, "PBT failure in law %s: %s\n", l.name.c_str(), o.msg.c_str()); __builtin_trap(); }
    } catch (const pbt::Discard&) { return -1; }
    return 0;
}
#else
int main(int argc, char** argv) { return pbt::pbt_main(argc, argv); }
#endif
