// Core of the monitoring harness: choice sources, sharded execution with crash/hang containment,
// violation reporting, event counters and sampled event logs.
#pragma once
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <algorithm>
#include <csignal>
#include <ctime>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>

typedef uint64_t u64;
typedef unsigned __int128 u128;

namespace vf {

inline u64 mix64(u64 z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

// ---------------------------------------------------------------- source of choices
class Src {
    bool bytes_;
    u64 s_;
    const uint8_t* p_; size_t n_;
public:
    explicit Src(u64 seed) : bytes_(false), s_(mix64(seed)), p_(nullptr), n_(0) {}
    Src(const uint8_t* p, size_t n) : bytes_(true), s_(0), p_(p), n_(n) {}
    bool fuzz() const { return bytes_; }
    u64 next() {            // 64 random bits
        if (!bytes_) { s_ += 0x9e3779b97f4a7c15ull; return mix64(s_); }
        u64 r = 0;
        for (int i = 0; i < 8; ++i) { r = (r << 8) | (n_ ? *p_ : 0); if (n_) { ++p_; --n_; } }
        return r;
    }
    u64 range(u64 lo, u64 hi) { // inclusive
        if (lo >= hi) return lo;
        const u64 span = hi - lo;
        if (!bytes_) return span == ~0ull ? next() : lo + (u64)(((u128)next() * ((u128)span + 1)) >> 64);
        u64 v = 0;
        for (u64 s = span; s; s >>= 8) { v = (v << 8) | (n_ ? *p_ : 0); if (n_) { ++p_; --n_; } }
        return span == ~0ull ? v : lo + v % (span + 1);
    }
    bool chance(unsigned pct) { return range(0, 99) < pct; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[(size_t)range(0, v.size() - 1)]; }
};

// ---------------------------------------------------------------- options
struct Options {
    u64 seed = 1;
    bool thorough = false;
    double scale = 1.0;
    int shards = 8;
    std::string out;            // json report
    std::string only;           // workload name filter
    std::string replay;         // workload:index
    std::string tmp = "/tmp";
    double hang_cpu = 30;       // cpu seconds one case may take
    int max_viol = 8;           // per shard
    std::vector<u64> lits;      // integer literals seen in the code under test: workload seeds only
};
inline Options& opt() { static Options o; return o; }

// ---------------------------------------------------------------- shared state of one shard
struct ShardShm {
    volatile u64 workload, index, started;   // case being executed
    volatile u64 evals;
    volatile int done;
    volatile int nviol;
    char desc[8192];
};
inline ShardShm*& shm() { static ShardShm* p = nullptr; return p; }
inline bool& verbose() { static bool v = false; return v; }
inline bool& fuzzing() { static bool v = false; return v; }

struct Violation { std::string key, desc, wl; u64 index; };

class Ctx {
public:
    u64 evals = 0;
    std::map<std::string, u64> counters;
    std::vector<u64> hashes;
    std::vector<std::string> samples;    // human-readable cases
    std::vector<std::string> events;     // lines re-checked offline by the runner
    std::vector<Violation> viols;
    std::string wl; u64 index = 0;
    size_t max_events = 400, max_samples = 3;
    FILE* sink = nullptr;                // violations are written through at once

    void eval() { ++evals; if (shm()) shm()->evals = evals; }
    void count(const char* k, u64 n = 1) { counters[k] += n; }
    void count(const std::string& k, u64 n = 1) { counters[k] += n; }
    // the largest value seen; such counters merge by maximum (their names start with "worst")
    void peak(const std::string& k, u64 n) { u64& c = counters[k]; if (n > c) c = n; }
    // a distinct, non-trivial case
    void nontrivial(u64 h) { if (hashes.size() < 3000000) hashes.push_back(h); }
    void sample(const std::string& s) { if (samples.size() < max_samples) samples.push_back(s.substr(0, 600)); }
    void event(const std::string& s) { if (events.size() < max_events) events.push_back(s); }
    void describe(const std::string& s) {
        if (shm()) { strncpy(shm()->desc, s.c_str(), sizeof(shm()->desc) - 1); }
    }
    void violation(const std::string& key, const std::string& desc);
};

inline std::string jesc(const std::string& s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r;
}

inline void Ctx::violation(const std::string& key, const std::string& desc) {
    if (fuzzing()) {
        fprintf(stderr, "VFVIOL key=%s desc=%s\n", key.c_str(), desc.c_str());
        fflush(stderr);
        abort();
    }
    if (verbose()) fprintf(stderr, "violation key=%s\n  %s\n", key.c_str(), desc.c_str());
    if ((int)viols.size() >= opt().max_viol) return;
    viols.push_back({key, desc.substr(0, 4000), wl, index});
    if (shm()) shm()->nviol = (int)viols.size();
    if (sink) {
        fprintf(sink, "V\t%s\t%llu\t%s\t%s\n", wl.c_str(), (unsigned long long)index, jesc(key).c_str(),
                jesc(desc.substr(0, 4000)).c_str());
        fflush(sink);
    }
}

// ---------------------------------------------------------------- workloads
struct Workload {
    std::string name;
    u64 quick, thorough;                      // number of cases per tier (before scale)
    bool scaled;                              // false: systematic, count used as is
    std::function<void(Src&, Ctx&, u64)> run; // (choices, ctx, case index)
    bool slow;                                // too slow for the fuzzer
};
inline std::vector<Workload>& workloads() { static std::vector<Workload> w; return w; }
inline void random_workload(const std::string& n, u64 q, u64 t, std::function<void(Src&, Ctx&)> f) {
    workloads().push_back({n, q, t, true, [f](Src& s, Ctx& c, u64) { f(s, c); }, false});
}
inline void systematic(const std::string& n, u64 q, u64 t, std::function<void(u64, Ctx&)> f) {
    workloads().push_back({n, q, t, false, [f](Src&, Ctx& c, u64 i) { f(i, c); }, false});
}
void setup();                                  // provided by each driver

inline u64 wl_count(const Workload& w) {
    u64 n = opt().thorough ? w.thorough : w.quick;
    if (w.scaled) n = (u64)((double)n * opt().scale);
    return n;
}
inline u64 case_seed(const std::string& wl, u64 i) {
    u64 h = opt().seed * 0x2545F4914F6CDD1Dull + 77;
    for (char c : wl) h = mix64(h ^ (unsigned char)c);
    return mix64(h ^ mix64(i));
}
inline void run_case(Workload& w, u64 widx, u64 i, Ctx& c) {
    if (shm()) { shm()->workload = widx; shm()->index = i; shm()->started++; }
    c.wl = w.name; c.index = i;
    Src s(case_seed(w.name, i));
    w.run(s, c, i);
}

} // namespace vf

#ifdef VF_FUZZ
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
    static bool init = false;
    static std::vector<size_t> rnd;
    if (!init) {
        init = true;
        if (const char* l = getenv("VF_LITS")) {
            std::stringstream ss(l); u64 v; while (ss >> v) vf::opt().lits.push_back(v);
        }
        vf::setup();
        for (size_t i = 0; i < vf::workloads().size(); ++i) if (vf::workloads()[i].scaled && !vf::workloads()[i].slow) rnd.push_back(i);
    }
    if (size < 2 || rnd.empty()) return 0;
    static vf::Ctx ctx;
    ctx.max_events = 0; ctx.max_samples = 0; ctx.hashes.clear();
    vf::Workload& w = vf::workloads()[rnd[data[0] % rnd.size()]];
    ctx.wl = w.name;
    vf::Src s(data + 1, size - 1);
    w.run(s, ctx, 0);
    return 0;
}
extern "C" int LLVMFuzzerRunDriver(int* argc, char*** argv, int (*cb)(const uint8_t*, size_t));
#endif

namespace vf {

inline double proc_cpu(pid_t pid) {
    clockid_t c; struct timespec ts;
    if (clock_getcpuclockid(pid, &c) || clock_gettime(c, &ts)) return -1;
    return (double)ts.tv_sec + 1e-9 * (double)ts.tv_nsec;
}

struct Merge {
    u64 evals = 0;
    std::map<std::string, u64> counters;
    std::vector<u64> hashes;
    std::vector<std::string> samples, events;
    std::vector<Violation> viols;
    std::vector<std::string> notes;
    std::string failure;           // harness failure => error exit
};

inline void write_shard(const Ctx& c, const std::string& path) {
    FILE* f = fopen(path.c_str(), "wb");
    if (!f) _exit(97);
    fprintf(f, "E\t%llu\n", (unsigned long long)c.evals);
    for (auto& k : c.counters) fprintf(f, "C\t%s\t%llu\n", k.first.c_str(), (unsigned long long)k.second);
    for (auto& s : c.samples) fprintf(f, "S\t%s\n", jesc(s).c_str());
    for (auto& s : c.events) fprintf(f, "L\t%s\n", s.c_str());
    fprintf(f, "H\t%zu\n", c.hashes.size());
    if (!c.hashes.empty()) fwrite(c.hashes.data(), 8, c.hashes.size(), f);
    fclose(f);
}

// Runs one shard's share starting at position (wl0, i0). Child process; never returns.
inline void shard_child(int shard, int nshards, u64 wl0, u64 i0, const std::string& base) {
    Ctx c;
    c.sink = fopen((base + ".viol").c_str(), "ab");
    if (!c.sink) _exit(97);
    c.max_events = 400 / (size_t)nshards + 1;
    auto& W = workloads();
    for (u64 w = wl0; w < W.size(); ++w) {
        if (!opt().only.empty() && W[w].name.find(opt().only) == std::string::npos) continue;
        const u64 n = wl_count(W[w]);
        for (u64 i = (w == wl0 ? i0 : (u64)shard); i < n; i += (u64)nshards) {
            run_case(W[w], w, i, c);
            if ((int)c.viols.size() >= opt().max_viol) goto out;
        }
    }
out:
    write_shard(c, base);
    shm()->done = 1;
    fclose(c.sink);
    _exit(0);
}

inline bool read_shard(const std::string& path, Merge& m) {
    FILE* f = fopen(path.c_str(), "rb");
    if (!f) return false;
    char* line = nullptr; size_t cap = 0; ssize_t n;
    while ((n = getline(&line, &cap, f)) > 0) {
        if (line[n - 1] == '\n') line[--n] = 0;
        std::string s(line, (size_t)n);
        if (s.compare(0, 2, "E\t") == 0) m.evals += strtoull(s.c_str() + 2, nullptr, 10);
        else if (s.compare(0, 2, "C\t") == 0) {
            size_t t = s.rfind('\t');
            u64& to = m.counters[s.substr(2, t - 2)]; const u64 v = strtoull(s.c_str() + t + 1, nullptr, 10);
            if (s.compare(2, 5, "worst") == 0) to = std::max(to, v); else to += v;
        }
        else if (s.compare(0, 2, "S\t") == 0) { if (m.samples.size() < 16) m.samples.push_back(s.substr(2)); }
        else if (s.compare(0, 2, "L\t") == 0) m.events.push_back(s.substr(2));
        else if (s.compare(0, 2, "H\t") == 0) {
            size_t k = strtoull(s.c_str() + 2, nullptr, 10), o = m.hashes.size();
            m.hashes.resize(o + k);
            if (k && fread(&m.hashes[o], 8, k, f) != k) { fclose(f); free(line); return false; }
        }
    }
    free(line); fclose(f);
    return true;
}

inline void read_viols(const std::string& path, Merge& m) {
    FILE* f = fopen(path.c_str(), "rb");
    if (!f) return;
    char* line = nullptr; size_t cap = 0; ssize_t n;
    while ((n = getline(&line, &cap, f)) > 0) {
        if (line[n - 1] == '\n') line[--n] = 0;
        std::vector<std::string> p; std::string s(line, (size_t)n); size_t a = 0;
        for (int i = 0; i < 4; ++i) { size_t t = s.find('\t', a); p.push_back(s.substr(a, t - a)); if (t == std::string::npos) break; a = t + 1; }
        p.push_back(s.substr(a));
        if (p.size() >= 5) m.viols.push_back({p[3], p[4], p[1], strtoull(p[2].c_str(), nullptr, 10)});
    }
    free(line); fclose(f);
}

// Runs one single case in a fresh process, verbosely. Returns: 0 ok, 1 violation, 2 crash, 3 hang.
inline int run_single(u64 w, u64 i, const std::string& base, double cpu_limit, std::string& desc, std::string& how) {
    ShardShm* s = (ShardShm*)mmap(nullptr, sizeof(ShardShm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        shm() = s; verbose() = true;
        Ctx c;
        c.sink = fopen((base + ".single").c_str(), "wb");
        run_case(workloads()[w], w, i, c);
        if (c.sink) fclose(c.sink);
        _exit(c.viols.empty() ? 0 : 1);
    }
    int st = 0; bool hung = false;
    for (;;) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        if (proc_cpu(pid) > cpu_limit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); hung = true; break; }
        usleep(20000);
    }
    desc = s->desc;
    munmap(s, sizeof(ShardShm));
    unlink((base + ".single").c_str());
    if (hung) { how = "no result within cpu budget"; return 3; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 1) return 1;
    std::ostringstream o;
    if (WIFSIGNALED(st)) o << "signal " << WTERMSIG(st); else o << "exit " << WEXITSTATUS(st);
    how = o.str();
    return 2;
}

inline int run_all(Merge& m) {
    const int N = opt().shards;
    std::vector<ShardShm*> sh(N); std::vector<pid_t> pid(N, 0);
    std::vector<std::string> base(N);
    std::vector<int> crashes(N, 0), gen(N, 0);
    std::vector<double> mark(N, 0); std::vector<u64> lastStart(N, ~0ull);
    std::vector<double> wallStart(N, 0);
    auto launch = [&](int k, u64 w, u64 i) {
        base[k] = opt().tmp + "/shard" + std::to_string(k) + "." + std::to_string(gen[k]++);
        sh[k]->done = 0; sh[k]->desc[0] = 0; sh[k]->evals = 0;
        lastStart[k] = ~0ull;
        fflush(nullptr);
        pid_t p = fork();
        if (p == 0) { shm() = sh[k]; shard_child(k, N, w, i, base[k]); }
        pid[k] = p;
        if (p < 0) { m.failure = "fork failed"; }
    };
    for (int k = 0; k < N; ++k) {
        sh[k] = (ShardShm*)mmap(nullptr, sizeof(ShardShm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        launch(k, 0, (u64)k);
    }
    int live = N, confirmed = 0;
    while (live > 0 && m.failure.empty()) {
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        if (p <= 0) {
            for (int k = 0; k < N; ++k) if (pid[k] > 0) {
                double cpu = proc_cpu(pid[k]);
                if (sh[k]->started != lastStart[k]) { lastStart[k] = sh[k]->started; mark[k] = cpu; }
                else if (cpu - mark[k] > opt().hang_cpu) kill(pid[k], SIGKILL);
            }
            usleep(30000);
            continue;
        }
        int k = -1;
        for (int j = 0; j < N; ++j) if (pid[j] == p) k = j;
        if (k < 0) continue;
        pid[k] = 0;
        read_viols(base[k] + ".viol", m);
        unlink((base[k] + ".viol").c_str());
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh[k]->done) {
            if (!read_shard(base[k], m)) m.failure = "lost shard report";
            unlink(base[k].c_str());
            --live;
            continue;
        }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 97) { m.failure = "shard cannot write its report"; break; }
        // crashed or killed inside a case: reproduce it alone
        m.evals += sh[k]->evals;
        const u64 w = sh[k]->workload, i = sh[k]->index;
        const bool killed = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL;
        std::ostringstream how0;
        if (WIFSIGNALED(st)) how0 << "signal " << WTERMSIG(st); else how0 << "exit " << WEXITSTATUS(st);
        std::string desc, how;
        int r = run_single(w, i, base[k], opt().hang_cpu * 2, desc, how);
        const std::string wn = w < workloads().size() ? workloads()[w].name : "?";
        if (killed && r == 0) m.notes.push_back("slow case (finished when re-run alone): " + wn + ":" + std::to_string(i));
        else if (killed && r == 3) m.viols.push_back({"hang|" + wn, jesc("operation did not finish within " + std::to_string(opt().hang_cpu * 2) + " cpu seconds: " + desc), wn, i});
        else if (killed && !(r == 1 || r == 2)) m.notes.push_back("killed: " + wn);
        else if (r == 0) m.viols.push_back({"crash|" + wn, jesc(how0.str() + " while executing this case in sequence (does not recur alone): " + desc), wn, i});
        else m.viols.push_back({"crash|" + wn, jesc((how.empty() ? how0.str() : how) + ": " + desc), wn, i});
        if (r == 3) { m.notes.push_back("run stopped after a confirmed hang"); break; }
        if (++confirmed >= 8) { m.notes.push_back("run stopped after repeated crashes"); break; }
        if (++crashes[k] >= 3) { --live; m.notes.push_back("shard stopped after repeated crashes"); continue; }
        launch(k, w, i + (u64)N);
    }
    for (int k = 0; k < N; ++k) if (pid[k] > 0) { kill(pid[k], SIGKILL); int st; waitpid(pid[k], &st, 0); m.evals += sh[k]->evals; read_viols(base[k] + ".viol", m); }
    return 0;
}

inline int driver_main(int argc, char** argv) {
    Options& o = opt();
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return ++i < argc ? argv[i] : ""; };
        if (a == "--seed") o.seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--thorough") o.thorough = true;
        else if (a == "--scale") o.scale = atof(val().c_str());
        else if (a == "--shards") o.shards = atoi(val().c_str());
        else if (a == "--out") o.out = val();
        else if (a == "--only") o.only = val();
        else if (a == "--replay") o.replay = val();
        else if (a == "--tmp") o.tmp = val();
        else if (a == "--hang") o.hang_cpu = atof(val().c_str());
        else if (a == "--lits") { std::stringstream ss(val()); u64 v; while (ss >> v) o.lits.push_back(v); }
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 96; }
    }
    setup();
    Merge m;
    if (!o.replay.empty()) {
        size_t c = o.replay.rfind(':');
        std::string n = o.replay.substr(0, c); u64 i = strtoull(o.replay.c_str() + c + 1, nullptr, 10);
        for (u64 w = 0; w < workloads().size(); ++w) if (workloads()[w].name == n) {
            std::string d, how;
            int r = run_single(w, i, o.tmp + "/replay", o.hang_cpu * 2, d, how);
            printf("replay %s:%llu -> %s %s\n%s\n", n.c_str(), (unsigned long long)i,
                   r == 0 ? "ok" : r == 1 ? "violation" : r == 2 ? "crash" : "hang", how.c_str(), d.c_str());
            return r ? 1 : 0;
        }
        fprintf(stderr, "no such workload\n");
        return 96;
    }
    run_all(m);
    if (!m.failure.empty()) { fprintf(stderr, "harness failure: %s\n", m.failure.c_str()); return 95; }
    std::sort(m.hashes.begin(), m.hashes.end());
    const size_t distinct = (size_t)(std::unique(m.hashes.begin(), m.hashes.end()) - m.hashes.begin());
    FILE* f = o.out.empty() ? stdout : fopen(o.out.c_str(), "wb");
    if (!f) return 95;
    fprintf(f, "{\"evaluations\": %llu, \"distinct_nontrivial\": %zu, \"counters\": {", (unsigned long long)m.evals, distinct);
    bool first = true;
    for (auto& k : m.counters) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", jesc(k.first).c_str(), (unsigned long long)k.second); first = false; }
    fprintf(f, "}, \"samples\": [");
    for (size_t i = 0; i < m.samples.size(); ++i) fprintf(f, "%s\"%s\"", i ? ", " : "", m.samples[i].c_str());
    fprintf(f, "], \"events\": [");
    for (size_t i = 0; i < m.events.size(); ++i) fprintf(f, "%s\"%s\"", i ? ", " : "", jesc(m.events[i]).c_str());
    fprintf(f, "], \"notes\": [");
    for (size_t i = 0; i < m.notes.size(); ++i) fprintf(f, "%s\"%s\"", i ? ", " : "", jesc(m.notes[i]).c_str());
    fprintf(f, "], \"violations\": [");
    for (size_t i = 0; i < m.viols.size(); ++i)
        fprintf(f, "%s{\"key\": \"%s\", \"desc\": \"%s\", \"workload\": \"%s\", \"index\": %llu}", i ? ", " : "",
                m.viols[i].key.c_str(), m.viols[i].desc.c_str(), m.viols[i].wl.c_str(), (unsigned long long)m.viols[i].index);
    fprintf(f, "]}\n");
    if (f != stdout) fclose(f);
    return m.viols.empty() ? 0 : 1;
}
} // namespace vf

int main(int argc, char** argv) {
#ifdef VF_FUZZ   // the same binary is the sanitized driver and, with --fuzz, the coverage-guided fuzzer
    if (argc > 1 && !strcmp(argv[1], "--fuzz")) {
        vf::fuzzing() = true;
        argv[1] = argv[0]; ++argv; --argc;
        return LLVMFuzzerRunDriver(&argc, &argv, LLVMFuzzerTestOneInput);
    }
#endif
    return vf::driver_main(argc, argv);
}
