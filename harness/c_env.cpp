// C23: the same program in different surroundings; results may depend on the operands only, and the surroundings stay as they were.
#define VF_DEFINE_BASES
#include "runner.h"
#include <cerrno>
#include <cfenv>
#include <clocale>
#include <ctime>
#include <dlfcn.h>
#include <sched.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <exception>
#include <iostream>
#include <malloc.h>
#include <new>
#include <thread>
#if defined(__SSE2__)
#include <xmmintrin.h>
#endif
#if defined(__SANITIZE_ADDRESS__)
#define VF_SAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VF_SAN 1
#endif
#endif

// ------------------------------------------------------------------ what the process is told by the system, as the check likes it
// While armed, variables of the environment that are not set are set, and the clocks show another time.
struct Told { u64 env = 0, clock = 0, asked_env = 0, asked_clock = 0; };
static thread_local Told told;
#ifndef VF_SAN
template <class F> static F next(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
extern "C" char* getenv(const char* n) noexcept {
    static char* (*const real)(const char*) = next<char* (*)(const char*)>("getenv");
    if (!told.env) return real ? real(n) : nullptr;
    ++told.asked_env; static char v[8][24] = {"1", "0", "", "63", "-1", "yes", "4294967296", "all"};
    char* r = real ? real(n) : nullptr; if (r && told.env % 3) return nullptr;
    return v[told.env / 3 % 8];
}
extern "C" char* secure_getenv(const char* n) noexcept { return getenv(n); }
static long shift() { return told.clock ? (long)(told.clock % 4000000000u) : 0; }
extern "C" time_t time(time_t* t) noexcept { static time_t (*const real)(time_t*) = next<time_t (*)(time_t*)>("time"); time_t r = real(nullptr); if (told.clock) { ++told.asked_clock; r += shift(); } if (t) *t = r; return r; }
extern "C" clock_t clock() noexcept { static clock_t (*const real)() = next<clock_t (*)()>("clock"); clock_t r = real(); if (told.clock) { ++told.asked_clock; r += shift(); } return r; }
extern "C" int clock_gettime(clockid_t id, struct timespec* t) noexcept { static int (*const real)(clockid_t, struct timespec*) = next<int (*)(clockid_t, struct timespec*)>("clock_gettime"); const int r = real(id, t); if (told.clock && !r) { ++told.asked_clock; t->tv_sec += shift(); t->tv_nsec = (long)(told.clock / 7 % 1000000000u); } return r; }
#endif

// ------------------------------------------------------------------ recorded programs
struct Base {
    virtual ~Base() {}
    virtual std::string rerun(const std::function<void(const Step&, const std::function<void()>&)>& around) = 0;   // "" or the first difference
    std::vector<Step> steps; u64 h = 0; std::string type;
};
template <class BN> struct Prog : Base {
    std::vector<Mag> m; std::vector<char> neg; std::vector<u64> seen; std::vector<std::vector<Mag>> states; std::vector<std::vector<int>> descs;
    void generate(Src& s, size_t maxlen, u64 maxsteps) {
        const u64 B = Info<BN>::base(); type = TypeName<BN>::get(); h = B; errno = 0; const size_t n = (size_t)s.range(2, 4); Runner<BN> r;
        for (size_t i = 0; i < n; ++i) { Mag x = gen_mag(s, B, maxlen); if (s.chance(12)) add_zeros(s, x); m.push_back(x); neg.push_back(s.chance(45)); h = hash_mag(h ^ (u64)neg[i], x); r.p.push_back(make<BN>(neg[i], x)); }
        const u64 k = s.range(1, maxsteps);
        for (u64 i = 0; i < k; ++i) {
            const Step q = gen_step(s, B, n, maxlen); if (!affordable(q, r.p)) continue;
            steps.push_back(q); record(r.act(q), r);
        }
    }
    void product(Src& s, size_t la, size_t lb, bool top, bool inplace) {
        const u64 B = Info<BN>::base(); type = TypeName<BN>::get(); h = B;
        m = {top ? Mag(la, B - 1) : gen_mag_len(s, B, la), top ? Mag(lb, B - 1) : gen_mag_len(s, B, lb), Mag()}; neg = {(char)s.chance(50), (char)s.chance(50), 0};
        Step q = gen_step(s, B, 3, 4); q.op = inplace ? 4 : 5; q.kind = 2; q.i = 0; q.j = 1; q.k = 2; steps.push_back(q);
        Runner<BN> r; for (size_t i = 0; i < 3; ++i) { h = hash_mag(h ^ (u64)neg[i], m[i]); r.p.push_back(make<BN>(neg[i], m[i])); }
        record(r.act(q), r);
    }
    void record(u64 o, const Runner<BN>& r) {
        errno = 0;
        h = vf::mix64(h ^ o ^ ((u64)steps.back().op << 32) ^ ((u64)steps.back().kind << 40)); seen.push_back(o);
        std::vector<Mag> st; std::vector<int> ds; for (auto& x : r.p) { st.push_back(raw(x.numData)); ds.push_back(x.descriptor); } states.push_back(st); descs.push_back(ds);
    }
    std::string rerun(const std::function<void(const Step&, const std::function<void()>&)>& around) override {
        Runner<BN> r; for (size_t i = 0; i < m.size(); ++i) r.p.push_back(make<BN>(neg[i], m[i]));
        for (size_t k = 0; k < steps.size(); ++k) {
            const Step& q = steps[k]; const std::string before = show(r.p[q.i]).substr(0, 300) + " and " + show(r.p[q.j]).substr(0, 300);
            const std::string where = type + ", step " + std::to_string(k) + " (" + STEPS[q.op] + " " + std::to_string(q.kind) + ") on " + before;
            u64 o = 0; std::string thrown;
            around(q, [&] { try { o = r.act(q); } catch (const std::exception& e) { thrown = e.what(); } catch (...) { thrown = "an error"; } });
            if (!thrown.empty()) return where + ": raises " + thrown;
            if (o != seen[k]) return where + ": comparison, text, digits or error differ";
            for (size_t i = 0; i < m.size(); ++i) if (r.p[i].descriptor != descs[k][i] || raw(r.p[i].numData) != states[k][i]) return where + ": number " + std::to_string(i) + " is " + show(r.p[i]).substr(0, 400) + " instead of " + dname(descs[k][i]) + ref::str(states[k][i]).substr(0, 400);
        }
        return "";
    }
};
#ifdef VF_FEWER
#define ENV_TYPES 4
#define ENV_DISPATCH(t, EXPR) switch ((t) % 4) { case 0: { typedef bignum_lowp BN; EXPR; } break; case 1: { typedef bignum_medp BN; EXPR; } break; case 2: { typedef bignum_highp BN; EXPR; } break; default: { typedef bignum_base10 BN; EXPR; } break; }
#else
#define ENV_TYPES 11
#define ENV_DISPATCH(t, EXPR) VF_DISPATCH(t, EXPR)
#endif
static Base* new_prog(Src& s, int t, size_t maxlen, u64 maxsteps) { Base* r = nullptr; ENV_DISPATCH(t, { Prog<BN>* p = new Prog<BN>; p->generate(s, maxlen, maxsteps); r = p; }); return r; }

// ------------------------------------------------------------------ surroundings
enum { E_ROUND = 1, E_FTZ = 2, E_LOCALE = 4, E_CLOCALE = 8, E_ERRNO = 16, E_HEAP = 32, E_STACK = 64, E_STREAMS = 128, E_CATCH = 256, E_UNWIND = 512, E_THREAD = 1024, E_HISTORY = 2048, E_RAND = 4096, E_HANDLERS = 8192, E_CSTREAM = 16384, E_ENV = 32768, E_CLOCK = 65536, E_CPU = 131072 };
static const int NENV = 18;
static const char* const ENVS[] = {"another rounding mode", "denormals flushed to zero", "another global locale", "another C locale", "errno set", "dirty heap memory", "dirty stack", "other flags on the standard streams", "inside an exception handler", "during stack unwinding", "in another thread", "after other work", "another random seed", "other terminate and new handlers", "standard streams with failures enabled as exceptions", "other environment variables", "another time on the clocks", "another set of processors"};
static const int ROUNDS[] = {FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
struct Punct : std::numpunct<char> {
    char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\1"; }
    std::string do_truename() const override { return "oui"; } std::string do_falsename() const override { return "non"; }
};
static const std::locale& strange() { static const std::locale* l = new std::locale(std::locale::classic(), new Punct); return *l; }
static void my_terminate() { abort(); }
static void my_newh() { throw std::bad_alloc(); }
#if defined(__SSE2__)
static unsigned csr() { return _mm_getcsr() & 0xffc0u; }
#else
static unsigned csr() { return 0; }
#endif
static __attribute__((noinline)) void dirty_stack(u64 v) { volatile unsigned char b[24576]; for (size_t i = 0; i < sizeof b; ++i) b[i] = (unsigned char)(v + i * (v >> 8 & 7)); (void)b[v % sizeof b]; }
struct Stream { std::ios_base::fmtflags f; std::streamsize p, w; char fill; std::ios_base::iostate st, ex; std::ostream* tie; std::streambuf* b; std::string loc;
    explicit Stream(std::ostream& o) : f(o.flags()), p(o.precision()), w(o.width()), fill(o.fill()), st(o.rdstate()), ex(o.exceptions()), tie(o.tie()), b(o.rdbuf()), loc(o.getloc().name()) {}
    void put(std::ostream& o) const { o.flags(f); o.precision(p); o.fill(fill); o.exceptions(ex); }
    bool same(const Stream& o, bool wrote) const { return f == o.f && p == o.p && (wrote || w == o.w) && fill == o.fill && st == o.st && ex == o.ex && tie == o.tie && b == o.b && loc == o.loc; } };
struct Around {   // what can be observed of the surroundings
    int round; unsigned mx; std::locale loc; std::string cl; Stream so, se, sl; std::terminate_handler th; std::new_handler nh;
    Around() : round(fegetround()), mx(csr()), cl(setlocale(LC_ALL, nullptr)), so(std::cout), se(std::cerr), sl(std::clog), th(std::get_terminate()), nh(std::get_new_handler()) {}
    std::string diff(bool wrote) const {
        const Around n;
        if (n.round != round) return "the rounding mode is changed"; if (n.mx != mx) return "the floating-point control word is changed"; if (n.loc != loc) return "the global locale is replaced"; if (n.cl != cl) return "the C locale is changed";
        if (!so.same(n.so, wrote)) return "the state of std::cout is changed"; if (!se.same(n.se, wrote)) return "the state of std::cerr is changed"; if (!sl.same(n.sl, wrote)) return "the state of std::clog is changed";
        if (n.th != th) return "the terminate handler is replaced"; if (n.nh != nh) return "the new handler is replaced"; return "";
    }
    void restore() const { fesetround(round); std::locale::global(loc); setlocale(LC_ALL, cl.c_str()); so.put(std::cout); se.put(std::cerr); sl.put(std::clog); std::set_terminate(th); std::set_new_handler(nh); }
};
struct NullBuf : std::streambuf { int overflow(int ch) override { return ch; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
static std::streambuf* real_err = nullptr;
static void quiet() { real_err = std::cerr.rdbuf(new NullBuf); }   // reports of failing assertions, while nobody watches
static Around* baseline = nullptr;          // as the process started
// The two standard descriptors lead into memory files while a step runs, so that everything written is seen.
struct Capture {
    int save[2], mem[2]; bool on; std::streambuf* null = nullptr;
    explicit Capture(bool use) : on(use) {
#ifdef VF_SAN
        on = false;
#endif
        if (!on) return;
        fflush(nullptr); null = std::cerr.rdbuf(real_err);
        for (int i = 0; i < 2; ++i) { save[i] = dup(i + 1); mem[i] = memfd_create("vf", 0); dup2(mem[i], i + 1); }
    }
    std::string written(int i) { if (!on) return ""; char b[400]; const ssize_t n = pread(mem[i], b, sizeof b, 0); if (ftruncate(mem[i], 0)) {} lseek(mem[i], 0, SEEK_SET); return n > 0 ? std::string(b, (size_t)n) : ""; }
    ~Capture() { if (!on) return; std::cerr.rdbuf(null); for (int i = 0; i < 2; ++i) { dup2(save[i], i + 1); close(save[i]); close(mem[i]); } }
};
static int lowest_fd() { const int f = dup(0); if (f >= 0) close(f); return f; }
struct Sigs { struct sigaction a[6]; sigset_t m; Sigs() { static const int S[] = {SIGFPE, SIGABRT, SIGSEGV, SIGINT, SIGALRM, SIGTERM}; for (int i = 0; i < 6; ++i) sigaction(S[i], nullptr, a + i); pthread_sigmask(SIG_SETMASK, nullptr, &m); }
    bool same(const Sigs& o) const { for (int i = 0; i < 6; ++i) if (a[i].sa_handler != o.a[i].sa_handler || a[i].sa_flags != o.a[i].sa_flags) return false; for (int i = 1; i < 32; ++i) if (sigismember(&m, i) != sigismember(&o.m, i)) return false; return true; } };

struct Process {      // slower to observe: once per program
    mode_t mask; struct stat cwd; u64 env; struct itimerval timers[3]; size_t threads;
    static size_t nthreads() { FILE* f = fopen("/proc/self/stat", "r"); if (!f) return 0; char b[1024]; const size_t n = fread(b, 1, sizeof b - 1, f); fclose(f); b[n] = 0; const char* q = strrchr(b, ')'); if (!q) return 0; for (int i = 0; i < 18 && q; ++i) q = strchr(q + 1, ' '); return q ? (size_t)atoi(q) : 0; }
    Process() : env(1), threads(nthreads()) { mask = umask(0); umask(mask); memset(&cwd, 0, sizeof cwd); if (stat(".", &cwd)) cwd.st_ino = 0; for (char** e = environ; e && *e; ++e) for (const char* q = *e; ; ++q) { env = vf::mix64(env ^ (unsigned char)*q); if (!*q) break; } for (int i = 0; i < 3; ++i) { memset(timers + i, 0, sizeof timers[i]); getitimer((__itimer_which)i, timers + i); } }
    std::string diff() const {
        const Process n; if (n.mask != mask) return "the file mode mask is changed"; if (n.cwd.st_ino != cwd.st_ino || n.cwd.st_dev != cwd.st_dev) return "the working directory is changed"; if (n.env != env) return "the environment is changed"; if (n.threads > threads) return "a thread is left running";
        for (int i = 0; i < 3; ++i) if (!timers[i].it_value.tv_sec && !timers[i].it_value.tv_usec && (n.timers[i].it_value.tv_sec || n.timers[i].it_value.tv_usec)) return "a timer is left running"; return "";
    }
};

// other work of another kind, whose traces a later operation must not see
template <class BN> void disturb_with(Src& s) {
    const u64 B = Info<BN>::base(); Pair p = gen_pair(s, B, s.chance(20) ? 200 : 30, 10); BN a = make<BN>(p.na, p.a), b = make<BN>(p.nb, p.b);
    volatile u64 sink = 0;
    switch (s.range(0, 6)) {
    case 0: { BN r = a * b; sink = r.size(); break; } case 1: { BN r = a - b; sink = r.size(); break; } case 2: { a += b; sink = a.size(); break; }
    case 3: { BN d = make<BN>(p.nb, ref::normed(p.b)); if (used(a.numData) <= used(d.numData) + 3 && used(d.numData)) { a /= d; } sink = a.size(); break; }
    case 4: { std::ostringstream o; o << std::hex << a; sink = o.str().size(); break; } case 5: { sink = (a < b) + (a == b); break; }
    default: { try { (void)a[(typename Info<BN>::container::size_type)(a.size() + 1)]; } catch (bn_error_t) { sink = 1; } }
    }
    (void)sink;
}
static void disturb(Src& s) { const int t = (int)s.range(0, 10); ENV_DISPATCH(t, disturb_with<BN>(s)); }

// Runs the program again in the surroundings given by bits; "" or what went wrong.
struct Unwinder { const std::function<void()>& f; ~Unwinder() { f(); } };
static std::string in_surroundings(Base& p, unsigned bits, u64 seed, Ctx& c) {
    std::string bad = baseline->diff(true); if (!bad.empty()) { baseline->restore(); return p.type + " or an operation before it: " + bad; }
    Src d(seed); const int mode = ROUNDS[seed % 3]; static const int ERR[] = {ERANGE, EDOM, EINTR, EINVAL, ENOMEM, EILSEQ, EAGAIN}; const int err = seed / 3 % 3 ? ERR[seed / 9 % 7] : (int)(1 + seed / 9 % 130);
    auto body = [&] {
        Capture cap(true); const int fd = lowest_fd(); const Sigs sg;
        const Process was_process; cpu_set_t cpus; const bool pin = (bits & E_CPU) && !sched_getaffinity(0, sizeof cpus, &cpus);
        if (pin) { cpu_set_t one; CPU_ZERO(&one); int k = (int)(seed % (u64)std::max(1, CPU_COUNT(&cpus))); for (int i = 0; i < CPU_SETSIZE; ++i) if (CPU_ISSET(i, &cpus) && !k--) { CPU_SET(i, &one); break; } sched_setaffinity(0, sizeof one, &one); }
        srand((unsigned)seed); const int r1 = rand(), r2 = rand(); srand((unsigned)seed); if (rand() != r1) bad = "rand";
        std::string d0 = p.rerun([&](const Step& q, const std::function<void()>& act) {
            if ((bits & E_HISTORY) && d.chance(60)) disturb(d);
            if (cap.on) { fflush(nullptr); cap.written(0); cap.written(1); }
            std::string report; if (cap.on && q.op == 13) { act(); fflush(nullptr); report = cap.written(0) + cap.written(1); }   // an index out of range changes nothing
            // set up
            const int rnd0 = fegetround(); const std::locale loc0; std::vector<std::ostream*> ss = {&std::cout, &std::cerr, &std::clog}; std::vector<Stream> st0; for (auto* o : ss) st0.emplace_back(*o);
            std::terminate_handler th0 = std::get_terminate(); std::new_handler nh0 = std::get_new_handler();
            if (bits & E_HANDLERS) { std::set_terminate(my_terminate); std::set_new_handler(my_newh); }
            if (bits & E_LOCALE) std::locale::global(strange());
            if (bits & E_CLOCALE) setlocale(LC_ALL, "C.utf8");
            if (bits & E_STREAMS) for (auto* o : ss) { o->flags((std::ios_base::fmtflags)(std::ios_base::hex | std::ios_base::uppercase | std::ios_base::showbase | std::ios_base::showpos | std::ios_base::left | std::ios_base::boolalpha | (o == &std::cerr ? std::ios_base::unitbuf : std::ios_base::fmtflags()))); o->precision(2); o->fill('*'); o->width(7); }
            if (bits & E_CSTREAM) for (auto* o : ss) o->exceptions(std::ios_base::badbit | std::ios_base::failbit);
#if !defined(VF_SAN)
            if (bits & E_HEAP) mallopt(M_PERTURB, (int)(seed & 0xff) | 1);
#endif
            if (bits & E_STACK) dirty_stack(seed);
            if (bits & E_ROUND) fesetround(mode);
#if defined(__SSE2__)
            if (bits & E_FTZ) _mm_setcsr(_mm_getcsr() | 0x8040);
#endif
            errno = bits & E_ERRNO ? err : 0;
            const Around was;
            if (bits & E_ENV) told.env = seed | 1;
            if (bits & E_CLOCK) told.clock = (seed >> 5 | 1) + c.index;
            // the operation
            if (bits & E_CATCH) { try { throw std::runtime_error("outer"); } catch (const std::exception& e) { act(); if (std::string(e.what()) != "outer") bad = "the exception being handled is changed"; } }
            else if (bits & E_UNWIND) { try { Unwinder u{act}; throw 42; } catch (int v) { if (v != 42) bad = "the exception in flight is changed"; } }
            else act();
            told.env = told.clock = 0;
            const bool wrote = q.op == 13;
            std::string x = was.diff(wrote); if (!x.empty() && bad.empty()) bad = p.type + ", " + STEPS[q.op] + " " + std::to_string(q.kind) + ": " + x;
            // back to normal
            if (bits & E_ROUND) fesetround(rnd0);
#if defined(__SSE2__)
            if (bits & E_FTZ) _mm_setcsr(_mm_getcsr() & ~0x8040u);
#endif
#if !defined(VF_SAN)
            if (bits & E_HEAP) mallopt(M_PERTURB, 0);
#endif
            for (size_t i = 0; i < ss.size(); ++i) { if (bits & E_CSTREAM) ss[i]->exceptions(st0[i].ex); if (bits & E_STREAMS) { ss[i]->flags(st0[i].f); ss[i]->precision(st0[i].p); ss[i]->fill(st0[i].fill); ss[i]->width(0); } }
            if (bits & E_CLOCALE) setlocale(LC_ALL, "C");
            if (bits & E_LOCALE) std::locale::global(loc0);
            if (bits & E_HANDLERS) { std::set_terminate(th0); std::set_new_handler(nh0); }
            if (cap.on) {
                std::cout.flush(); std::clog.flush(); fflush(nullptr); const std::string a = cap.written(0), b = cap.written(1);
                if (wrote && !(bits & E_STREAMS) && bad.empty() && a + b != report) bad = p.type + ": the report of a failing assertion is \"" + a + b + "\" instead of \"" + report + "\"";
                if (!wrote && bad.empty() && (!a.empty() || !b.empty())) bad = p.type + ", " + STEPS[q.op] + " " + std::to_string(q.kind) + ": writes to " + (a.empty() ? "standard error: " + b : "standard output: " + a);
            }
            c.eval();
        });
        if (bad.empty() && !d0.empty()) bad = d0;
        if (bad.empty() && rand() != r2) bad = p.type + ": the sequence of rand() is disturbed";
        if (bad.empty() && lowest_fd() != fd) bad = p.type + ": a file descriptor is left open or closed";
        if (pin) { cpu_set_t now; if (bad.empty() && !sched_getaffinity(0, sizeof now, &now) && CPU_COUNT(&now) != 1) bad = p.type + ": the set of processors is changed"; sched_setaffinity(0, sizeof cpus, &cpus); }
        if (bad.empty()) { const std::string x = was_process.diff(); if (!x.empty()) bad = p.type + ": " + x; }
        if (bad.empty() && !sg.same(Sigs())) bad = p.type + ": signal dispositions or the signal mask are changed";
    };
    if (bits & E_THREAD) { std::thread t(body); t.join(); } else body();
    return bad;
}
static std::string env_names(unsigned bits) { std::string r; for (int i = 0; i < NENV; ++i) if (bits >> i & 1) r += (r.empty() ? "" : ", ") + std::string(ENVS[i]); return r.empty() ? "the usual surroundings" : r; }
static bool judge(Base& p, unsigned bits, u64 seed, Ctx& c) {
    for (int i = 0; i < NENV; ++i) if (bits >> i & 1) c.count(std::string("steps: ") + ENVS[i], p.steps.size());
    if (vf::verbose()) c.describe(p.type + " under " + env_names(bits));
    const std::string bad = in_surroundings(p, bits, seed, c);
    if (bad.empty()) return true;
    unsigned guilty = bits;      // which of them is it
    for (int i = 0; i < NENV; ++i) if ((bits >> i & 1) && !in_surroundings(p, 1u << i, seed, c).empty()) { guilty = 1u << i; break; }
    if (bad.find("before it: ") == std::string::npos && in_surroundings(p, 0, seed, c) != "") guilty = 0;
    c.violation(std::string("surroundings|") + (guilty ? (guilty & (guilty - 1)) ? "several" : env_names(guilty) : "repeated"), "under " + env_names(guilty) + ": " + bad); return false;
}
static void one(Src& s, Ctx& c, size_t maxlen, u64 maxsteps) {
    const int t = (int)s.range(0, 10); std::unique_ptr<Base> p(new_prog(s, t, maxlen, maxsteps)); if (p->steps.empty()) return;
    c.nontrivial(p->h); for (auto& q : p->steps) c.count(STEPS[q.op]);
    const int n = (int)s.range(2, 3);
    for (int i = 0; i < n; ++i) {
        unsigned bits = 1u << s.range(0, NENV - 1); if (s.chance(40)) bits |= 1u << s.range(0, NENV - 1); if (s.chance(20)) bits |= (unsigned)s.range(0, (1u << NENV) - 1);
        if ((bits & E_CATCH) && (bits & E_UNWIND)) bits &= ~(unsigned)E_CATCH;
        if (!judge(*p, bits, s.next(), c)) return;
    }
    if (c.index % 1999 == 5) c.sample(p->type + ": " + std::to_string(p->steps.size()) + " steps, same in " + std::to_string(n) + " other surroundings");
}
// long products in every rounding mode: here a floating-point method has least room
template <class BN> void product(Src& s, Ctx& c, size_t maxlen) {
    const u64 B = Info<BN>::base(); Prog<BN> p; size_t la = gen_len(s, maxlen), lb = s.chance(60) ? la : gen_len(s, maxlen); if (B > 70000) { la = la / 16 + 1; lb = lb / 16 + 1; }
    p.product(s, la + 1, lb + 1, s.chance(35), s.chance(50)); c.nontrivial(p.h); c.count("long products"); c.peak("worst: digits of a product operand", std::max(la, lb));
    for (int i = 0; i < 3; ++i) if (!judge(p, E_ROUND | (s.chance(20) ? E_FTZ : 0) | (s.chance(10) ? E_THREAD : 0), s.next() / 3 * 3 + (u64)i, c)) return;
}

// ------------------------------------------------------------------ before and after main
static const int NSTATIC = 132;
static int after_fd = -1;
struct Kept { Base* p[NSTATIC]; };
static Kept* kept = nullptr;
// the report of a failing assertion, as text
static std::string report_text() {
    struct Buf : std::streambuf { std::string t; int overflow(int ch) override { t += (char)ch; return ch; } std::streamsize xsputn(const char* q, std::streamsize n) override { t.append(q, (size_t)n); return n; } } b;
    std::streambuf* e0 = std::cerr.rdbuf(&b); std::streambuf* o0 = std::cout.rdbuf(&b); int got = -1;
    bignum_medp x = make<bignum_medp>(false, Mag(2, 5)); const bignum_medp& cx = x;
    try { (void)cx[7]; } catch (bn_error_t e) { got = (int)e; } catch (...) { got = -2; }
    std::cerr.rdbuf(e0); std::cout.rdbuf(o0); return b.t + std::to_string(got);
}
static std::string* early_report = nullptr;
static std::string rerun_all() { if (report_text() != *early_report) return "the report of a failing assertion is \"" + report_text() + "\" instead of \"" + *early_report + "\""; for (int i = 0; i < NSTATIC; ++i) { const std::string d = kept->p[i]->rerun([](const Step&, const std::function<void()>& act) { act(); }); if (!d.empty()) return d; } return "same"; }
struct Late { ~Late() { if (after_fd >= 0) { const std::string r = rerun_all(); if (write(after_fd, r.data(), std::min<size_t>(r.size(), 4000))) {} _exit(0); } } };
static Late late;             // destroyed after everything that is constructed during the programs below
struct Early { Early() { quiet(); baseline = new Around; early_report = new std::string(report_text()); kept = new Kept; for (int i = 0; i < NSTATIC; ++i) { Src s(vf::mix64(0xea71u + (u64)i)); kept->p[i] = new_prog(s, i, i % 7 ? 24 : 130, i % 5 ? 10 : 25); } } };
static Early early;           // the library used by the constructor of a static object
static void before_main(u64 i, Ctx& c) {
    Base& p = *kept->p[i % NSTATIC]; c.nontrivial(p.h ^ 7); c.count("steps: before main", p.steps.size());
    const std::string d = p.rerun([&](const Step&, const std::function<void()>& act) { act(); c.eval(); });
    if (report_text() != *early_report) c.violation("surroundings|before main", "the report of a failing assertion is \"" + report_text() + "\", in a static constructor \"" + *early_report + "\"");
    if (!d.empty()) c.violation("surroundings|before main", "the same program gave something else in a static constructor: " + d);
}
static void after_main(u64 i, Ctx& c) {
    int pp[2]; if (pipe(pp)) return; fflush(nullptr);
    const pid_t pid = fork();
    if (pid == 0) { close(pp[0]); after_fd = pp[1]; if (i & 1) { Src s(i + c.index); for (int k = 0; k < 30; ++k) disturb(s); } exit(3); }
    close(pp[1]); std::string r; char b[4096]; ssize_t n; while ((n = read(pp[0], b, sizeof b)) > 0) r.append(b, (size_t)n); close(pp[0]);
    int st = 0; waitpid(pid, &st, 0); for (int k = 0; k < NSTATIC; ++k) c.count("steps: after main", kept->p[k]->steps.size());
    c.eval(); c.nontrivial(vf::mix64(i ^ 0xaf7e4));
    if (r != "same") c.violation("surroundings|after main", "the same programs in a static destructor: " + (r.empty() ? "the process ends with status " + std::to_string(st) : r));
}

void vf::setup() {
    vf::systematic("before main", NSTATIC, NSTATIC, before_main);
    vf::systematic("after main", 8, 8, after_main);
    random_workload("programs", 9000, 180000, [](Src& s, Ctx& c) { one(s, c, 40, 16); });
    random_workload("short", 12000, 240000, [](Src& s, Ctx& c) { one(s, c, 7, 12); });
    random_workload("long", 300, 6000, [](Src& s, Ctx& c) { one(s, c, 900, 8); });
    random_workload("products", 500, 8000, [](Src& s, Ctx& c) { int t = (int)s.range(0, 10); ENV_DISPATCH(t, product<BN>(s, c, 1100)); });
    random_workload("far products", 24, 200, [](Src& s, Ctx& c) { if (s.fuzz()) return; int t = (int)s.range(0, 10); ENV_DISPATCH(t, product<BN>(s, c, s.chance(50) ? 66000 : 9000)); });
    if (!vf::workloads().empty()) vf::workloads().back().slow = true;
}
