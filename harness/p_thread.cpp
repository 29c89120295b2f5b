// C12: threads share numbers read-only and own numbers privately; results are compared with a sequential run.
//   p_thread SEED FROM ROUNDS THREADS
#define VF_DEFINE_BASES
#define main vf_driver_main_unused
#include "prog.h"
#undef main
#include <thread>
#include <sstream>
#include <iostream>
#include <malloc.h>
void vf::setup() {}
// schedule perturbation at every allocation (inside the operations)
static thread_local u64 jitter = 0;
static void perturb() { if (jitter) { jitter = vf::mix64(jitter); if (jitter % 7 == 0) sched_yield(); else if (jitter % 1021 == 0) usleep(jitter % 200); } }
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define VF_TSAN 1
#endif
#endif
#ifdef VF_TSAN
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
static void on_malloc(const volatile void*, size_t) { perturb(); }
static void on_free(const volatile void*) {}
#else
void* operator new(size_t n) { perturb(); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
#endif

static const int NSH = 6, NOP = 14;
static std::atomic<int> inflight[NSH][NOP];      // which operation is executing on which shared number
static std::atomic<u64> overlaps(0);
static std::atomic<unsigned char> seen[NOP][NOP];
struct Mark {
    int a, b, op;
    Mark(int i, int j, int o) : a(i), b(j), op(o) {
        inflight[a][op].fetch_add(1, std::memory_order_relaxed); inflight[b][op].fetch_add(1, std::memory_order_relaxed);
        for (int o2 = 0; o2 < NOP; ++o2) { int n = inflight[a][o2].load(std::memory_order_relaxed); if (o2 == op) n -= 1 + (a == b); if (n > 0) { overlaps.fetch_add(1, std::memory_order_relaxed); seen[op][o2].store(1, std::memory_order_relaxed); } }
    }
    ~Mark() { inflight[a][op].fetch_sub(1, std::memory_order_relaxed); inflight[b][op].fetch_sub(1, std::memory_order_relaxed); }
};
template <class BN> u64 digest(const BN& x, u64 h) { h = vf::mix64(h ^ (u64)x.descriptor); for (const auto& d : x.numData) h = vf::mix64(h ^ (u64)d); return vf::mix64(h ^ x.numData.size()); }
template <class BN> bool cheap_div(const BN& a, const BN& b) { return !finite(a) || !finite(b) || used(a.numData) < used(b.numData) + 4; }

// One thread's work: a private program, and operations reading the shared numbers.
template <class BN> u64 work(const std::vector<BN>& sh, u64 seed, int steps) {
    u64 h = seed; Src s(seed); MemStats st;
    BN mine = sh[(size_t)(seed % NSH)];
    for (int k = 0; k < steps; ++k) {
        const int i = (int)s.range(0, NSH - 1), j = (int)s.range(0, NSH - 1); int op = (int)s.range(0, NOP - 1);
        const BN &x = sh[(size_t)i], &y = sh[(size_t)j];
        if (op == 3 && !cheap_div(x, y)) op = 0;
        Mark m(i, j, op);
        switch (op) {
        case 0: h = digest(x + y, h); break; case 1: h = digest(x - y, h); break; case 2: h = digest(x * y, h); break; case 3: h = digest(x / y, h); break;
        case 4: { BN t(x); t.push_back(1); h = digest(t, h); break; } case 5: mine = x; h = digest(mine, h); break;
        case 6: h = vf::mix64(h ^ (u64)((x == y) + 2 * (x < y) + 4 * (x <= y) + 8 * (x > y) + 16 * (x >= y) + 32 * (x != y))); break;
        case 7: { std::ostringstream o; o << x << ' ' << y; for (char ch : o.str()) h = vf::mix64(h ^ (u64)(unsigned char)ch); break; }
        case 8: { const size_t n = x.size(); for (size_t q = 0; q < n; q += 7) h = vf::mix64(h ^ (u64)x[q]); h = vf::mix64(h ^ x.getData().size() ^ (u64)x.getDescriptor()); break; }
        case 9: mine += x; if (mine.size() > 4000) mine = y; h = digest(mine, h); break;
        case 10: mine = x; mine *= y; h = digest(mine, h); break;
        case 11: { const size_t n = x.size(); try { h = vf::mix64(h ^ (u64)x[n + (size_t)s.range(0, 9)]); } catch (bn_error_t e) { h = vf::mix64(h ^ (u64)e ^ 5); } break; }   // out of range: reports and throws
        case 12: { h = vf::mix64(h ^ (u64)(x.isPositive() + 2 * x.isNegative() + 4 * x.isInfinite() + 8 * x.isNan())); try { bn_runtime_assert(s.chance(30), (bn_error_t)s.range(0, 2), "monitored"); } catch (bn_error_t e) { h = vf::mix64(h ^ (u64)e); } break; }
        default: { mine -= y; BN t = std::move(mine); mine = t - x; if (mine.size() > 4000) mine = x; h = digest(mine, h); }
        }
    }
    Mem<BN> prog(s, st, 24); h = vf::mix64(h ^ prog.run());
    return h;
}
template <class BN> std::vector<BN> shared_numbers(Src& s, size_t big) {
    const u64 B = Info<BN>::base(); std::vector<BN> v;
    for (int i = 0; i < NSH; ++i) { Mag m = i < 2 ? gen_mag_len(s, B, (size_t)s.range(0, big)) : gen_mag(s, B, 30); if (s.chance(20)) add_zeros(s, m); v.push_back(make<BN>(s.chance(50), m)); }
    if (s.chance(30)) v[(size_t)s.range(0, NSH - 1)].setDescriptor(BN_POS_INF);
    return v;
}
template <class BN> bool round(u64 seed, int nthreads, const char* type) {
    Src s(seed); const bool big = s.chance(8); const std::vector<BN> sh = shared_numbers<BN>(s, big ? 3000 : 150); const int steps = big ? 8 : 25;
    std::vector<Snap<BN>> before; for (auto& x : sh) before.push_back(Snap<BN>(x));
    std::vector<u64> seq((size_t)nthreads), par((size_t)nthreads), seeds((size_t)nthreads);
    for (int t = 0; t < nthreads; ++t) seeds[(size_t)t] = vf::mix64(seed * 64 + (u64)(s.chance(30) ? 0 : t));    // sometimes the same work
    std::atomic<int> ready(0); std::vector<std::thread> th;
    for (int t = 0; t < nthreads; ++t) th.emplace_back([&, t]() {
        jitter = vf::mix64(seed ^ (u64)t * 77) | 1; ready.fetch_add(1); while (ready.load() < nthreads) sched_yield();
        par[(size_t)t] = work<BN>(sh, seeds[(size_t)t], steps); jitter = 0; });
    for (auto& t : th) t.join();
    for (int t = 0; t < nthreads; ++t) seq[(size_t)t] = work<BN>(sh, seeds[(size_t)t], steps);
    bool ok = true;
    for (int t = 0; t < nthreads; ++t) if (par[(size_t)t] != seq[(size_t)t]) { fprintf(stderr, "MISMATCH %s round %llu: thread %d of %d computed something else than the same work alone\n", type, (unsigned long long)seed, t, nthreads); ok = false; }
    for (size_t i = 0; i < sh.size(); ++i) if (!before[i].same(sh[i])) { fprintf(stderr, "MISMATCH %s round %llu: a shared number changed\n", type, (unsigned long long)seed); ok = false; }
    return ok;
}
static volatile u64 current;
static void dying(int sig) { char b[64]; int n = snprintf(b, sizeof b, "\nCASE %llu\n", (unsigned long long)current); if (write(2, b, (size_t)n)) {} signal(sig, SIG_DFL); raise(sig); }
int main(int argc, char** argv) {
    const u64 seed = strtoull(argv[1], 0, 10), from = strtoull(argv[2], 0, 10), rounds = strtoull(argv[3], 0, 10); const int nt = atoi(argv[4]); (void)argc;
    signal(SIGABRT, dying); signal(SIGSEGV, dying);
    struct NullBuf : std::streambuf { int overflow(int ch) override { return ch; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
    NullBuf* nb = new NullBuf; std::cerr.rdbuf(nb); std::cout.rdbuf(nb);
#ifdef VF_TSAN
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
#endif
    bool ok = true;
    for (u64 r = from; r < from + rounds && ok; ++r) {
        current = r; const u64 sd = vf::mix64(seed * 10007 + r); const int t = (int)(r % VF_NTYPES);
        VF_DISPATCH(t, ok = round<BN>(sd, nt, TypeName<BN>::get()));
    }
    int pairs = 0; for (auto& a : seen) for (auto& b : a) pairs += b.load();
    if (!ok) { fprintf(stderr, "CASE %llu\n", (unsigned long long)current); return 1; }
    printf("CASES %llu\nDISTINCT %llu\nOP\tthread runs compared with a sequential run\t%llu\nOP\toperations overlapping on one shared number\t%llu\nOP\tdistinct operation pairs seen overlapping (of %d)\t%d\n", (unsigned long long)rounds, (unsigned long long)rounds, (unsigned long long)rounds * (u64)nt, (unsigned long long)overlaps.load(), NOP * NOP, pairs);
    return 0;
}
