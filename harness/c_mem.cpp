// C10: sharded driver with an allocation balance.
#define VF_DEFINE_BASES
#define VF_ALLOC_IMPL
#include "prog.h"
#include "alloc.h"
#include <iostream>
#include <pthread.h>
struct NullBuf : std::streambuf { int overflow(int ch) override { return ch; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
template <class BN> void program(Src& s, Ctx& c, int t, size_t maxlen) {
    MemStats st; u64 sum; c.describe(std::string("a program over ") + TypeName<BN>::get() + ", case " + std::to_string(c.index));
    const long l0 = va::live;
    { va::Scope sc; Mem<BN> m(s, st, maxlen); sum = m.run(); }
    const long l1 = va::live; c.eval();
    if (l1 != l0) c.violation("mem|leak", std::string(TypeName<BN>::get()) + ": " + std::to_string(l1 - l0) + " blocks are still allocated after every object of the program is gone (" + c.wl + " case " + std::to_string(c.index) + ")");
    for (int i = 0; i < 21; ++i) if (st.ops[i]) c.count(MEM_OPS[i], st.ops[i]);
    c.nontrivial(sum ^ vf::mix64((u64)t)); if (c.index % 4999 == 1) c.sample(std::string(TypeName<BN>::get()) + " program " + c.wl + ":" + std::to_string(c.index) + " state digest " + std::to_string(sum));
}
// Very long numbers on a thread whose stack has room for a bounded number of frames, not for one per digit.
struct Call { const std::function<void()>* f; };
static void* call(void* p) { (*static_cast<Call*>(p)->f)(); return nullptr; }
static void on_small_stack(const std::function<void()>& f) {
    Call c = {&f}; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 512 << 10);
    pthread_t th; if (pthread_create(&th, &at, call, &c)) { f(); return; }
    pthread_join(th, nullptr); pthread_attr_destroy(&at);
}
template <class BN> void deep(Src& s, Ctx& c, int t) {
    typedef typename Info<BN>::digit D; typedef typename Info<BN>::container C; typedef typename Info<BN>::limits L;
    const u64 B = Info<BN>::base(); const size_t n = (size_t)s.range(60000, 200000); const int kind = (int)s.range(0, 6); const u64 salt = s.next();
    c.describe(std::string("numbers of ") + std::to_string(n) + " digits, kind " + std::to_string(kind) + ", over " + TypeName<BN>::get() + ", case " + std::to_string(c.index));
    u64 sum = 0;
    on_small_stack([&]() {
        Mag m(n), k(1, 1);
        for (size_t i = 0; i < n; ++i) m[i] = kind <= 1 ? B - 1 : kind == 2 ? (i + 1 == n ? 1 : 0) : kind == 3 ? 0 : vf::mix64(salt + i) % B;
        if (kind == 1) k = m; if (kind == 4) { k = m; k[0] = k[0] ? k[0] - 1 : 1; } if (kind == 5) { k = m; k.resize(n / 2); } if (kind == 6) { m.resize(n / 2); m.resize(n, 0); k = m; k.resize(n / 3); }
        BN a = make<BN>(salt & 1, m), b = make<BN>((salt >> 1) & 1, k);
        for (int r = 0; r < 2; ++r) {
            sum = vf::mix64(sum ^ (u64)((a == b) + 2 * (a != b) + 4 * (a < b) + 8 * (a <= b) + 16 * (a > b) + 32 * (a >= b)));
            BN x = a + b, y = a - b, z; z = x; z -= y; z += a; sum = vf::mix64(sum ^ x.size() ^ y.size() * 3 ^ z.size() * 5); BN w(std::move(z)); z = b - a; w = std::move(x);
            C u = a.numData, v = b.numData; if (abs_val_is_lt<C>(u, v)) u.swap(v); abs_val_add<L, C>(u, v); abs_val_sub<L, C>(u, v); abs_val_add<L, C>(v, u); sum = vf::mix64(sum ^ u.size() ^ v.size());
            w.resize(n + 5, (D)0); w.push_back((D)1); w.pop_front(); w.push((D)1, n / 2); w.pop(n / 3); y = w - w; sum = vf::mix64(sum ^ y.size());
            if (r == 0) { std::ostringstream o; o << a; sum = vf::mix64(sum ^ o.str().size()); BN one = make<BN>(false, Mag(1, B > 2 ? 2 : 1)); x = a * one; sum = vf::mix64(sum ^ x.size()); BN q(a); q /= a; q = b / w; sum = vf::mix64(sum ^ q.size()); }
            a.setDescriptor(a.isNegative() ? BN_POS : BN_NEG);
        }
    });
    c.eval(); c.count("long operands on a small stack"); c.nontrivial(sum ^ vf::mix64((u64)t + salt));
}
void vf::setup() {
    NullBuf* nb = new NullBuf; std::cerr.rdbuf(nb); std::cout.rdbuf(nb);
    { std::ostringstream o; o << 1.5 << 7; }   // locale facets allocate once
    random_workload("small", 120000, 3000000, [](Src& s, Ctx& c) { int t = (int)s.range(0, VF_NTYPES - 1); VF_DISPATCH(t, program<BN>(s, c, t, 8)); });
    random_workload("medium", 30000, 800000, [](Src& s, Ctx& c) { int t = (int)s.range(0, VF_NTYPES - 1); VF_DISPATCH(t, program<BN>(s, c, t, 140)); });
    random_workload("deep", 96, 800, [](Src& s, Ctx& c) { int t = (int)s.range(0, VF_NTYPES - 1); VF_DISPATCH(t, deep<BN>(s, c, t)); });
    workloads().back().slow = true;
    random_workload("large", 1200, 20000, [](Src& s, Ctx& c) { int t = (int)s.range(0, VF_NTYPES - 1); VF_DISPATCH(t, program<BN>(s, c, t, 3000)); });
}
