// C14: checked indexing, runtime assertions of every level. Output is captured at the file descriptors.
#define VF_DEFINE_BASES
#include "ext.h"
#include "bignum/bn_except.h"

// captures everything written to stdout and stderr while alive
struct Capture {
    static int& fd() { static int f = -1; if (f < 0) f = memfd_create("vf", 0); return f; }
    int o1, o2;
    std::string text;
    Capture() { std::cout.flush(); std::cerr.flush(); std::clog.flush(); fflush(stdout); fflush(stderr); if (ftruncate(fd(), 0) || lseek(fd(), 0, SEEK_SET)) {} o1 = dup(1); o2 = dup(2); dup2(fd(), 1); dup2(fd(), 2); }
    const std::string& stop() {
        if (o1 < 0) return text;
        std::cout.flush(); std::cerr.flush(); std::clog.flush(); fflush(stdout); fflush(stderr);
        dup2(o1, 1); dup2(o2, 2); close(o1); close(o2); o1 = -1;
        long n = lseek(fd(), 0, SEEK_END); text.resize((size_t)std::max<long>(n, 0)); if (n > 0 && pread(fd(), &text[0], (size_t)n, 0) != n) text = "?";
        return text;
    }
    ~Capture() { stop(); }
};
enum Thrown { NOTHING, LIBRARY, OTHER };
template <class F> Thrown guarded(F f) { try { f(); } catch (bn_error_t) { return LIBRARY; } catch (...) { return OTHER; } return NOTHING; }
static const char* TN[] = {"nothing", "the library's error", "something else"};

inline size_t position(Src& s, size_t n, size_t cap, size_t w) {
    size_t p = 0; (void)w;
    switch (s.range(0, 11)) {
    case 0: p = n; break; case 1: p = n + 1; break; case 2: p = n + (size_t)s.range(0, 40); break; case 3: p = ~(size_t)0; break; case 4: p = ~(size_t)0 - (size_t)s.range(0, 20); break;
    case 5: p = ((size_t)1 << s.range(0, 63)) + (size_t)s.range(0, 2); break; case 6: p = ((size_t)1 << 63) + (size_t)s.range(0, n + 4); break; case 7: p = ((size_t)1 << 32) + (size_t)s.range(0, n + 4); break;
    case 8: p = ~(size_t)0 / (w ? w : 1) + (size_t)s.range(0, n + 2); break; case 9: p = cap ? (size_t)s.range(0, cap) : 0; break; case 10: p = (size_t)s.next(); break; default: p = 0 - n;
    }
    return p;
}
template <class BN> void index_one(Src& s, Ctx& c, int t, size_t maxlen) {
    typedef typename Info<BN>::digit D; typedef typename std::conditional<std::is_integral<D>::value, D, u64>::type U;
    const u64 B = Info<BN>::base(); const std::string T = TypeName<BN>::get();
    Mag m = gen_mag(s, B, maxlen); if (s.chance(20)) add_zeros(s, m);
    BN n = make<BN>(s.chance(50), m);
    if (s.chance(40)) n.numData.reserve(m.size() + (size_t)s.range(1, 50));
    if (s.chance(30) && m.size()) { size_t k = (size_t)s.range(0, m.size()); while (m.size() > k) { m.pop_back(); n.numData.pop_back(); } }   // old digits remain beyond the end
    if (s.chance(6)) { n.setDescriptor((bn_desc_t)s.range(2, 4)); m.clear(); }
    const int desc = n.descriptor;
    u64 h = hash_mag((u64)t + 5, m);
    auto state_ok = [&](const std::string& what) { if (n.descriptor == desc && raw(n.numData) == m) return true; c.violation("index|state", T + ": " + what + " left the state " + show(n) + ", expected " + ref::str(m)); return false; };
    for (int k = 0; k < 6; ++k) {
        size_t p = s.chance(45) && m.size() ? (size_t)s.range(0, m.size() - 1) : position(s, m.size(), n.numData.capacity(), sizeof(D));
        const bool in = p < m.size(); const int how = (int)s.range(0, 2); u64 got = 0; const u64 v = s.range(0, B - 1);
        const BN& cn = n; Thrown th; std::string out;
        std::string what = std::string(how == 0 ? "reading (const)" : how == 1 ? "reading" : "writing") + " position " + std::to_string(p) + " of " + std::to_string(m.size());
        if (vf::verbose()) c.describe(T + ": " + what);
        {
            Capture cap;
            th = guarded([&] { if (how == 0) got = (u64)cn[p]; else if (how == 1) got = (u64)n[p]; else n[p] = D((U)v); });
            out = cap.stop();
        }
        c.eval(); c.count(in ? "valid positions" : "invalid positions"); h = vf::mix64(h ^ p);
        if (in) {
            if (th != NOTHING) { c.violation("index|valid", T + ": " + what + " threw " + TN[th]); return; }
            if (!out.empty()) { c.violation("index|valid", T + ": " + what + " printed " + out); return; }
            if (how == 2) m[p] = v; else if (got != m[p]) { c.violation("index|digit", T + ": " + what + " gives " + std::to_string(got) + ", digit is " + std::to_string(m[p])); return; }
            if (how == 1 && (void*)&n[p] != (void*)&n.numData[p]) { c.violation("index|digit", T + ": " + what + " refers to another digit"); return; }
        } else if (th != LIBRARY) { c.violation("index|invalid", T + ": " + what + " threw " + TN[th]); return; }
        if (!state_ok(what)) return;
    }
    // still usable
    BN copy(n), one = make<BN>(false, Mag(1, 1)); Ext e = xadd(observe(n), observe(one), B); copy += one;
    if (!denotes(copy, e)) c.violation("index|usable", T + ": after rejected indexing " + show(n) + " + 1 gives " + show(copy));
    copy = n; if (s.chance(50)) n.push_back(D((U)1)); else n.clear();
    c.nontrivial(h); if (c.index % 7001 == 9) c.sample(T + ": positions valid and invalid of a number with " + std::to_string(m.size()) + " digits");
}

static const char* LV[] = {"alert", "warning", "error"};
static void judge(Ctx& c, const std::string& what, bool cond, int level, const std::string& msg, Thrown th, const std::string& out) {
    c.eval(); c.count(std::string(LV[level]) + (cond ? " holding" : " failing"));
    if (cond) { if (th != NOTHING || !out.empty()) c.violation("assert|holding", what + ": a holding assertion threw " + TN[th] + " and printed '" + out + "'"); return; }
    if (th != (level == 2 ? LIBRARY : NOTHING)) c.violation("assert|throw", what + ": threw " + TN[th]);
    if (out.find(msg) == std::string::npos || out.empty()) c.violation("assert|report", what + ": message '" + msg.substr(0, 200) + "' is not in the output '" + out.substr(0, 400) + "'");
}
static void runtime(Src& s, Ctx& c) {
    static const char* M[] = {"", "a", "Assertion failed", "100% of %s %n %d %%", "line one\nline two", "\ttab and \"quotes\" \\", "\xc3\xa9\xff", "ERROR: nested"};
    std::string msg = s.chance(60) ? std::string(M[s.range(0, 7)]) : std::string();
    if (s.chance(50)) { size_t n = (size_t)s.range(0, s.chance(10) ? 5000 : 60); for (size_t i = 0; i < n; ++i) msg += (char)s.range(32, 126); }
    const int level = (int)s.range(0, 2); const bool cond = s.chance(35); const int reps = (int)s.range(1, 3);
    for (int r = 0; r < reps; ++r) {
        Thrown th; std::string out;
        if (vf::verbose()) c.describe("bn_runtime_assert " + std::string(LV[level]) + " '" + msg + "'");
        { Capture cap; th = guarded([&] { bn_runtime_assert(cond, (bn_error_t)level, msg.c_str()); }); out = cap.stop(); }
        judge(c, std::string("bn_runtime_assert(") + (cond ? "true" : "false") + ", " + LV[level] + ")", cond, level, msg, th, out);
    }
    u64 h = (u64)level * 2 + cond; for (char ch : msg) h = vf::mix64(h ^ (u64)(unsigned char)ch); c.nontrivial(h);
    if (c.index % 4001 == 7) c.sample(std::string(LV[level]) + " '" + msg.substr(0, 80) + "'");
}
static void macros(Src& s, Ctx& c) {
    const int x = (int)s.range(0, 9), lim = (int)s.range(0, 9), level = (int)s.range(0, 2); int evaluated = 0; Thrown th; std::string out;
    { Capture cap;
      th = guarded([&] { if (level == 2) BN_ASSERT((++evaluated, x < lim)); else if (level == 1) BN_WARN((++evaluated, x < lim)); else BN_ALERT((++evaluated, x < lim)); });
      out = cap.stop(); }
    judge(c, std::string("macro ") + LV[level], x < lim, level, "x < lim", th, out);
    if (evaluated != 1) c.violation("assert|macro", std::string("macro ") + LV[level] + " evaluated its condition " + std::to_string(evaluated) + " times");
    c.nontrivial(vf::mix64(77 + (u64)(x * 100 + lim * 10 + level)));
}
void vf::setup() {
    random_workload("index", 40000, 800000, [](Src& s, Ctx& c) { int t = (int)s.range(0, VF_NTYPES - 1); VF_DISPATCH(t, index_one<BN>(s, c, t, 60)); });
    random_workload("index-long", 2000, 40000, [](Src& s, Ctx& c) { int t = (int)s.range(0, VF_NTYPES - 1); VF_DISPATCH(t, index_one<BN>(s, c, t, 5000)); });
#ifndef VF_NO_HUGE
    random_workload("index-huge", 900, 20000, [](Src& s, Ctx& c) { int t = (int)s.range(0, VF_NTYPES - 1); VF_DISPATCH(t, index_one<BN>(s, c, t, 140000)); });
#endif
    random_workload("runtime", 40000, 800000, [](Src& s, Ctx& c) { runtime(s, c); });
    random_workload("macros", 4000, 40000, [](Src& s, Ctx& c) { macros(s, c); });
}
