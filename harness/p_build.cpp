// C21: one workload for many builds. Writes a digest of everything observable per program, to be compared across builds.
//   p_build SEED FROM COUNT OUTFILE [show]
#define VF_DEFINE_BASES
#define main vf_driver_main_unused
#include "prog.h"
#undef main
#include "bignum/bn_except.h"
#include <iostream>
#include <fstream>
void vf::setup() {}
static volatile u64 current; static bool show_it = false;
static void dying(int sig) { char b[64]; int n = snprintf(b, sizeof b, "\nVFVIOL key=build|crash desc=signal %d in program %llu\n", sig, (unsigned long long)current); if (write(1, b, (size_t)n)) {} signal(sig, SIG_DFL); raise(sig); }
static void viol(const std::string& key, const std::string& d) { printf("VFVIOL key=%s desc=program %llu: %s\n", key.c_str(), (unsigned long long)current, d.c_str()); fflush(stdout); }
static u64 n_under, n_valid, n_long, n_print, n_prog;

// A calculation whose printed results, comparisons and intermediate states all enter the digest.
template <class BN> u64 calculation(Src& s, size_t maxlen) {
    const u64 B = Info<BN>::base(); u64 h = B; std::vector<BN> p;
    for (int i = 0; i < 3; ++i) { Mag m = gen_mag(s, B, maxlen); if (s.chance(10)) add_zeros(s, m); p.push_back(make<BN>(s.chance(45), m)); }
    const int steps = (int)s.range(1, 12);
    for (int i = 0; i < steps; ++i) {
        BN &a = p[(size_t)s.range(0, 2)], &b = p[(size_t)s.range(0, 2)], &d = p[(size_t)s.range(0, 2)]; int op = (int)s.range(0, 3);
        const size_t ua = used(a.numData), ub = used(b.numData); double bits = 0; for (u64 v = B - 1; v; v >>= 1) ++bits;
        if (op == 3) { const double q = (double)(ua + 1 - std::min(ua, ub)) * bits; if (q * q * (double)(ua + 4) > 60000) op = 0; }
        if (op == 2 && ua + ub > 6 * maxlen) op = 1;
        if (s.chance(50)) { switch (op) { case 0: a += b; break; case 1: a -= b; break; case 2: a *= b; break; default: a /= b; } h = vf::mix64(h ^ (u64)a.descriptor); for (const auto& x : a.numData) h = vf::mix64(h ^ (u64)x); }
        else { switch (op) { case 0: d = a + b; break; case 1: d = a - b; break; case 2: d = a * b; break; default: d = a / b; } h = vf::mix64(h ^ (u64)d.descriptor); for (const auto& x : d.numData) h = vf::mix64(h ^ (u64)x); }
        h = vf::mix64(h ^ (u64)((a == b) + 2 * (a != d) + 4 * (a < b) + 8 * (b <= d) + 16 * (a > d) + 32 * (d >= b)));
        if (show_it) printf("  step %d op %d -> %s | %s | %s\n", i, op, show(p[0]).c_str(), show(p[1]).c_str(), show(p[2]).c_str());
    }
    std::ostringstream o; for (const auto& x : p) o << x << ' '; ++n_print; const std::string t = o.str();
    if (show_it) printf("  printed %s\n", t.c_str());
    for (char ch : t) h = vf::mix64(h ^ (u64)(unsigned char)ch);
    return h;
}
// long products, where rounding inside the transform could depend on the build
template <class BN> u64 long_product(Src& s) {
    const u64 B = Info<BN>::base(); ++n_long; const size_t la = (size_t)s.range(300, 9000), lb = s.chance(50) ? la : (size_t)s.range(300, 9000);
    const size_t cut = B > 70000 ? 8 : 1; const bool neg = s.chance(50); const Mag x0 = gen_mag_len(s, B, la / cut), y0 = gen_mag_len(s, B, lb / cut);
    BN a = make<BN>(neg, x0), b = make<BN>(false, y0); BN r = a * b; u64 h = r.size(); for (const auto& x : r.numData) h = vf::mix64(h ^ (u64)x);
    if (show_it) printf("  product %s\n", show(r).c_str());
    return h;
}
template <class BN> void underflow(Src& s) {
    typedef typename Info<BN>::limits L; typedef typename Info<BN>::container C; const u64 B = Info<BN>::base();
    Pair p = gen_pair(s, B, 24, 40); const int q = ref::cmp(ref::normed(p.a), ref::normed(p.b));
    if (q < 0) std::swap(p.a, p.b);                       // a >= b
    C a, b; load(a, p.a); load(b, p.b); const std::string d = std::string(TypeName<BN>::get()) + ": " + ref::str(p.a) + " and " + ref::str(p.b);
    try { C x(a); abs_val_sub<L, C>(x, b); ++n_valid; if (ref::normed(raw(x)) != ref::sub(ref::normed(p.a), ref::normed(p.b), B)) viol("build|difference", d + ": the primitive gives " + ref::str(raw(x))); }
    catch (const std::exception& e) { viol("build|debug-error", d + ": subtracting the smaller from the larger raises " + e.what()); }
#ifdef BN_DEBUG
    if (q == 0) return;
    bool thrown = false; ++n_under;
    try { abs_val_sub<L, C>(b, a); }
    catch (const BNUnderflow& e) { thrown = true; if (!e.what() || !*e.what()) viol("build|underflow", d + ": the exception carries no text"); }
    catch (const std::exception& e) { viol("build|underflow", d + ": another exception: " + e.what()); return; }
    if (!thrown) { viol("build|underflow", d + ": subtracting the larger from the smaller raised nothing"); return; }
    if (raw(a) != p.a || raw(b) != p.b) viol("build|underflow-state", d + ": the operands changed although the underflow was raised");
#endif
}
int main(int argc, char** argv) {
    if (argc < 5) return 96;
    const u64 seed = strtoull(argv[1], 0, 10), from = strtoull(argv[2], 0, 10), count = strtoull(argv[3], 0, 10); FILE* out = fopen(argv[4], "wb"); show_it = argc > 5; if (!out) return 97;
    signal(SIGABRT, dying); signal(SIGSEGV, dying); signal(SIGFPE, dying); signal(SIGILL, dying);
    struct NullBuf : std::streambuf { int overflow(int ch) override { return ch; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
    NullBuf* nb = new NullBuf; std::cerr.rdbuf(nb); std::cout.rdbuf(nb);
    MemStats st; static const size_t LEN[] = {4, 8, 12, 40, 40, 140, 8, 400};
    for (u64 i = from; i < from + count; ++i) {
        current = i; Src s(vf::mix64(seed * 1000003 + i)); const int t = (int)(s.range(0, VF_NTYPES - 1)); u64 r = 0; ++n_prog;
        try {
            if (i % 97 == 7) { VF_DISPATCH(t, r = long_product<BN>(s)); }
            else if (i % 3 == 0) { VF_DISPATCH(t, r = calculation<BN>(s, LEN[i % 8])); }
            else if (i % 3 == 1) { VF_DISPATCH(t, { Mem<BN> m(s, st, LEN[i % 7]); r = m.run(); if (show_it) for (auto& x : m.p) printf("  ends with %s\n", show(x).c_str()); }); }
            else { VF_DISPATCH(t, underflow<BN>(s)); }
        } catch (const std::exception& e) { viol("build|exception", std::string("valid operations raised ") + e.what()); r = 1; }
        catch (...) { viol("build|exception", "valid operations raised an error"); r = 1; }
        if (show_it) printf("program %llu digest %016llx\n", (unsigned long long)i, (unsigned long long)r);
        fwrite(&r, 8, 1, out);
    }
    fclose(out);
    printf("CASES %llu\nOP\tprograms\t%llu\nOP\tlong products\t%llu\nOP\tnumbers printed at the end of calculations\t%llu\nOP\tvalid subtractions through the primitive\t%llu\nOP\tunderflows provoked\t%llu\n", (unsigned long long)count, (unsigned long long)n_prog, (unsigned long long)n_long, (unsigned long long)(3 * n_print), (unsigned long long)n_valid, (unsigned long long)n_under);
    for (int i = 0; i < 21; ++i) if (st.ops[i]) printf("OP\t%s\t%llu\n", MEM_OPS[i], (unsigned long long)st.ops[i]);
    return 0;
}
