// C18: Fourier primitives against a direct transform in extended precision.
#define VF_DEFINE_BASES
#include "ext.h"
#include "bignum/fourier.h"
#include <cmath>
#include <complex>
#include <limits>

typedef std::complex<long double> LC;
typedef std::vector<LC> Sig;
static const std::vector<LC>& roots(size_t n) {      // exp(-2 pi i k / n)
    static std::map<size_t, std::vector<LC>> m; auto& r = m[n];
    if (r.empty() && n) { r.resize(n); for (size_t k = 0; k < n; ++k) { const long double a = -2.0L * 3.141592653589793238462643383279502884L * (long double)k / (long double)n; r[k] = LC(cosl(a), sinl(a)); } }
    return r;
}
static LC dft_at(const Sig& x, size_t k, bool inverse) {
    const size_t n = x.size(); const auto& w = roots(n); LC s = 0; size_t j = 0;
    for (size_t i = 0; i < n; ++i) { s += x[i] * (inverse ? std::conj(w[j]) : w[j]); j += k; if (j >= n) j -= n; }
    return inverse ? s / (long double)n : s;
}
static LC conv_at(const std::vector<long double>& a, const std::vector<long double>& b, size_t k) {
    const size_t n = a.size(); long double s = 0;
    for (size_t i = 0; i < n; ++i) s += a[i] * b[(k + n - i) & (n - 1)];
    return LC(s, 0);
}
static long double norm2(const Sig& x) { long double s = 0; for (auto& v : x) s += std::norm(v); return sqrtl(s); }
static int lg(size_t n) { int k = 0; while (((size_t)1 << k) < n) ++k; return k; }
template <class F> Sig up(const cmplx_list_t<F>& x) { Sig r; r.reserve(x.size()); for (auto& v : x) r.push_back(LC((long double)v.real(), (long double)v.imag())); return r; }
// measured error of the unchanged code stays below about 1.2 eps log2(2n) times the norm; the margin is for other correct implementations
static const long double MARGIN = 16;
template <class F> bool within(Ctx& c, const char* what, const std::string& desc, size_t n, size_t k, const LC& got, const LC& want, long double scale) {
    c.eval();
    const long double tol = MARGIN * (long double)std::numeric_limits<F>::epsilon() * (lg(n) + 1) * (scale + std::abs(want)) + (long double)std::numeric_limits<F>::min() * (long double)n;
    const long double err = std::abs(got - want);
    if (err <= tol) { static const bool report = getenv("VF_RATIO") != nullptr; static long double worst = 0; if (report && tol > 0 && err / tol * MARGIN > worst) { worst = err / tol * MARGIN; fprintf(stderr, "%s n=%zu ratio %Lg\n", what, n, worst); } return true; }
    std::ostringstream o; o << (sizeof(F) == 4 ? "float" : "double") << " length " << n << " " << desc << ": " << what << " at " << k << " gives " << (double)got.real() << (got.imag() < 0 ? "" : "+") << (double)got.imag() << "i, expected " << (double)want.real() << (want.imag() < 0 ? "" : "+") << (double)want.imag() << "i, error " << (double)err << " above " << (double)tol;
    c.violation(std::string("fft|") + what, o.str()); return false;
}
static std::vector<size_t> spots(Src& s, size_t n, size_t full, size_t some) {
    std::vector<size_t> v;
    if (n <= full) { for (size_t i = 0; i < n; ++i) v.push_back(i); return v; }
    v = {0, 1, n / 2, n - 1, n / 4, 3 * n / 4};
    while (v.size() < some) v.push_back((size_t)s.range(0, n - 1));
    return v;
}
static const char* const PAT[] = {"random", "impulse", "constant", "alternating", "sparse", "one frequency", "random real", "large and small", "digits", "zeros"};
template <class F> cmplx_list_t<F> signal(Src& s, size_t n, int pat) {
    cmplx_list_t<F> x(n); Src r(s.next()); auto u = [&] { return (F)((double)(r.next() >> 11) / 9007199254740992.0 * 2 - 1); };
    const F amp = (F)std::pow(10.0, (double)s.range(0, 12) - 6); const size_t p = n ? (size_t)s.range(0, n - 1) : 0; const F cr = u(), ci = u();
    for (size_t i = 0; i < n; ++i) switch (pat) {
        case 0: x[i] = std::complex<F>(u() * amp, u() * amp); break; case 1: x[i] = i == p ? std::complex<F>(amp * cr, amp * ci) : std::complex<F>(0, 0); break; case 2: x[i] = std::complex<F>(amp * cr, amp * ci); break;
        case 3: x[i] = std::complex<F>(i & 1 ? -amp : amp, 0); break; case 4: x[i] = r.chance(5) ? std::complex<F>(u(), u()) : std::complex<F>(0, 0); break;
        case 5: { const long double a = 2.0L * 3.141592653589793238462643383279502884L * (long double)(i * p % n) / (long double)n; x[i] = std::complex<F>((F)cosl(a), (F)sinl(a)); break; }
        case 6: x[i] = std::complex<F>(u() * amp, 0); break; case 7: x[i] = std::complex<F>(r.chance(10) ? u() * (F)1e6 : u(), r.chance(10) ? u() * (F)1e6 : u()); break;
        case 8: x[i] = std::complex<F>((F)r.range(0, 255), (F)r.range(0, 255)); break; default: x[i] = 0; }
    return x;
}
template <class F> u64 hash_sig(u64 h, const cmplx_list_t<F>& x) { for (auto& v : x) { double a = (double)v.real(), b = (double)v.imag(); u64 p, q; memcpy(&p, &a, 8); memcpy(&q, &b, 8); h = vf::mix64(vf::mix64(h ^ p) ^ q); } return vf::mix64(h ^ x.size()); }
template <class F> void transform(Src& s, Ctx& c, size_t n) {
    const int pat = (int)s.range(0, 9); const cmplx_list_t<F> x = signal<F>(s, n, pat); const std::string d = std::string(PAT[pat]) + " signal";
    if (vf::verbose()) c.describe(d + " of length " + std::to_string(n));
    const Sig X = up(x); const long double nx = norm2(X); const std::vector<size_t> at = spots(s, n, 256, 24);
    cmplx_list_t<F> f(x); fft_complex<F>(f);
    if (f.size() != n) { c.violation("fft|length", "forward transform of length " + std::to_string(n) + " has length " + std::to_string(f.size())); return; }
    for (size_t k : at) if (!within<F>(c, "forward transform", d, n, k, LC(f[k].real(), f[k].imag()), dft_at(X, k, false), nx)) return;
    long double e2 = 0, f2 = 0; for (auto& v : f) f2 += (long double)v.real() * v.real() + (long double)v.imag() * v.imag();
    e2 = std::abs(sqrtl(f2) - sqrtl((long double)n) * nx); c.eval();           // energy is conserved, over all positions
    if (e2 > MARGIN * std::numeric_limits<F>::epsilon() * (lg(n) + 1) * sqrtl((long double)n) * nx + std::numeric_limits<F>::min() * (long double)n) { c.violation("fft|energy", d + " of length " + std::to_string(n) + ": the transform does not conserve energy"); return; }
    cmplx_list_t<F> b(f); ifft_complex<F>(b);
    if (b.size() != n) { c.violation("fft|length", "inverse transform of length " + std::to_string(n) + " has length " + std::to_string(b.size())); return; }
    for (size_t k = 0; k < n; ++k) if (!within<F>(c, "inverse of forward", d, n, k, LC(b[k].real(), b[k].imag()), X[k], 2 * nx)) return;
    cmplx_list_t<F> i(x); ifft_complex<F>(i);
    for (size_t k : at) if (!within<F>(c, "inverse transform", d, n, k, LC(i[k].real(), i[k].imag()), dft_at(X, k, true), nx / (long double)n * 1)) return;
    fft_complex<F>(i);
    for (size_t k = 0; k < n; ++k) if (!within<F>(c, "forward of inverse", d, n, k, LC(i[k].real(), i[k].imag()), X[k], 2 * nx)) return;
    if (n > 1 && pat != 9) c.nontrivial(hash_sig<F>((u64)sizeof(F), x));
    c.count(std::string(sizeof(F) == 4 ? "float" : "double") + " transforms, length " + len_bucket(n));
}
template <class F> void convolve(Src& s, Ctx& c, size_t n) {
    const int pat = (int)s.range(0, 8); cmplx_list_t<F> z = signal<F>(s, n, pat); const std::string d = std::string(PAT[pat]) + " signals";
    if (vf::verbose()) c.describe("convolution of " + d + " of length " + std::to_string(n));
    std::vector<long double> a, b; long double na = 0, nb = 0; for (auto& v : z) { a.push_back(v.real()); b.push_back(v.imag()); na += a.back() * a.back(); nb += b.back() * b.back(); }
    const u64 h = hash_sig<F>((u64)sizeof(F) + 50, z);
    convolute_fft<F>(z);
    if (z.size() != n) { c.violation("fft|length", "convolution of length " + std::to_string(n) + " has length " + std::to_string(z.size())); return; }
    ifft_complex<F>(z);
    for (size_t k : spots(s, n, 256, 24)) if (!within<F>(c, "cyclic convolution", d, n, k, LC(z[k].real(), z[k].imag()), conv_at(a, b, k), na + nb)) return;
    if (n > 1) c.nontrivial(h);
    c.count(std::string(sizeof(F) == 4 ? "float" : "double") + " convolutions, length " + len_bucket(n));
}
template <class F, class C> void table_of(Ctx& c, u64 B, const char* kind, const Mag& a, const Mag& b);
template <class F, class C> void table(Src& s, Ctx& c, u64 B, const char* kind, size_t maxlen) {
    const Mag a = gen_mag_len(s, B, gen_len(s, maxlen)), b = s.chance(20) ? gen_mag_len(s, B, a.size()) : gen_mag_len(s, B, gen_len(s, maxlen));
    table_of<F, C>(c, B, kind, a, b);
}
// lengths whose sum is next to a power of two
template <class F, class C> void table_edge(Ctx& c, u64 B, const char* kind, int k, int delta, int split) {
    const size_t n = (size_t)(((long long)1 << k) + delta); if (delta < 0 && k == 0) return;
    size_t p = split == 0 ? 0 : split == 1 ? 1 : split == 2 ? n / 2 : split == 3 ? n - n / 3 : n; if (p > n) p = n;
    Src s(vf::case_seed("table edges", (u64)(k * 64 + (delta + 2) * 5 + split)));
    table_of<F, C>(c, B, kind, gen_mag_len(s, B, p), gen_mag_len(s, B, n - p)); c.count("tables with a total length next to a power of two");
}
template <class F, class C> void table_of(Ctx& c, u64 B, const char* kind, const Mag& a, const Mag& b) {
    C ca, cb; load(ca, a); load(cb, b);
    const std::string d = std::string(kind) + " sequences of " + std::to_string(a.size()) + " and " + std::to_string(b.size()) + " digits";
    if (vf::verbose()) c.describe("table of " + d);
    const cmplx_list_t<F> t = create_fft_table<C, F>(ca, cb); c.eval();
    size_t n = a.size() + b.size(); if (n) { size_t p = 1; while (p < n) p *= 2; n = p; }
    if (t.size() != n) { c.violation("fft|table length", "table of " + d + " has length " + std::to_string(t.size()) + ", expected " + std::to_string(n)); return; }
    for (size_t i = 0; i < n; ++i) if (t[i].real() != (F)(i < a.size() ? a[i] : 0) || t[i].imag() != (F)(i < b.size() ? b[i] : 0)) { c.violation("fft|table", "table of " + d + ": entry " + std::to_string(i) + " is " + std::to_string((double)t[i].real()) + "," + std::to_string((double)t[i].imag())); return; }
    if (raw(ca) != a || raw(cb) != b) { c.violation("fft|table input", "table of " + d + ": an input changed"); return; }
    c.count("tables"); if (n > 1) c.nontrivial(hash_mag(hash_mag(B, a), b));
    // the whole chain is the cyclic convolution of the digits, which does not wrap in this length
    if (n && n <= 256 && B <= 256) {
        cmplx_list_t<F> z(t); convolute_fft<F>(z); ifft_complex<F>(z);
        std::vector<long double> x(n, 0), y(n, 0); long double nn = 0; for (size_t i = 0; i < n; ++i) { x[i] = i < a.size() ? a[i] : 0; y[i] = i < b.size() ? b[i] : 0; nn += x[i] * x[i] + y[i] * y[i]; }
        for (size_t k = 0; k < n; ++k) if (!within<F>(c, "digit convolution", d, n, k, LC(z[k].real(), z[k].imag()), conv_at(x, y, k), nn)) return;
        c.count("digit convolutions");
    }
    if (c.index % 2003 == 1) c.sample("table of " + d);
}
template <class F> void tables(Src& s, Ctx& c, size_t maxlen) {
    switch (s.range(0, 5)) { case 0: table<F, std::vector<BN_UINT8>>(s, c, 256, "8-bit", maxlen); break; case 1: table<F, std::vector<BN_UINT16>>(s, c, 65536, "16-bit", maxlen); break; case 2: table<F, std::vector<BN_UINT32>>(s, c, 1ull << 32, "32-bit", maxlen); break;
        case 3: table<F, bignum_base10::container_type>(s, c, 10, "decimal", maxlen); break; case 4: table<F, bignum_base2::container_type>(s, c, 2, "binary", maxlen); break; default: table<F, std::vector<BN_UINT64>>(s, c, 1ull << 32, "64-bit", maxlen); }
}
static size_t length(Src& s, int maxlog) { return s.chance(2) ? 0 : (size_t)1 << s.range(0, (u64)maxlog); }
void vf::setup() {
    systematic("lengths", 2 * 14 * 10, 2 * 14 * 10, [](u64 i, Ctx& c) { Src s(vf::case_seed("lengths", i)); const size_t n = i / 20 == 0 ? 0 : (size_t)1 << (i / 20 - 1); if (i & 1) { transform<float>(s, c, n); convolve<float>(s, c, n); } else { transform<double>(s, c, n); convolve<double>(s, c, n); } });
    systematic("table edges", 20 * 6 * 5, 23 * 6 * 5, [](u64 i, Ctx& c) {
        const int k = (int)(i / 30), delta = (int)(i % 6) - 2, split = (int)(i / 6 % 5);
#ifdef VF_NO_HUGE
        if (k > 13) return;
#endif
        switch ((i / 30 + i) % 4) { case 0: table_edge<float, std::vector<BN_UINT8>>(c, 256, "8-bit", k, delta, split); break; case 1: table_edge<double, std::vector<BN_UINT32>>(c, 1ull << 32, "32-bit", k, delta, split); break;
            case 2: table_edge<double, bignum_base10::container_type>(c, 10, "decimal", k, delta, split); break; default: table_edge<float, std::vector<BN_UINT16>>(c, 65536, "16-bit", k, delta, split); } });
    random_workload("transform", 6000, 120000, [](Src& s, Ctx& c) { const size_t n = length(s, s.chance(20) ? 10 : 6); if (s.chance(50)) transform<float>(s, c, n); else transform<double>(s, c, n); });
    random_workload("convolve", 6000, 120000, [](Src& s, Ctx& c) { const size_t n = length(s, s.chance(20) ? 10 : 6); if (s.chance(50)) convolve<float>(s, c, n); else convolve<double>(s, c, n); });
    random_workload("table", 20000, 400000, [](Src& s, Ctx& c) { if (s.chance(50)) tables<float>(s, c, 200); else tables<double>(s, c, 200); });
    random_workload("long", 60, 2000, [](Src& s, Ctx& c) { const size_t n = (size_t)1 << s.range(11, s.fuzz() ? 11 : 17); switch (s.range(0, 3)) { case 0: transform<float>(s, c, n); break; case 1: transform<double>(s, c, n); break; case 2: convolve<double>(s, c, n); break; default: tables<double>(s, c, 20000); } });
}
