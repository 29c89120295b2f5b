// C20: work, allocations, memory and result sizes of every operation stay within their bounds.
#define VF_DEFINE_BASES
#define VF_ALLOC_IMPL
#include "ext.h"
#include "cost.h"
#include <ostream>

struct Sink : std::streambuf { u64 n = 0; int overflow(int ch) override { ++n; return ch == EOF ? 0 : ch; } std::streamsize xsputn(const char*, std::streamsize k) override { n += (u64)k; return k; } };
static Sink* sink; static std::ostream* out;

enum Op { ADD, SUB, MUL, DIV, CMP, COPY, MOVE, PRINT, EDIT, PADD, PSUB, PNAIVE, PFFT, PDIV, PCMP, NOPS };
static const char* const OPN[] = {"addition", "subtraction", "multiplication", "division", "comparison", "copy", "move", "printing", "editing", "abs_val_add", "abs_val_sub", "mul_naive", "mul_strassen", "abs_val_div", "magnitude comparison"};

// Everything the bounds depend on: stored lengths (leading zeros included) and the bits of the quotient.
struct Size { double la, lb, D, qbits, qdigits; bool finite; };
static double lg(double n) { double r = 1; while (n > 1) { n /= 2; ++r; } return r; }
static double pow2(double n) { double r = 1; while (r < n) r *= 2; return r; }
struct Bound { double work, allocs, peak; };
static Bound bound(int op, const Size& z) {
    const double n = z.la + z.lb, W = 40 * (n + 8), P = 8 * z.D * (n + 16) + 512;
    switch (op) {
    case MOVE: return {400, 2, 256};
    case CMP: case PCMP: return {16 * (n + 10), 8, P};
    case COPY: return {16 * (n + 10), 12, P};
    case PRINT: return {3 * W, 24 + n, 4 * P};
    case ADD: case SUB: case EDIT: case PADD: case PSUB: return {W, 24 + 2 * lg(n), P};
    case PNAIVE: return {16 * (z.la + 2) * (z.lb + 2) + W, 24 + 2 * lg(n), P};
    case MUL: case PFFT: { const double t = pow2(n + 2), l = lg(t); return {16 * (z.la + 2) * (z.lb + 2) + 100 * t * l, 64 + 16 * t, 800 * (n + 16)}; }
    default: { const double rounds = (z.qbits + 2) * (z.qbits + 2); return {6 * rounds * (z.la + z.lb + z.qdigits + 8), 64 + 6 * rounds, 2 * P + 8 * z.D * z.qdigits}; }
    }
}

template <class BN> bool judge(Ctx& c, int op, const Size& z, const vc::Cost& k, const std::string& d) {
    const Bound b = bound(op, z); const double w = (double)vc::work(k); c.eval();
    c.peak(std::string("worst work, % of bound, ") + OPN[op], (u64)(100 * w / b.work)); c.peak(std::string("worst allocations, % of bound, ") + OPN[op], (u64)(100 * (double)k.allocs / b.allocs)); c.peak(std::string("worst memory, % of bound, ") + OPN[op], (u64)(100 * (double)k.peak / b.peak));
    c.count(std::string("work units seen, ") + OPN[op], vc::work(k));
    const char* what = w > b.work ? "work" : k.allocs > b.allocs ? "allocations" : k.peak > b.peak ? "memory" : nullptr;
    if (!what) return true;
    c.violation(std::string("work|") + what + "|" + OPN[op], d + ": " + OPN[op] + " took " + std::to_string((u64)w) + " units of work (bound " + std::to_string((u64)b.work) + "), " + std::to_string(k.allocs) + " allocations (bound " + std::to_string((u64)b.allocs) + "), " + std::to_string(k.peak) + " bytes of temporary memory (bound " + std::to_string((u64)b.peak) + ")");
    return false;
}

static double bits_of(u64 B) { double b = 0; for (u64 v = B - 1; v; v >>= 1) ++b; return b; }
template <class BN> Size size_of(const BN& a, const BN& b) {
    typedef typename Info<BN>::digit D; Size z; const double bits = bits_of(Info<BN>::base());
    z.la = (double)a.numData.size(); z.lb = (double)b.numData.size(); z.D = sizeof(D); z.finite = finite(a) && finite(b);
    const double ua = (double)used(a.numData), ub = (double)used(b.numData);
    z.qdigits = z.finite && ub > 0 && ua >= ub ? ua - ub + 1 : 0; z.qbits = z.qdigits * bits;
    // two numbers of one length: the quotient is below 2^bits, often 1; the exact bit count keeps the bound sharp
    if (z.qdigits > 0) { const double qa = (double)(u64)a.numData[(size_t)ua - 1], qb = (double)(u64)b.numData[(size_t)ub - 1]; double q = (qa + 1) / qb, e = 1; while (q > 1) { q /= 2; ++e; } z.qbits = std::min(z.qbits, (z.qdigits - 1) * bits + e); }
    return z;
}
template <class BN> bool sized(Ctx& c, const BN& r, const std::string& d, const char* what) {
    c.eval(); const size_t n = r.numData.size(), u = used(r.numData); c.peak("worst digits beyond need", n - u);
    if (n <= u + 2) return true;
    c.violation(std::string("work|size|") + what, d + ": the result of " + what + " holds " + std::to_string(n) + " digits, its value needs " + std::to_string(u)); return false;
}
static const double DIV_COST = 3e6;
// All operations on one pair of numbers. "normal": no leading zeros in a and b.
template <class BN> void all(Ctx& c, const BN& a, const BN& b, bool normal, bool prims, const std::string& d) {
    typedef typename Info<BN>::limits L; typedef typename Info<BN>::container C;
    const Size z = size_of(a, b); const double div_cost = (z.qbits + 2) * (z.qbits + 2) * (z.la + z.lb + 8);
    if (vf::verbose()) c.describe(d);
    for (int op = ADD; op <= DIV; ++op) {
        if (op == DIV && div_cost > DIV_COST) continue;
        if (op == MUL && z.la * z.lb > 3e7) continue;
        c.describe(d + ": " + OPN[op]);
        { BN x(a); vc::escape(&x); if (!judge<BN>(c, op, z, vc::meter([&] { compound(op - ADD, x, b); }), d)) return; if (normal && finite(x) && !sized(c, x, d, OPN[op])) return; }
        { BN* r = nullptr; const vc::Cost k = vc::meter([&] { r = new BN(binary(op - ADD, a, b)); }); const bool good = judge<BN>(c, op, z, k, d + " (binary)") && (!normal || !finite(*r) || sized(c, *r, d + " (binary)", OPN[op])); delete r; if (!good) return; }
        { BN x(a); Size zz = size_of(a, a); if (op != DIV || (zz.qbits + 2) * (zz.qbits + 2) * (2 * zz.la + 8) < DIV_COST) { if (op == MUL && z.la * z.la > 3e7) continue; if (!judge<BN>(c, op, zz, vc::meter([&] { compound(op - ADD, x, x); }), d + " (first number with itself)")) return; } }
    }
    int sum = 0; vc::escape(&sum);
    { c.describe(d + ": comparison"); const vc::Cost k[] = {vc::meter([&] { sum += a == b; }), vc::meter([&] { sum += a != b; }), vc::meter([&] { sum += a < b; }), vc::meter([&] { sum += a <= b; }), vc::meter([&] { sum += a > b; }), vc::meter([&] { sum += a >= b; }), vc::meter([&] { sum += a == a; })};
      for (const auto& x : k) if (!judge<BN>(c, CMP, z, x, d)) return; }
    { BN* r = nullptr; if (!judge<BN>(c, COPY, z, vc::meter([&] { r = new BN(a); }), d)) return;
      if (!judge<BN>(c, COPY, z, vc::meter([&] { *r = b; }), d + " (assignment)")) return;
      BN e; if (!judge<BN>(c, MOVE, z, vc::meter([&] { e = std::move(*r); }), d + " (assignment)")) return;
      if (!judge<BN>(c, MOVE, z, vc::meter([&] { *r = std::move(e); }), d + " (assignment)")) return;
      BN* q = nullptr; if (!judge<BN>(c, MOVE, z, vc::meter([&] { q = new BN(std::move(*r)); }), d)) return; delete q; delete r; }
    { u64 n0 = sink->n; if (!judge<BN>(c, PRINT, z, vc::meter([&] { *out << a << b; }), d)) return; if (sink->n == n0) { c.violation("work|print", d + ": nothing printed"); return; } }
    { BN x(a); typedef typename C::size_type S; const S n = x.size(), mid = n / 2;
      if (!judge<BN>(c, EDIT, z, vc::meter([&] { x.push_back(1); x.push_front(1); x.push(1, mid); x.pop(mid); x.pop_front(); x.pop_back(); x.resize(n + 1, 1); x.resize(n, 1); x.setDescriptor(BN_NEG); sum += x.isNan() + x.isInfinite() + x.isNegative() + (int)x.size(); x.clear(); }), d)) return; }
    if (!prims || !z.finite) { (void)sum; return; }
    C u; vc::escape(&u); auto fresh = [&] { u = a.numData; }; const C& v = b.numData;
    c.describe(d + ": primitives");
    fresh(); if (!judge<BN>(c, PADD, z, vc::meter([&] { abs_val_add<L, C>(u, v); }), d)) return;
    fresh(); if (ref::cmp(ref::normed(raw(u)), ref::normed(raw(v))) >= 0 && !judge<BN>(c, PSUB, z, vc::meter([&] { abs_val_sub<L, C>(u, v); }), d)) return;
    fresh(); { const vc::Cost k[] = {vc::meter([&] { sum += abs_val_is_eq<C>(u, v); }), vc::meter([&] { sum += abs_val_is_gt<C>(u, v); }), vc::meter([&] { sum += abs_val_is_ge<C>(u, v); }), vc::meter([&] { sum += abs_val_is_lt<C>(u, v); }), vc::meter([&] { sum += abs_val_is_le<C>(u, v); })}; for (const auto& x : k) if (!judge<BN>(c, PCMP, z, x, d)) return; }
    if (z.la * z.lb < 3e7) { if (!judge<BN>(c, PNAIVE, z, vc::meter([&] { C r = mul_naive<L, C>(u, v); sum += (int)r.size(); }), d)) return; if (!judge<BN>(c, PFFT, z, vc::meter([&] { C r = mul_strassen<L, C>(u, v); sum += (int)r.size(); }), d)) return; }
    if (used(v) && div_cost < DIV_COST) { if (!judge<BN>(c, PDIV, z, vc::meter([&] { abs_val_div<L, C>(u, v); }), d)) return; }
}
static std::string brief(const Mag& m) { return m.size() <= 12 ? ref::str(m) : std::to_string(m.size()) + " digits, top " + std::to_string(m.back()); }
template <class BN> void random_case(Src& s, Ctx& c, int t, size_t maxlen, int denorm) {
    const u64 B = Info<BN>::base(); Pair p = gen_pair(s, B, maxlen, (unsigned)denorm);
    BN a = make<BN>(p.na, p.a), b = make<BN>(p.nb, p.b);
    if (s.chance(6)) { BN& w = s.chance(50) ? a : b; w.setDescriptor((bn_desc_t)(2 + s.range(0, 2))); }
    const std::string d = std::string(TypeName<BN>::get()) + ": " + dname(a.descriptor) + brief(raw(a.numData)) + " and " + dname(b.descriptor) + brief(raw(b.numData));
    all<BN>(c, a, b, !p.denorm, true, d);
    c.count("length " + len_bucket(std::max(p.a.size(), p.b.size()))); if (p.a.size() + p.b.size() > 4) c.nontrivial(hash_case((u64)t + 90, p));
    if (c.index % 501 == 3) c.sample(d);
}
// Lengths grow by doubling, over patterns and shapes: the bounds must hold along the whole curve.
static const int SHAPES = 6, PATS = 7, STEPS = 13;
template <class BN> void curve(u64 i, Ctx& c, int from = 0) {
    const u64 B = Info<BN>::base(); const int shape = (int)(i % SHAPES), pat = (int)(i / SHAPES % PATS), k = from + (int)(i / SHAPES / PATS % STEPS);
    const size_t n = (size_t)1 << k, la = shape == 5 ? 1 : n, lb = shape == 0 ? n : shape == 1 ? 1 : shape == 2 ? n / 2 : shape == 3 ? (n > 1 ? n - 1 : 1) : shape == 4 ? std::max<size_t>(1, (size_t)(lg((double)n))) : n;
    Src r(i * 7919 + 5);
    auto fill = [&](size_t len, int q) { Mag m(len); for (size_t j = 0; j < len; ++j) m[j] = q == 0 ? B - 1 : q == 1 ? r.range(0, B - 1) : q == 2 ? 0 : q == 3 ? 1 % B : q == 4 ? (j % 2 ? B - 1 : 0) : q == 5 ? B / 2 : (j + 1 == len ? 1 : B - 1); if (len && !m[len - 1]) m[len - 1] = 1; return m; };
    Mag x = fill(la, pat), y = fill(lb, pat == 6 ? 2 : pat);
    const std::string d = std::string(TypeName<BN>::get()) + ": lengths " + std::to_string(la) + " and " + std::to_string(lb) + ", pattern " + std::to_string(pat);
    all<BN>(c, make<BN>(false, x), make<BN>(pat % 2 == 1, y), true, true, d);
    c.count("points on the growth curves"); c.nontrivial(vf::mix64(i * 16 + (u64)B)); if (k == 11 && shape == 2) c.sample(d);
}
// One number goes through the same kind of operation many times: what it holds in the end is still in proportion to its length.
template <class BN> void again(u64 i, Ctx& c) {
    const int lens[] = {1, 30, 300, 3000, 30000, 100000}, kind = (int)(i % 6); const size_t n = (size_t)lens[i / 6 % 6]; const u64 B = Info<BN>::base();
    static const char* const KIND[] = {"adding a small number", "adding its own start", "subtracting a small number", "adding and subtracting in turn", "appending and removing a digit", "being assigned a number of its length"};
    const size_t rounds = n > 3000 ? 40 : 200; Src r(i * 131 + vf::opt().seed);
    Mag m(n); for (auto& v : m) v = r.range(0, B - 1); m[n - 1] = B / 2 ? B / 2 : 1; Mag half(m.begin(), m.begin() + (long)((n + 1) / 2)); if (!half.back()) half.back() = 1;
    const BN one = make<BN>(false, Mag{1}), own = make<BN>(false, half), src = make<BN>(false, m);
    const std::string d = std::string(TypeName<BN>::get()) + ": a number of " + std::to_string(n) + " digits " + KIND[kind] + " " + std::to_string(rounds) + " times"; c.describe(d);
    BN* x = nullptr; long held = vc::meter([&] { x = new BN(src); }).kept; vc::escape(x); bool good = true;
    for (size_t k = 0; k < rounds && good; ++k) {
        vc::Cost w = vc::meter([&] { try { switch (kind) {
            case 0: *x += one; break; case 1: *x += own; break; case 2: *x -= one; break;
            case 3: if (k % 2) *x -= own; else *x += own; break;
            case 4: if (k % 2) x->pop_back(); else x->push_back(1); break;
            default: *x = src; } } catch (const std::bad_alloc&) { good = false; } });
        held += w.kept; c.eval(); if (!good) { c.violation("work|held|" + std::string(KIND[kind]), d + ": out of memory in round " + std::to_string(k)); break; }
        Size z = size_of(*x, src); const Bound b = bound(kind == 5 ? COPY : kind == 4 ? EDIT : ADD, z);
        c.peak("worst memory held after repetition, % of bound", (u64)(100 * (double)std::max<long>(held, 0) / b.peak));
        if ((double)held > b.peak) { good = false; c.violation("work|held|" + std::string(KIND[kind]), d + ": after round " + std::to_string(k) + " it holds " + std::to_string(held) + " bytes (bound " + std::to_string((u64)b.peak) + ")"); break; }
        good = judge<BN>(c, kind == 5 ? COPY : kind == 4 ? EDIT : ADD, z, w, d + ", round " + std::to_string(k));
    }
    if (good) sized(c, *x, d, KIND[kind]);
    delete x; c.count("numbers worked on repeatedly"); c.nontrivial(vf::mix64(i * 32 + B));
}
void vf::setup() {
    sink = new Sink; out = new std::ostream(sink);
    *out << 1 << 'x'; { BN_UINT8 q = 3; *out << bn_base10_single(q); *out << bignum_base10{BN_POS, {1, 2}}; }
    systematic("curves", (u64)SHAPES * PATS * STEPS * 6, (u64)SHAPES * PATS * STEPS * 11, [](u64 i, Ctx& c) { int t = (int)(i % (vf::opt().thorough ? 11 : 6)); i /= (vf::opt().thorough ? 11 : 6); VF_DISPATCH(t, curve<BN>(i, c)); });
    // the linear operations far beyond that (products and quotients of such lengths are left out by their cost)
    systematic("far", 14 * 11, (u64)SHAPES * PATS * 8 * 11, [](u64 i, Ctx& c) {
        const int t = (int)(i % 11); u64 j = i / 11; const int from = 13 + (int)(vf::opt().thorough ? j / (SHAPES * PATS) : j % 7);
        if (!vf::opt().thorough) j = (j * 17 + vf::opt().seed * 5 + (u64)t * 11) % (SHAPES * PATS); else j %= SHAPES * PATS;
        VF_DISPATCH(t, curve<BN>(j, c, from)); c.count("points far out"); });
    systematic("repeated", 36 * 11, 36 * 11 * 4, [](u64 i, Ctx& c) { const int t = (int)(i % 11); VF_DISPATCH(t, again<BN>(i / 11, c)); });
    random_workload("pairs", 4000, 200000, [](Src& s, Ctx& c) { int t = (int)s.range(0, VF_NTYPES - 1); VF_DISPATCH(t, random_case<BN>(s, c, t, 40, 0)); });
    random_workload("leading zeros", 2000, 100000, [](Src& s, Ctx& c) { int t = (int)s.range(0, VF_NTYPES - 1); VF_DISPATCH(t, random_case<BN>(s, c, t, 200, 100)); });
    random_workload("long", 600, 30000, [](Src& s, Ctx& c) { int t = (int)s.range(0, VF_NTYPES - 1); VF_DISPATCH(t, random_case<BN>(s, c, t, 1500, 15)); });
}
