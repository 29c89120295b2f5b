// One program over a few numbers, as a list of steps: carried out on any number type (C22), in any surroundings (C23).
#pragma once
#include "ext.h"
#include "bignum/fourier.h"
#include <sstream>
#include <locale>

// ------------------------------------------------------------------ one program, carried out on any number type
struct Step { int op, kind; size_t i, j, k, pos; u64 digit; int desc; Mag lit; };
static const char* const STEPS[] = {"digit list", "copy", "move", "swap", "compound", "binary", "compare", "print", "push and pop", "insert and erase", "resize and clear", "descriptor", "index", "index out of range", "vector growth", "nested expression", "primitives", "fourier table"};
static const int NSTEPS = 18;
template <class BN> struct Runner {
    typedef typename Info<BN>::digit D; typedef typename Info<BN>::container C; typedef typename Info<BN>::limits L; typedef typename C::size_type S;
    std::vector<BN> p;
    static D dig(u64 v) { return D((typename std::conditional<std::is_integral<D>::value, D, u64>::type)v); }
    u64 act(const Step& t) {
        BN &a = p[t.i], &b = p[t.j], &d = p[t.k]; u64 o = 0;
        auto eat = [&](u64 v) { o = vf::mix64(o ^ v); };
        switch (t.op) {
        case 0: { const D x = dig(t.digit), z = dig(0), u = dig(1); switch (t.kind % 6) { case 0: d = BN{(bn_desc_t)t.desc, {z, x, u}}; break; case 1: d = BN{(bn_desc_t)t.desc, {x}}; break; case 2: d = BN{(bn_desc_t)t.desc, {x, z, u, x, u, z, x, x, z}}; break; case 3: d = BN{BN_POS, {}}; break; default: d = make<BN>(t.desc == BN_NEG, t.lit); } break; }
        case 1: if (t.kind & 1) { BN x(a); d = x; } else d = a; break;
        case 2: { BN x(std::move(a)); a = x; if (t.kind & 1) { BN y; y = std::move(x); d = std::move(y); } else d = std::move(x); break; }
        case 3: if (t.kind & 1) std::swap(a, b); else std::swap(b, d); break;
        case 4: compound(t.kind % 4, a, b); break;
        case 5: d = binary(t.kind % 4, a, b); break;
        case 6: eat((a == b) + 2 * (a != b) + 4 * (a < b) + 8 * (a <= b) + 16 * (a > b) + 32 * (a >= b) + 64 * (a == a)); break;
        case 7: { std::ostringstream s; s.imbue(std::locale::classic()); s << a << '/' << b; for (char ch : s.str()) eat((unsigned char)ch); break; }
        case 8: switch (t.kind % 4) { case 0: a.push_back(dig(t.digit)); break; case 1: a.push_front(dig(t.digit)); break; case 2: if (a.size()) a.pop_back(); break; default: if (a.size()) a.pop_front(); } break;
        case 9: if (t.kind & 1) a.push(dig(t.digit), (S)(t.pos % (a.size() + 1))); else if (a.size()) a.pop((S)(t.pos % a.size())); break;
        case 10: switch (t.kind % 3) { case 0: a.resize((S)(t.pos % (a.size() + 5)), dig(t.digit)); break; case 1: a.resize((S)(t.pos % (a.size() + 4))); break; default: a.clear(); } break;
        case 11: a.setDescriptor((bn_desc_t)t.desc); eat(a.isPositive() + 2 * a.isNegative() + 4 * a.isInfinite() + 8 * a.isNan() + 16 * (u64)a.getDescriptor()); break;
        case 12: if (a.size()) { const BN& ca = a; const S q = (S)(t.pos % a.size()); eat((u64)ca[q]); a[q] = dig(t.digit); eat((u64)a[q]); eat((u64)ca.getData()[q]); } break;
        case 13: { const BN& ca = a; const S q = a.size() + (S)(t.pos % 3); try { if (t.kind & 1) eat((u64)ca[q]); else eat((u64)a[q]); eat(77); } catch (bn_error_t e) { eat((u64)e); } break; }
        case 14: { std::vector<BN> v; for (int q = 0; q < 5; ++q) v.push_back(q & 1 ? a : b); v.erase(v.begin()); v.insert(v.begin(), d); std::reverse(v.begin(), v.end()); for (auto& x : v) { for (const auto& y : x.numData) eat((u64)y); eat((u64)x.descriptor); } a = v[1]; break; }
        case 15: d = (a + b) * dnum(t) - (b - a); if (t.kind & 1) d = d + d; break;
        case 16: { C x(a.numData), y(b.numData); switch (t.kind % 4) { case 0: abs_val_add<L, C>(x, y); break; case 1: if (abs_val_is_lt<C>(x, y)) { C z(x); x = y; y = z; } abs_val_sub<L, C>(x, y); break; case 2: x = mul_naive<L, C>(x, y); break; default: x = mul_strassen<L, C>(x, y); } for (const auto& q : x) eat((u64)q); eat(x.size()); break; }
        default: { cmplx_list_t<double> f = create_fft_table<C, double>(a.numData, b.numData); eat(f.size()); for (auto& x : f) eat((u64)x.real() * 31 + (u64)x.imag()); }
        }
        return o;
    }
    BN dnum(const Step& t) const { return make<BN>(t.desc == BN_NEG, t.lit.size() > 8 ? Mag(t.lit.begin(), t.lit.begin() + 8) : t.lit); }
};
// may the step run (cost), judged on the plain version
template <class BN> bool affordable(const Step& t, const std::vector<BN>& p) {
    const BN &a = p[t.i], &b = p[t.j]; const size_t ua = a.size(), ub = b.size();
    const bool div = (t.op == 4 || t.op == 5) && t.kind % 4 == 3, mul = ((t.op == 4 || t.op == 5) && t.kind % 4 == 2) || t.op == 15 || (t.op == 16 && t.kind % 4 > 1);
    if (div && finite(a) && finite(b) && used(a.numData) > used(b.numData) + (Info<BN>::base() > 65535 ? 3 : 10)) return false;
    if (mul && ua + ub > 700) return false;
    return ua + ub < 4000;
}
inline Step gen_step(Src& s, u64 B, size_t n, size_t maxlen) {
    Step q; q.op = (int)s.range(0, NSTEPS - 1); if (s.chance(30)) q.op = (int)s.range(4, 5); q.kind = (int)s.range(0, 23); q.i = (size_t)s.range(0, n - 1); q.j = s.chance(12) ? q.i : (size_t)s.range(0, n - 1); q.k = (size_t)s.range(0, n - 1);
    q.pos = (size_t)s.range(0, 1u << 20); q.digit = special_digit(s, B); q.desc = q.op == 11 ? (s.chance(80) ? (int)s.range(0, 1) : (int)s.range(2, 4)) : (s.chance(50) ? BN_POS : BN_NEG); if (q.op == 0 || q.op == 15) q.lit = gen_mag(s, B, std::min<size_t>(maxlen, 40));
    return q;
}
