// Extended values (finite integers, infinities, NaN) and their arithmetic: the reference for number objects.
#pragma once
#include "nums.h"

struct Ext {
    enum Kind { FIN, PINF, NINF, NAN_, NONFIN } k;   // NONFIN: any non-finite value is acceptable (0/0)
    Int v;
    Ext() : k(FIN) {}
    explicit Ext(Kind kk) : k(kk) {}
    explicit Ext(const Int& i) : k(FIN), v(i) {}
    bool fin() const { return k == FIN; }
    bool inf() const { return k == PINF || k == NINF; }
    bool zero() const { return k == FIN && v.m.empty(); }
    int sign() const { return k == PINF ? 1 : k == NINF ? -1 : k == FIN ? (v.m.empty() ? 0 : v.neg ? -1 : 1) : 0; }
};
inline Ext xinf(int s) { return Ext(s < 0 ? Ext::NINF : Ext::PINF); }
inline Ext xneg(const Ext& a) { Ext r = a; if (a.k == Ext::PINF) r.k = Ext::NINF; else if (a.k == Ext::NINF) r.k = Ext::PINF; else if (a.k == Ext::FIN) r.v = ref::neg(a.v); return r; }
inline Ext xadd(const Ext& a, const Ext& b, u64 B) {
    if (a.k == Ext::NAN_ || b.k == Ext::NAN_) return Ext(Ext::NAN_);
    if (a.inf() && b.inf()) return a.k == b.k ? a : Ext(Ext::NAN_);
    if (a.inf()) return a;
    if (b.inf()) return b;
    return Ext(ref::add(a.v, b.v, B));
}
inline Ext xmul(const Ext& a, const Ext& b, u64 B) {
    if (a.k == Ext::NAN_ || b.k == Ext::NAN_) return Ext(Ext::NAN_);
    if (a.inf() || b.inf()) { if (a.zero() || b.zero()) return Ext(Ext::NAN_); return xinf(a.sign() * b.sign()); }
    return Ext(ref::mul(a.v, b.v, B));
}
inline Ext xdiv(const Ext& a, const Ext& b, u64 B) {
    if (a.k == Ext::NAN_ || b.k == Ext::NAN_ || (a.inf() && b.inf())) return Ext(Ext::NAN_);
    if (b.inf()) return Ext(Int());
    if (a.inf()) return xinf(a.sign() * (b.sign() < 0 ? -1 : 1));
    if (b.zero()) return a.zero() ? Ext(Ext::NONFIN) : xinf(a.sign());
    return Ext(Int(a.v.neg != b.v.neg, ref::quotient(a.v.m, b.v.m, B)));
}
inline Ext xop(int op, const Ext& a, const Ext& b, u64 B) {   // 0 + 1 - 2 * 3 /
    switch (op) { case 0: return xadd(a, b, B); case 1: return xadd(a, xneg(b), B); case 2: return xmul(a, b, B); default: return xdiv(a, b, B); }
}
inline std::string xstr(const Ext& e) { switch (e.k) { case Ext::FIN: return ref::str(e.v); case Ext::PINF: return "+INF"; case Ext::NINF: return "-INF"; case Ext::NAN_: return "NaN"; default: return "non-finite"; } }

template <class BN> Ext observe(const BN& n) {
    switch (n.descriptor) {
    case BN_POS: case BN_NEG: return Ext(value(n));
    case BN_POS_INF: return Ext(Ext::PINF);
    case BN_NEG_INF: return Ext(Ext::NINF);
    default: return Ext(Ext::NAN_);
    }
}
// does the object denote e?
template <class BN> bool denotes(const BN& n, const Ext& e) {
    switch (e.k) {
    case Ext::FIN: return finite(n) && digits_ok(n) && ref::eq(value(n), e.v);
    case Ext::PINF: return n.descriptor == BN_POS_INF;
    case Ext::NINF: return n.descriptor == BN_NEG_INF;
    case Ext::NAN_: return n.descriptor == BN_NAN;
    default: return n.descriptor == BN_NAN || n.descriptor == BN_POS_INF || n.descriptor == BN_NEG_INF;
    }
}
static const char* const OPS4[] = {"+", "-", "*", "/"};
template <class BN> void compound(int op, BN& a, const BN& b) { switch (op) { case 0: a += b; break; case 1: a -= b; break; case 2: a *= b; break; default: a /= b; } }
template <class BN> BN binary(int op, const BN& a, const BN& b) { switch (op) { case 0: return a + b; case 1: return a - b; case 2: return a * b; default: return a / b; } }
