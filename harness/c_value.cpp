// C09: operands are left alone, copies are independent, moves transfer without allocating, aliasing is harmless.
#define VF_DEFINE_BASES
#define VF_ALLOC_IMPL
#include "ext.h"
#include "alloc.h"
#include <sstream>

template <class BN> struct T {
    static std::string n() { return TypeName<BN>::get(); }
};
template <class BN> void bad(Ctx& c, const std::string& k, const std::string& d) { c.violation("value|" + k, T<BN>::n() + ": " + d); }

template <class BN> BN gen(Src& s, size_t maxlen, u64& h) {
    const u64 B = Info<BN>::base();
    if (s.chance(6)) { BN n = make<BN>(s.chance(50), gen_mag(s, B, 5)); static const bn_desc_t ds[] = {BN_NAN, BN_POS_INF, BN_NEG_INF}; n.setDescriptor(ds[s.range(0, 2)]); h = vf::mix64(h ^ (u64)n.descriptor); return n; }
    Mag m = gen_mag(s, B, maxlen); if (s.chance(15)) add_zeros(s, m);
    bool ng = s.chance(45); h = hash_mag(h ^ (ng ? 1 : 0), m);
    return make<BN>(ng, m);
}
template <class BN> bool affordable(int op, const BN& a, const BN& b) {
    if (!finite(a) || !finite(b)) return true;
    if (op == 2 && (double)a.size() * (double)b.size() > 5e6) return false;
    if (op == 3) { Mag x = raw(a.numData), y = raw(b.numData); ref::norm(x); ref::norm(y); return x.size() < y.size() + (Info<BN>::base() > 65535 ? 4 : 16); }
    return true;
}
// a mutation of an object; used to show that nobody else changes
template <class BN> std::string mutate(Src& s, BN& x) {
    typedef typename Info<BN>::digit D; const u64 g = s.range(0, Info<BN>::base() - 1);
    for (int tries = 0; tries < 4; ++tries) switch (s.range(0, 15)) {
    case 0: if (x.size()) { size_t i = (size_t)s.range(0, x.size() - 1); x[i] = (D)((u64)x.numData[i] + 1 < Info<BN>::base() ? (u64)x.numData[i] + 1 : 0); return "write"; } break;
    case 1: x.push_back((D)g); return "push_back"; case 2: x.push_front((D)g); return "push_front";
    case 3: if (x.size()) { x.pop_back(); return "pop_back"; } break; case 4: if (x.size()) { x.pop_front(); return "pop_front"; } break;
    case 5: x.push((D)g, x.size() / 2); return "push"; case 6: if (x.size()) { x.pop(x.size() / 2); return "pop"; } break;
    case 7: x.resize(x.size() + 3, (D)g); return "resize"; case 8: x.clear(); return "clear";
    case 9: x.setDescriptor(x.descriptor == BN_POS ? BN_NEG : BN_POS); return "descriptor"; case 10: x.setDescriptor(BN_NAN); return "NaN";
    case 11: x += make<BN>(false, Mag(3, Info<BN>::base() - 1)); return "+="; case 12: x -= make<BN>(true, Mag(2, 1)); return "-=";
    case 13: x *= make<BN>(false, Mag(1, Info<BN>::base() - 1)); return "*="; case 14: if (x.size() > 6000) break; x *= x; return "*= itself"; default: x = BN(); return "=";
    }
    x.push_back((D)g); return "push_back";
}
template <class BN> void one(Src& s, Ctx& c, int t, size_t maxlen) {
    u64 h = (u64)t; BN a = gen<BN>(s, maxlen, h), b = gen<BN>(s, maxlen, h), w = gen<BN>(s, 6, h);
    if (s.chance(25)) b = a;
    Snap<BN> sa(a), sb(b), sw(w); const std::string A = show(a), Bs = show(b);
    if (vf::verbose()) c.describe(T<BN>::n() + " a=" + A + " b=" + Bs);
    if (sa.d.size() + sb.d.size() > 2) c.nontrivial(h);
    // binary operators, comparisons and printing
    for (int op = 0; op < 4; ++op) if (affordable(op, a, b)) {
        const BN &ca = a, &cb = b; BN r = binary(op, ca, cb); c.eval();
        if (!sa.same(a) || !sb.same(b) || !sw.same(w)) { bad<BN>(c, std::string("binary ") + OPS4[op], A + " " + OPS4[op] + " " + Bs + " left operands " + show(a) + " and " + show(b)); return; }
        Snap<BN> sr(r); mutate(s, r);                        // the result shares nothing with the operands
        if (!sa.same(a) || !sb.same(b)) { bad<BN>(c, "result shared", "changing the result of " + A + OPS4[op] + Bs + " changed an operand"); return; }
        BN x(a); compound(op, x, b); c.eval();
        if (!sb.same(b) || !sw.same(w) || !sa.same(a)) { bad<BN>(c, std::string("compound ") + OPS4[op], A + " " + OPS4[op] + "= " + Bs + " left the right operand " + show(b)); return; }
        if (!sr.same(x)) { bad<BN>(c, std::string("forms ") + OPS4[op], A + " " + OPS4[op] + " " + Bs + ": in place " + show(x) + ", binary something else"); return; }
        mutate(s, x); if (!sb.same(b) || !sa.same(a)) { bad<BN>(c, "compound shared", "changing the result of " + A + OPS4[op] + "=" + Bs + " changed an operand"); return; }
        // same object as both operands
        if (affordable(op, a, a)) {
            BN u(a), v(a), v2(a); compound(op, u, u); compound(op, v, v2); BN y = binary(op, a, a); c.eval(); c.count("aliased operations");
            if (!Snap<BN>(u).same(v)) { bad<BN>(c, std::string("alias ") + OPS4[op], "x " + std::string(OPS4[op]) + "= x gave " + show(u) + " but " + show(v) + " with an equal object, x = " + A); return; }
            if (!Snap<BN>(y).same(v)) { bad<BN>(c, std::string("alias binary ") + OPS4[op], "x " + std::string(OPS4[op]) + " x gave " + show(y) + " but " + show(v) + " with an equal object, x = " + A); return; }
            if (!sa.same(a) || !sa.same(v2)) { bad<BN>(c, std::string("alias operand ") + OPS4[op], "an operand of x" + std::string(OPS4[op]) + "x changed, x = " + A); return; }
            // target of the assignment is also an operand
            BN p(a), q(b); p = binary(op, p, q); if (!Snap<BN>(p).same(binary(op, a, b))) { bad<BN>(c, "assign to operand", "p = p " + std::string(OPS4[op]) + " q with p=" + A + " q=" + Bs + " gave " + show(p)); return; }
            BN p2(a), q2(b); q2 = binary(op, p2, q2); if (!Snap<BN>(q2).same(binary(op, a, b)) || !sa.same(p2)) { bad<BN>(c, "assign to operand", "q = p " + std::string(OPS4[op]) + " q with p=" + A + " q=" + Bs + " gave " + show(q2)); return; }
        }
    }
    { volatile bool sink = (a == b) | (a != b) | (a < b) | (a <= b) | (a > b) | (a >= b) | (a == a); (void)sink; std::ostringstream o; o << a << b; volatile size_t z = a.size() + (a.isNan() ? 1 : 0) + (size_t)a.getDescriptor() + a.getData().size(); (void)z; c.eval();
      if (!sa.same(a) || !sb.same(b)) { bad<BN>(c, "observers", "comparing or printing changed " + A + " or " + Bs); return; } }
    // copies
    { BN x(a), y; y = a; BN z = a; c.eval(); c.count("copies");
      if (!sa.same(x) || !sa.same(y) || !sa.same(z)) { bad<BN>(c, "copy", "a copy of " + A + " is " + show(x) + " / " + show(y)); return; }
      BN big = make<BN>(true, gen_mag(s, Info<BN>::base(), 200)); big = a; if (!sa.same(big)) { bad<BN>(c, "copy over", "assigning " + A + " over a longer number gave " + show(big)); return; }
      if (a.size() && (&x.numData[0] == &a.numData[0] || &y.numData[0] == &a.numData[0])) { bad<BN>(c, "copy storage", "a copy of " + A + " uses its digits"); return; }
      std::string m = mutate(s, x); if (!sa.same(a) || !sa.same(y)) { bad<BN>(c, "copy independent", m + " on a copy of " + A + " changed the source to " + show(a)); return; }
      m = mutate(s, a); if (!sa.same(y) || !sa.same(z)) { bad<BN>(c, "copy independent", m + " on " + A + " changed its copy to " + show(y)); return; }
      a = y; if (!sa.same(a)) { bad<BN>(c, "copy back", "assigning a copy back gave " + show(a)); return; }
      BN& self = a; a = self; if (!sa.same(a)) { bad<BN>(c, "self copy", "self-assignment of " + A + " gave " + show(a)); return; }
      { BN* p = new BN(a); delete p; } if (!sa.same(a)) { bad<BN>(c, "copy destroyed", "destroying a copy changed " + A); return; } }
    // moves
    { BN x(a), tgt = gen<BN>(s, 30, h); va::count = 0; long n;
      { va::Scope sc; BN y(std::move(x)); n = va::count; c.eval(); c.count("moves");
        if (n) { bad<BN>(c, "move construct allocates", "moving " + A + " allocated " + std::to_string(n) + " times"); return; }
        if (!sa.same(y)) { bad<BN>(c, "move construct", "moving " + A + " gave " + show(y)); return; }
        va::count = 0; tgt = std::move(y); n = va::count;
        if (n) { bad<BN>(c, "move assign allocates", "move-assigning " + A + " allocated " + std::to_string(n) + " times"); return; }
        if (!sa.same(tgt)) { bad<BN>(c, "move assign", "move-assigning " + A + " gave " + show(tgt)); return; }
        // moved-from objects are assigned and used again
        y = b; if (!sb.same(y)) { bad<BN>(c, "moved-from reuse", "assigning " + Bs + " to a moved-from object gave " + show(y)); return; }
        x = std::move(y); if (!sb.same(x)) { bad<BN>(c, "moved-from reuse", "move-assigning " + Bs + " to a moved-from object gave " + show(x)); return; }
        y.clear(); if (y.descriptor != BN_POS || y.size()) { bad<BN>(c, "moved-from clear", "clearing a moved-from object left " + show(y)); return; }
        y += b; BN zero; zero += b; if (!Snap<BN>(y).same(zero)) { bad<BN>(c, "moved-from reuse", "0 + " + Bs + " on a recycled object gave " + show(y)); return; }
        if (affordable(2, x, tgt)) { BN p = x * tgt, q = b * a; if (!Snap<BN>(p).same(q)) { bad<BN>(c, "moved operands", "product of moved numbers differs: " + show(p) + " versus " + show(q)); return; } }
        std::swap(x, tgt); if (!sa.same(x) || !sb.same(tgt)) { bad<BN>(c, "swap", "swap of " + A + " and " + Bs); return; } } }
    // a vector of numbers grows: every element keeps its value
    if (s.chance(20)) { std::vector<BN> v; std::vector<Snap<BN>> sv; for (int i = 0; i < 9; ++i) { v.push_back(i & 1 ? a : b); sv.push_back(Snap<BN>(v.back())); } v.erase(v.begin()); v.insert(v.begin() + 2, w); c.eval();
      sv.erase(sv.begin()); sv.insert(sv.begin() + 2, sw); for (size_t i = 0; i < v.size(); ++i) if (!sv[i].same(v[i])) { bad<BN>(c, "container", "an element of a growing vector became " + show(v[i])); return; } }
    if (c.index % 7919 == 11) c.sample(T<BN>::n() + " a=" + A + " b=" + Bs);
}
void vf::setup() {
    random_workload("small", 130000, 3000000, [](Src& s, Ctx& c) { int t = (int)s.range(0, VF_NTYPES - 1); VF_DISPATCH(t, one<BN>(s, c, t, 12)); });
    random_workload("medium", 30000, 600000, [](Src& s, Ctx& c) { int t = (int)s.range(0, VF_NTYPES - 1); VF_DISPATCH(t, one<BN>(s, c, t, 150)); });
#ifndef VF_NO_HUGE
    random_workload("large", 500, 10000, [](Src& s, Ctx& c) { int t = (int)s.range(0, VF_NTYPES - 1); VF_DISPATCH(t, one<BN>(s, c, t, 2500)); });
    random_workload("huge", 60, 3000, [](Src& s, Ctx& c) { int t = (int)s.range(0, VF_NTYPES - 1); VF_DISPATCH(t, one<BN>(s, c, t, 140000)); });
#endif
}
