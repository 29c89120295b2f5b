// C05: infinities and NaN through every operation.
#define VF_DEFINE_BASES
#include "ext.h"

// k-th operand shape
static const int NSHAPE = 22;
template <class BN> BN shape(int k, Src& s, bool longer) {
    const u64 B = Info<BN>::base();
    Mag m;
    switch (k) {
    case 0: { BN n; n.setDescriptor(BN_NAN); return n; }
    case 1: { BN n; n.setDescriptor(BN_POS_INF); return n; }
    case 2: { BN n; n.setDescriptor(BN_NEG_INF); return n; }
    case 3: { BN n = make<BN>(true, Mag(3, 1)); n.setDescriptor(BN_NAN); return n; }          // was finite with digits
    case 4: { BN n = make<BN>(false, Mag(70, B - 1)); n.setDescriptor(BN_POS_INF); return n; }
    case 5: { BN n = make<BN>(false, Mag(5, B - 1)); n.setDescriptor(BN_NEG_INF); return n; }
    case 6: { BN n; n.descriptor = BN_POS_INF; n.setDescriptor(BN_NEG_INF); return n; }
    case 7: return BN();
    case 8: return make<BN>(true, Mag());                                                    // minus zero
    case 9: return make<BN>(false, Mag(2, 0));                                               // stored zero digits
    case 10: return make<BN>(true, Mag(1, 0));
    case 11: return make<BN>(false, Mag(1, 1));
    case 12: return make<BN>(true, Mag(1, 1));
    case 13: return make<BN>(false, Mag(1, B - 1));
    case 14: return make<BN>(true, Mag(2, B - 1));
    case 15: m = Mag(4, 0); m.back() = 1; return make<BN>(false, m);
    case 16: m = Mag(3, 0); m[0] = 1; return make<BN>(true, m);                               // leading zeros
    case 17: return make<BN>(false, gen_mag_len(s, B, 3));
    case 18: return make<BN>(true, gen_mag_len(s, B, (size_t)s.range(1, 12)));
    case 19: return make<BN>(true, gen_mag_len(s, B, longer ? (size_t)s.range(500, 3000) : 40));
    case 20: return make<BN>(false, gen_mag_len(s, B, longer ? (size_t)s.range(500, 3000) : 65));
    default: { BN n = BN{BN_NEG, {1}}; n.clear(); return n; }
    }
}
template <class BN> void judge(Ctx& c, const char* what, int op, const Ext& ea, const Ext& eb, const BN& r, bool special) {
    Ext e = xop(op, ea, eb, Info<BN>::base());
    std::string bad;
    if (!denotes(r, e)) bad = "wrong value";
    else if (!finite(r) && !r.numData.empty()) bad = "a non-finite result carries digits";
    else if (!finite(r) && (r.size() || r.isInfinite() == (e.k == Ext::NAN_) || (e.k == Ext::NAN_) != r.isNan())) { if (e.k != Ext::NONFIN) bad = "queries disagree"; }
    if (!bad.empty()) c.violation(std::string("special|") + OPS4[op] + "|" + what, std::string(TypeName<BN>::get()) + ": (" + xstr(ea) + ") " + OPS4[op] + " (" + xstr(eb) + ") [" + what + "] gave " + show(r) + ", expected " + xstr(e) + ": " + bad);
    (void)special;
}
template <class BN> bool div_ok(const Ext& a, const Ext& b) {   // keep exact divisions affordable
    if (!a.fin() || !b.fin()) return true;
    return a.v.m.size() < b.v.m.size() + 30;
}
template <class BN> void pairs(u64 i, Ctx& c, int t, bool longer) {
    Src s(vf::case_seed("shapes", i * 13 + (u64)t));
    const int ka = (int)(i % NSHAPE), kb = (int)(i / NSHAPE % NSHAPE);
    for (int op = 0; op < 4; ++op) {
        BN a = shape<BN>(ka, s, longer), b = shape<BN>(kb, s, longer);
        Ext ea = observe(a), eb = observe(b);
        if (op == 3 && !div_ok<BN>(ea, eb)) continue;
        c.describe(std::string(TypeName<BN>::get()) + " (" + xstr(ea) + ") " + OPS4[op] + " (" + xstr(eb) + ")");
        const bool special = !ea.fin() || !eb.fin() || (op == 3 && eb.zero());
        BN r = binary(op, a, b);
        judge(c, "binary", op, ea, eb, r, special);
        BN x(a); BN& back = (op == 0 ? (x += b) : op == 1 ? (x -= b) : op == 2 ? (x *= b) : (x /= b));
        judge(c, "compound", op, ea, eb, x, special);
        if (&back != &x) c.violation("special|reference", "compound operator does not return its left operand");
        c.eval(); c.eval();
        if (ka == kb) { BN y(a); compound(op, y, y); judge(c, "same object", op, ea, ea, y, special); BN z = binary(op, a, a); judge(c, "same object binary", op, ea, ea, z, special); c.eval(); }
        if (special) { c.count(std::string("special results ") + OPS4[op]); c.nontrivial(vf::mix64((u64)ka * 100 + (u64)kb * 10000 + (u64)op * 10000000 + (u64)t * 100000000)); }
        if (special && i % 37 == 5) c.sample(std::string(TypeName<BN>::get()) + " (" + xstr(ea) + ") " + OPS4[op] + " (" + xstr(eb) + ") = " + show(r));
    }
}
// chains of operations over a pool that contains non-finite values
template <class BN> void chain(Src& s, Ctx& c, int t) {
    const u64 B = Info<BN>::base();
    const int N = 4;
    std::vector<BN> p; std::vector<Ext> m; std::string log;
    for (int i = 0; i < N; ++i) { p.push_back(shape<BN>((int)s.range(0, NSHAPE - 1), s, false)); m.push_back(observe(p.back())); if (vf::verbose()) log += "n" + std::to_string(i) + "=" + xstr(m.back()) + "; "; }
    const int steps = (int)s.range(1, 14); u64 h = (u64)t; bool special = false;
    for (int k = 0; k < steps; ++k) {
        const int i = (int)s.range(0, N - 1), j = (int)s.range(0, N - 1), d = (int)s.range(0, N - 1), op = (int)s.range(0, 3);
        const unsigned form = (unsigned)s.range(0, 9);
        if (form == 9) {   // fresh operand
            p[d] = shape<BN>((int)s.range(0, NSHAPE - 1), s, false); m[d] = observe(p[d]);
            if (vf::verbose()) log += "n" + std::to_string(d) + "=" + xstr(m[d]) + "; ";
            continue;
        }
        if (m[i].fin() && m[j].fin()) {
            if (op == 3 && !div_ok<BN>(m[i], m[j])) continue;
            if (m[i].v.m.size() + m[j].v.m.size() > 300) continue;
        }
        Ext e = xop(op, m[i], m[j], B);
        if (vf::verbose()) { log += (form < 4 ? "n" + std::to_string(i) + OPS4[op] + "=n" + std::to_string(j) : "n" + std::to_string(d) + "=n" + std::to_string(i) + OPS4[op] + "n" + std::to_string(j)) + "; "; c.describe(std::string(TypeName<BN>::get()) + " " + log); }
        if (form < 4) { compound(op, p[i], p[j]); judge(c, "chain compound", op, m[i], m[j], p[i], true); m[i] = observe(p[i]); }
        else { p[d] = binary(op, p[i], p[j]); judge(c, "chain binary", op, m[i], m[j], p[d], true); m[d] = observe(p[d]); }
        c.eval();
        if (!e.fin()) special = true;
        h = vf::mix64(h ^ (u64)(i + 4 * j + 16 * d + 64 * op) ^ ((u64)form << 20));
        for (int q = 0; q < N; ++q) if (!denotes(p[q], m[q])) { c.violation("special|other", std::string(TypeName<BN>::get()) + " another number changed: " + log); return; }
    }
    if (special) { c.nontrivial(h); c.count("chains through non-finite values"); }
}
void vf::setup() {
    systematic("pairs", (u64)NSHAPE * NSHAPE * VF_NTYPES, (u64)NSHAPE * NSHAPE * VF_NTYPES * 8, [](u64 i, Ctx& c) { int t = (int)(i % VF_NTYPES); VF_DISPATCH(t, pairs<BN>(i / VF_NTYPES, c, t, false)); });
    random_workload("chains", 120000, 3000000, [](Src& s, Ctx& c) { int t = (int)s.range(0, VF_NTYPES - 1); VF_DISPATCH(t, chain<BN>(s, c, t)); });
#ifndef VF_NO_HUGE
    systematic("long-pairs", (u64)NSHAPE * NSHAPE, (u64)NSHAPE * NSHAPE * VF_NTYPES, [](u64 i, Ctx& c) { int t = (int)((i + opt().seed) % VF_NTYPES); VF_DISPATCH(t, pairs<BN>(i, c, t, true)); });
#endif
}
