// C08: programs over a pool of numbers against an executable model; recorded histories are replayed offline.
#define VF_DEFINE_BASES
#include "ext.h"

// One pool slot as the model sees it. Edits follow the stored digits exactly; arithmetic is judged by value and the
// stored digits it produced are then adopted.
struct Slot { bool valid; int desc; Mag d; Slot() : valid(true), desc(BN_POS) {} };
inline Ext meaning(const Slot& s) {
    switch (s.desc) { case BN_POS_INF: return Ext(Ext::PINF); case BN_NEG_INF: return Ext(Ext::NINF); case BN_NAN: return Ext(Ext::NAN_); default: return Ext(Int(s.desc == BN_NEG, s.d)); }
}
inline std::string slot_ev(const Slot& s) {
    switch (s.desc) { case BN_POS_INF: return "+INF"; case BN_NEG_INF: return "-INF"; case BN_NAN: return "NaN"; default: return ev_mag(s.desc == BN_NEG, s.d); }
}
template <class BN> bool agrees(const Slot& s, const BN& n) {
    if (s.desc != n.descriptor || s.d.size() != n.numData.size()) return false;
    for (size_t i = 0; i < s.d.size(); ++i) if (s.d[i] != (u64)n.numData[i]) return false;
    return true;
}
template <class BN> BN by_value(BN n) { return n; }

template <class BN> struct Prog {
    typedef typename Info<BN>::digit D;
    Src& s; Ctx& c; const u64 B; std::vector<BN> p; std::vector<Slot> m; std::string log; std::string ev; bool logging; bool failed; u64 h; size_t maxlen;
    Prog(Src& s_, Ctx& c_, size_t L) : s(s_), c(c_), B(Info<BN>::base()), logging(vf::verbose()), failed(false), h(B), maxlen(L) {}
    void note(const std::string& t) { if (logging) { log += t + "; "; c.describe(std::string(TypeName<BN>::get()) + " " + log); } }
    void fail(const std::string& key, const std::string& what) {
        if (failed) return;
        failed = true; c.violation("hist|" + key, std::string(TypeName<BN>::get()) + ": " + what);
    }
    std::string n(int i) { return "n" + std::to_string(i); }
    void adopt(int i) { m[i].valid = true; m[i].desc = p[i].descriptor; m[i].d = raw(p[i].numData); }
    // value of p[i] must be e
    void expect(int i, const Ext& e, const std::string& what) {
        c.eval();
        if (!denotes(p[i], e)) fail(what.substr(0, what.find(' ')), what + " gave " + show(p[i]) + ", expected " + xstr(e));
        adopt(i);
        if (e.k == Ext::NONFIN) return;
    }
    void exact(int i, const std::string& what) {
        c.eval();
        if (!agrees(m[i], p[i])) fail(what.substr(0, what.find(' ')), what + " gave " + show(p[i]) + ", expected " + dname(m[i].desc) + ref::str(m[i].d));
        adopt(i);
    }
    void others(const std::string& what) {
        for (size_t q = 0; q < p.size(); ++q) if (m[q].valid && !agrees(m[q], p[q])) { fail("other", what + " changed n" + std::to_string(q) + " to " + show(p[q]) + ", was " + dname(m[q].desc) + ref::str(m[q].d)); return; }
    }
    void out(const std::string& t, int i) { if (ev.size() < 6000) ev += " " + t + "=" + slot_ev(m[i]); }
    int any() { int i = (int)s.range(0, p.size() - 1); return i; }
    int usable() { for (int k = 0; k < 6; ++k) { int i = any(); if (m[i].valid) return i; } for (size_t i = 0; i < p.size(); ++i) if (m[i].valid) return (int)i; p[0] = BN(); adopt(0); if (ev.size() < 6000) ev += " set:0=" + slot_ev(m[0]); return 0; }
    bool affordable(int op, int i, int j) {
        const Ext a = meaning(m[i]), b = meaning(m[j]);
        if (!a.fin() || !b.fin()) return true;
        if (op == 2) return a.v.m.size() + b.v.m.size() < 3 * maxlen;
        if (op == 3 && !b.v.m.empty()) return a.v.m.size() < b.v.m.size() + (B > 65535 ? 4 : B > 255 ? 8 : 20);
        return true;
    }
    Ext ex(int op, const Ext& a, const Ext& b) { return xop(op, a, b, B); }
    void fresh(int i) {
        const int how = (int)s.range(0, 4); std::vector<D> d; bn_desc_t ds = s.chance(45) ? BN_NEG : BN_POS;
        if (how == 0) { p[i] = BN(); m[i] = Slot(); }
        else if (how <= 2) {
            u64 x[4]; for (int k = 0; k < 4; ++k) x[k] = special_digit(s, B);
            int len = (int)s.range(0, 4); Mag mm;
            switch (len) {
            case 0: p[i] = BN{ds, {}}; break; case 1: p[i] = BN{ds, {(D)x[0]}}; break; case 2: p[i] = BN{ds, {(D)x[1], (D)x[0]}}; break;
            case 3: p[i] = BN{ds, {(D)x[2], (D)x[1], (D)x[0]}}; break; default: p[i] = BN{ds, {(D)x[3], (D)x[2], (D)x[1], (D)x[0]}};
            }
            for (int k = 0; k < len; ++k) mm.push_back(x[k]);
            ref::norm(mm); m[i].valid = true; m[i].desc = ds; m[i].d = mm;
        }
        else { Mag mm = gen_mag(s, B, maxlen); if (s.chance(10)) add_zeros(s, mm); p[i] = make<BN>(ds == BN_NEG, mm); m[i].valid = true; m[i].desc = ds; m[i].d = mm; }
        note(n(i) + "=" + show(p[i])); exact(i, "construct n" + std::to_string(i)); out("set:" + std::to_string(i), i);
    }
    void step() {
        const u64 k = s.range(0, 99); const int i = usable(), j = usable(), d = any(); const std::string I = std::to_string(i), J = std::to_string(j), Dn = std::to_string(d);
        h = vf::mix64(h ^ (k * 1000 + (u64)(i * 100 + j * 10 + d)));
        if (k < 8) fresh(any());
        else if (k < 14) {           // copies, including self-assignment
            const int f = (int)s.range(0, 2); note("n" + Dn + (f ? "=copy n" : "=n") + I);
            Slot src = m[i];
            if (f == 0) p[d] = p[i]; else if (f == 1) { BN t(p[i]); p[d] = t; } else p[d] = by_value(p[i]);
            m[d] = src; exact(d, "copy n" + Dn + " from n" + I); out("copy:" + Dn + ":" + I, d); c.count(i == d ? "self-assignments" : "copies");
        }
        else if (k < 19) {           // moves
            const int f = (int)s.range(0, 2);
            if (i == d) return;
            note("n" + Dn + "=move n" + I); Slot src = m[i];
            if (f == 0) p[d] = std::move(p[i]); else if (f == 1) { BN t(std::move(p[i])); p[d] = std::move(t); } else { BN t(std::move(p[i])); p[d] = t; }
            m[d] = src; exact(d, "move n" + Dn + " from n" + I); out("copy:" + Dn + ":" + I, d); c.count("moves");
            const int g = (int)s.range(0, 3);    // the moved-from object: cleared, reassigned, or left for later
            if (g == 0) { p[i].clear(); m[i] = Slot(); note("clear n" + I); exact(i, "clear of moved-from n" + I); out("set:" + I, i); }
            else if (g == 1) { p[i] = p[d]; m[i] = m[d]; note("n" + I + "=n" + Dn); exact(i, "reassign moved-from n" + I); out("copy:" + I + ":" + Dn, i); }
            else m[i].valid = false;
        }
        else if (k < 22) {
            if (!m[d].valid || i == d) return;
            note("swap n" + I + " n" + Dn); std::swap(p[i], p[d]); std::swap(m[i], m[d]); exact(i, "swap"); exact(d, "swap");
            if (ev.size() < 6000) ev += " swap:" + I + ":" + Dn + "=" + slot_ev(m[i]) + "/" + slot_ev(m[d]);
        }
        else if (k < 46) {           // compound
            const int op = (int)s.range(0, 3); if (!affordable(op, i, j)) return;
            note("n" + I + OPS4[op] + "=n" + J); Ext e = ex(op, meaning(m[i]), meaning(m[j])); std::string w = std::string(OPS4[op]) + "= n" + I + ":" + show(p[i]) + " n" + J + ":" + show(p[j]);
            compound(op, p[i], p[j]); expect(i, e, w); out(std::string("op") + OPS4[op] + ":" + I + ":" + I + ":" + J, i); c.count(i == j ? "aliased compound" : "compound");
        }
        else if (k < 66) {           // binary
            const int op = (int)s.range(0, 3); if (!affordable(op, i, j)) return;
            note("n" + Dn + "=n" + I + OPS4[op] + "n" + J); Ext e = ex(op, meaning(m[i]), meaning(m[j])); std::string w = std::string(OPS4[op]) + " n" + I + ":" + show(p[i]) + " n" + J + ":" + show(p[j]);
            p[d] = binary(op, p[i], p[j]); expect(d, e, w); out(std::string("op") + OPS4[op] + ":" + Dn + ":" + I + ":" + J, d); c.count("binary");
        }
        else if (k < 71) {           // nested expression, temporaries
            const int l = usable(), op = (int)s.range(0, 2), op2 = (int)s.range(0, 2);
            if (!affordable(op, i, j) || m[i].d.size() + m[j].d.size() + m[l].d.size() > 3 * maxlen) return;
            note("n" + Dn + "=(n" + I + OPS4[op] + "n" + J + ")" + OPS4[op2] + "n" + std::to_string(l));
            Ext e1 = ex(op, meaning(m[i]), meaning(m[j])), e = ex(op2, e1, meaning(m[l])); std::string w = "nested (" + show(p[i]) + OPS4[op] + show(p[j]) + ")" + OPS4[op2] + show(p[l]);
            p[d] = binary(op2, binary(op, p[i], p[j]), p[l]); expect(d, e, w); out("set:" + Dn, d); c.count("nested");
        }
        else if (k < 77) {           // comparisons
            Ext a = meaning(m[i]), b = meaning(m[j]); if (a.k == Ext::NAN_ || b.k == Ext::NAN_) return;
            note("compare n" + I + " n" + J);
            int ra = a.inf() ? a.sign() * 2 : 0, rb = b.inf() ? b.sign() * 2 : 0; int e = a.fin() && b.fin() ? ref::cmp(a.v, b.v) : (ra > rb) - (ra < rb);
            const BN &x = p[i], &y = p[j]; c.eval(); c.count("comparisons");
            if ((x < y) != (e < 0) || (x > y) != (e > 0) || (x == y) != (e == 0) || (x <= y) != (e <= 0) || (x >= y) != (e >= 0) || (x != y) != (e != 0)) fail("compare", "comparison of " + show(x) + " and " + show(y) + " after a history");
        }
        else if (k < 92) {           // digit edits on finite numbers
            if (m[i].desc != BN_POS && m[i].desc != BN_NEG) return;
            BN& x = p[i]; Mag& q = m[i].d; const u64 g = special_digit(s, B); std::string w; const size_t sz = q.size();
            switch (s.range(0, 8)) {
            case 0: w = "push_back"; x.push_back((D)g); q.push_back(g); break;
            case 1: w = "push_front"; x.push_front((D)g); q.insert(q.begin(), g); break;
            case 2: if (!sz) return; w = "pop_back"; x.pop_back(); q.pop_back(); break;
            case 3: if (!sz) return; w = "pop_front"; x.pop_front(); q.erase(q.begin()); break;
            case 4: { size_t pos = (size_t)s.range(0, sz); w = "push@" + std::to_string(pos); x.push((D)g, pos); q.insert(q.begin() + (long)pos, g); break; }
            case 5: { if (!sz) return; size_t pos = (size_t)s.range(0, sz - 1); w = "pop@" + std::to_string(pos); x.pop(pos); q.erase(q.begin() + (long)pos); break; }
            case 6: { size_t nn = (size_t)s.range(0, sz + 4); w = "resize " + std::to_string(nn); x.resize(nn, (D)g); q.resize(nn, g); break; }
            case 7: { if (!sz) return; size_t pos = (size_t)s.range(0, sz - 1); w = "write@" + std::to_string(pos); x[pos] = (D)g; q[pos] = g; break; }
            default: w = "clear"; x.clear(); m[i].desc = BN_POS; q.clear();
            }
            note(w + " n" + I); exact(i, w + " on n" + I); out("set:" + I, i); c.count("edits");
        }
        else if (k < 97) {
            static const bn_desc_t ds[] = {BN_POS, BN_NEG, BN_POS, BN_NEG, BN_NAN, BN_POS_INF, BN_NEG_INF};
            bn_desc_t x = ds[s.range(0, 6)]; note("n" + I + " descriptor " + dname(x));
            p[i].setDescriptor(x); m[i].desc = x; if (x != BN_POS && x != BN_NEG) m[i].d.clear();
            exact(i, "setDescriptor on n" + I); out("set:" + I, i); c.count("descriptor changes");
        }
        else {                        // the whole pool moves to other storage
            note("relocate"); std::vector<BN> q; for (auto& x : p) q.push_back(std::move(x)); p.swap(q); c.count("relocations");
        }
    }
    void run(int npool, int nsteps) {
        p.resize((size_t)npool); m.resize((size_t)npool);
        for (int i = 0; i < npool; ++i) fresh(i);
        for (int k = 0; k < nsteps && !failed; ++k) { step(); if (!failed) others("a step"); }
    }
};
template <class BN> void prog(Src& s, Ctx& c, int t, size_t maxlen, int maxsteps) {
    Prog<BN> g(s, c, maxlen);
    int steps = (int)s.range(2, (u64)maxsteps);
    g.run((int)s.range(2, 5), steps);
    c.count("steps", (u64)steps); c.nontrivial(g.h ^ (u64)t);
    if (maxlen <= 6 && c.index % 7 == 0 && g.ev.size() < 6000) c.event("hist " + std::to_string(g.B) + g.ev);
    if (c.index % 997 == 3) c.sample(std::string(TypeName<BN>::get()) + g.ev.substr(0, 300));
}
// ------------------------------------------------------------------ the same values reached in different ways
static const char* const AGES[] = {"room reserved", "was long, assigned", "was resized", "long number added and subtracted", "moved around", "built front first", "was not finite", "cancelled and rebuilt", "swapped", "in a pool that grew"};
template <class BN> BN aged(int how, Src& s, bool neg, const Mag& m, const BN& fresh) {
    typedef typename Info<BN>::digit D; const u64 B = Info<BN>::base(); const size_t n = m.size(), more = n * (size_t)s.range(1, 40) + (size_t)s.range(0, 600);
    BN x;
    switch (how) {
    case 0: x.numData.reserve(more); load(x.numData, m); x.descriptor = fresh.descriptor; break;
    case 1: x = make<BN>(!neg, gen_mag_len(s, B, more)); x = fresh; break;
    case 2: x = fresh; x.resize(more, (D)(B - 1)); x.resize(n, (D)0); if (x.size() == n) for (size_t i = 0; i < n; ++i) x[i] = (D)m[i]; break;
    case 3: { const BN far = make<BN>(s.chance(50), gen_mag_len(s, B, more + 1)); x = fresh; for (size_t k = used(x.numData); k < n; ++k) x.pop_back(); x += far; x -= far; while (x.size() < n) x.push_back((D)0); x.setDescriptor(fresh.getDescriptor()); break; }
    case 4: { x = make<BN>(!neg, gen_mag_len(s, B, more)); BN y(std::move(x)); x = fresh; y = std::move(x); x = y; break; }
    case 5: for (size_t i = n; i-- > 0;) x.push_front((D)m[i]); x.setDescriptor(fresh.getDescriptor()); break;
    case 6: x = make<BN>(neg, gen_mag_len(s, B, more)); x.setDescriptor(s.chance(50) ? BN_NAN : s.chance(50) ? BN_POS_INF : BN_NEG_INF); if (s.chance(50)) x *= fresh; x = fresh; break;
    case 7: x = make<BN>(neg, gen_mag_len(s, B, more)); x -= x; x += fresh; while (x.size() < n) x.push_back((D)0); x.setDescriptor(fresh.getDescriptor()); break;
    case 8: { x = fresh; BN y = make<BN>(!neg, gen_mag_len(s, B, more)); std::swap(x, y); x.clear(); x.resize(3, (D)1); std::swap(x, y); break; }
    default: { std::vector<BN> v; for (int i = 0; i < 3; ++i) v.push_back(fresh); v.insert(v.begin(), make<BN>(neg, gen_mag_len(s, B, 5))); x = std::move(v[2]); }
    }
    return x;       // moved out: keeps its storage
}
template <class BN> void ages(Src& s, Ctx& c, int t) {
    const u64 B = Info<BN>::base(); const Pair p = gen_pair(s, B, (size_t)(s.chance(80) ? 60 : 300), 12);
    const BN a = make<BN>(p.na, p.a), b = make<BN>(p.nb, p.b);
    const int ha = (int)s.range(0, 9), hb = (int)s.range(0, 9);
    c.describe(std::string(TypeName<BN>::get()) + " " + show(a) + " (" + AGES[ha] + ") and " + show(b) + " (" + AGES[hb] + ")");
    const bool sum_len = p.a.size() < p.b.size() + (B > 65535 ? 4 : B > 255 ? 8 : 20);
    for (int op = 0; op < 4; ++op) {
        if (op == 3 && !(sum_len && used(b.numData))) continue;
        BN want = a; compound(op, want, b);
        for (int form = 0; form < 3; ++form) {
            BN x = aged<BN>(ha, s, p.na, p.a, a); const BN y = aged<BN>(hb, s, p.nb, p.b, b);
            if (!Snap<BN>(a).same(x) || !Snap<BN>(b).same(y)) { c.violation("hist|age", std::string(TypeName<BN>::get()) + ": " + show(a) + " and " + show(b) + " became " + show(x) + " (" + AGES[ha] + ") and " + show(y) + " (" + AGES[hb] + ")"); return; }
            if (form == 0) compound(op, x, b); else if (form == 1) compound(op, x, y); else x = binary(op, x, y);
            c.eval();
            if (!Snap<BN>(want).same(x)) { c.violation("hist|age", std::string(TypeName<BN>::get()) + ": " + show(a) + " (" + AGES[ha] + ") " + OPS4[op] + " " + show(b) + (form ? std::string(" (") + AGES[hb] + ")" : std::string()) + " gives " + show(x) + ", the same values made directly give " + show(want)); return; }
            const BN &u = x, &v = want; if (!(u == v) || u < v || v < u) { c.violation("hist|age|compare", std::string(TypeName<BN>::get()) + ": comparisons of " + show(u) + " and " + show(v) + " depend on their history"); return; }
        }
    }
    c.count(std::string("operand with a past: ") + AGES[ha]); c.nontrivial(hash_case((u64)(t * 100 + ha * 10 + hb), p));
}
// ------------------------------------------------------------------ well-known algorithms, run entirely on library numbers
template <class BN> BN num(u64 v) { return make<BN>(false, ref::from_u64(v, Info<BN>::base())); }
template <class BN> void same(Ctx& c, const BN& a, const Int& e, const std::string& what) {
    c.eval();
    if (!denotes(a, Ext(e))) c.violation("hist|algorithm|" + what.substr(0, what.find(' ')), std::string(TypeName<BN>::get()) + ": " + what + " gave " + show(a) + ", expected " + ref::str(e));
}
template <class BN> void algorithm(u64 i, Ctx& c, int t) {
    Src s(vf::case_seed("algorithm", i * 17 + (u64)t)); const u64 B = Info<BN>::base();
    const double bits = B == 2 ? 1 : B < 100 ? 3 : B < 1000 ? 8 : B < 100000 ? 14 : 30;
    switch (i % 7) {
    case 0: {   // Fibonacci numbers and Cassini's identity
        int N = (int)s.range(20, 260); BN a = num<BN>(0), b = num<BN>(1); Mag x, y = ref::from_u64(1, B);
        c.describe(std::string(TypeName<BN>::get()) + " fibonacci " + std::to_string(N));
        for (int k = 0; k < N; ++k) { BN z = a + b; a = b; b = std::move(z); Mag w = ref::add(x, y, B); x = y; y = w; }
        same(c, b, Int(false, y), "fibonacci " + std::to_string(N));
        BN prev = b - a;   // F(n-1)
        BN ca = b * prev - a * a; Int e(N % 2 != 0 ? true : false, Mag(1, 1)); (void)e; c.eval();
        BN one = num<BN>(1); if (!(ca == one) && !(ca + one == BN())) c.violation("hist|algorithm|cassini", std::string(TypeName<BN>::get()) + " Cassini identity fails for " + std::to_string(N));
        break; }
    case 1: {   // factorial, then divided back down
        int N = (int)s.range(3, (u64)(bits < 2 ? 30 : 60)); BN f = num<BN>(1); Mag e(1, 1);
        c.describe(std::string(TypeName<BN>::get()) + " factorial " + std::to_string(N));
        for (int k = 2; k <= N; ++k) { f *= num<BN>((u64)k); e = ref::mul(e, ref::from_u64((u64)k, B), B); same(c, f, Int(false, e), "factorial " + std::to_string(k)); }
        for (int k = 2; k <= N; ++k) { f /= num<BN>((u64)k); }
        same(c, f, Int(false, Mag(1, 1)), "factorial divided down from " + std::to_string(N)); break; }
    case 2: {   // powers by squaring against repeated multiplication, with a negative base
        u64 v = 1 + special_digit(s, B); int N = (int)s.range(1, 40); BN b = num<BN>(v); b.setDescriptor(BN_NEG);
        BN r = num<BN>(1), q = num<BN>(1), sq = b;
        for (int k = 0; k < N; ++k) q = q * b;
        for (int k = N; k; k >>= 1) { if (k & 1) r *= sq; sq *= sq; }
        c.eval(); if (r != q) c.violation("hist|algorithm|power", std::string(TypeName<BN>::get()) + " (-" + std::to_string(v) + ")^" + std::to_string(N) + ": " + show(r) + " versus " + show(q));
        Int e(false, Mag(1, 1)); for (int k = 0; k < N; ++k) e = ref::mul(e, Int(true, ref::from_u64(v, B)), B); same(c, r, e, "power"); break; }
    case 3: {   // Euclid on products with a known common factor
        u64 g = s.range(2, 5000), a0 = s.range(1, 60000), b0 = s.range(1, 60000); BN a = num<BN>(a0) * num<BN>(g), b = num<BN>(b0) * num<BN>(g), zero; int guard = 0;
        c.describe(std::string(TypeName<BN>::get()) + " gcd " + std::to_string(a0 * g) + " " + std::to_string(b0 * g));
        while (b != zero && guard++ < 400) { BN r = a - (a / b) * b; if (r < zero || r >= b) { c.violation("hist|algorithm|remainder", std::string(TypeName<BN>::get()) + " remainder out of range for " + show(a) + " by " + show(b)); return; } a = b; b = r; }
        u64 x = a0 * g, y = b0 * g; while (y) { u64 z = x % y; x = y; y = z; }
        same(c, a, Int(false, ref::from_u64(x, B)), "gcd of " + std::to_string(a0 * g) + " and " + std::to_string(b0 * g)); break; }
    case 4: {   // integer square root by Newton's iteration
        u64 v = s.range(0, 1ull << 60); BN n = num<BN>(v), one = num<BN>(1), two = num<BN>(2), x = n, y = (n + one) / two; int guard = 0;
        while (y < x && guard++ < 200) { x = y; y = (x + n / x) / two; }
        c.eval(); if (v && !(x * x <= n && (x + one) * (x + one) > n)) c.violation("hist|algorithm|isqrt", std::string(TypeName<BN>::get()) + " isqrt of " + std::to_string(v) + " gave " + show(x)); break; }
    case 5: {   // running sum of signed terms in different orders
        std::vector<BN> v; Int e; size_t n = (size_t)s.range(5, 60); for (size_t k = 0; k < n; ++k) { Mag m = gen_mag(s, B, 20); bool ng = !m.empty() && s.chance(50); v.push_back(make<BN>(ng, m)); e = ref::add(e, Int(ng, m), B); }
        BN a, b; for (size_t k = 0; k < n; ++k) a += v[k]; for (size_t k = n; k-- > 0;) b -= v[k]; same(c, a, e, "sum forward"); same(c, b, ref::neg(e), "sum backward"); break; }
    default: {  // counter crossing zero and digit boundaries, one object all the way
        BN x = num<BN>(B > 1000 ? B - 3 : B * B - 3), one = num<BN>(1); Int e(false, ref::from_u64(B > 1000 ? B - 3 : B * B - 3, B)); Int u(false, Mag(1, 1));
        for (int k = 0; k < 8; ++k) { x += one; e = ref::add(e, u, B); same(c, x, e, "count up"); }
        BN big = x + x; Int eb = ref::add(e, e, B);
        if (B <= 1000) for (u64 k = 0; k < 2 * B * B && k < 300; ++k) { x -= one; e = ref::sub(e, u, B); same(c, x, e, "count down"); }
        x -= big; e = ref::sub(e, eb, B); for (int k = 0; k < 20; ++k) { x += one; e = ref::add(e, u, B); same(c, x, e, "count through"); } break; }
    }
    c.count("algorithm " + std::to_string(i % 7)); c.nontrivial(vf::mix64(i * 16 + (u64)t));
}
void vf::setup() {
    random_workload("small-programs", 100000, 3000000, [](Src& s, Ctx& c) { int t = (int)s.range(0, VF_NTYPES - 1); VF_DISPATCH(t, prog<BN>(s, c, t, 6, 40)); });
    random_workload("programs", 14000, 400000, [](Src& s, Ctx& c) { int t = (int)s.range(0, VF_NTYPES - 1); VF_DISPATCH(t, prog<BN>(s, c, t, 40, 60)); });
    random_workload("long-programs", 800, 20000, [](Src& s, Ctx& c) { int t = (int)s.range(0, VF_NTYPES - 1); VF_DISPATCH(t, prog<BN>(s, c, t, 60, 600)); });
    random_workload("ages", 24000, 600000, [](Src& s, Ctx& c) { int t = (int)s.range(0, VF_NTYPES - 1); VF_DISPATCH(t, ages<BN>(s, c, t)); });
    systematic("algorithms", 7 * VF_NTYPES * 40, 7 * VF_NTYPES * 800, [](u64 i, Ctx& c) { int t = (int)(i % VF_NTYPES); VF_DISPATCH(t, algorithm<BN>(i / VF_NTYPES + 7 * (opt().seed % 1000), c, t)); });
}
