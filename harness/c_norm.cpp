// C07: every finite result of arithmetic is in normal form; equal values are identical objects however computed.
#define VF_DEFINE_BASES
#include "ext.h"

template <class BN> bool normal(const BN& n, std::string& why) {
    if (!finite(n)) { why = "not finite"; return false; }
    if (!digits_ok(n)) { why = "a digit lies outside the base"; return false; }
    if (n.numData.empty()) { if (n.descriptor != BN_POS) { why = "zero with a negative sign"; return false; } return true; }
    if ((u64)n.numData[n.numData.size() - 1] == 0) { why = "leading zero digit"; return false; }
    return true;
}
template <class BN> bool must(Ctx& c, const BN& n, const char* what, const std::string& expr) {
    std::string why;
    c.eval();
    if (!normal(n, why)) { c.violation(std::string("norm|") + what, std::string(TypeName<BN>::get()) + ": " + expr + " gave " + show(n) + ": " + why); return false; }
    if (n.numData.empty()) c.count("zero results");
    return true;
}
template <class BN> bool identical(const BN& a, const BN& b) { return Snap<BN>(a).same(b); }
template <class BN> void same(Ctx& c, const BN& a, const BN& b, const char* law, const std::string& expr) {
    c.eval(); c.count(std::string("law ") + law);
    if (!identical(a, b)) c.violation(std::string("norm|law|") + law, std::string(TypeName<BN>::get()) + ": " + law + " for " + expr + ": " + show(a) + " versus " + show(b));
    else if (!(a == b) || (a != b)) c.violation(std::string("norm|eq|") + law, std::string(TypeName<BN>::get()) + ": identical results of " + law + " compare unequal for " + expr);
}
static std::string ex(const char* op, const std::string& a, const std::string& b) { return a + " " + op + " " + b; }

template <class BN> void one(Src& s, Ctx& c, int t, size_t maxlen) {
    const u64 B = Info<BN>::base();
    Pair p = gen_pair(s, B, maxlen, 0);
    ref::norm(p.a); ref::norm(p.b);
    if (p.a.empty()) p.na = s.chance(30);      // minus zero is reachable by negating or moving from an object
    if (p.b.empty()) p.nb = s.chance(30);
    BN a = make<BN>(p.na, p.a), b = make<BN>(p.nb, p.b);
    const std::string A = show(a), Bs = show(b);
    if (vf::verbose()) c.describe(std::string(TypeName<BN>::get()) + " a=" + A + " b=" + Bs);
    if (p.a.size() + p.b.size() > 2) c.nontrivial(hash_case((u64)t, p));
    c.count("relation/" + std::to_string(p.rel));
    const bool divable = !p.b.empty() && p.a.size() < p.b.size() + std::max<size_t>(2, 150 / (B > 65535 ? 32 : B > 255 ? 12 : 4));
    for (int op = 0; op < 4; ++op) {
        if (op == 3 && !divable) continue;
        BN r = binary(op, a, b); must(c, r, OPS4[op], ex(OPS4[op], A, Bs));
        BN x(a); compound(op, x, b); must(c, x, OPS4[op], ex(OPS4[op], A, Bs) + " (in place)");
        same(c, r, x, "binary/compound", ex(OPS4[op], A, Bs));
        if (!p.a.empty() || op < 3) { BN y(a); compound(op, y, y); must(c, y, OPS4[op], ex(OPS4[op], A, A) + " (same object)"); }
        // built in one step from its digits, most significant first
        if (finite(r) && r.numData.size() <= 6) {
            typedef typename Info<BN>::digit D; const auto& d = r.numData; BN q; bn_desc_t ds = r.descriptor;
            switch (d.size()) {
            case 0: q = BN{ds, {}}; break; case 1: q = BN{ds, {D(0), d[0]}}; break; case 2: q = BN{ds, {d[1], d[0]}}; break;
            case 3: q = BN{ds, {D(0), D(0), d[2], d[1], d[0]}}; break; case 4: q = BN{ds, {d[3], d[2], d[1], d[0]}}; break;
            case 5: q = BN{ds, {d[4], d[3], d[2], d[1], d[0]}}; break; default: q = BN{ds, {d[5], d[4], d[3], d[2], d[1], d[0]}};
            }
            same(c, r, q, "result/constructed", ex(OPS4[op], A, Bs));
        }
    }
    // the same value by different routes. Operands in the canonical zero state from here on.
    if (p.a.empty()) { p.na = false; a = make<BN>(false, p.a); }
    if (p.b.empty()) { p.nb = false; b = make<BN>(false, p.b); }
    const std::string e = ex(",", A, Bs);
    same(c, a + b, b + a, "a+b = b+a", e);
    same(c, (a + b) - b, a, "(a+b)-b = a", e);
    same(c, (a - b) + b, a, "(a-b)+b = a", e);
    same(c, a - (a - b), b, "a-(a-b) = b", e);
    same(c, (a - b) + (b - a), BN(), "(a-b)+(b-a) = 0", e);
    if (s.chance(40)) same(c, a * b, b * a, "a*b = b*a", e);
    if (!p.b.empty() && s.chance(30)) { BN ab = a * b; if (p.a.size() < 6 || p.a.size() * (B > 65535 ? 32 : B > 255 ? 10 : 3) < 160) same(c, ab / b, a, "(a*b)/b = a", e); }
    if (s.chance(30)) {
        Mag m = gen_mag(s, B, std::min<size_t>(maxlen, 60)); BN k = make<BN>(!m.empty() && s.chance(50), m);
        same(c, (a + b) + k, a + (b + k), "associative +", e);
        same(c, (a + b) * k, a * k + b * k, "distributive", e);
        same(c, (a - b) * k, a * k - b * k, "distributive -", e);
        same(c, (a * b) * k, a * (b * k), "associative *", e);
    }
    if (c.index % 4099 == 7) c.sample(std::string(TypeName<BN>::get()) + " laws on " + e);
}
// normal form along a chain of operations on the same objects
template <class BN> void chain(Src& s, Ctx& c, int t) {
    const u64 B = Info<BN>::base(); const int N = 3;
    std::vector<BN> p; std::string log; u64 h = (u64)t;
    for (int i = 0; i < N; ++i) { Mag m = gen_mag(s, B, 12); p.push_back(make<BN>(!m.empty() && s.chance(50), m)); h = hash_mag(h, m); if (vf::verbose()) log += show(p.back()) + "; "; }
    int n = (int)s.range(2, 16);
    for (int k = 0; k < n; ++k) {
        int i = (int)s.range(0, N - 1), j = (int)s.range(0, N - 1), d = (int)s.range(0, N - 1), op = (int)s.range(0, 3); bool bin = s.chance(50);
        if (op == 3 && (p[j].numData.empty() || p[i].numData.size() > p[j].numData.size() + (B > 65535 ? 3 : 12))) op = 1;
        if (op == 2 && p[i].numData.size() + p[j].numData.size() > 120) op = 1;
        if (vf::verbose()) { log += std::string(bin ? "n" + std::to_string(d) + "=n" + std::to_string(i) + OPS4[op] : "n" + std::to_string(i) + OPS4[op] + "=") + "n" + std::to_string(j) + "; "; c.describe(std::string(TypeName<BN>::get()) + " " + log); }
        std::string before = show(p[i]) + " " + OPS4[op] + " " + show(p[j]);
        if (bin) { p[d] = binary(op, p[i], p[j]); if (!must(c, p[d], OPS4[op], before + " in a chain")) return; }
        else { compound(op, p[i], p[j]); if (!must(c, p[i], OPS4[op], before + " in a chain, in place")) return; }
        h = vf::mix64(h ^ (u64)(i + 3 * j + 9 * d + 27 * op + (bin ? 200 : 0)));
    }
    c.nontrivial(h); c.count("chains");
}
#ifndef VF_NO_HUGE
// sums and differences of very long numbers, most of which cancel
template <class BN> void hugeone(Src& s, Ctx& c, int t) {
    const u64 B = Info<BN>::base();
    Pair p = gen_pair(s, B, 140000, 0);
    if (s.chance(40) && !p.a.empty()) {              // equal from a chosen digit upwards: the difference is short, or ends near digit 65536
        p.b = p.a; size_t k = s.chance(50) ? (size_t)s.range(65530, 65542) : (size_t)s.range(0, p.a.size()); k = std::min(k, p.b.size());
        for (size_t i = k > 40 && s.chance(50) ? k - 40 : 0; i < k; ++i) p.b[i] = s.range(0, B - 1);
    }
    ref::norm(p.a); ref::norm(p.b); p.na = p.na && !p.a.empty(); p.nb = p.nb && !p.b.empty();
    BN a = make<BN>(p.na, p.a), b = make<BN>(p.nb, p.b); const std::string A = show(a), Bs = show(b), e = ex(",", A, Bs);
    if (vf::verbose()) c.describe(std::string(TypeName<BN>::get()) + " a=" + A + " b=" + Bs);
    for (int op = 0; op < 2; ++op) {
        BN r = binary(op, a, b); must(c, r, OPS4[op], ex(OPS4[op], A, Bs)); BN x(a); compound(op, x, b); same(c, r, x, "binary/compound", ex(OPS4[op], A, Bs));
        BN y(a); compound(op, y, y); must(c, y, OPS4[op], ex(OPS4[op], A, A) + " (same object)");
    }
    same(c, a + b, b + a, "a+b = b+a", e); same(c, (a + b) - b, a, "(a+b)-b = a", e); same(c, (a - b) + b, a, "(a-b)+b = a", e); same(c, (a - b) + (b - a), BN(), "(a-b)+(b-a) = 0", e);
    c.nontrivial(hash_case((u64)t + 300, p)); c.count("length " + len_bucket(std::max(p.a.size(), p.b.size())));
}
#endif
void vf::setup() {
    random_workload("laws", 150000, 3000000, [](Src& s, Ctx& c) { int t = (int)s.range(0, VF_NTYPES - 1); VF_DISPATCH(t, one<BN>(s, c, t, 120)); });
    random_workload("chains", 150000, 3000000, [](Src& s, Ctx& c) { int t = (int)s.range(0, VF_NTYPES - 1); VF_DISPATCH(t, chain<BN>(s, c, t)); });
    random_workload("large", 800, 20000, [](Src& s, Ctx& c) { int t = (int)s.range(0, VF_NTYPES - 1); VF_DISPATCH(t, one<BN>(s, c, t, 3000)); });
#ifndef VF_NO_HUGE
    random_workload("huge", 600, 12000, [](Src& s, Ctx& c) { int t = (int)s.range(0, VF_NTYPES - 1); VF_DISPATCH(t, hugeone<BN>(s, c, t)); });
#endif
}
