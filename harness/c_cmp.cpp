// C06: the six comparisons against the mathematical order.
#define VF_DEFINE_BASES
#include "ext.h"
#include "far.h"
#include <algorithm>

static const char* const CN[] = {"==", "!=", "<", "<=", ">", ">="};
template <class BN> unsigned bits(const BN& a, const BN& b) {
    return (a == b ? 1u : 0) | (a != b ? 2u : 0) | (a < b ? 4u : 0) | (a <= b ? 8u : 0) | (a > b ? 16u : 0) | (a >= b ? 32u : 0);
}
inline unsigned expect(int cmp) { return cmp == 0 ? (1u | 8 | 32) : cmp < 0 ? (2u | 4 | 8) : (2u | 16 | 32); }
inline int xcmp(const Ext& a, const Ext& b) {   // neither NaN
    if (a.fin() && b.fin()) return ref::cmp(a.v, b.v);
    int ra = a.fin() ? 0 : a.sign(), rb = b.fin() ? 0 : b.sign();
    return ra < rb ? -1 : ra > rb ? 1 : 0;
}
template <class BN> void check(Ctx& c, const BN& a, const BN& b, const Ext& ea, const Ext& eb, const char* wl) {
    if (vf::verbose()) c.describe(std::string(TypeName<BN>::get()) + " compare " + show(a) + " with " + show(b));
    unsigned g = bits(a, b);
    c.eval();
    unsigned e, mask = 63;
    if (ea.k == Ext::NAN_ || eb.k == Ext::NAN_) { e = 0; mask = 4 | 8 | 16 | 32; }
    else e = expect(xcmp(ea, eb));
    if ((g & mask) != (e & mask))
        for (int i = 0; i < 6; ++i) if (((g ^ e) & mask) >> i & 1)
            c.violation(std::string("cmp|") + CN[i], std::string(TypeName<BN>::get()) + ": " + show(a) + " " + CN[i] + " " + show(b) + " returned " + ((g >> i & 1) ? "true" : "false") + " [" + wl + "]");
}
inline std::string cmpbits(unsigned g) { std::string s; for (int i = 0; i < 6; ++i) s += (g >> i & 1) ? '1' : '0'; return s; }

template <class BN> void one(Src& s, Ctx& c, int t, size_t maxlen) {
    const u64 B = Info<BN>::base();
    Pair p = gen_pair(s, B, maxlen, 25);
    if (s.chance(60)) p.nb = p.na;                       // same sign more often than not
    if (s.chance(4)) { p.a = Mag((size_t)s.range(0, 2), 0); p.na = s.chance(50); }
    if (s.chance(4)) { p.b = Mag((size_t)s.range(0, 2), 0); p.nb = s.chance(50); }
    BN a = make<BN>(p.na, p.a), b = make<BN>(p.nb, p.b);
    Ext ea = observe(a), eb = observe(b);
    check(c, a, b, ea, eb, "pair");
    check(c, b, a, eb, ea, "pair");
    check(c, a, a, ea, ea, "same object");
    c.count("relation/" + std::to_string(p.rel)); c.count(std::string("same sign ") + (p.na == p.nb ? "yes" : "no")); c.count("length/" + len_bucket(p.a.size()));
    if (p.a.size() + p.b.size() > 2) c.nontrivial(hash_case((u64)t, p));
    if (p.a.size() < 40 && p.b.size() < 40 && p.a.size() > 1 && c.index % 11 == 0) {
        std::string e = "cmp " + std::to_string(B) + " " + ev_mag(p.na, p.a) + " " + ev_mag(p.nb, p.b) + " " + cmpbits(bits(a, b));
        c.event(e); c.sample(std::string(TypeName<BN>::get()) + " " + e);
    }
}
// one digit differs at a chosen position, every lower digit says the opposite
template <class BN> void position(u64 i, Ctx& c, int t, bool far = false) {
    const u64 B = Info<BN>::base();
    Src s(vf::case_seed("position", i * 31 + (u64)t + (far ? 1000003 : 0)));
    size_t len = 1 + (size_t)(i % 40), pos;
    if (i % 97 == 0) len = (size_t)s.range(100, 4000);
    if (far) { len = i & 1 ? 65536 * (size_t)s.range(1, 2) + (size_t)s.range(0, 9) - 4 : (size_t)s.range(65537, 140000); c.count("first difference in numbers of more than 65535 digits"); }
    pos = (size_t)s.range(0, len - 1);
    if (far) { if (s.chance(60)) pos = std::min(len - 1, 65536 * (size_t)s.range(0, 1) + (size_t)s.range(0, 7) + (s.chance(50) ? 65530 : 0)); }
    else if (i % 3 == 0) pos = len - 1; else if (i % 3 == 1) pos = (size_t)(i / 3 % len);
    Mag a = gen_mag_len(s, B, len), b;
    if (a[pos] >= B - 1) a[pos] = B - 2 + (B == 2 && pos == len - 1 ? 1 : 0);
    b = a;
    if (B == 2 && pos == len - 1 && a[pos] == 1) { b = a; b.push_back(1); } else b[pos] = a[pos] + 1 + s.range(0, B - 2 - a[pos]);
    for (size_t k = 0; k < pos; ++k) { a[k] = B - 1 - (s.chance(30) ? s.range(0, B / 2) : 0); b[k] = s.chance(30) ? s.range(0, B / 2) : 0; }
    if (s.chance(10)) add_zeros(s, a);
    if (s.chance(10)) add_zeros(s, b);
    for (int g = 0; g < 4; ++g) {
        BN x = make<BN>(g & 1, a), y = make<BN>((g & 2) != 0, b);
        Ext ex = observe(x), ey = observe(y);
        check(c, x, y, ex, ey, "position"); check(c, y, x, ey, ex, "position");
    }
    Pair p; p.a = a; p.b = b; p.na = p.nb = false; c.nontrivial(hash_case((u64)t + 100, p)); c.count("first difference at a chosen position");
}
template <class BN> BN special(int k) {
    const u64 B = Info<BN>::base(); BN n; Mag m;
    switch (k) {
    case 0: n.setDescriptor(BN_NAN); break; case 1: n.setDescriptor(BN_POS_INF); break; case 2: n.setDescriptor(BN_NEG_INF); break;
    case 3: break; case 4: n = make<BN>(true, Mag()); break; case 5: n = make<BN>(false, Mag(2, 0)); break; case 6: n = make<BN>(true, Mag(3, 0)); break;
    case 7: n = make<BN>(false, Mag(1, 1)); break; case 8: n = make<BN>(true, Mag(1, 1)); break;
    case 9: n = make<BN>(false, Mag(50, B - 1)); break; case 10: n = make<BN>(true, Mag(50, B - 1)); break;
    case 11: m = Mag(4, 0); m[0] = 1; n = make<BN>(false, m); break; case 12: m = Mag(4, 0); m[0] = 1; n = make<BN>(true, m); break;
    case 13: n = make<BN>(false, Mag(1, B - 1)); break; case 14: n = make<BN>(true, Mag(1, B - 1)); break;
    case 15: n = make<BN>(true, Mag(5, 1)); n.setDescriptor(BN_POS_INF); break; case 16: n = make<BN>(false, Mag(5, 1)); n.setDescriptor(BN_NEG_INF); break;
    case 17: m = Mag(2, 0); m[1] = 1; n = make<BN>(false, m); break; case 18: m = Mag(2, 0); m[1] = 1; n = make<BN>(true, m); break;
    default: n = make<BN>(false, Mag(2, B - 1));
    }
    return n;
}
static const int NSP = 20;
template <class BN> void specials(u64 i, Ctx& c, int t) {
    BN a = special<BN>((int)(i % NSP)), b = special<BN>((int)(i / NSP % NSP));
    check(c, a, b, observe(a), observe(b), "special");
    c.nontrivial(vf::mix64(i * 16 + (u64)t + 7000000)); c.count("special pairs");
}
// sorting relies on the order being consistent over a whole set
template <class BN> void sorting(Src& s, Ctx& c, int t) {
    const u64 B = Info<BN>::base();
    std::vector<BN> v; size_t n = (size_t)s.range(2, 30); size_t L = (size_t)s.range(1, 6);
    for (size_t i = 0; i < n; ++i) {
        if (s.chance(4)) { v.push_back(special<BN>((int)s.range(1, 6))); continue; }
        if (i && s.chance(40)) { Mag m = raw(v[(size_t)s.range(0, i - 1)].numData); if (!m.empty()) m[(size_t)s.range(0, m.size() - 1)] = s.range(0, B - 1); v.push_back(make<BN>(s.chance(50), m)); }
        else v.push_back(make<BN>(s.chance(50), gen_mag_len(s, B, L)));
    }
    std::vector<Ext> before; for (auto& x : v) before.push_back(observe(x));
    // insertion sort with the library's operators (an inconsistent order cannot run away)
    for (size_t i = 1; i < v.size(); ++i) for (size_t j = i; j > 0 && v[j] < v[j - 1]; --j) std::swap(v[j], v[j - 1]);
    for (size_t i = 1; i < v.size(); ++i) {
        c.eval();
        if (xcmp(observe(v[i - 1]), observe(v[i])) > 0) { c.violation("cmp|sort", std::string(TypeName<BN>::get()) + ": sorting leaves " + show(v[i - 1]) + " before " + show(v[i])); return; }
    }
    c.count("sorted sets"); u64 h = (u64)t; for (auto& x : v) h = hash_mag(h, raw(x.numData)); c.nontrivial(h);
}
// numbers of up to 2^40 digits, most of them zero, that differ near the top
template <class BN> void far_pair(Src& s, Ctx& c) {
    const u64 B = Info<BN>::base(); FarModel a, b; auto dig = [&] { return s.chance(40) ? s.range(1, B - 1) : s.chance(50) ? (u64)1 : B - 1; };
    a.n = far_size(s); const u64 z = s.chance(30) ? s.range(1, 4) : 0, top = a.n - 1 - z; a.d[top] = dig();
    for (u64 k = s.range(0, 4); k--;) { const u64 w = s.range(0, 4); const u64 at = w == 0 ? s.range(0, 9) : w == 1 ? (top & 0xffffffffu) - s.range(0, 3) % ((top & 0xffffffffu) + 1) : w == 2 ? top / 2 + s.range(0, 9) : top - s.range(1, 30); if (at < top) a.d[at] = dig(); }
    b = a; const u64 rel = s.range(0, 4); static const char* const REL[] = {"digit near the top", "length less 2^32", "length less 2^31", "one digit longer or shorter", "other length"};
    if (rel == 0) { const u64 at = top - s.range(0, 40); u64 v = s.range(0, B - 1); if (v == a.at(at)) v = (v + 1) % B; b.d.erase(at); if (v) b.d[at] = v; else if (at == top) b.d[at] = a.at(at) == 1 ? B - 1 : 1; if (s.chance(40)) b.n = top + 1 + s.range(0, 4); }
    else if (rel == 1 || rel == 2) { const u64 cut = (u64)1 << (rel == 1 ? 32 : 31); if (top < cut + 1) return; b.d.clear(); b.n = a.n - cut; for (auto& x : a.d) if (x.first >= cut) b.d[x.first - cut] = x.second; if (s.chance(40)) b.d[0] = dig(); }
    else if (rel == 3) { b.d.erase(top); const u64 q = s.chance(50) ? top + 1 : top - 1; b.d.erase(q); b.d[q] = dig(); b.n = q + 1 + (s.chance(30) ? s.range(0, 3) : 0); }
    else { b.d.clear(); b.n = s.chance(50) ? far_size(s) : s.range(1, 70000); b.d[b.n - 1] = dig(); if (b.n > 1 && s.chance(50)) b.d[s.range(0, b.n - 2)] = dig(); }
    while (!b.d.empty() && !b.d.rbegin()->second) b.d.erase(std::prev(b.d.end()));
    if (s.chance(50)) std::swap(a, b);
    const int m = far_cmp(a, b); const bool na = s.chance(50), nb = s.chance(85) ? na : !na;
    BN x = far_make<BN>(a, na ? BN_NEG : BN_POS), y = far_make<BN>(b, nb ? BN_NEG : BN_POS);
    const int cmp = na != nb ? (na ? -1 : 1) : na ? -m : m; const unsigned e = expect(cmp); u64 h = vf::mix64(a.n ^ b.n << 20 ^ B); for (auto& q : a.d) h = vf::mix64(h ^ q.first ^ q.second << 40); for (auto& q : b.d) h = vf::mix64(h ^ q.first ^ q.second << 41); c.nontrivial(h);
    c.count(std::string("far numbers: ") + REL[rel]); c.peak("worst: digits of a far number", a.n);
    for (int i = 0; i < 6; ++i) {
        bool g = false; far_left = 20000;
        try { switch (i) { case 0: g = x == y; break; case 1: g = x != y; break; case 2: g = x < y; break; case 3: g = x <= y; break; case 4: g = x > y; break; default: g = x >= y; } } catch (const Tired&) { c.count("far comparisons that look at too many digits, not judged"); continue; }
        c.eval(); if (g != (bool)(e >> i & 1)) c.violation(std::string("cmp|") + CN[i], std::string("base ") + std::to_string(B) + ": " + (na ? "-(" : "+(") + a.str() + ") " + CN[i] + (nb ? " -(" : " +(") + b.str() + ") returned " + (g ? "true" : "false") + " [far]");
    }
    if (x.numData.digits() != a.d || y.numData.digits() != b.d || x.size() != a.n || y.size() != b.n) c.violation("cmp|operand", "a comparison changed an operand of " + a.str());
}
void vf::setup() {
    if (sizeof(size_t) > 4) random_workload("far", 60000, 1200000, [](Src& s, Ctx& c) { int t = (int)s.range(0, 3); VF_FAR_DISPATCH(t, far_pair<BN>(s, c)); });
    systematic("specials", (u64)NSP * NSP * VF_NTYPES, (u64)NSP * NSP * VF_NTYPES, [](u64 i, Ctx& c) { int t = (int)(i % VF_NTYPES); VF_DISPATCH(t, specials<BN>(i / VF_NTYPES, c, t)); });
    random_workload("pairs", 1000000, 20000000, [](Src& s, Ctx& c) { int t = (int)s.range(0, VF_NTYPES - 1); VF_DISPATCH(t, one<BN>(s, c, t, 200)); });
    random_workload("large", 10000, 200000, [](Src& s, Ctx& c) { int t = (int)s.range(0, VF_NTYPES - 1); VF_DISPATCH(t, one<BN>(s, c, t, 20000)); });
    systematic("position", 60000, 1000000, [](u64 i, Ctx& c) { int t = (int)(i % VF_NTYPES); VF_DISPATCH(t, position<BN>(i / VF_NTYPES + opt().seed % 1000 * 100003, c, t)); });
#ifndef VF_NO_HUGE
    random_workload("huge", 600, 12000, [](Src& s, Ctx& c) { int t = (int)s.range(0, VF_NTYPES - 1); VF_DISPATCH(t, one<BN>(s, c, t, 140000)); });
    systematic("huge-position", 600, 12000, [](u64 i, Ctx& c) { int t = (int)(i % VF_NTYPES); VF_DISPATCH(t, position<BN>(i / VF_NTYPES + opt().seed % 1000 * 100003, c, t, true)); });
#endif
    random_workload("sort", 20000, 400000, [](Src& s, Ctx& c) { int t = (int)s.range(0, VF_NTYPES - 1); VF_DISPATCH(t, sorting<BN>(s, c, t)); });
}
