// C01..C04: exact signed arithmetic. Compile with -DVF_OP=1 (add) 2 (sub) 3 (mul) 4 (div).
#define VF_DEFINE_BASES
#include "nums.h"

#ifndef VF_OP
#error VF_OP
#endif
static const char* const OPN[] = {"", "add", "sub", "mul", "div"};

template <class BN> void apply(int form, const BN& a, const BN& b, BN& out) {
    // form 0: binary operator; form 1: compound assignment
#if VF_OP == 1
    if (form == 0) out = a + b; else { out = a; out += b; }
#elif VF_OP == 2
    if (form == 0) out = a - b; else { out = a; out -= b; }
#elif VF_OP == 3
    if (form == 0) out = a * b; else { out = a; out *= b; }
#else
    if (form == 0) out = a / b; else { out = a; out /= b; }
#endif
}
template <class BN> void apply_self(BN& a) {
#if VF_OP == 1
    a += a;
#elif VF_OP == 2
    a -= a;
#elif VF_OP == 3
    a *= a;
#else
    a /= a;
#endif
}
static const size_t EXACT_LIMIT = 1500;   // digits up to which products are recomputed in full

// Is r the exact result? Returns an empty string or what is wrong.
template <class BN> std::string judge(const Int& a, const Int& b, const BN& r) {
    const u64 B = Info<BN>::base();
    if (!finite(r)) return "result is not finite";
    if (!digits_ok(r)) return "result has a digit outside the base";
    Int v = value(r);
#if VF_OP == 1 || VF_OP == 2
    Int e = VF_OP == 1 ? ref::add(a, b, B) : ref::sub(a, b, B);
    if (!ref::eq(e, v)) return "expected " + ref::str(e);
#elif VF_OP == 3
    if (a.m.size() * b.m.size() <= EXACT_LIMIT * EXACT_LIMIT / 4) {
        Int e = ref::mul(a, b, B);
        if (!ref::eq(e, v)) return "expected " + ref::str(e);
    } else {
        for (int i = 0; i < 2; ++i) {
            const u64 p = ref::primes()[i];
            if (ref::mulmod(ref::residue(a, B, p), ref::residue(b, B, p), p) != ref::residue(v, B, p)) return "residue mismatch";
        }
        if (v.m.size() > a.m.size() + b.m.size() || v.m.size() + 1 < a.m.size() + b.m.size()) return "product has an impossible length";
        if (v.neg != (a.neg != b.neg)) return "wrong sign";
    }
#else
    if (!ref::is_quotient(a.m, b.m, v.m, B)) return "not the truncated quotient; expected " + ref::str(Int(a.neg != b.neg, ref::quotient(a.m, b.m, B)));
    if (!v.m.empty() && v.neg != (a.neg != b.neg)) return "wrong sign";
#endif
    return "";
}

template <class BN> void check_pair(Ctx& c, const Pair& p, int form, u64 tag) {
    const u64 B = Info<BN>::base();
    Int ia(p.na, p.a), ib(p.nb, p.b);
    if (vf::verbose()) c.describe(std::string(TypeName<BN>::get()) + " " + OPN[VF_OP] + " form=" + std::to_string(form) + " a=" + (p.na ? "-" : "+") + ref::str(p.a) + " b=" + (p.nb ? "-" : "+") + ref::str(p.b));
    BN a = make<BN>(p.na, p.a), b = make<BN>(p.nb, p.b), r;
    apply(form, a, b, r);
    c.eval();
    c.count(std::string(TypeName<BN>::get()) + "/" + len_bucket(std::max(p.a.size(), p.b.size())));
    c.count("relation/" + std::to_string(p.rel));
    if (p.denorm) c.count("leading-zero operands");
    if (!ia.m.empty() && !ib.m.empty() && ia.m.size() + ib.m.size() > 2) c.nontrivial(hash_case(tag, p));
    std::string bad = judge<BN>(ia, ib, r);
    if (!bad.empty())
        c.violation(std::string(OPN[VF_OP]) + "|" + TypeName<BN>::get(), std::string(TypeName<BN>::get()) + " " + OPN[VF_OP] + (form ? " (in place)" : "") + ": a=" + (p.na ? "-" : "+") + ref::str(p.a) + " b=" + (p.nb ? "-" : "+") + ref::str(p.b) + " result=" + show(r) + "; " + bad);
    if (p.a.size() <= 40 && p.b.size() <= 40 && p.a.size() > 1) {
        std::ostringstream o;
        o << OPN[VF_OP] << ' ' << B << ' ' << ev_mag(p.na, p.a) << ' ' << ev_mag(p.nb, p.b) << ' ' << ev_mag(r.descriptor == BN_NEG, raw(r.numData));
        if (c.index % 7 == 0) c.event(o.str());
        if (p.a.size() > 3) c.sample(std::string(TypeName<BN>::get()) + " " + o.str());
    }
}
template <class BN> void check_self(Ctx& c, const Mag& m, bool neg) {
    Int ia(neg, m);
    if (vf::verbose()) c.describe(std::string(TypeName<BN>::get()) + " " + OPN[VF_OP] + " with itself: a=" + (neg ? "-" : "+") + ref::str(m));
    BN a = make<BN>(neg, m);
    apply_self(a);
    c.eval(); c.count("same-object");
    std::string bad = judge<BN>(ia, ia, a);
    if (!bad.empty()) c.violation(std::string(OPN[VF_OP]) + "-self|" + TypeName<BN>::get(), std::string(TypeName<BN>::get()) + " " + OPN[VF_OP] + "= itself: a=" + (neg ? "-" : "+") + ref::str(m) + " result=" + show(a) + "; " + bad);
}

// work of a division is about (quotient bits)^2 * length
inline size_t log2c(u64 b) { size_t k = 0; while ((1ull << k) < b && k < 63) ++k; return k; }

template <class BN> void one(Src& s, Ctx& c, int t, bool large) {
    const u64 B = Info<BN>::base();
    const int form = (int)s.range(0, 1);
#if VF_OP == 4
    // choose b, q, r and build a = q*b + r
    Mag b, q, r, a; Pair p; p.denorm = false; p.rel = (int)s.range(0, 5);
    const size_t qmax = std::max<size_t>(1, (large ? 420 : 130) / log2c(B));
    if (p.rel <= 3) {
        b = gen_mag(s, B, large ? 600 : 40); if (b.empty()) b = Mag(1, 1 + s.range(0, B - 2));
        q = gen_mag_len(s, B, (size_t)s.range(0, qmax));
        switch (s.range(0, 4)) { case 0: break; case 1: r = Mag(1, 1); break; case 2: r = ref::sub(b, Mag(1, 1), B); break; case 3: r = gen_mag_len(s, B, b.size()); break; default: r = gen_mag_len(s, B, b.size() / 2); }
        if (ref::cmp(r, b) >= 0) r.clear();
        a = ref::add(ref::mul(q, b, B), r, B);
    } else {
        Pair g = gen_pair(s, B, std::max<size_t>(4, qmax), 0);
        a = g.a; b = g.b; if (b.empty()) b = Mag(1, 1 + s.range(0, B - 2));
    }
    p.a = a; p.b = b; p.na = s.chance(40) && !a.empty(); p.nb = s.chance(40);
    if (s.chance(12)) { p.denorm = true; if (s.chance(70)) add_zeros(s, p.a); if (s.chance(70)) add_zeros(s, p.b); }
#else
    const size_t maxlen = VF_OP == 3 ? (large ? 6000 : 160) : (large ? 20000 : 300);
    Pair p = gen_pair(s, B, maxlen, 12);
#endif
    check_pair<BN>(c, p, form, (u64)t);
    if (s.chance(15) && !(VF_OP == 4 && ref::normed(p.a).empty())) check_self<BN>(c, p.a, p.na);
}

// ---- systematic part: all small operands in every sign combination and form
static Mag small_mag(u64 k, u64 B) {   // k-th small operand: every value built from interesting digits, up to 3 digits
    static const int D = 6;
    u64 dig[D] = {0, 1, B - 1, B / 2, B > 2 ? B - 2 : 0, (u64)(B > 3 ? 2 : 1)};
    Mag m;
    if (k == 0) return m;
    --k;
    for (int len = 1; len <= 3; ++len) {
        u64 n = 1; for (int i = 0; i < len; ++i) n *= D;
        if (k < n) { for (int i = 0; i < len; ++i) { m.push_back(dig[k % D]); k /= D; } return m; }
        k -= n;
    }
    return m;
}
static const u64 NSMALL = 1 + 6 + 36 + 216;
template <class BN> void sys(u64 i, Ctx& c, int t) {
    const u64 B = Info<BN>::base();
    Pair p; p.rel = 10; p.denorm = false;
    p.a = small_mag(i % NSMALL, B);
    p.b = small_mag((i / NSMALL) % NSMALL, B);
    if (VF_OP == 4 && ref::normed(p.b).empty()) return;
    for (int g = 0; g < 4; ++g) {
        p.na = g & 1; p.nb = (g & 2) != 0;
        if ((p.na && ref::normed(p.a).empty()) || (p.nb && ref::normed(p.b).empty())) continue;
        check_pair<BN>(c, p, (int)((i + (u64)g) & 1), (u64)t);
    }
    if (i / NSMALL == 0 && !(VF_OP == 4 && ref::normed(p.a).empty())) { check_self<BN>(c, p.a, false); if (!ref::normed(p.a).empty()) check_self<BN>(c, p.a, true); }
}

// ---- very long operands (index types, transform size limits)
template <class BN> void huge(u64 i, Ctx& c, int t) {
    const u64 B = Info<BN>::base();
    Src s(vf::case_seed("huge", i));
#if VF_OP == 4
    // long operands, short quotient
    Pair p; p.rel = 11; p.denorm = false; p.na = s.chance(50); p.nb = s.chance(50);
    static const size_t L[] = {1000, 4095, 5000, 8193, 3000};
    size_t n = L[i % 5];
    p.b = gen_mag_len(s, B, n);
    Mag q = gen_mag_len(s, B, B > 65535 ? 1 : 3), r = ref::sub(p.b, Mag(1, 1), B);
    p.a = ref::mul(q, p.b, B); if (s.chance(70)) p.a = ref::add(p.a, r, B);
#else
    static const size_t L[] = {32767, 65535, 65536, 70000, 131073, 262145};
    size_t n = L[i % 6], k = L[(i / 6) % 6];
    if (VF_OP == 3) {
        // keep the quadratic fallback of wide digits affordable
        const bool wide = B > 65535;
        n = wide ? 3000 + 700 * (i % 3) : n; k = wide ? 2500 + 300 * (i % 5) : std::min<size_t>(k, n);
        if (B == 65536 || B == 1000) { n = std::min<size_t>(n, 9000); k = std::min<size_t>(k, 7000); }
    }
    Pair p; p.rel = 11; p.denorm = false;
    p.a = gen_mag_len(s, B, n); p.b = gen_mag_len(s, B, k); p.na = s.chance(50); p.nb = s.chance(50);
    if (VF_OP != 3 && s.chance(50)) { p.b = Mag(1, 1); for (auto& d : p.a) d = B - 1; if (VF_OP == 2) { Mag z(p.a.size(), 0); z.back() = 1; p.a = z; } }
#endif
    check_pair<BN>(c, p, (int)(i & 1), (u64)t);
    c.count("huge operands");
}

#if VF_OP == 4
// quotients of many digits: few bits set (each costs a search over the whole length), or dense and of moderate length
template <class BN> void longq(Src& s, Ctx& c, int t) {
    const u64 B = Info<BN>::base(); const double lb = (double)log2c(B);
    const int ones = (int)s.range(1, 3); const bool dense = s.chance(15);
    const double budget = vf::opt().thorough ? 5e8 : 1e8;                       // digit steps: bits * (quotient + divisor digits) * ones
    const size_t dlen = s.chance(70) ? (size_t)s.range(1, 4) : (size_t)s.range(5, 300);
    double bits = dense ? std::cbrt(budget * lb) : std::sqrt(budget * lb / ones); bits = std::min(bits, budget / ones / (double)dlen);
    size_t ql = std::max<size_t>(2, (size_t)(bits / lb)); if (s.chance(30)) ql = (size_t)s.range(1, ql);
    // a top bit next to a power of two, for counters narrower than the quotient
    const bool pow2 = !(B & (B - 1)); size_t top = 0; const bool edge = pow2 && s.chance(30);
    if (edge) { size_t k = 16; while (std::ldexp(1.0, (int)(2 * k)) / lb > 3 * budget) --k; if (s.chance(50)) k -= (size_t)s.range(0, 3); top = ((size_t)1 << k) + (size_t)s.range(0, 4) - 2; ql = top / (size_t)lb + 1; }
    Mag q(ql, 0);
    if (edge) { q[ql - 1] = (u64)1 << (top % (size_t)lb); if (s.chance(50)) q[0] += 1; c.count("top bit of the quotient next to a power of two"); }
    else if (dense) q = gen_mag_len(s, B, ql);
    else for (int i = 0; i < ones; ++i) { const size_t at = i ? (s.chance(30) ? 0 : (size_t)s.range(0, ql - 1)) : ql - 1; q[at] = std::min(B - 1, (u64)1 << (B == 2 ? 0 : s.range(0, (u64)lb - 1))); }
    // q counts powers of two only where the base is one; elsewhere its digits are made of few bits
    if (!dense && !pow2) { q = gen_mag_len(s, B, std::max<size_t>(1, (size_t)(std::cbrt(budget * lb) / lb))); }
    Mag b = gen_mag_len(s, B, edge ? (size_t)s.range(1, 2) : dlen), r; if (b.empty()) b = Mag(1, 1);
    switch (s.range(0, 3)) { case 0: break; case 1: r = ref::sub(b, Mag(1, 1), B); break; default: r = gen_mag_len(s, B, b.size()); }
    if (ref::cmp(ref::normed(r), ref::normed(b)) >= 0) r.clear();
    Pair p; p.rel = 12; p.denorm = false; p.a = ref::add(ref::mul(q, b, B), ref::normed(r), B); p.b = b; p.na = s.chance(50); p.nb = s.chance(50);
    check_pair<BN>(c, p, (int)s.range(0, 1), (u64)t); c.count("quotient digits " + len_bucket(ref::normed(q).size()));
}
#endif
#if VF_OP == 3
// products whose total number of digits is next to a power of two
template <class BN> void edge(u64 i, Ctx& c, int t, int maxk) {
    const u64 B = Info<BN>::base();
    const int k = (int)(i % (u64)maxk), delta = (int)(i / (u64)maxk % 5) - 2, split = (int)(i / (u64)maxk / 5 % 4);
    Src s(vf::case_seed("edge", i));
    const long long tot = ((long long)1 << k) + delta; if (tot < 0) return;
    const size_t n = (size_t)tot, q = split == 0 ? n / 2 : split == 1 ? std::min<size_t>(n, 1) : split == 2 ? n / 3 : n - n / 4;
    if (B > 65536 && (double)q * (double)(n - q) > 3e7) return;             // these multiply digit by digit
    Pair p; p.rel = 10; p.denorm = false; p.a = gen_mag_len(s, B, q); p.b = gen_mag_len(s, B, n - q); p.na = s.chance(50) && q; p.nb = s.chance(50) && n - q;
    if (s.chance(40)) { for (auto& d : p.a) d = B - 1; for (auto& d : p.b) d = B - 1; }
    if (s.chance(50)) std::swap(p.a, p.b);
    check_pair<BN>(c, p, (int)(i & 1), (u64)t); c.count("products with a total length next to a power of two");
}
#endif

#if VF_OP == 3 && !defined(VF_NO_HUGE)
// Bases between 16 and 32 bits: there few digits fill the precision of the transform. The all-(B-1) operands give its largest sums.
VF_BASE(user_base128k, BN_UINT32, 131072)
VF_BASE(user_base1m, BN_UINT32, 1000000)
VF_BASE(user_base4m, BN_UINT64, 4194304)
VF_BASE(user_base16m, BN_UINT32, 16777216)
VF_BASE(user_base67m, BN_UINT64, 67108864)
BN_DEFINE_CLASS(BNIntType, BN_UINT32, 131072);
BN_DEFINE_CLASS(BNIntType, BN_UINT32, 1000000);
BN_DEFINE_CLASS(BNIntType, BN_UINT64, 4194304);
BN_DEFINE_CLASS(BNIntType, BN_UINT32, 16777216);
BN_DEFINE_CLASS(BNIntType, BN_UINT64, 67108864);
template <> inline const char* TypeName<user_base128k>::get() { return "user_base128k"; }
template <> inline const char* TypeName<user_base1m>::get() { return "user_base1m"; }
template <> inline const char* TypeName<user_base4m>::get() { return "user_base4m"; }
template <> inline const char* TypeName<user_base16m>::get() { return "user_base16m"; }
template <> inline const char* TypeName<user_base67m>::get() { return "user_base67m"; }
template <class BN> void middle(Src& s, Ctx& c, int t) {
    const u64 B = Info<BN>::base(), top = vf::opt().thorough ? 16384 : 4096; Pair p; p.rel = 13; p.denorm = false;
    // lengths at which the sums reach a power of two next to the precision of float and double
    const double sum = std::ldexp(1.0, (int)s.range(36, 60)) / ((double)(B - 1) * (double)(B - 1));
    size_t n = s.chance(50) && sum > 2 ? (size_t)std::min<double>(sum, (double)top) : s.chance(50) ? (size_t)1 << s.range(0, top > 5000 ? 14 : 12) : (size_t)s.range(1, top), k = s.chance(60) ? n : (size_t)s.range(1, n);
    p.a = gen_mag_len(s, B, n); p.b = gen_mag_len(s, B, k);
    if (s.chance(60)) for (auto& d : p.a) d = B - 1 - (s.chance(5) ? 1 : 0);
    if (s.chance(60)) for (auto& d : p.b) d = B - 1 - (s.chance(5) ? 1 : 0);
    p.na = s.chance(50); p.nb = s.chance(50); if (s.chance(50)) { std::swap(p.a, p.b); }
    check_pair<BN>(c, p, (int)s.range(0, 1), (u64)(20 + t)); c.count("products in bases between 16 and 32 bits");
    if (s.chance(20)) check_self<BN>(c, p.a, p.na);
}
#endif

void vf::setup() {
    random_workload("random", VF_OP == 4 ? 60000 : VF_OP == 3 ? 120000 : 300000, VF_OP == 4 ? 1200000 : 3000000, [](Src& s, Ctx& c) {
        int t = (int)s.range(0, VF_NTYPES - 1); VF_DISPATCH(t, one<BN>(s, c, t, false)); });
    random_workload("large", VF_OP == 4 ? 1500 : VF_OP == 3 ? 1500 : 6000, VF_OP == 4 ? 30000 : 40000, [](Src& s, Ctx& c) {
        int t = (int)s.range(0, VF_NTYPES - 1); VF_DISPATCH(t, one<BN>(s, c, t, true)); });
    // quick: a seed-dependent slice of the grid; thorough: the whole grid
    const u64 total = NSMALL * NSMALL * VF_NTYPES;
    systematic("small-grid", (u64)(total * std::min(1.0, 0.25 * opt().scale)), (u64)(total * std::min(1.0, opt().scale)), [total](u64 i, Ctx& c) {
        u64 j = (i * 1000003ull + opt().seed * 7919) % total; int t = (int)(j % VF_NTYPES); VF_DISPATCH(t, sys<BN>(j / VF_NTYPES, c, t)); });
    systematic("small-edge", NSMALL * 2 * VF_NTYPES, NSMALL * 2 * VF_NTYPES, [](u64 i, Ctx& c) {   // always: zero or one-digit with everything
        int t = (int)(i % VF_NTYPES); u64 k = i / VF_NTYPES; u64 j = k < NSMALL ? k : (k - NSMALL) * NSMALL;
        VF_DISPATCH(t, sys<BN>(j, c, t)); });
#if VF_OP == 3
#ifdef VF_NO_HUGE
    const int maxk = 11;
#else
    const int maxk = opt().thorough ? 21 : 19;
#endif
    systematic("edge", (u64)maxk * 20 * (opt().thorough ? VF_NTYPES : 3), (u64)maxk * 20 * VF_NTYPES, [maxk](u64 i, Ctx& c) {
        const int t = (int)((i / ((u64)maxk * 20) * 4 + i + opt().seed) % VF_NTYPES); VF_DISPATCH(t, edge<BN>(i % ((u64)maxk * 20), c, t, maxk)); });
#endif
#ifndef VF_NO_HUGE
#if VF_OP == 3
    random_workload("middle-bases", 300, 8000, [](Src& s, Ctx& c) {
        switch (s.range(0, 4)) { case 0: middle<user_base128k>(s, c, 0); break; case 1: middle<user_base1m>(s, c, 1); break; case 2: middle<user_base4m>(s, c, 2); break; case 3: middle<user_base16m>(s, c, 3); break; default: middle<user_base67m>(s, c, 4); } });
#endif
#if VF_OP == 4
    random_workload("long-quotients", 60, 1500, [](Src& s, Ctx& c) { int t = (int)s.range(0, VF_NTYPES - 1); VF_DISPATCH(t, longq<BN>(s, c, t)); });
#endif
    systematic("huge", 3 * VF_NTYPES, 36 * VF_NTYPES, [](u64 i, Ctx& c) {
        int t = (int)(i % VF_NTYPES); u64 j = opt().thorough ? i / VF_NTYPES : (i / VF_NTYPES) * 13 + opt().seed * 5 + (u64)t; VF_DISPATCH(t, huge<BN>(j, c, t)); });
#endif
}
