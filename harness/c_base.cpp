// C17: the same calculation in different digit types; radix conversion and byte encoding round trips.
#define VF_DEFINE_BASES
#include "ext.h"

VF_BASE(user_base7, BN_UINT8, 7)
VF_BASE(user_base100, BN_UINT8, 100)
VF_BASE(user_base10000, BN_UINT16, 10000)
VF_BASE(user_base64k, BN_UINT32, 65536)
VF_BASE(user_base2g, BN_UINT64, 2147483647)
VF_BASE(user_base4g, BN_UINT64, 4294967296)
BN_DEFINE_CLASS(BNIntType, BN_UINT8, 7);
BN_DEFINE_CLASS(BNIntType, BN_UINT8, 100);
BN_DEFINE_CLASS(BNIntType, BN_UINT16, 10000);
BN_DEFINE_CLASS(BNIntType, BN_UINT32, 65536);
BN_DEFINE_CLASS(BNIntType, BN_UINT64, 2147483647);
BN_DEFINE_CLASS(BNIntType, BN_UINT64, 4294967296);

static const u64 NB = 256;                       // neutral base
// value of m (base from) written in base to, by Horner
inline Mag conv(const Mag& m, u64 from, u64 to) {
    Mag r;
    for (size_t i = m.size(); i-- > 0;) {
        u128 carry = m[i];
        for (auto& d : r) { u128 t = (u128)d * from + carry; d = (u64)(t % to); carry = t / to; }
        while (carry) { r.push_back((u64)(carry % to)); carry /= to; }
    }
    return r;
}
struct Step { int op, a, b, d; };                // op 0-3 binary into d, 4-7 compound on a, 8 compare
struct Prog { std::vector<Int> start; std::vector<Step> steps; };
struct Result { std::vector<Int> values; std::string note; };   // neutral

struct Calc {
    const char* name; u64 base;
    Result (*run)(const Prog&);
    Result (*radix)(const Int&, u64, size_t);                    // digits of |x| in radix R, least significant first, as values
    Result (*horner)(const std::vector<u64>&, u64, bool, bool);  // digits most significant first; result value; or the digits themselves in the type's base
    Result (*bits)(const std::vector<u64>&, size_t);             // bytes encoded, then extracted bit by bit
};
template <class BN> struct Impl {
    static u64 B() { return Info<BN>::base(); }
    static BN in(const Int& x) { return make<BN>(x.neg, conv(x.m, NB, B())); }
    static Int out(const BN& x) { Int v = value(x); return Int(v.neg, conv(v.m, B(), NB)); }
    static BN num(u64 v) { return make<BN>(false, ref::from_u64(v, B())); }
    static bool sane(const BN& x, Result& r) { if (finite(x) && digits_ok(x)) return true; r.note = std::string("not a finite number: ") + show(x).substr(0, 200); return false; }
    static Result run(const Prog& p) {
        Result r; std::vector<BN> pool; for (auto& x : p.start) pool.push_back(in(x));
        for (auto& s : p.steps) {
            BN &a = pool[(size_t)s.a], &b = pool[(size_t)s.b];
            if (s.op < 4) pool[(size_t)s.d] = binary(s.op, a, b);
            else if (s.op < 8) compound(s.op - 4, a, b);
            else { Int i; i.m = ref::from_u64((u64)((a == b) + 2 * (a != b) + 4 * (a < b) + 8 * (a <= b) + 16 * (a > b) + 32 * (a >= b)), NB); r.values.push_back(i); continue; }
            BN& x = pool[(size_t)(s.op < 4 ? s.d : s.a)];
            if (!sane(x, r)) return r;
            r.values.push_back(out(x));
        }
        return r;
    }
    static Result radix(const Int& v, u64 R, size_t maxdigits) {
        Result r; BN x = in(Int(false, v.m)); const BN zero, rad = num(R);
        for (size_t k = 0; x != zero; ++k) {
            if (k > maxdigits) { r.note = "does not reach zero"; return r; }
            BN q = x / rad; BN d = x - q * rad;
            if (!sane(q, r) || !sane(d, r)) return r;
            r.values.push_back(out(d)); x = q;
        }
        return r;
    }
    static Result horner(const std::vector<u64>& ds, u64 R, bool digits, bool compound_form) {
        Result r; BN x; const BN rad = num(R);
        for (u64 d : ds) { if (compound_form) { x *= rad; x += num(d); } else x = x * rad + num(d); }
        if (!sane(x, r)) return r;
        if (digits) { for (u64 d : raw(x.numData)) r.values.push_back(Int(false, ref::from_u64(d, NB))); }
        else r.values.push_back(out(x));
        return r;
    }
    static Result bits(const std::vector<u64>& bytes, size_t nbits) {
        Result r; BN x; const BN k256 = num(256), two = num(2), one = num(1), zero;
        for (u64 d : bytes) { x *= k256; x += num(d); }
        for (size_t i = 0; i < nbits; ++i) {
            BN q = x / two; BN d = x - q * two;
            if (!sane(q, r)) return r;
            r.values.push_back(Int(false, d == one ? Mag(1, 1) : d == zero ? Mag() : Mag(1, 99)));
            x = std::move(q);
        }
        if (x != zero) r.note = "bits are left over";
        return r;
    }
    static Calc get(const char* n) { return Calc{n, B(), &run, &radix, &horner, &bits}; }
};
static std::vector<Calc> T;
inline size_t bitlen(const Mag& m) { if (m.empty()) return 0; size_t n = (m.size() - 1) * 8; for (u64 t = m.back(); t; t >>= 1) ++n; return n; }
static std::string vstr(const Result& r, size_t i) { return i < r.values.size() ? ref::str(r.values[i]) + " (bytes, least significant first)" : r.note.empty() ? std::string("nothing") : r.note; }
static bool same(const Result& a, const Result& b, size_t& i) {
    for (i = 0; i < a.values.size() && i < b.values.size(); ++i) if (!ref::eq(a.values[i], b.values[i])) return false;
    return a.values.size() == b.values.size() && a.note.empty() && b.note.empty();
}
static Int gen_int(Src& s, size_t maxbytes) { Mag m = gen_mag_len(s, NB, (size_t)s.range(0, s.chance(30) ? 3 : maxbytes)); if (s.chance(25)) { u64 b = s.pick(T).base; Mag p(1, 1); size_t k = (size_t)s.range(1, 6); for (size_t i = 0; i < k && p.size() < maxbytes; ++i) p = ref::mul(p, ref::from_u64(b, NB), NB); m = s.chance(50) ? ref::add(p, Mag(1, s.range(0, 2)), NB) : ref::sub(p, Mag(1, 1), NB); } return Int(s.chance(45), m); }

static void program(Src& s, Ctx& c, size_t maxbytes, size_t maxsteps, size_t ntypes) {
    Prog p; std::vector<Int> v; Result want; const int P = (int)s.range(2, 4);
    for (int i = 0; i < P; ++i) v.push_back(gen_int(s, maxbytes));
    p.start = v; u64 h = 0; for (auto& x : v) h = hash_mag(h * 2 + x.neg, x.m);
    const size_t n = (size_t)s.range(1, maxsteps); size_t ops[9] = {0};
    for (size_t k = 0; k < n; ++k) {
        Step st{(int)s.range(0, 8), (int)s.range(0, (u64)P - 1), (int)s.range(0, (u64)P - 1), (int)s.range(0, (u64)P - 1)};
        const Int a = v[(size_t)st.a], b = v[(size_t)st.b]; int op = st.op & 3;
        if (st.op < 8 && op == 3 && (b.m.empty() || bitlen(a.m) > bitlen(b.m) + 70)) { st.op -= 1 + (int)s.range(0, 1); op = st.op & 3; }
        if (st.op < 8 && op == 2 && a.m.size() + b.m.size() > 3 * maxbytes) { st.op -= 1; op = st.op & 3; }
        p.steps.push_back(st); ++ops[st.op]; h = vf::mix64(h ^ (u64)(st.op * 64 + st.a * 16 + st.b * 4 + st.d));
        if (st.op == 8) { int q = ref::cmp(a, b); Int i; i.m = ref::from_u64(q == 0 ? 1 + 8 + 32 : q < 0 ? 2 + 4 + 8 : 2 + 16 + 32, NB); want.values.push_back(i); continue; }
        Ext e = xop(op, Ext(a), Ext(b), NB);
        v[(size_t)(st.op < 4 ? st.d : st.a)] = e.v; want.values.push_back(e.v);
    }
    Result first; size_t ft = 0;
    for (size_t k = 0; k < ntypes; ++k) {
        const size_t t = ntypes >= T.size() ? k : (size_t)s.range(0, T.size() - 1);
        if (vf::verbose()) c.describe(std::string(T[t].name) + ": program of " + std::to_string(n) + " steps starting from " + ref::str(p.start[0]) + ", " + ref::str(p.start[1]) + " (bytes)");
        Result r = T[t].run(p); size_t i; c.eval(); c.count(std::string("programs in ") + T[t].name);
        if (!same(r, want, i)) {
            static const char* const K[] = {"+", "-", "*", "/", "+=", "-=", "*=", "/=", "compare"};
            size_t j = 0; const bool other = k && same(first, want, j);
            c.violation("base|program", std::string(T[t].name) + ": step " + std::to_string(i) + " (" + (i < p.steps.size() ? K[p.steps[i].op] : "end") + ") of the same program gives " + vstr(r, i) + (other ? std::string(", in ") + T[ft].name + " " : ", exact value ") + vstr(other ? first : want, i)); return; }
        if (!k) { first = r; ft = t; }
    }
    c.nontrivial(h); c.count("steps", n);
    if (c.index % 3001 == 2) c.sample("program of " + std::to_string(n) + " steps run in " + std::to_string(ntypes) + " digit types, all intermediate values equal");
}
static void round_trip(Src& s, Ctx& c, size_t bits) {
    const Calc &A = s.pick(T), &C = s.pick(T); u64 R;
    switch (s.range(0, 5)) { case 0: R = s.range(2, 16); break; case 1: R = s.range(2, 1000); break; case 2: R = s.pick(T).base; break; case 3: R = (1ull << s.range(1, 40)) + s.range(0, 2); break; case 4: R = lit(s, 10); break; default: R = s.range(2, 1ull << 40); }
    if (R < 2) R = 2;
    if (R < 16) bits = std::min<size_t>(bits, 72);
    Mag m = gen_int(s, bits / 8).m; if (m.size() > bits / 8) m.resize(bits / 8); ref::norm(m); const Int x(false, m);
    std::string what = std::string(A.name) + ": " + ref::str(m) + " (bytes, least significant first) to radix " + std::to_string(R);
    if (vf::verbose()) c.describe(what);
    Mag e = conv(m, NB, R); Result want; for (u64 d : e) want.values.push_back(Int(false, ref::from_u64(d, NB)));
    Result r = A.radix(x, R, e.size() + 2); size_t i; c.eval();
    if (!same(r, want, i)) { c.violation("base|radix", what + ": digit " + std::to_string(i) + " is " + vstr(r, i) + ", expected " + vstr(want, i)); return; }
    std::vector<u64> ds(e.rbegin(), e.rend()); Result w2; w2.values.push_back(x);
    for (const Calc* t : {&A, &C}) {
        Result back = t->horner(ds, R, false, s.chance(50)); c.eval();
        if (!same(back, w2, i)) { c.violation("base|horner", what + ", rebuilt in " + t->name + ": " + vstr(back, 0)); return; }
    }
    // digit for digit in the original type
    Mag own = conv(m, NB, A.base); Result w3; for (u64 d : own) w3.values.push_back(Int(false, ref::from_u64(d, NB)));
    Result b3 = A.horner(ds, R, true, false); c.eval();
    if (!same(b3, w3, i)) { c.violation("base|horner", what + ", rebuilt: digit " + std::to_string(i) + " is " + vstr(b3, i) + ", expected " + vstr(w3, i)); return; }
    c.nontrivial(hash_mag(R * 32 + A.base, m)); c.count(std::string("radix round trips from ") + A.name); c.count(R < 16 ? "radix below 16" : R < 65536 ? "radix below 65536" : "large radix");
    if (c.index % 401 == 2) c.sample(what + " and back");
}
static void encode(Src& s, Ctx& c, size_t maxbytes, bool extract) {
    const Calc& A = s.pick(T); const size_t n = (size_t)s.range(0, maxbytes);
    Mag le = gen_mag_len(s, NB, n); if (n && s.chance(30)) le[n - 1] = 0;      // leading zero bytes too
    std::vector<u64> bytes(le.rbegin(), le.rend()); size_t i;
    std::string what = std::string(A.name) + ": " + std::to_string(n) + " bytes " + ref::str(le) + " (last byte first)";
    if (vf::verbose()) c.describe(what);
    if (extract) {
        Result want; for (size_t k = 0; k < n * 8; ++k) want.values.push_back(Int(false, (le[k / 8] >> (k % 8) & 1) ? Mag(1, 1) : Mag()));
        Result r = A.bits(bytes, n * 8); c.eval();
        if (!same(r, want, i)) { c.violation("base|bits", what + ": bit " + std::to_string(i) + " extracted is " + vstr(r, i)); return; }
        c.count("bits extracted", n * 8);
    } else {
        Mag own = conv(ref::normed(le), NB, A.base); Result want; for (u64 d : own) want.values.push_back(Int(false, ref::from_u64(d, NB)));
        Result r = A.horner(bytes, 256, true, s.chance(50)); c.eval();
        if (!same(r, want, i)) { c.violation("base|encode", what + ": digit " + std::to_string(i) + " is " + vstr(r, i) + ", expected " + vstr(want, i)); return; }
        c.count("bytes encoded", n);
    }
    c.nontrivial(hash_mag(A.base * 2 + extract, le)); c.count(std::string("encodings in ") + A.name);
}
void vf::setup() {
#define A(N) T.push_back(Impl<N>::get(#N));
    A(bignum_lowp) A(bignum_medp) A(bignum_highp) A(bignum_base2) A(bignum_base10) A(user_base1e9) A(user_base7) A(user_base4g)
#ifndef VF_FEWER
    A(bignum_base8) A(bignum_base16) A(user_base3) A(user_base256) A(user_base1000) A(user_base100) A(user_base10000) A(user_base64k) A(user_base2g)
#endif
    random_workload("programs", 12000, 240000, [](Src& s, Ctx& c) { program(s, c, 12, 14, 4); });
    random_workload("all-types", 1600, 32000, [](Src& s, Ctx& c) { program(s, c, 24, 14, T.size()); });
    random_workload("radix", 3000, 60000, [](Src& s, Ctx& c) { round_trip(s, c, s.chance(20) ? 128 : 48); });
    random_workload("bits", 1500, 30000, [](Src& s, Ctx& c) { encode(s, c, s.chance(10) ? 10 : 5, true); });
    random_workload("encode", 6000, 120000, [](Src& s, Ctx& c) { encode(s, c, s.chance(10) ? 200 : 40, false); });
}
