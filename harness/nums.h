// Number types under test, conversions between library numbers and the reference, operand generators.
#pragma once
#include "vf.h"
#include "ref.h"
#include "bignum/bignum.h"

// ------------------------------------------------------------------ user-defined bases, as the library documents them
#define VF_BASE(name, UINT, B) \
    BN_DECLARE_CLASS(BNIntType, name##_single, UINT, B); \
    template <> constexpr bn_u64_t bn_min_limit<name##_single>() { return 0; } \
    template <> constexpr bn_u64_t bn_max_limit<name##_single>() { return B - 1; } \
    typedef BNLimitsType<name##_single, name##_single> name##_limits; \
    typedef Bignum<name##_limits, bn_default_container_t<name##_single>> name;

VF_BASE(user_base3, BN_UINT16, 3)
VF_BASE(user_base256, BN_UINT16, 256)
VF_BASE(user_base1000, BN_UINT32, 1000)
VF_BASE(user_base1e9, BN_UINT64, 1000000000)

#ifdef VF_DEFINE_BASES   // exactly one translation unit
BN_DEFINE_CLASS(BNIntType, BN_UINT16, 3);
BN_DEFINE_CLASS(BNIntType, BN_UINT16, 256);
BN_DEFINE_CLASS(BNIntType, BN_UINT32, 1000);
BN_DEFINE_CLASS(BNIntType, BN_UINT64, 1000000000);
#endif

template <class BN> struct Info;
template <class L, class C> struct Info<Bignum<L, C>> {
    typedef L limits; typedef C container; typedef typename L::base_single digit;
    static u64 base() { return (u64)bn_max_limit<digit>() + 1; }
};
#define VF_TYPES(X) \
    X(0, bignum_lowp) X(1, bignum_medp) X(2, bignum_highp) \
    X(3, bignum_base2) X(4, bignum_base8) X(5, bignum_base10) X(6, bignum_base16) \
    X(7, user_base3) X(8, user_base256) X(9, user_base1000) X(10, user_base1e9)
static const int VF_NTYPES = 11;
template <class BN> struct TypeName { static const char* get(); };
#define X(i, T) template <> inline const char* TypeName<T>::get() { return #T; }
VF_TYPES(X)
#undef X

// Calls F<T>::run(args...) for type number t.
// Sanitized builds instantiate fewer digit types (the build time is spent on every run); each width, both kinds of digit.
#ifdef VF_FEWER
#define VF_DISPATCH(t, EXPR) switch ((t) % 6) { \
    case 0: { typedef bignum_lowp BN; EXPR; } break; case 1: { typedef bignum_medp BN; EXPR; } break; \
    case 2: { typedef bignum_highp BN; EXPR; } break; case 3: { typedef bignum_base2 BN; EXPR; } break; \
    case 4: { typedef bignum_base10 BN; EXPR; } break; default: { typedef user_base1e9 BN; EXPR; } break; }
#else
#define VF_DISPATCH(t, EXPR) switch (t) { \
    case 0: { typedef bignum_lowp BN; EXPR; } break; case 1: { typedef bignum_medp BN; EXPR; } break; \
    case 2: { typedef bignum_highp BN; EXPR; } break; case 3: { typedef bignum_base2 BN; EXPR; } break; \
    case 4: { typedef bignum_base8 BN; EXPR; } break; case 5: { typedef bignum_base10 BN; EXPR; } break; \
    case 6: { typedef bignum_base16 BN; EXPR; } break; case 7: { typedef user_base3 BN; EXPR; } break; \
    case 8: { typedef user_base256 BN; EXPR; } break; case 9: { typedef user_base1000 BN; EXPR; } break; \
    default: { typedef user_base1e9 BN; EXPR; } break; }
#endif

using vf::Src; using vf::Ctx; using ref::Mag; using ref::Int;

// ------------------------------------------------------------------ reading and building library numbers
// Reads the public state directly, so that no library operation beyond those under test is involved.
template <class C> Mag raw(const C& c) { Mag m; m.reserve(c.size()); for (const auto& d : c) m.push_back((u64)d); return m; }
template <class C> void load(C& c, const Mag& m) {
    typedef typename C::value_type D;
    c.clear();
    for (u64 d : m) c.push_back(D((typename std::conditional<std::is_integral<D>::value, D, u64>::type)d));
}
// number of digits without the leading zeros
template <class C> size_t used(const C& c) { size_t n = c.size(); while (n && (u64)c[n - 1] == 0) --n; return n; }
template <class BN> BN make(bool neg, const Mag& m) {
    BN n; n.descriptor = neg ? BN_NEG : BN_POS; load(n.numData, m); return n;
}
template <class BN> bool finite(const BN& n) { return n.descriptor == BN_POS || n.descriptor == BN_NEG; }
template <class BN> Int value(const BN& n) { return Int(n.descriptor == BN_NEG, raw(n.numData)); }
inline const char* dname(int d) {
    switch (d) { case BN_POS: return "+"; case BN_NEG: return "-"; case BN_NAN: return "NaN"; case BN_POS_INF: return "+INF"; case BN_NEG_INF: return "-INF"; }
    return "?";
}
template <class BN> std::string show(const BN& n) { return std::string(dname(n.descriptor)) + ref::str(raw(n.numData)); }
template <class BN> bool digits_ok(const BN& n) {
    const u64 B = Info<BN>::base();
    for (const auto& d : n.numData) if ((u64)d >= B) return false;
    return true;
}
// complete state, for snapshots
template <class BN> struct Snap {
    int desc; Mag d;
    explicit Snap(const BN& n) : desc(n.descriptor), d(raw(n.numData)) {}
    bool same(const BN& n) const {
        if (desc != n.descriptor || d.size() != n.numData.size()) return false;
        for (size_t i = 0; i < d.size(); ++i) if (d[i] != (u64)n.numData[i]) return false;
        return true;
    }
};

// ------------------------------------------------------------------ operand generators
inline u64 lit(Src& s, u64 dflt) {
    auto& L = vf::opt().lits;
    if (L.empty()) return dflt;
    u64 v = L[(size_t)s.range(0, L.size() - 1)];
    return v + s.range(0, 2) - 1;
}
inline size_t gen_len(Src& s, size_t maxlen) {
    size_t n;
    if (maxlen > 65600 && s.chance(65)) {            // around and beyond what sixteen bits can count
        n = s.chance(40) ? 65536 * (size_t)s.range(1, 2) + (size_t)s.range(0, 8) - 4 : (size_t)s.range(65500, maxlen);
        return std::min(n, maxlen);
    }
    switch (s.range(0, 9)) {
    case 0: case 1: case 2: n = (size_t)s.range(0, 4); break;
    case 3: case 4: case 5: n = (size_t)s.range(1, 20); break;
    case 6: { size_t p = (size_t)1 << s.range(1, 20); while (p > maxlen && p > 1) p >>= 1; n = p + (size_t)s.range(0, 4); n = n > 2 ? n - 2 : 0; break; }
    case 7: n = (size_t)s.range(0, std::min<size_t>(maxlen, 130)); break;
    case 8: n = (size_t)std::min<u64>(lit(s, 33), maxlen); break;
    default: { size_t top = (size_t)1 << s.range(0, 20); while (top > maxlen && top > 1) top >>= 1; n = (size_t)s.range(0, top); break; }
    }
    return std::min(n, maxlen);
}
inline u64 special_digit(Src& s, u64 B) {
    switch (s.range(0, 9)) {
    case 0: return 0; case 1: return 1; case 2: return B - 1; case 3: return B - 2 < B ? B - 2 : 0; case 4: return B / 2;
    case 5: return B / 2 ? B / 2 - 1 : 0; case 6: return (B / 2 + 1) % B; case 7: return lit(s, 10) % B;
    case 8: { u64 p = 1ull << s.range(0, 32); return p % B; }
    default: return s.range(0, B - 1);
    }
}
inline Mag gen_mag_len(Src& s, u64 B, size_t n) {
    Mag m(n);
    const u64 pat = s.range(0, 11);
    if (s.fuzz() && pat == 11) { for (auto& d : m) d = s.range(0, B - 1); if (n && !m[n - 1]) m[n - 1] = 1; return m; }
    u64 rep = special_digit(s, B), a = s.range(0, B - 1), st = s.range(0, B - 1);
    u64 key = s.next();
    Src r(key);                                   // long digit runs do not consume fuzz bytes
    switch (pat) {
    case 0: case 1: case 2: for (auto& d : m) d = r.range(0, B - 1); break;
    case 3: for (auto& d : m) d = B - 1; break;
    case 4: for (auto& d : m) d = 0; break;
    case 5: for (auto& d : m) d = r.chance(8) ? r.range(0, B - 1) : 0; break;
    case 6: for (auto& d : m) d = r.chance(8) ? r.range(0, B - 1) : B - 1; break;
    case 7: for (auto& d : m) d = rep; break;
    case 8: { u64 mode = 0; size_t left = 0; for (auto& d : m) { if (!left) { mode = r.range(0, 3); left = (size_t)r.range(1, 9); } --left; d = mode == 0 ? 0 : mode == 1 ? B - 1 : mode == 2 ? 1 : r.range(0, B - 1); } break; }
    case 9: for (size_t i = 0; i < n; ++i) m[i] = (a + (u128)st * i) % B; break;
    default: for (auto& d : m) d = special_digit(r, B); break;
    }
    if (n && m[n - 1] == 0) m[n - 1] = r.chance(50) ? 1 : 1 + r.range(0, B - 2);
    return m;
}
inline Mag gen_mag(Src& s, u64 B, size_t maxlen) { return gen_mag_len(s, B, gen_len(s, maxlen)); }

struct Pair { Mag a, b; bool na, nb; bool denorm; int rel; };
inline void add_zeros(Src& s, Mag& m) { size_t k = (size_t)s.range(1, 4); if (s.chance(10)) k = (size_t)s.range(1, 40); m.insert(m.end(), k, 0); }
// Two related operands. rel: 0 independent, 1 equal, 2 off by one, 3 one digit differs, 4 complement, 5 shifted/scaled,
// 6 very unequal lengths, 7 same length, 8 prefix
inline Pair gen_pair(Src& s, u64 B, size_t maxlen, unsigned denorm_pct) {
    Pair p; p.rel = (int)s.range(0, 9); p.denorm = false;
    p.a = gen_mag(s, B, maxlen);
    switch (p.rel) {
    case 1: p.b = p.a; break;
    case 2: if (s.chance(50) || p.a.empty()) p.b = ref::add(p.a, Mag(1, 1), B); else p.b = ref::sub(p.a, Mag(1, 1), B); break;
    case 3: p.b = p.a; if (!p.b.empty()) { size_t i = (size_t)s.range(0, p.b.size() - 1); if (s.chance(30)) i = 0; if (s.chance(30)) i = p.b.size() - 1; p.b[i] = s.chance(40) ? (p.b[i] + 1) % B : s.range(0, B - 1); ref::norm(p.b); } break;
    case 4: { Mag top(p.a.size(), 0); top.push_back(1); if (p.a.size() && s.chance(30)) top.insert(top.begin(), (size_t)s.range(0, 3), 0); p.b = ref::cmp(top, p.a) > 0 ? ref::sub(top, p.a, B) : Mag(); if (s.chance(30)) p.b = ref::add(p.b, Mag(1, 1), B); else if (s.chance(30) && !p.b.empty()) p.b = ref::sub(p.b, Mag(1, 1), B); break; }
    case 5: p.b = p.a; if (p.a.size() < 400) { p.b = ref::mul(p.a, ref::from_u64(1 + special_digit(s, B), B), B); } if (s.chance(40)) p.b.insert(p.b.begin(), (size_t)s.range(0, 5), 0); ref::norm(p.b); break;
    case 6: p.b = gen_mag(s, B, 3); break;
    case 7: p.b = gen_mag_len(s, B, p.a.size()); break;
    case 8: p.b = p.a; { size_t k = (size_t)s.range(0, p.b.size()); p.b.erase(p.b.begin(), p.b.begin() + (long)k); } break;
    default: p.b = gen_mag(s, B, maxlen);
    }
    if (p.b.size() > maxlen + 8) p.b.resize(maxlen);
    ref::norm(p.b);
    if (s.chance(35)) std::swap(p.a, p.b);
    p.na = s.chance(45); p.nb = s.chance(45);
    if (p.a.empty()) p.na = false;
    if (p.b.empty()) p.nb = false;
    if (s.chance(denorm_pct)) { p.denorm = true; if (s.chance(70)) add_zeros(s, p.a); if (s.chance(70)) add_zeros(s, p.b); }
    return p;
}
inline u64 hash_mag(u64 h, const Mag& m) { h = vf::mix64(h ^ m.size()); for (u64 d : m) h = vf::mix64(h ^ d); return h; }
inline u64 hash_case(u64 tag, const Pair& p) { u64 h = vf::mix64(tag * 4 + (p.na ? 2 : 0) + (p.nb ? 1 : 0)); h = hash_mag(h, p.a); return hash_mag(h, p.b); }

inline std::string len_bucket(size_t n) {
    if (n == 0) return "0"; if (n == 1) return "1"; if (n <= 4) return "2-4"; if (n <= 16) return "5-16"; if (n <= 64) return "17-64";
    if (n <= 256) return "65-256"; if (n <= 1024) return "257-1024"; if (n <= 8192) return "1025-8192"; if (n <= 65535) return "8193-65535"; return ">65535";
}
inline std::string ev_mag(bool neg, const Mag& m) { std::ostringstream o; o << (neg ? '-' : '+'); for (size_t i = 0; i < m.size(); ++i) o << (i ? "," : "") << m[i]; return o.str(); }
