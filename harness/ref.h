// Independent reference arithmetic on digit vectors (least significant first) in any base <= 2^32.
// Deliberately simple; shares no code with the library.
#pragma once
#include "vf.h"

namespace ref {
typedef std::vector<u64> Mag;

inline void norm(Mag& m) { while (!m.empty() && m.back() == 0) m.pop_back(); }
inline Mag normed(Mag m) { norm(m); return m; }
inline int cmp(const Mag& a, const Mag& b) {       // both normalised
    if (a.size() != b.size()) return a.size() < b.size() ? -1 : 1;
    for (size_t i = a.size(); i-- > 0;) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
    return 0;
}
inline Mag add(const Mag& a, const Mag& b, u64 B) {
    Mag r; r.reserve(std::max(a.size(), b.size()) + 1);
    u64 c = 0;
    for (size_t i = 0; i < a.size() || i < b.size() || c; ++i) {
        u64 s = c + (i < a.size() ? a[i] : 0) + (i < b.size() ? b[i] : 0);
        c = s >= B ? 1 : 0;
        r.push_back(c ? s - B : s);
    }
    norm(r);
    return r;
}
inline Mag sub(const Mag& a, const Mag& b, u64 B) { // a >= b
    Mag r(a); u64 br = 0;
    for (size_t i = 0; i < r.size(); ++i) {
        u64 need = (i < b.size() ? b[i] : 0) + br;
        if (r[i] >= need) { r[i] -= need; br = 0; } else { r[i] = r[i] + B - need; br = 1; }
    }
    norm(r);
    return r;
}
inline Mag mul(const Mag& a, const Mag& b, u64 B) {
    if (a.empty() || b.empty()) return Mag();
    Mag r(a.size() + b.size() + 1, 0);
    for (size_t i = 0; i < b.size(); ++i) {
        if (!b[i]) continue;
        u128 c = 0;
        for (size_t j = 0; j < a.size(); ++j) {
            u128 t = (u128)a[j] * b[i] + r[i + j] + c;
            r[i + j] = (u64)(t % B); c = t / B;
        }
        for (size_t k = i + a.size(); c; ++k) { u128 t = (u128)r[k] + c; r[k] = (u64)(t % B); c = t / B; }
    }
    norm(r);
    return r;
}
inline Mag from_u64(u64 v, u64 B) { Mag r; while (v) { r.push_back(v % B); v /= B; } return r; }

struct Int { bool neg; Mag m; Int() : neg(false) {} Int(bool n, Mag x) : neg(n), m(std::move(x)) { norm(m); if (m.empty()) neg = false; } };
inline Int add(const Int& a, const Int& b, u64 B) {
    if (a.neg == b.neg) return Int(a.neg, add(a.m, b.m, B));
    int c = cmp(a.m, b.m);
    if (c == 0) return Int();
    return c > 0 ? Int(a.neg, sub(a.m, b.m, B)) : Int(b.neg, sub(b.m, a.m, B));
}
inline Int neg(Int a) { if (!a.m.empty()) a.neg = !a.neg; return a; }
inline Int sub(const Int& a, const Int& b, u64 B) { return add(a, neg(b), B); }
inline Int mul(const Int& a, const Int& b, u64 B) { return Int(a.neg != b.neg, mul(a.m, b.m, B)); }
inline int cmp(const Int& a, const Int& b) {
    if (a.neg != b.neg) return a.neg ? -1 : 1;
    int c = cmp(a.m, b.m);
    return a.neg ? -c : c;
}
inline bool eq(const Int& a, const Int& b) { return a.neg == b.neg && a.m == b.m; }

// q is the truncated quotient of a by b (b != 0)?
inline bool is_quotient(const Mag& a, const Mag& b, const Mag& q, u64 B) {
    Mag p = mul(q, b, B);
    if (cmp(p, a) > 0) return false;
    return cmp(sub(a, p, B), b) < 0;
}
// schoolbook quotient by a small divisor, or by binary search per digit: used where the value is needed
inline Mag quotient(const Mag& a, const Mag& b, u64 B) {
    if (b.size() == 1) {
        Mag q(a.size(), 0); u128 r = 0;
        for (size_t i = a.size(); i-- > 0;) { u128 t = r * B + a[i]; q[i] = (u64)(t / b[0]); r = t % b[0]; }
        norm(q); return q;
    }
    Mag rem, q(a.size(), 0);
    for (size_t i = a.size(); i-- > 0;) {
        rem.insert(rem.begin(), a[i]); norm(rem);
        u64 lo = 0, hi = B - 1;
        if (cmp(rem, b) < 0) hi = 0;
        while (lo < hi) { u64 mid = lo + (hi - lo + 1) / 2; Mag t = mul(b, Mag(1, mid), B); if (cmp(t, rem) <= 0) lo = mid; else hi = mid - 1; }
        q[i] = lo;
        if (lo) rem = sub(rem, mul(b, Mag(1, lo), B), B);
    }
    norm(q); return q;
}
inline u64 mulmod(u64 a, u64 b, u64 p) { return (u64)((u128)a * b % p); }
inline u64 residue(const Mag& m, u64 B, u64 p) {
    u64 r = 0; const u64 b = B % p;
    for (size_t i = m.size(); i-- > 0;) r = (u64)(((u128)r * b + m[i]) % p);
    return r;
}
inline u64 residue(const Int& x, u64 B, u64 p) { u64 r = residue(x.m, B, p); return x.neg && r ? p - r : r; }
inline bool is_prime(u64 n) {
    if (n < 4 || n % 2 == 0) return n == 2 || n == 3;
    u64 d = n - 1; int s = 0; while (d % 2 == 0) { d /= 2; ++s; }
    for (u64 a : {2ull, 3ull, 5ull, 7ull, 11ull, 13ull, 17ull, 19ull, 23ull, 29ull, 31ull, 37ull}) {
        if (a % n == 0) continue;
        u64 x = 1, e = d, b = a % n;
        while (e) { if (e & 1) x = mulmod(x, b, n); b = mulmod(b, b, n); e >>= 1; }
        if (x == 1 || x == n - 1) continue;
        bool comp = true;
        for (int i = 1; i < s && comp; ++i) { x = mulmod(x, x, n); if (x == n - 1) comp = false; }
        if (comp) return false;
    }
    return true;
}
// two primes near 2^61 chosen by the seed
inline const u64* primes() {
    static u64 p[2] = {0, 0};
    if (!p[0]) {
        u64 x = (1ull << 61) - 1 - 2 * (vf::mix64(vf::opt().seed) % 100000000ull);
        while (!is_prime(x)) x -= 2;
        p[0] = x; x -= 2 * (1 + vf::mix64(vf::opt().seed + 5) % 1000003ull);
        while (!is_prime(x)) x -= 2;
        p[1] = x;
    }
    return p;
}
inline std::string str(const Mag& m, size_t maxd = 40) {
    std::ostringstream o; o << "[";
    for (size_t i = 0; i < m.size(); ++i) {
        if (m.size() > maxd && i == maxd / 2) { o << " ...(" << m.size() << " digits)... "; i = m.size() - maxd / 2; }
        if (i) o << ' ';
        o << m[i];
    }
    o << "]";
    return o.str();
}
inline std::string str(const Int& x) { return std::string(x.neg ? "-" : "+") + str(x.m); }
} // namespace ref
