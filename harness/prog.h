// Random programs over every public function, preconditions respected; only the instrumentation judges them.
#pragma once
#include "nums.h"
#include "bignum/fourier.h"
#ifndef VF_NO_STREAM
#include <sstream>
#endif

struct MemStats { u64 ops[24]; MemStats() { for (auto& o : ops) o = 0; } };
static const char* const MEM_OPS[] = {"construct", "copy/move", "compound", "binary", "compare", "edit", "descriptor", "index", "index out of range", "print", "magnitude add", "magnitude sub", "magnitude mul", "magnitude div",
    "magnitude compare", "fourier", "digit wrapper", "assertion", "reference views", "long operand", "debug errors"};

template <class BN> struct Mem {
    typedef Info<BN> I; typedef typename I::digit D; typedef typename I::container C; typedef typename I::limits L;
    Src& s; MemStats& st; const u64 B; u64 sum; size_t maxlen; std::vector<BN> p;
    Mem(Src& s_, MemStats& m, size_t len) : s(s_), st(m), B(I::base()), sum(0), maxlen(len) {}
    void eat(u64 v) { sum = vf::mix64(sum ^ v); }
    void eat(const C& x) { for (const auto& d : x) eat((u64)d); eat(x.size()); }
    void eat(const BN& x) { eat((u64)x.descriptor); eat(x.numData); }
    size_t any() { return (size_t)s.range(0, p.size() - 1); }
    BN fresh() {
        const u64 k = s.range(0, 11); const D a = (D)special_digit(s, B), b = (D)special_digit(s, B), z = (D)0; bn_desc_t g = s.chance(50) ? BN_NEG : BN_POS;
        switch (k) {
        case 0: return BN(); case 1: return BN{g, {}}; case 2: return BN{g, {a}}; case 3: return BN{g, {z, z, a, b}}; case 4: return BN{g, {z}}; case 5: return BN{g, {z, z, z}}; case 6: return BN{g, {a, b, a, b, z}};
        case 7: { BN n; n.setDescriptor(s.chance(40) ? BN_NAN : s.chance(50) ? BN_POS_INF : BN_NEG_INF); return n; }
        default: { Mag m = gen_mag(s, B, maxlen); if (s.chance(20)) add_zeros(s, m); if (m.size() > 300) ++st.ops[19]; return make<BN>(g == BN_NEG, m); }
        }
    }
    bool divable(const C& a, const C& b) { Mag x = raw(a), y = raw(b); ref::norm(x); ref::norm(y); return x.size() < y.size() + (B > 65535 ? 4 : B > 255 ? 8 : 24); }
    void step() {
        const u64 k = s.range(0, 21); BN& a = p[any()]; BN& b = p[any()]; BN& d = p[any()];
        typedef typename C::size_type S;
        switch (k) {
        case 0: d = fresh(); ++st.ops[0]; break;
        case 1: { ++st.ops[1]; switch (s.range(0, 4)) { case 0: d = a; break; case 1: { BN t(a); d = t; break; } case 2: if (&a != &d) { d = std::move(a); a = s.chance(50) ? d : BN(); } break; case 3: { BN t(std::move(a)); a = std::move(t); break; } default: std::swap(a, d); } break; }
        case 2: case 3: { const int op = (int)s.range(0, 3); if (op == 3 && !divable(a.numData, b.numData)) break; if (op == 2 && a.size() + b.size() > 4 * maxlen) break; ++st.ops[2]; switch (op) { case 0: a += b; break; case 1: a -= b; break; case 2: a *= b; break; default: a /= b; } eat(a); break; }
        case 4: case 5: { const int op = (int)s.range(0, 3); if (op == 3 && !divable(a.numData, b.numData)) break; if (op == 2 && a.size() + b.size() > 4 * maxlen) break; ++st.ops[3]; switch (op) { case 0: d = a + b; break; case 1: d = a - b; break; case 2: d = a * b; break; default: d = a / b; } eat(d); break; }
        case 6: case 7: ++st.ops[4]; eat((a == b) + 2 * (a != b) + 4 * (a < b) + 8 * (a <= b) + 16 * (a > b) + 32 * (a >= b)); break;
        case 8: case 9: { ++st.ops[5]; const D g = (D)special_digit(s, B); const S n = a.size();
            switch (s.range(0, 7)) { case 0: a.push_back(g); break; case 1: a.push_front(g); break; case 2: if (n) a.pop_back(); break; case 3: if (n) a.pop_front(); break; case 4: a.push(g, (S)s.range(0, n)); break;
                case 5: if (n) a.pop((S)s.range(0, n - 1)); break; case 6: a.resize((S)s.range(0, n + 5), g); break; default: a.clear(); }
            eat(a); break; }
        case 10: { ++st.ops[6]; static const bn_desc_t ds[] = {BN_POS, BN_NEG, BN_NAN, BN_POS_INF, BN_NEG_INF, BN_POS}; a.setDescriptor(ds[s.range(0, 5)]); eat(a.isPositive() + 2 * a.isNegative() + 4 * a.isInfinite() + 8 * a.isNan()); eat((u64)a.getDescriptor()); break; }
        case 11: { ++st.ops[7]; const S n = a.size(); const BN& ca = a; if (n) { const S i = (S)s.range(0, n - 1); eat((u64)ca[i]); a[i] = (D)s.range(0, B - 1); eat((u64)a[i]); eat((u64)ca[n - 1]); } break; }
#ifndef VF_NO_STREAM
        case 12: { ++st.ops[8]; const S n = a.size(); const BN& ca = a; S i = n + (S)(s.chance(60) ? s.range(0, 3) : s.chance(50) ? ~(S)0 - n - (S)s.range(0, 3) : s.range(0, 1u << 20)); try { if (s.chance(50)) eat((u64)a[i]); else eat((u64)ca[i]); eat(99); } catch (bn_error_t e) { eat((u64)e); } break; }
        case 13: { ++st.ops[9]; std::ostringstream o; o << a; if (s.chance(30)) o << b << a; eat(o.str().size()); break; }
#endif
        case 14: { C x = a.numData, y = b.numData; switch (s.range(0, 4)) {
            case 0: ++st.ops[10]; abs_val_add<L, C>(x, s.chance(80) ? y : x); break;
            case 1: ++st.ops[11]; if (abs_val_is_lt<C>(x, y)) x.swap(y); abs_val_sub<L, C>(x, s.chance(90) ? y : x); break;
            case 2: ++st.ops[12]; if (x.size() + y.size() < 300) x = s.chance(50) ? mul_naive<L, C>(x, y) : mul_strassen<L, C>(x, y); else x = mul_strassen<L, C>(y, y); break;
            case 3: if (divable(x, y) && used(y)) { ++st.ops[13]; abs_val_div<L, C>(x, y); } break;
            default: ++st.ops[14]; eat(abs_val_is_eq<C>(x, y) + 2 * abs_val_is_gt<C>(x, y) + 4 * abs_val_is_ge<C>(x, y) + 8 * abs_val_is_lt<C>(x, y) + 16 * abs_val_is_le<C>(x, y) + 32 * abs_val_is_eq<C>(x, x)); }
            eat(x); eat(y); break; }
        case 15: { ++st.ops[15]; const C &x = a.numData, &y = b.numData; if (x.size() + y.size() > 600) break;
            if (s.chance(70)) { cmplx_list_t<double> t = create_fft_table<C, double>(x, y); eat(t.size()); if (s.chance(50)) convolute_fft<double>(t); else fft_complex<double>(t); ifft_complex<double>(t); for (auto& v : t) eat(v.real() > -1e300 ? 1 : 0); }
            else { const size_t one = (size_t)s.range(0, 1); cmplx_list_t<float> t(one << s.range(0, 6)); for (auto& v : t) v = std::complex<float>((float)s.range(0, 9), 1); fft_complex<float>(t); ifft_complex<float>(t); for (auto& v : t) eat(v.real() > -1e30f ? 1 : 0); }
break; }
        case 16: case 17: ++st.ops[16]; wrappers(); break;
        case 18: { ++st.ops[18]; const BN& ca = a; const C& view = ca.getData(); eat(view.size()); eat(view); break; }
#ifndef VF_NO_STREAM
        case 19: { ++st.ops[17]; const bool holds = s.chance(50); try { bn_runtime_assert(holds, (bn_error_t)s.range(0, 2), "monitored"); } catch (bn_error_t e) { eat((u64)e); } eat(BNNaN().what() ? 1 : 0); try { throw BNUnderflow(); } catch (const std::exception& e) { eat(e.what() ? 2 : 0); } break; }
#endif
        default: eat(a.size());
        }
    }
    template <class W, class N> void wrap() {
        const unsigned width = sizeof(N) * 8;
        N x = (N)(s.chance(50) ? s.next() : (u64)0 - s.range(0, 3)), y = (N)(s.chance(50) ? s.next() : (u64)0 - s.range(0, 3)); W a(x), b(y), r; const N z = (N)s.range(0, width - 1); const W sh(z);
        r = a + b; eat((u64)(N)r); r = a - b; eat((u64)(N)r); r = a * b; eat((u64)(N)r); r = a & b; r = a | b; r = a ^ b; eat((u64)(N)r); r = a << sh; eat((u64)(N)r); r = a >> sh; eat((u64)(N)r);
        r = a + y; r = a - y; r = a * y; eat((u64)(N)r); N m = x + b; m = x * b; m = x - b; eat((u64)m); m = x << sh; eat((u64)m);
        if (y) { r = a / b; eat((u64)(N)r); r = a % b; eat((u64)(N)r); r = a / y; r /= b; r = a; r %= y; eat((u64)(N)r); m = x / b; m %= b; eat((u64)m); }
        r = a; r += b; r *= a; r -= y; r *= y; r <<= sh; r >>= z; r &= b; r |= a; r ^= y; eat((u64)(N)r); ++r; r++; --r; r--; r = -r; r = ~r; r = +r; r = !r; eat((u64)(N)r); m = x; m += b; m *= b; m -= b; m <<= sh; eat((u64)m);
        eat((a < b) + 2 * (a <= b) + 4 * (a == b) + 8 * (a != y) + 16 * (x > b) + 32 * (x >= b));
#ifndef VF_NO_STREAM
        std::stringstream o; o << a << ' '; o << "17 "; o.clear(); W q; o >> q; eat(1);
#endif
    }
    void wrappers() { switch (s.range(0, 5)) { case 0: wrap<bn_base2_single, BN_UINT8>(); break; case 1: wrap<bn_base8_single, BN_UINT16>(); break; case 2: wrap<bn_base10_single, BN_UINT32>(); break; case 3: wrap<bn_base10_double, BN_UINT64>(); break; case 4: wrap<bn_uint16, BN_UINT16>(); break; default: wrap<bn_uint8, BN_UINT8>(); } }
    u64 run() {
        const size_t n = (size_t)s.range(2, 4); for (size_t i = 0; i < n; ++i) p.push_back(fresh());
        const int steps = (int)s.range(2, 40); for (int i = 0; i < steps; ++i) step();
        for (auto& x : p) eat(x);
        return sum;
    }
};
