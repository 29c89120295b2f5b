// C16: the digit wrapper against unsigned arithmetic modulo 2^width.
#define VF_DEFINE_BASES
#include "nums.h"

typedef BNIntType<BN_UINT64, 77> wrap64;
typedef BNIntType<BN_UINT16, 9> wrap16;
template <class T> struct Num;
template <class N, BN_UINT64 I> struct Num<BNIntType<N, I>> { typedef N type; };
enum { ADD, SUB, MUL, DIV, MOD, AND, OR, XOR, SHR, SHL };
static const char* const ON[] = {"+", "-", "*", "/", "%", "&", "|", "^", ">>", "<<"};
static const char* const CN[] = {"==", "!=", ">", ">=", "<", "<="};
// oracle: 128-bit, no operator of the wrapped type involved
inline u64 oracle(int op, u64 x, u64 y, int w) {
    const u128 M = ((u128)1 << w) - 1; u128 r = 0, a = x, b = y;
    switch (op) {
    case ADD: r = a + b; break; case SUB: r = a + (M + 1) - b; break; case MUL: r = a * b; break; case DIV: r = a / b; break; case MOD: r = a - (a / b) * b; break;
    case AND: for (int i = 0; i < w; ++i) if ((a >> i & 1) && (b >> i & 1)) r |= (u128)1 << i; break;
    case OR: for (int i = 0; i < w; ++i) if ((a >> i & 1) || (b >> i & 1)) r |= (u128)1 << i; break;
    case XOR: for (int i = 0; i < w; ++i) if ((a >> i & 1) != (b >> i & 1)) r |= (u128)1 << i; break;
    case SHR: r = a >> (int)y; break; default: r = a << (int)y;
    }
    return (u64)(r & M);
}
struct Tag { const char* type; int w; };
static bool bad(Ctx& c, const Tag& g, const char* op, const char* form, u64 x, u64 y, u64 got, u64 want) {
    c.violation(std::string("wrap|") + op + "|" + form, std::string(g.type) + " (" + std::to_string(g.w) + " bits): " + form + " with operator " + op + " on " + std::to_string(x) + " and " + std::to_string(y) + " gives " + std::to_string(got) + ", expected " + std::to_string(want));
    return false;
}
template <class W> bool pair(Ctx& c, const Tag& g, u64 x, u64 y) {
    typedef typename Num<W>::type N;
    u64 n = 0; bool ok = true;
#define EXPECT(form, opn, got, want) do { ++n; const u64 g_ = (u64)(got), w_ = (u64)(want); if (g_ != w_) ok = bad(c, g, opn, form, x, y, g_, w_); } while (0)
#define UNCHANGED(form, opn, a, av) do { if ((u64)(a).num != (u64)(av)) ok = bad(c, g, opn, form ": operand afterwards", x, y, (u64)(a).num, (av)); } while (0)
#define BIN(OP, k) if (!((k == DIV || k == MOD) && y == 0) && !((k == SHR || k == SHL) && y >= (u64)g.w)) { \
        const u64 want = oracle(k, x, y, g.w); const W a((N)x), b((N)y); const N p = (N)x, q = (N)y; \
        { W r = a OP b; EXPECT("wrapper op wrapper", ON[k], r.num, want); UNCHANGED("wrapper op wrapper", ON[k], a, x); UNCHANGED("wrapper op wrapper", ON[k], b, y); } \
        { W r = a OP q; EXPECT("wrapper op integer", ON[k], r.num, want); UNCHANGED("wrapper op integer", ON[k], a, x); } \
        { N r = p OP b; EXPECT("integer op wrapper", ON[k], r, want); UNCHANGED("integer op wrapper", ON[k], b, y); } \
        { W d((N)x); W& r = d OP##= b; EXPECT("wrapper op= wrapper", ON[k], d.num, want); EXPECT("wrapper op= wrapper returns", ON[k], &r == &d, 1); UNCHANGED("wrapper op= wrapper", ON[k], b, y); } \
        { W d((N)x); W& r = d OP##= q; EXPECT("wrapper op= integer", ON[k], d.num, want); EXPECT("wrapper op= integer returns", ON[k], &r == &d, 1); EXPECT("wrapper op= integer operand", ON[k], q, y); } \
        { N d = (N)x; N& r = d OP##= b; EXPECT("integer op= wrapper", ON[k], d, want); EXPECT("integer op= wrapper returns", ON[k], &r == &d, 1); UNCHANGED("integer op= wrapper", ON[k], b, y); } \
        { W d((N)x); W e = (d OP##= b) OP W((N)y); if (!((k == SHR || k == SHL) && y >= (u64)g.w)) EXPECT("chained", ON[k], e.num, oracle(k, want, y, g.w)); } \
        if (x == y) { \
            W d((N)x); d OP##= d; EXPECT("w op= w (same object)", ON[k], d.num, want); \
            W e((N)x); e OP##= e.num; EXPECT("w op= w.num", ON[k], e.num, want); \
            W f((N)x); f.num OP##= f; EXPECT("w.num op= w", ON[k], f.num, want); \
            W h((N)x); W r = h OP h; EXPECT("w op w (same object)", ON[k], r.num, want); UNCHANGED("w op w", ON[k], h, x); } }
    BIN(+, ADD) BIN(-, SUB) BIN(*, MUL) BIN(/, DIV) BIN(%, MOD) BIN(&, AND) BIN(|, OR) BIN(^, XOR) BIN(>>, SHR) BIN(<<, SHL)
#undef BIN
#define CMP(OP, k, want) { const W a((N)x), b((N)y); const N p = (N)x, q = (N)y; \
        EXPECT("wrapper op wrapper", CN[k], (a OP b), (want)); EXPECT("wrapper op integer", CN[k], (a OP q), (want)); EXPECT("integer op wrapper", CN[k], (p OP b), (want)); UNCHANGED("comparison", CN[k], a, x); UNCHANGED("comparison", CN[k], b, y); }
    CMP(==, 0, x == y) CMP(!=, 1, x != y) CMP(>, 2, x > y) CMP(>=, 3, x >= y) CMP(<, 4, x < y) CMP(<=, 5, x <= y)
#undef CMP
    for (u64 k = 0; k < n; ++k) c.eval();
    return ok;
}
template <class W> bool unary(Ctx& c, const Tag& g, u64 x) {
    typedef typename Num<W>::type N; const u64 y = 0; u64 n = 0; bool ok = true; const u64 M = g.w == 64 ? ~0ull : (1ull << g.w) - 1;
    const W a((N)x);
    EXPECT("value", "!", (!a).num, x == 0 ? 1 : 0); EXPECT("value", "unary +", (+a).num, x); EXPECT("value", "unary -", (-a).num, oracle(SUB, 0, x, g.w)); EXPECT("value", "~", (~a).num, M - x); UNCHANGED("unary", "unary", a, x);
    { W d((N)x); W& r = ++d; EXPECT("object", "++x", d.num, oracle(ADD, x, 1, g.w)); EXPECT("returns", "++x", &r == &d, 1); }
    { W d((N)x); W& r = --d; EXPECT("object", "--x", d.num, oracle(SUB, x, 1, g.w)); EXPECT("returns", "--x", &r == &d, 1); }
    { W d((N)x); W r = d++; EXPECT("object", "x++", d.num, oracle(ADD, x, 1, g.w)); EXPECT("returns", "x++", r.num, x); }
    { W d((N)x); W r = d--; EXPECT("object", "x--", d.num, oracle(SUB, x, 1, g.w)); EXPECT("returns", "x--", r.num, x); }
    { W d(a); EXPECT("copy", "construct", d.num, x); W e(std::move(d)); EXPECT("move", "construct", e.num, x); N v = (N)x; W f(v); EXPECT("integer", "construct", f.num, x); W z; EXPECT("default", "construct", z.num, 0); }
    { W d; W& r = (d = a); EXPECT("copy", "=", d.num, x); EXPECT("returns", "=", &r == &d, 1); UNCHANGED("copy", "=", a, x); W e; W& s = (e = std::move(d)); EXPECT("move", "=", e.num, x); EXPECT("returns", "=", &s == &e, 1); }
    { W d; N v = (N)x; W& r = (d = v); EXPECT("integer", "=", d.num, x); EXPECT("returns", "=", &r == &d, 1); W e; W& s = (e = (N)x); EXPECT("integer rvalue", "=", e.num, x); EXPECT("returns", "=", &s == &e, 1); W& q = (e = *&e); EXPECT("self", "=", e.num, x); EXPECT("self returns", "=", &q == &e, 1); e = e.num; EXPECT("own integer", "=", e.num, x); }
    { N v = a; EXPECT("implicit", "cast", v, x); EXPECT("explicit", "cast", (u64)a, x); EXPECT("explicit", "cast", (N)a, x); bool t = a ? true : false; EXPECT("condition", "cast", t, x != 0); }
#ifndef VF_NO_STREAM
    if (g.w >= 16) { std::stringstream o; o << a; EXPECT("stream", "<<", o.str() == std::to_string((unsigned long long)x), 1); W d; o >> d; EXPECT("stream", ">>", d.num, x); }
#endif
    for (u64 k = 0; k < n; ++k) c.eval();
    return ok;
}
// compile-time evaluation gives the same values (harmless operands, the values are compared at run time)
template <class W> bool constant(Ctx& c, const Tag& g) {
    typedef typename Num<W>::type N; const u64 x = 100, y = 7; u64 n = 0; bool ok = true;
    constexpr W a{(N)100}, b{(N)7};
    constexpr W r0 = a + b, r1 = a - b, r2 = b * b, r3 = a / b, r4 = a % b, r5 = a & b, r6 = a | b, r7 = a ^ b, r8 = a >> W{(N)3}, r9 = b << W{(N)3}, rn = ~a, rz = !a;
    EXPECT("constexpr", "+", r0.num, 107); EXPECT("constexpr", "-", r1.num, 93); EXPECT("constexpr", "*", r2.num, 49); EXPECT("constexpr", "/", r3.num, 14); EXPECT("constexpr", "%", r4.num, 2);
    EXPECT("constexpr", "&", r5.num, 4); EXPECT("constexpr", "|", r6.num, 103); EXPECT("constexpr", "^", r7.num, 99); EXPECT("constexpr", ">>", r8.num, 12); EXPECT("constexpr", "<<", r9.num, 56);
    EXPECT("constexpr", "~", rn.num, (g.w == 64 ? ~0ull : (1ull << g.w) - 1) - 100); EXPECT("constexpr", "!", rz.num, 0);
    constexpr bool q = (a > b) && !(a == b) && (b <= a) && (N)100 > b; EXPECT("constexpr", "comparison", q, 1);
    for (u64 k = 0; k < n; ++k) c.eval();
    return ok;
}
inline u64 special(Src& s, int w) {
    const u64 M = w == 64 ? ~0ull : (1ull << w) - 1; u64 v;
    switch (s.range(0, 8)) {
    case 0: v = s.range(0, 3); break; case 1: v = M - s.range(0, 3); break; case 2: v = (M >> 1) + s.range(0, 3) - 1; break; case 3: v = (1ull << s.range(0, (u64)w - 1)) + s.range(0, 2) - 1; break;
    case 4: v = (1ull << (w / 2)) + s.range(0, 4) - 2; break; case 5: v = s.range(0, (u64)w); break; case 6: v = lit(s, 10); break; case 7: v = s.next() >> s.range(0, 63); break;
    default: v = s.next();
    }
    return v & M;
}
#define WRAP(t, EXPR) switch (t) { \
    case 0: { typedef bn_uint16 W; const Tag g = {"bn_uint16", 16}; EXPR; } break; case 1: { typedef bn_uint32 W; const Tag g = {"bn_uint32", 32}; EXPR; } break; \
    case 2: { typedef wrap64 W; const Tag g = {"64-bit wrapper", 64}; EXPR; } break; case 3: { typedef bn_base8_single W; const Tag g = {"bn_base8_single", 16}; EXPR; } break; \
    case 4: { typedef bn_base10_single W; const Tag g = {"bn_base10_single", 32}; EXPR; } break; case 5: { typedef bn_base10_double W; const Tag g = {"bn_base10_double", 64}; EXPR; } break; \
    case 6: { typedef bn_uint8 W; const Tag g = {"bn_uint8", 8}; EXPR; } break; case 7: { typedef bn_base2_single W; const Tag g = {"bn_base2_single", 8}; EXPR; } break; \
    case 8: { typedef wrap16 W; const Tag g = {"16-bit user wrapper", 16}; EXPR; } break; default: { typedef bn_base16_double W; const Tag g = {"bn_base16_double", 64}; EXPR; } break; }
void vf::setup() {
    systematic("8bit", 512, 512, [](u64 i, Ctx& c) {           // every pair of 8-bit values
        const u64 x = i % 256;
        if (vf::verbose()) c.describe("8-bit wrapper, left operand " + std::to_string(x));
        WRAP(6 + (int)(i / 256), { if (!unary<W>(c, g, x)) return; for (u64 y = 0; y < 256; ++y) { if (!pair<W>(c, g, x, y)) return; c.nontrivial(vf::mix64(i * 256 + y)); } });
        c.count("8-bit operand pairs, exhaustive", 256);
    });
    systematic("16bit-unary", 256, 256, [](u64 i, Ctx& c) { for (u64 k = 0; k < 256; ++k) { const u64 x = i * 256 + k; WRAP((i & 1) ? 0 : 3, { if (!unary<W>(c, g, x)) return; if (!pair<W>(c, g, x, x)) return; if (!pair<W>(c, g, x, 65535 - x)) return; }); } c.count("16-bit operands of unary operators, exhaustive", 256); });
    systematic("constexpr", 10, 10, [](u64 i, Ctx& c) { WRAP((int)i, constant<W>(c, g)); c.count("constant expressions"); });
    random_workload("wide", 600000, 20000000, [](Src& s, Ctx& c) {
        const int t = (int)s.range(0, 9);
        WRAP(t, { const u64 x = special(s, g.w); const u64 y = s.chance(20) ? x : s.chance(20) ? s.range(0, (u64)g.w - 1) : special(s, g.w);
            if (vf::verbose()) c.describe(std::string(g.type) + " operands " + std::to_string(x) + ", " + std::to_string(y));
            pair<W>(c, g, x, y); if (s.chance(20)) unary<W>(c, g, x);
            c.nontrivial(vf::mix64(vf::mix64(x + (u64)t) ^ y)); c.count(std::string("pairs ") + g.type);
            if (c.index % 60013 == 4) c.sample(std::string(g.type) + " " + std::to_string(x) + ", " + std::to_string(y) + ": all operators in all forms"); });
    });
}
