// C11: every allocation inside an operation fails in turn.
#define VF_DEFINE_BASES
#define VF_ALLOC_IMPL
#include "ext.h"
#include "alloc.h"

// An allocator that reports exhaustion with an exception of its own, not derived from std::exception.
struct Foreign { int id; };
template <class T> struct ForeignAlloc {
    typedef T value_type;
    ForeignAlloc() {} template <class U> ForeignAlloc(const ForeignAlloc<U>&) {}
    T* allocate(size_t n) { try { return (T*)::operator new(n * sizeof(T)); } catch (const va::Failure& f) { throw Foreign{f.id}; } }
    void deallocate(T* p, size_t) { ::operator delete(p); }
    template <class U> bool operator==(const ForeignAlloc<U>&) const { return true; }
    template <class U> bool operator!=(const ForeignAlloc<U>&) const { return false; }
};
#define FOREIGN_TYPE(name, of) typedef Bignum<Info<of>::limits, std::vector<Info<of>::digit, ForeignAlloc<Info<of>::digit>>> name; template <> inline const char* TypeName<name>::get() { return #of " with an allocator throwing its own exception"; }
FOREIGN_TYPE(foreign_lowp, bignum_lowp)
FOREIGN_TYPE(foreign_highp, bignum_highp)
FOREIGN_TYPE(foreign_base10, bignum_base10)
#define FOREIGN_DISPATCH(t, EXPR) switch ((t) % 3) { case 0: { typedef foreign_lowp BN; EXPR; } break; case 1: { typedef foreign_highp BN; EXPR; } break; default: { typedef foreign_base10 BN; EXPR; } break; }

static const char* const NAMES[] = {"a+=b", "a-=b", "a*=b", "a/=b", "a+b", "a-b", "a*b", "a/b", "copy construct", "copy assign", "digit list", "push_back", "push_front", "push", "resize", "(a+b)*w", "assign a+b", "assign digit list", "vector of numbers", "a+=a", "a*=a", "a-=a", "compare", "w=a*b-w"};
static const int NOPS = 24;
template <class BN> struct World {
    BN a, b, w, d;
    std::vector<BN> v;
};
// the operation itself; everything it changes is in the world
template <class BN> void act(int op, World<BN>& x) {
    typedef typename Info<BN>::digit D; const D one = (D)1, zero = (D)0;
    switch (op) {
    case 0: x.a += x.b; break; case 1: x.a -= x.b; break; case 2: x.a *= x.b; break; case 3: x.a /= x.b; break;
    case 4: { BN r = x.a + x.b; (void)r; break; } case 5: { BN r = x.a - x.b; (void)r; break; } case 6: { BN r = x.a * x.b; (void)r; break; } case 7: { BN r = x.a / x.b; (void)r; break; }
    case 8: { BN r(x.a); (void)r; break; } case 9: x.d = x.a; break; case 10: { BN r{BN_NEG, {one, zero, one, one, zero, one}}; (void)r; break; }
    case 11: x.d.push_back(one); break; case 12: x.d.push_front(one); break; case 13: x.d.push(one, x.d.size() / 2); break; case 14: x.d.resize(x.d.size() * 2 + 3, one); break;
    case 15: { BN r = (x.a + x.b) * x.w; (void)r; break; } case 16: x.d = x.a + x.b; break; case 17: x.d = BN{BN_POS, {one, zero, zero}}; break;
    case 18: x.v.push_back(x.a); break; case 19: x.a += x.a; break; case 20: x.a *= x.a; break; case 21: x.a -= x.a; break;
    case 22: { volatile bool r = (x.a < x.b) | (x.a == x.b) | (x.a >= x.b) | (x.a > x.b) | (x.a <= x.b) | (x.a != x.b); (void)r; break; }
    default: x.w = x.a * x.b - x.w;
    }
}
// 0: nothing may change; 1: compound arithmetic on a; 2: assignment to d keeps its old value; 3: edit of d (d must stay usable); 4: v; 5: w keeps its value
inline int changes(int op) { if (op <= 3 || (op >= 19 && op <= 21)) return 1; if (op == 9 || op == 16 || op == 17) return 2; if (op >= 11 && op <= 14) return 3; if (op == 18) return 4; if (op == 23) return 5; return 0; }

template <class BN> struct Case {
    Mag a, b, w, d; bool na, nb; int da;   // da: descriptor override of a
    World<BN> build(size_t slack) const {
        World<BN> x; x.a = make<BN>(na, a); x.b = make<BN>(nb, b); x.w = make<BN>(false, w); x.d = make<BN>(true, d);
        x.a.numData.shrink_to_fit(); x.b.numData.shrink_to_fit(); x.d.numData.shrink_to_fit();
        if (slack) x.a.numData.reserve(a.size() + slack);
        x.v.push_back(x.b); x.v.push_back(x.w); x.v.shrink_to_fit();
        return x;
    }
};
template <class BN> void enumerate(Src& s, Ctx& c, int t, int op, size_t maxlen, size_t maxpoints) {
    const u64 B = Info<BN>::base(); Case<BN> k; Pair p = gen_pair(s, B, maxlen, 15); k.a = p.a; k.b = p.b; k.na = p.na; k.nb = p.nb; k.w = gen_mag(s, B, 6); k.d = gen_mag(s, B, 12); size_t slack = s.chance(25) ? (size_t)s.range(1, 3) : 0;
    if (op == 3 || op == 7) { Mag x = ref::normed(k.a), y = ref::normed(k.b); if (!y.empty() && x.size() > y.size() + (B > 65535 ? 2 : 5)) k.a.resize(y.size() + (B > 65535 ? 2 : 5)); }
    const std::string what = std::string(TypeName<BN>::get()) + " " + NAMES[op] + " a=" + (k.na ? "-" : "+") + ref::str(k.a) + " b=" + (k.nb ? "-" : "+") + ref::str(k.b);
    const char* nm = NAMES[op];
    if (vf::verbose()) c.describe(what);
    // number of allocation points, and the uninterrupted result
    long points; u64 h = vf::mix64((u64)op * 64 + (u64)t); h = hash_mag(h, k.a); h = hash_mag(h, k.b);
    World<BN> good = k.build(slack);
    { va::count = 0; va::Scope sc; act(op, good); points = va::count; }
    c.count(std::string("points ") + nm, (u64)points); c.count(std::string("operations ") + nm);
    std::vector<long> at; for (long i = 0; i < points && (size_t)i < maxpoints; ++i) at.push_back(i);
    if ((size_t)points > maxpoints) { for (size_t i = maxpoints / 2; i < maxpoints; ++i) at[i] = (long)s.range(maxpoints / 2, (u64)points - 1); at.back() = points - 1; c.count("operations with sampled points"); } else c.count("operations with every point enumerated");
    for (size_t q = 0; q < at.size(); ++q) for (int persistent = 0; persistent < 2; ++persistent) {
        const long l0 = va::live;
        {
            World<BN> x; { va::Scope sc; x = k.build(slack); }
            Snap<BN> sa(x.a), sb(x.b), sw(x.w), sd(x.d), sv0(x.v[0]), sv1(x.v[1]); const Ext ea = observe(x.a); const size_t vn = x.v.size();
            bool threw = false, original = false, foreign = false; std::string type = "nothing"; const int id = (int)(q * 2 + (size_t)persistent + 1000 * (size_t)op);
            va::failed = 0; va::fail_id = id; va::fail_persistent = persistent != 0;
            {
                va::Scope sc; va::fail_at = at[q];
                try { act(op, x); }
                catch (const va::Failure& f) { va::fail_at = -1; threw = true; original = f.id == id; type = "an allocation failure of another point"; }
                catch (const Foreign& f) { va::fail_at = -1; threw = true; original = f.id == id; type = "an allocation failure of another point"; foreign = true; }
                catch (const std::bad_alloc&) { va::fail_at = -1; threw = true; type = "std::bad_alloc that is not the original exception"; }
                catch (const std::exception& e) { va::fail_at = -1; threw = true; type = std::string("std::exception: ") + e.what(); }
                catch (...) { va::fail_at = -1; threw = true; type = "another exception"; }
                va::fail_at = -1;
            }
            c.eval(); c.nontrivial(vf::mix64(h ^ ((u64)at[q] * 2 + (u64)persistent)));
            const std::string where = what + ", allocation " + std::to_string(at[q] + 1) + " of " + std::to_string(points) + (persistent ? " and all later ones fail" : " fails");
            auto bad = [&](const char* key, const std::string& d) { c.violation(std::string("alloc|") + nm + "|" + key, where + ": " + d); };
            if (!va::failed) { c.count("runs without the failure"); }           // fewer allocations than in the trial run
            else {
                c.count("injected failures"); if (foreign) c.count("failures reported by a foreign exception");
                if (!threw) bad("swallowed", "no exception reaches the caller");
                else if (!original) bad("exception", "the caller receives " + type);
                const int ch = changes(op);
                if (!sb.same(x.b)) bad("right operand", "the right operand became " + show(x.b));
                if (!sw.same(x.w)) bad("bystander", "an uninvolved number became " + show(x.w));
                if (ch != 1 && !sa.same(x.a)) bad("left operand", "a became " + show(x.a));
                if (ch == 1 && !(x.a.isInfinite() && x.a.numData.empty()) && !denotes(x.a, ea)) bad("half-way", "the left operand is left as " + show(x.a));
                if (ch != 3 && !sd.same(x.d)) bad("target", "the assignment target became " + show(x.d) + ", was " + dname(sd.desc) + ref::str(sd.d));
                if (x.v.size() != vn || !sv0.same(x.v[0]) || !sv1.same(x.v[1])) bad("container", "numbers in a vector changed");
                // the involved objects are used again
                BN* objs[] = {&x.a, &x.d, &x.b};
                for (BN* o : objs) {
                    BN saved(*o); *o = make<BN>(true, k.b); *o += x.w; Int e = ref::add(Int(true, k.b), Int(false, k.w), B);
                    if (!denotes(*o, Ext(e))) bad("reuse", "a reassigned object computes " + show(*o) + ", expected " + ref::str(e));
                    *o = saved;
                }
                // the interrupted operation succeeds when repeated from its operands
                if (ch == 1) x.a = k.build(0).a;
                if (ch == 3) x.d = k.build(0).d;
                act(op, x);
                if (!Snap<BN>(x.a).same(good.a) || !Snap<BN>(x.d).same(good.d) || !Snap<BN>(x.w).same(good.w)) bad("retry", "repeating the operation gives " + show(x.a) + " / " + show(x.d) + " / " + show(x.w));
            }
        }
        if (va::live != l0) c.violation(std::string("alloc|") + nm + "|leak", what + ", allocation " + std::to_string(at[q] + 1) + " of " + std::to_string(points) + (persistent ? " and later" : "") + ": " + std::to_string(va::live - l0) + " blocks leaked");
    }
    if (c.index % 997 == 5) c.sample(what + ": " + std::to_string(points) + " allocation points, each failing once and persistently");
}
void vf::setup() {
    systematic("every-operation", (u64)NOPS * VF_NTYPES * 30, (u64)NOPS * VF_NTYPES * 600, [](u64 i, Ctx& c) { int t = (int)(i % VF_NTYPES), op = (int)(i / VF_NTYPES % NOPS); Src s(case_seed("every-operation", i)); VF_DISPATCH(t, enumerate<BN>(s, c, t, op, 10, 4000)); });
    systematic("foreign-every-operation", (u64)NOPS * 3 * 20, (u64)NOPS * 3 * 400, [](u64 i, Ctx& c) { int t = (int)(i % 3), op = (int)(i / 3 % NOPS); Src s(case_seed("foreign-every-operation", i)); FOREIGN_DISPATCH(t, enumerate<BN>(s, c, 50 + t, op, 10, 4000)); });
    random_workload("foreign-mixed", 1500, 40000, [](Src& s, Ctx& c) { int t = (int)s.range(0, 2), op = (int)s.range(0, NOPS - 1); FOREIGN_DISPATCH(t, enumerate<BN>(s, c, 50 + t, op, 40, 40)); });
    random_workload("mixed", 12000, 300000, [](Src& s, Ctx& c) { int t = (int)s.range(0, VF_NTYPES - 1), op = (int)s.range(0, NOPS - 1); VF_DISPATCH(t, enumerate<BN>(s, c, t, op, 40, 40)); });
    random_workload("long", 600, 12000, [](Src& s, Ctx& c) { int t = (int)s.range(0, VF_NTYPES - 1), op = (int)s.range(0, NOPS - 1); VF_DISPATCH(t, enumerate<BN>(s, c, t, op, 700, 12)); });
}
