// C19: the published digit-sequence primitives on plain containers.
#define VF_DEFINE_BASES
#include "ext.h"
#include <memory>

// allocator with an identity, which checks that memory goes back as it came
struct Book { long live = 0; bool wrong = false; u64 calls = 0; };
static Book book;
template <class T> struct BookAlloc {
    typedef T value_type;
    int id;
    BookAlloc(int i = 7) : id(i) {}
    template <class U> BookAlloc(const BookAlloc<U>& o) : id(o.id) {}
    T* allocate(size_t n) { ++book.calls; char* p = (char*)malloc(n * sizeof(T) + 32); if (!p) throw std::bad_alloc(); *(size_t*)p = n; book.live += (long)n; return (T*)(p + 32); }
    void deallocate(T* q, size_t n) { char* p = (char*)q - 32; if (*(size_t*)p != n) book.wrong = true; book.live -= (long)n; free(p); }
    template <class U> bool operator==(const BookAlloc<U>&) const { return true; }
    template <class U> bool operator!=(const BookAlloc<U>&) const { return false; }
};
// a container of its own type
template <class D> struct OwnVec : std::vector<D> { typedef std::vector<D> base; using base::base; OwnVec() {} OwnVec(const OwnVec& o) : base(o) {} OwnVec(OwnVec&& o) : base(std::move(o)) {} OwnVec& operator=(const OwnVec& o) { base::operator=(o); return *this; } OwnVec& operator=(OwnVec&& o) { base::operator=(std::move(o)); return *this; } };

struct Out { bool cmp[5]; Mag add, addself, sub, subself, div, naive, strassen; bool has_sub, has_div; std::string bad; };
template <class L, class C> void perform(const Pair& p, u64 B, bool cmp_ge, bool divable, Out& o, bool huge) {
    C a, b; load(a, p.a); load(b, p.b); const C &ca = a, &cb = b;
    auto kept = [&](const char* w) { if (o.bad.empty() && (raw(a) != p.a || raw(b) != p.b)) o.bad = std::string(w) + ": an input passed as read-only changed"; };
    auto ok = [&](const char* w, const C& x) { for (const auto& d : x) if ((u64)d >= B && o.bad.empty()) o.bad = std::string(w) + ": a digit is outside the base"; return raw(x); };
    o.cmp[0] = abs_val_is_eq<C>(ca, cb); o.cmp[1] = abs_val_is_gt<C>(ca, cb); o.cmp[2] = abs_val_is_ge<C>(ca, cb); o.cmp[3] = abs_val_is_lt<C>(ca, cb); o.cmp[4] = abs_val_is_le<C>(ca, cb); kept("comparison");
    { C x(a); abs_val_add<L, C>(x, cb); o.add = ok("addition", x); kept("addition"); }
    { C x(a); abs_val_add<L, C>(x, x); o.addself = ok("addition to itself", x); }
    o.has_sub = cmp_ge;
    if (cmp_ge) { C x(a); abs_val_sub<L, C>(x, cb); o.sub = ok("subtraction", x); kept("subtraction"); }
    { C x(a); abs_val_sub<L, C>(x, x); o.subself = ok("subtraction from itself", x); }
    o.has_div = divable;
    if (divable) { C x(a); abs_val_div<L, C>(x, cb); o.div = ok("division", x); kept("division"); }
    if (huge) return;
    { C x = mul_naive<L, C>(ca, cb); o.naive = ok("mul_naive", x); kept("mul_naive"); }
    { C x = mul_strassen<L, C>(ca, cb); o.strassen = ok("mul_strassen", x); kept("mul_strassen"); }
}
static const char* const CON[] = {"std::vector", "std::vector with another allocator", "another container type"};
template <class BN> void one(Src& s, Ctx& c, int t, size_t maxlen, bool huge = false) {
    typedef typename Info<BN>::limits L; typedef typename Info<BN>::digit D; const u64 B = Info<BN>::base(); const std::string T = TypeName<BN>::get();
    Pair p = gen_pair(s, B, maxlen, 35);
    const Mag A = ref::normed(p.a), Q = ref::normed(p.b); const int q = ref::cmp(A, Q);
    double bits = 0; for (u64 v = B - 1; v; v >>= 1) ++bits;
    const double qb = (double)(A.size() + 1 - std::min(A.size(), Q.size())) * bits;
    const bool divable = !Q.empty() && qb * qb * (double)(A.size() + 4) < (huge ? 3e7 : 400000);
    const std::string d = T + ": " + ref::str(p.a) + " and " + ref::str(p.b);
    if (vf::verbose()) c.describe(d);
    Out first;
#ifdef VF_STD_ONLY
    const int containers = 1;
#else
    const int containers = 3;
#endif
    for (int k = 0; k < containers; ++k) {
        Out o; const long live = book.live;
        if (k == 0) perform<L, std::vector<D>>(p, B, q >= 0, divable, o, huge);
#ifndef VF_STD_ONLY
        else if (k == 1) perform<L, std::vector<D, BookAlloc<D>>>(p, B, q >= 0, divable, o, huge); else perform<L, OwnVec<D>>(p, B, q >= 0, divable, o, huge);
#endif
        const std::string w = d + " (" + CON[k] + ")";
        if (!o.bad.empty()) { c.violation("prim|" + o.bad.substr(0, o.bad.find(':')), w + ": " + o.bad); return; }
        if (book.live != live || book.wrong) { c.violation("prim|allocator", w + ": memory was not returned to the allocator as it was taken"); return; }
        static const char* const CM[] = {"abs_val_is_eq", "abs_val_is_gt", "abs_val_is_ge", "abs_val_is_lt", "abs_val_is_le"};
        const bool want[] = {q == 0, q > 0, q >= 0, q < 0, q <= 0};
        for (int i = 0; i < 5; ++i) { c.eval(); if (o.cmp[i] != want[i]) { c.violation(std::string("prim|") + CM[i], w + ": " + CM[i] + " returned " + (o.cmp[i] ? "true" : "false")); return; } }
        auto value_is = [&](const char* n, const Mag& got, const Mag& e) { c.eval(); if (ref::normed(got) == e) return true; c.violation(std::string("prim|") + n, w + ": " + n + " gives " + ref::str(got) + ", expected " + ref::str(e)); return false; };
        if (k == 0) {
            const Mag prod = huge ? Mag() : ref::mul(A, Q, B);
            if (!value_is("abs_val_add", o.add, ref::add(A, Q, B)) || !value_is("abs_val_add (same sequence)", o.addself, ref::add(A, A, B))) return;
            if (o.has_sub && !value_is("abs_val_sub", o.sub, ref::sub(A, Q, B))) return;
            if (!value_is("abs_val_sub (same sequence)", o.subself, Mag())) return;
            if (o.has_div) { c.eval(); if (!ref::is_quotient(A, Q, ref::normed(o.div), B)) { c.violation("prim|abs_val_div", w + ": abs_val_div gives " + ref::str(o.div)); return; } c.count("quotients"); }
            if (!huge && (!value_is("mul_naive", o.naive, prod) || !value_is("mul_strassen", o.strassen, prod))) return;
            first = o;
        } else {
            c.eval();
            const char* diff = o.add != first.add || o.addself != first.addself ? "abs_val_add" : o.has_sub && o.sub != first.sub ? "abs_val_sub" : o.subself != first.subself ? "abs_val_sub" : o.has_div && o.div != first.div ? "abs_val_div" : o.naive != first.naive ? "mul_naive" : o.strassen != first.strassen ? "mul_strassen" : nullptr;
            if (diff) { c.violation(std::string("prim|container|") + diff, w + ": " + diff + " gives other digits than with std::vector"); return; }
        }
    }
    c.count("pairs in " + T); c.count("length " + len_bucket(std::max(p.a.size(), p.b.size()))); if (p.denorm) c.count("with leading zeros");
    if (p.a.size() + p.b.size() > 2) c.nontrivial(hash_case((u64)t + 40, p));
    if (c.index % 5003 == 2) c.sample(d + ": 5 comparisons, sum, difference, quotient, two products in three containers");
}
// sequences combined several times in place, as an accumulator
template <class BN> void accumulate(Src& s, Ctx& c, int t) {
    typedef typename Info<BN>::limits L; typedef typename Info<BN>::digit D; typedef std::vector<D> C; const u64 B = Info<BN>::base();
    C acc; Mag m; const size_t n = (size_t)s.range(2, 40); u64 h = (u64)t; std::string last;
    for (size_t i = 0; i < n; ++i) {
        Mag x = gen_mag(s, B, 12); if (s.chance(20)) add_zeros(s, x); C y; load(y, x); const Mag X = ref::normed(x); const int k = (int)s.range(0, 3);
        if (k < 2) { abs_val_add<L, C>(acc, y); m = ref::add(m, X, B); last = "add"; }
        else if (ref::cmp(m, X) >= 0) { abs_val_sub<L, C>(acc, y); m = ref::sub(m, X, B); last = "sub"; }
        else if (k == 3 && m.size() < 60) { acc = s.chance(50) ? mul_naive<L, C>(acc, y) : mul_strassen<L, C>(y, acc); m = ref::mul(m, X, B); last = "mul"; }
        else continue;
        c.eval(); h = hash_mag(h, x);
        if (ref::normed(raw(acc)) != m) { c.violation("prim|accumulate", std::string(TypeName<BN>::get()) + ": after step " + std::to_string(i) + " (" + last + " " + ref::str(x) + ") the accumulator is " + ref::str(raw(acc)) + ", expected " + ref::str(m)); return; }
    }
    c.nontrivial(h); c.count("accumulators");
}
void vf::setup() {
    random_workload("pairs", 40000, 800000, [](Src& s, Ctx& c) { int t = (int)s.range(0, VF_NTYPES - 1); VF_DISPATCH(t, one<BN>(s, c, t, 24)); });
    random_workload("long", 1500, 30000, [](Src& s, Ctx& c) { int t = (int)s.range(0, VF_NTYPES - 1); VF_DISPATCH(t, one<BN>(s, c, t, 300)); });
#ifndef VF_NO_HUGE
    random_workload("huge", 500, 10000, [](Src& s, Ctx& c) { int t = (int)s.range(0, VF_NTYPES - 1); VF_DISPATCH(t, one<BN>(s, c, t, 140000, true)); });
#endif
    random_workload("accumulate", 12000, 240000, [](Src& s, Ctx& c) { int t = (int)s.range(0, VF_NTYPES - 1); VF_DISPATCH(t, accumulate<BN>(s, c, t)); });
}
