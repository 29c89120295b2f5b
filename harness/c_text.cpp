// C15: streamed text.
#define VF_DEFINE_BASES
#include "ext.h"
#include <iomanip>
#include <fstream>
#include <deque>

template <class BN> std::string expected(const BN& n, bool minus) {
    switch (n.descriptor) { case BN_POS_INF: return "+INF"; case BN_NEG_INF: return "-INF"; case BN_NAN: return "NaN"; default: break; }
    std::string r = minus ? "-" : ""; const size_t z = n.numData.size();
    if (!z) r += '0';
    for (size_t i = z; i-- > 0;) { char b[24]; snprintf(b, sizeof b, "%llu", (unsigned long long)(u64)n.numData[i]); r += b; }
    return r;
}
// a zero with the negative state is outside the statement; only its digits are judged
template <class BN> bool matches(const BN& n, const std::string& s) {
    const bool neg = n.descriptor == BN_NEG;
    if (s == expected(n, neg)) return true;
    return neg && value(n).m.empty() && s == expected(n, false);
}
struct Fmt { std::ios_base::fmtflags f; std::streamsize p; char fill; Fmt(const std::ios& o) : f(o.flags()), p(o.precision()), fill(o.fill()) {} bool operator==(const Fmt& x) const { return f == x.f && p == x.p && fill == x.fill; } };
// an unbuffered sink which accepts characters one at a time
struct OneByOne : std::streambuf { std::string s; int overflow(int c) override { if (c != EOF) s += (char)c; return c == EOF ? 0 : c; } };

template <class BN> BN gen(Src& s, size_t maxlen) {
    const u64 B = Info<BN>::base(); BN n;
    const int k = (int)s.range(0, 19);
    if (k < 3) { if (s.chance(50)) load(n.numData, gen_mag(s, B, 4)); n.setDescriptor((bn_desc_t)(2 + k)); return n; }
    Mag m = k == 3 ? Mag((size_t)s.range(0, 3), 0) : gen_mag(s, B, maxlen);
    if (s.chance(20)) add_zeros(s, m);
    return make<BN>(s.chance(45), m);
}
template <class BN> void one(Src& s, Ctx& c, int t, size_t maxlen) {
    const std::string T = TypeName<BN>::get();
    BN n = gen<BN>(s, maxlen); Snap<BN> before(n);
    if (vf::verbose()) c.describe(T + ": printing " + show(n));
    std::ostringstream o; std::string out; const int how = (int)s.range(0, 5); u64 h = hash_mag((u64)t * 8 + (u64)how + (u64)n.descriptor * 1000, raw(n.numData));
    auto judge = [&](const BN& x, const std::string& text, const char* what) {
        c.eval();
        if (matches(x, text)) return true;
        c.violation("text|" + std::string(what), T + ": " + what + ": " + show(x) + " printed as '" + text.substr(0, 300) + "', expected '" + expected(x, x.descriptor == BN_NEG).substr(0, 300) + "'"); return false;
    };
    switch (how) {
    case 0: case 1: { o << n; if (!judge(n, o.str(), "plain")) return; break; }
    case 2: {    // successive outputs, with separators and other values between them
        std::vector<BN> v; std::string all; bool ok = true; std::vector<size_t> cut;
        const size_t k = (size_t)s.range(2, 5); std::ostringstream p;
        for (size_t i = 0; i < k && ok; ++i) {
            v.push_back(i && s.chance(70) ? gen<BN>(s, 12) : n); const size_t at = p.str().size(); 
            const int sep = (int)s.range(0, 3);
            if (sep == 0) { std::ostream& r = p << v.back(); if (&r != &p) { c.violation("text|stream", T + ": << does not return its stream"); return; } }
            else if (sep == 1) p << v.back() << ' '; else if (sep == 2) p << v.back() << 255 << '\n'; else p << v.back() << std::string("x");
            const std::string got = p.str().substr(at), tail = sep == 0 ? "" : sep == 1 ? " " : sep == 2 ? "255\n" : "x";
            if (got.size() < tail.size() || got.compare(got.size() - tail.size(), tail.size(), tail)) { c.violation("text|concat", T + ": what follows a number printed as '" + got + "'"); return; }
            ok = judge(v.back(), got.substr(0, got.size() - tail.size()), "concatenated");
        }
        if (!ok) return;
        break;
    }
    case 3: {    // formatting state survives the output
        switch (s.range(0, 7)) { case 0: o << std::hex; break; case 1: o << std::oct << std::showbase; break; case 2: o << std::uppercase << std::hex; break; case 3: o << std::setfill('*') << std::left; break; case 4: o << std::setprecision((int)s.range(0, 30)) << std::scientific; break; case 5: o << std::showpos << std::boolalpha; break; case 6: o << std::unitbuf << std::setfill('0') << std::internal; break; default: o << std::fixed << std::showpoint; }
        const Fmt f(o); const bool plain = (o.flags() & std::ios::basefield) == std::ios::dec && !(o.flags() & std::ios::showpos);
        o << n; c.eval();
        if (!(Fmt(o) == f)) { c.violation("text|format", T + ": printing " + show(n) + " changed the formatting state of the stream"); return; }
        if (plain && !judge(n, o.str(), "with unrelated format flags")) return;
        const std::string text = o.str(); std::ostringstream q; q.copyfmt(o); q << 4242; o << 4242;
        if (o.str() != text + q.str()) { c.violation("text|format", T + ": a value printed after " + show(n) + " is formatted differently"); return; }
        break;
    }
    case 4: { OneByOne b; std::ostream p(&b); p << n; if (!judge(n, b.s, "unbuffered")) return; if (!p.good()) { c.violation("text|stream", T + ": the stream is not good after printing " + show(n)); return; } break; }
    default: { std::ostream& p = o; p << n << n; const std::string x = o.str(); if (x.size() % 2) { c.violation("text|concat", T + ": printing " + show(n) + " twice gives '" + x.substr(0, 200) + "'"); return; } if (!judge(n, x.substr(0, x.size() / 2), "printed twice") || !judge(n, x.substr(x.size() / 2), "printed twice")) return; }
    }
    if (!before.same(n)) { c.violation("text|operand", T + ": printing changed the number to " + show(n)); return; }
    if (!o.good()) { c.violation("text|stream", T + ": the stream is not good after printing " + show(n)); return; }
    static const char* const K[] = {"plain", "plain", "successive outputs", "with format flags", "one character at a time", "twice"};
    c.count(K[how]); c.count(finite(n) ? "finite, digits " + len_bucket(n.numData.size()) : std::string("non-finite"));
    if (n.numData.size() > 1 || !finite(n)) c.nontrivial(h);
    if (how < 2 && n.numData.size() < 40 && c.index % 37 == 1 && !(n.descriptor == BN_NEG && value(n).m.empty())) {
        std::string d = finite(n) ? ev_mag(n.descriptor == BN_NEG, raw(n.numData)) : dname(n.descriptor);
        c.event("txt " + d + " " + o.str()); c.sample(T + " " + d + " -> " + o.str());
    }
}
// results of arithmetic print like the numbers they denote
template <class BN> void computed(Src& s, Ctx& c, int t) {
    const std::string T = TypeName<BN>::get(); const u64 B = Info<BN>::base();
    Pair p = gen_pair(s, B, 20, 10); BN a = make<BN>(p.na, p.a), b = make<BN>(p.nb, p.b); const int op = (int)s.range(0, 3);
    if (op == 3 && ref::normed(p.b).empty()) return;
    Ext e = xop(op, observe(a), observe(b), B); BN r = binary(op, a, b);
    if (!denotes(r, e) || !(raw(r.numData) == e.v.m)) return;              // arithmetic itself is judged elsewhere
    std::ostringstream o; o << (s.chance(50) ? r : binary(op, a, b)); c.eval(); c.count("computed results");
    std::string x = e.v.m.empty() ? "0" : e.v.neg ? "-" : ""; for (size_t i = e.v.m.size(); i-- > 0;) x += std::to_string(e.v.m[i]);
    if (o.str() != x) c.violation("text|computed", T + ": " + show(a) + OPS4[op] + show(b) + " prints as '" + o.str() + "', expected '" + x + "'");
    c.nontrivial(hash_case((u64)t * 4 + (u64)op + 500, p));
}
// every single digit value
template <class BN> void digits(u64 i, Ctx& c, int t) {
    const u64 B = Info<BN>::base(); if (i >= B) return;
    for (int k = 0; k < 4; ++k) {
        Mag m(1, i); if (k & 2) { m.push_back(i % 7 % B); m.push_back(i); }
        BN n = make<BN>(k & 1, m); std::ostringstream o; o << n; c.eval();
        if (!matches(n, o.str())) { c.violation("text|digit", std::string(TypeName<BN>::get()) + ": " + show(n) + " printed as '" + o.str() + "'"); return; }
    }
    c.nontrivial(vf::mix64(i * 16 + (u64)t)); c.count("digit values, each alone and inside a number");
}
void vf::setup() {
    systematic("digits", 256 * VF_NTYPES, 65536 * VF_NTYPES, [](u64 i, Ctx& c) { int t = (int)(i % VF_NTYPES); VF_DISPATCH(t, digits<BN>(i / VF_NTYPES, c, t)); });
    random_workload("print", 150000, 3000000, [](Src& s, Ctx& c) { int t = (int)s.range(0, VF_NTYPES - 1); VF_DISPATCH(t, one<BN>(s, c, t, 60)); });
    random_workload("long", 800, 16000, [](Src& s, Ctx& c) { int t = (int)s.range(0, VF_NTYPES - 1); VF_DISPATCH(t, one<BN>(s, c, t, 6000)); });
#ifndef VF_NO_HUGE
    random_workload("huge", 300, 6000, [](Src& s, Ctx& c) { int t = (int)s.range(0, VF_NTYPES - 1); VF_DISPATCH(t, one<BN>(s, c, t, 140000)); });
#endif
    random_workload("computed", 30000, 600000, [](Src& s, Ctx& c) { int t = (int)s.range(0, VF_NTYPES - 1); VF_DISPATCH(t, computed<BN>(s, c, t)); });
}
