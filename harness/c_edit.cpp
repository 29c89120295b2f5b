// C13: construction from digit lists, digit editing as list operations, state queries.
#define VF_DEFINE_BASES
#include "ext.h"
#include "far.h"

template <size_t... I> struct Seq {};
template <size_t N, size_t... I> struct MkSeq : MkSeq<N - 1, N - 1, I...> {};
template <size_t... I> struct MkSeq<0, I...> { typedef Seq<I...> type; };

template <class BN> struct Build {
    typedef typename Info<BN>::digit D;
    typedef BN (*Fn)(int, bn_desc_t, const u64*);
    static D dig(u64 v) { return D((typename std::conditional<std::is_integral<D>::value, D, u64>::type)v); }
    static BN from(int form, bn_desc_t d, std::initializer_list<D> l) {
        switch (form) {
        case 0: return BN(d, l);
        case 1: return BN{d, l};
        case 2: { BN n = {d, l}; return n; }
        case 3: { BN n; n.push_back(dig(1)); n = {d, l}; return n; }
        default: { BN n(d, l); BN m(d, l); return l.size() & 1 ? n : m; }
        }
    }
    template <size_t... I> static BN with(int form, bn_desc_t d, const u64* v, Seq<I...>) { (void)v; return from(form, d, {dig(v[I])...}); }
    template <size_t N> static BN n(int form, bn_desc_t d, const u64* v) { return with(form, d, v, typename MkSeq<N>::type()); }
    static Fn get(size_t len) {
        switch (len) {
#define N(k) case k: return &n<k>;
        N(0) N(1) N(2) N(3) N(4) N(5) N(6) N(7) N(8) N(9) N(10) N(11) N(12) N(13) N(15) N(16) N(17) N(24) N(31) N(32) N(33) N(63) N(64) N(65) N(100) N(129) N(257)
#undef N
        }
        return nullptr;
    }
};
static const size_t LENS[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 100, 129, 257};

struct Model { int desc; Mag d; };
template <class BN> bool agree(Ctx& c, const BN& n, const Model& m, const std::string& what, bool any_sign = false) {
    const std::string T = TypeName<BN>::get();
    c.eval();
    if (raw(n.numData) != m.d || (n.descriptor != m.desc && !(any_sign && finite(n)))) { c.violation("edit|state", T + ": " + what + ": state " + show(n) + ", expected " + dname(m.desc) + ref::str(m.d)); return false; }
    const int d = n.descriptor; std::string bad;
    if (n.size() != m.d.size()) bad = "size()"; else if (&n.getData() != &n.numData && raw(n.getData()) != m.d) bad = "getData()"; else if (n.getDescriptor() != d) bad = "getDescriptor()";
    else if (n.isPositive() != (d == BN_POS || d == BN_POS_INF)) bad = "isPositive()"; else if (n.isNegative() != (d == BN_NEG || d == BN_NEG_INF)) bad = "isNegative()";
    else if (n.isInfinite() != (d == BN_POS_INF || d == BN_NEG_INF)) bad = "isInfinite()"; else if (n.isNan() != (d == BN_NAN)) bad = "isNan()";
    else if (BN::isComputable(n.getDescriptor()) != (d == BN_POS || d == BN_NEG)) bad = "isComputable()";
    if (!bad.empty()) { c.violation("edit|query", T + ": " + what + ": " + bad + " disagrees with the state " + show(n)); return false; }
    if (raw(n.numData) != m.d || n.descriptor != d) { c.violation("edit|query", T + ": " + what + ": a query changed the number"); return false; }
    return true;
}
template <class BN> void construct(Src& s, Ctx& c, int t) {
    const u64 B = Info<BN>::base();
    const size_t len = LENS[s.range(0, sizeof LENS / sizeof *LENS - 1)];
    Mag msd(len); { Mag r = gen_mag_len(s, B, len); for (size_t i = 0; i < len; ++i) msd[i] = r[len - 1 - i]; }
    if (len && s.chance(40)) { size_t z = (size_t)s.range(1, len); for (size_t i = 0; i < z; ++i) msd[i] = 0; }
    if (len && s.chance(20)) { size_t z = (size_t)s.range(1, len); for (size_t i = 0; i < z; ++i) msd[len - 1 - i] = 0; }
    Model m; m.desc = s.chance(50) ? BN_NEG : BN_POS; m.d.assign(msd.rbegin(), msd.rend()); ref::norm(m.d);
    const int form = (int)s.range(0, 4);
    std::string what = "digit list of " + std::to_string(len) + " digits, form " + std::to_string(form) + ", most significant first " + ref::str(msd);
    if (vf::verbose()) c.describe(TypeName<BN>::get() + (": " + what));
    BN n = Build<BN>::get(len)(form, m.desc == BN_NEG ? BN_NEG : BN_POS, msd.data());
    agree(c, n, m, what, m.d.empty());
    c.count("digit lists, length " + len_bucket(len)); if (len > m.d.size()) c.count("digit lists with leading zeros");
    if (len > 1) c.nontrivial(hash_mag((u64)t * 8 + (u64)form + 1000, msd));
    if (c.index % 4999 == 3) c.sample(what);
}
template <class BN> void edit(Src& s, Ctx& c, int t, size_t maxlen, u64 maxsteps) {
    const u64 B = Info<BN>::base(); typedef Build<BN> Bd;
    BN n; Model m; m.desc = BN_POS;
    if (s.chance(70)) { m.d = gen_mag(s, B, maxlen); if (s.chance(30)) add_zeros(s, m.d); m.desc = s.chance(50) ? BN_NEG : BN_POS; n = make<BN>(m.desc == BN_NEG, m.d); }
    if (!agree(c, n, m, "start")) return;
    u64 h = hash_mag((u64)t + 99, m.d); c.count("digits at the start " + len_bucket(m.d.size())); const u64 steps = s.range(1, maxsteps);
    std::string log = "edit " + std::to_string(B) + " " + ev_mag(false, m.d); bool loggable = m.d.size() < 30 && steps < 40 && c.index % 101 == 3;
    for (u64 k = 0; k < steps; ++k) {
        const int op = (int)s.range(0, 17); const u64 v = s.chance(40) ? special_digit(s, B) : s.range(0, B - 1); const size_t z = m.d.size();
        size_t p = (size_t)s.range(0, z); if (s.chance(15)) p = 0; else if (s.chance(15)) p = z; else if (z > 65540 && s.chance(40)) p = 65530 + (size_t)s.range(0, 10);
        std::string what; std::ostringstream e;
        switch (op) {
        case 0: what = "push_front"; n.push_front(Bd::dig(v)); m.d.insert(m.d.begin(), v); e << " ins:0:" << v; break;
        case 1: what = "push_back"; n.push_back(Bd::dig(v)); m.d.push_back(v); e << " ins:" << z << ":" << v; break;
        case 2: if (!z) continue; what = "pop_front"; n.pop_front(); m.d.erase(m.d.begin()); e << " del:0:0"; break;
        case 3: if (!z) continue; what = "pop_back"; n.pop_back(); m.d.pop_back(); e << " del:" << z - 1 << ":0"; break;
        case 4: what = "push at " + std::to_string(p); n.push(Bd::dig(v), p); m.d.insert(m.d.begin() + (long)p, v); e << " ins:" << p << ":" << v; break;
        case 5: if (!z) continue; if (p == z) --p; what = "pop at " + std::to_string(p); n.pop(p); m.d.erase(m.d.begin() + (long)p); e << " del:" << p << ":0"; break;
        case 6: { size_t q = (size_t)s.range(0, s.chance(20) ? maxlen : z + 6); what = "resize to " + std::to_string(q) + " with a digit"; n.resize(q, Bd::dig(v)); m.d.resize(q, v); e << " res:" << q << ":" << v; break; }
        case 7: { size_t q = (size_t)s.range(0, s.chance(20) ? maxlen : z + 6); what = "resize to " + std::to_string(q); n.resize(q); m.d.resize(q, 0); e << " res:" << q << ":0"; break; }
        case 8: if (!s.chance(25)) continue; what = "clear"; n.clear(); m.d.clear(); m.desc = BN_POS; e << " res:0:0"; break;
        case 9: { int d = s.chance(75) ? (int)s.range(0, 1) : (int)s.range(2, 4); what = std::string("setDescriptor ") + dname(d); n.setDescriptor((bn_desc_t)d); m.desc = d; if (d > 1) { m.d.clear(); e << " res:0:0"; } break; }
        case 10: if (!z) continue; if (p == z) --p; what = "write digit " + std::to_string(p); n[p] = Bd::dig(v); m.d[p] = v; e << " set:" << p << ":" << v; break;
        case 11: { what = "copy and move"; BN x(n); n.clear(); n = std::move(x); break; }
        case 13: if (!z) continue; what = "push_front of own digit"; if (p == z) --p; { const u64 w = m.d[p]; n.push_front(n[p]); m.d.insert(m.d.begin(), w); e << " ins:0:" << w; } break;
        case 14: { if (!z) continue; if (p == z) --p; const size_t q = (size_t)s.range(0, z); const u64 w = m.d[p]; what = "push of own digit"; n.push(n[p], q); m.d.insert(m.d.begin() + (long)q, w); e << " ins:" << q << ":" << w; break; }
        case 15: { if (!z) continue; if (p == z) --p; const size_t q = (size_t)s.range(0, s.chance(20) ? maxlen : z + 40); const u64 w = m.d[p]; what = "resize to " + std::to_string(q) + " with own digit " + std::to_string(p); n.resize(q, n[p]); m.d.resize(q, w); e << " res:" << q << ":" << w; break; }
        case 16: { what = "assignment to itself"; BN& r = n; n = r; break; }
        case 17: { what = "exchange with a copy"; BN x(n); n.clear(); std::swap(n, x); break; }
        default: if (!z) continue; what = "push_back of own digit"; if (p == z) --p; n.push_back(n[p]); m.d.push_back(m.d[p]); e << " ins:" << z << ":" << m.d[z]; break;
        }
        if (vf::verbose()) c.describe(std::string(TypeName<BN>::get()) + ": step " + std::to_string(k) + " " + what + " on " + show(n));
        { static const char* const K[] = {"push_front", "push_back", "pop_front", "pop_back", "push", "pop", "resize with digit", "resize", "clear", "setDescriptor", "write digit", "copy and move", "push own digit", "push own digit to the front", "insert own digit", "resize with own digit", "assign to itself", "exchange"}; c.count(K[op]); } h = vf::mix64(h ^ ((u64)op << 40) ^ v ^ ((u64)p << 20));
        if (!agree(c, n, m, "step " + std::to_string(k) + " " + what)) return;
        if (loggable) log += e.str();
    }
    c.nontrivial(h);
    if (loggable && raw(n.numData).size() < 60) { log += " = " + ev_mag(false, raw(n.numData)); c.event(log); }
}
// digit lists of up to 2^40 digits, most of them zero
template <class BN> void far_edit(Src& s, Ctx& c) {
    typedef typename Info<BN>::digit D; auto dig = [](u64 v) { return D((typename std::conditional<std::is_integral<D>::value, D, u64>::type)v); };
    const u64 B = Info<BN>::base(); FarModel m; m.n = far_size(s); m.d[m.n - 1] = 1; for (u64 k = s.range(0, 3); k--;) m.d[s.chance(50) ? s.range(0, 9) : m.n - 1 - s.range(0, 9)] = s.range(1, B - 1);
    int desc = s.chance(50) ? BN_NEG : BN_POS; BN n = far_make<BN>(m, desc); u64 h = vf::mix64(m.n ^ B);
    auto move_up = [&](u64 from, u64 by) { std::map<u64, u64> t; for (auto& x : m.d) t[x.first >= from ? x.first + by : x.first] = x.second; m.d.swap(t); m.n += by; };
    auto drop = [&](u64 at) { std::map<u64, u64> t; for (auto& x : m.d) if (x.first != at) t[x.first > at ? x.first - 1 : x.first] = x.second; m.d.swap(t); --m.n; };
    for (u64 k = s.range(1, 12); k--;) {
        const int op = (int)s.range(0, 9); const u64 v = special_digit(s, B); u64 p = s.chance(30) ? s.range(0, 9) : s.chance(50) ? m.n - 1 - s.range(0, 9) : ((u64)1 << s.range(31, 32)) + s.range(0, 8) - 4; if (p >= m.n) p = m.n - 1;
        std::string what; far_left = 20000; const std::string before = m.str();
        try {
            switch (op) {
            case 0: what = "push_back"; n.push_back(dig(v)); m.d[m.n++] = v; break;
            case 1: what = "push_front"; n.push_front(dig(v)); move_up(0, 1); m.d[0] = v; break;
            case 2: what = "pop_back"; n.pop_back(); drop(m.n - 1); break;
            case 3: what = "pop_front"; n.pop_front(); drop(0); break;
            case 4: what = "push at " + std::to_string(p); n.push(dig(v), p); move_up(p, 1); m.d[p] = v; break;
            case 5: what = "pop at " + std::to_string(p); n.pop(p); drop(p); break;
            case 6: { const u64 q = s.chance(60) ? far_size(s) : m.n + s.range(0, 5); what = "resize to " + std::to_string(q); if (s.chance(50)) n.resize(q); else n.resize(q, dig(0)); while (!m.d.empty() && m.d.rbegin()->first >= q) m.d.erase(std::prev(m.d.end())); m.n = q; break; }
            case 7: { const u64 q = m.n + s.range(1, 20); what = "resize with a digit to " + std::to_string(q); n.resize(q, dig(v)); for (u64 i = m.n; i < q; ++i) m.d[i] = v; m.n = q; break; }
            case 8: what = "write position " + std::to_string(p); n[p] = dig(v); m.d[p] = v; break;
            default: { what = "read position " + std::to_string(p); const BN& cn = n; const u64 a = (u64)n[p], b = (u64)cn[p]; if (a != m.at(p) || b != m.at(p)) { c.violation("edit|far", "base " + std::to_string(B) + ": " + what + " of " + before + " gives " + std::to_string(a) + " and " + std::to_string(b)); return; } }
            }
        } catch (const Tired&) { c.count("far edits that look at too many digits, not judged"); return; } catch (bn_error_t) { c.violation("edit|far", "base " + std::to_string(B) + ": " + what + " of " + before + " raises an error"); return; }
        for (auto it = m.d.begin(); it != m.d.end();) { if (!it->second) it = m.d.erase(it); else ++it; }
        c.eval(); h = vf::mix64(h ^ (u64)op ^ v << 8 ^ p << 4); static const char* const K[] = {"push_back", "push_front", "pop_back", "pop_front", "push", "pop", "resize", "resize with digit", "write", "read"}; c.count(std::string("far numbers: ") + K[op]); c.peak("worst: digits of a far number", m.n);
        if (n.size() != m.n || n.numData.size() != m.n || n.numData.digits() != m.d || n.descriptor != desc) { FarModel g; g.n = n.numData.size(); g.d = n.numData.digits(); c.violation("edit|far", "base " + std::to_string(B) + ": " + what + " of " + before + " leaves " + g.str() + " and size() " + std::to_string(n.size()) + ", expected " + m.str()); return; }
    }
    c.nontrivial(h);
}
void vf::setup() {
    if (sizeof(size_t) > 4) random_workload("far", 40000, 800000, [](Src& s, Ctx& c) { int t = (int)s.range(0, 3); VF_FAR_DISPATCH(t, far_edit<BN>(s, c)); });
    random_workload("lists", 150000, 3000000, [](Src& s, Ctx& c) { int t = (int)s.range(0, VF_NTYPES - 1); VF_DISPATCH(t, construct<BN>(s, c, t)); });
    random_workload("edits", 60000, 1200000, [](Src& s, Ctx& c) { int t = (int)s.range(0, VF_NTYPES - 1); VF_DISPATCH(t, edit<BN>(s, c, t, 40, 60)); });
    random_workload("long", 1200, 24000, [](Src& s, Ctx& c) { int t = (int)s.range(0, VF_NTYPES - 1); VF_DISPATCH(t, edit<BN>(s, c, t, 3000, 150)); });
#ifndef VF_NO_HUGE
    random_workload("huge", 500, 10000, [](Src& s, Ctx& c) { int t = (int)s.range(0, VF_NTYPES - 1); VF_DISPATCH(t, edit<BN>(s, c, t, 140000, 25)); });
#endif
}
