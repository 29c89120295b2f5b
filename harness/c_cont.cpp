// C22: the same program over numbers on different digit containers, compared step by step.
#define VF_DEFINE_BASES
#include "runner.h"
#include <iterator>
#include <type_traits>

// ------------------------------------------------------------------ what the containers observe
struct Watch { u64 accesses = 0, moves = 0, heap = 0, spills = 0; long live = 0; std::string bad; void fail(const std::string& d) { if (bad.empty()) bad = d; } };
static Watch W;

// allocator: guard bytes around each block, junk in new and in returned memory, sizes must agree
template <class T> struct GuardAlloc {
    typedef T value_type; typedef std::true_type propagate_on_container_move_assignment;
    GuardAlloc() {} template <class U> GuardAlloc(const GuardAlloc<U>&) {}
    static const size_t G = 32;
    T* allocate(size_t n) {
        if (n > ((size_t)1 << 40)) throw std::bad_alloc();
        const size_t b = n * sizeof(T); unsigned char* p = (unsigned char*)malloc(b + 2 * G); if (!p) throw std::bad_alloc();
        memset(p, 0xa5, G); memset(p + G, 0xd7, b); memset(p + G + b, 0x5a, G); memcpy(p, &b, sizeof b); ++W.heap; W.live += (long)b; return (T*)(p + G);
    }
    void deallocate(T* q, size_t n) {
        unsigned char* p = (unsigned char*)q - G; const size_t b = n * sizeof(T); size_t was; memcpy(&was, p, sizeof was);
        if (was != b) { W.fail("a block was returned to the allocator with another size"); }
        for (size_t i = sizeof was; i < G; ++i) if (p[i] != 0xa5) W.fail("memory in front of a block was written");
        for (size_t i = 0; i < G; ++i) if (p[G + was + i] != 0x5a) W.fail("memory behind a block was written");
        memset(p, 0xdd, was + 2 * G); W.live -= (long)was; free(p);
    }
    template <class U> bool operator==(const GuardAlloc<U>&) const { return true; }
    template <class U> bool operator!=(const GuardAlloc<U>&) const { return false; }
};

// vector that checks every access
template <class D> struct StrictVec : std::vector<D> {
    typedef std::vector<D> base; typedef typename base::size_type size_type; typedef typename base::iterator iterator; typedef typename base::const_iterator const_iterator;
    using base::base;
    StrictVec() {} StrictVec(const StrictVec& o) : base(o) {} StrictVec(StrictVec&& o) noexcept : base(std::move(o)) { ++W.moves; }
    StrictVec& operator=(const StrictVec& o) { base::operator=(o); return *this; } StrictVec& operator=(StrictVec&& o) noexcept { ++W.moves; base::operator=(std::move(o)); return *this; } StrictVec& operator=(std::initializer_list<D> l) { base::operator=(l); return *this; }
    static D& nowhere() { static D d; d = (D)1; return d; }
    bool in(size_type i, const char* w) const { ++W.accesses; if (i < this->size()) return true; W.fail(std::string(w) + " at position " + std::to_string(i) + " of " + std::to_string(this->size()) + " digits"); return false; }
    D& operator[](size_type i) { return in(i, "operator[]") ? base::operator[](i) : nowhere(); } const D& operator[](size_type i) const { return in(i, "operator[]") ? base::operator[](i) : nowhere(); }
    D& front() { return in(0, "front()") ? base::front() : nowhere(); } const D& front() const { return in(0, "front()") ? base::front() : nowhere(); }
    D& back() { return in(0, "back()") ? base::back() : nowhere(); } const D& back() const { return in(0, "back()") ? base::back() : nowhere(); }
    void pop_back() { if (in(0, "pop_back()")) base::pop_back(); }
    iterator erase(const_iterator p) { if (in((size_type)(p - this->cbegin()), "erase()")) return base::erase(p); return this->end(); }
    iterator erase(const_iterator f, const_iterator l) { if (f > l || l > this->cend() || f < this->cbegin()) { W.fail("erase() of a range outside the digits"); return this->end(); } return base::erase(f, l); }
    bool at_most(const_iterator p, const char* w) { if (p >= this->cbegin() && p <= this->cend()) return true; W.fail(std::string(w) + " outside the digits"); return false; }
    iterator insert(const_iterator p, const D& v) { return at_most(p, "insert()") ? base::insert(p, v) : this->end(); } iterator insert(const_iterator p, D&& v) { return at_most(p, "insert()") ? base::insert(p, std::move(v)) : this->end(); }
    iterator insert(const_iterator p, size_type n, const D& v) { return at_most(p, "insert()") ? base::insert(p, n, v) : this->end(); } template <class It> iterator insert(const_iterator p, It a, It b) { return at_most(p, "insert()") ? base::insert(p, a, b) : this->end(); } iterator insert(const_iterator p, std::initializer_list<D> l) { return base::insert(p, l); }
};

// vector with room for six digits inside the object, iterators of its own type, no relation to std::vector
template <class D> class InlineVec {
    static const size_t N = 6;
    size_t n_, cap_; D* heap_; const InlineVec* self_; D in_[N];
    void here() const { if (self_ != this) W.fail("a container was copied or moved byte by byte"); }
    D* p() { here(); return heap_ ? heap_ : in_; } const D* p() const { here(); return heap_ ? heap_ : in_; }
    static D junk() { return (D)1; }
    void steal(InlineVec& o) { n_ = o.n_; cap_ = o.cap_; heap_ = o.heap_; for (size_t i = 0; i < N; ++i) in_[i] = o.in_[i]; o.n_ = 2; o.cap_ = N; o.heap_ = nullptr; for (size_t i = 0; i < N; ++i) o.in_[i] = junk(); ++W.moves; }   // what is moved from keeps some digits: valid, but unspecified
public:
    template <class T> class Iter {
        template <class> friend class Iter; T* q_;
    public:
        typedef std::random_access_iterator_tag iterator_category; typedef typename std::remove_const<T>::type value_type; typedef ptrdiff_t difference_type; typedef T* pointer; typedef T& reference;
        Iter() : q_(nullptr) {} explicit Iter(T* q) : q_(q) {} template <class U, class = typename std::enable_if<std::is_convertible<U*, T*>::value>::type> Iter(const Iter<U>& o) : q_(o.q_) {}
        T& operator*() const { return *q_; } T* operator->() const { return q_; } T& operator[](ptrdiff_t d) const { return q_[d]; } T* raw() const { return q_; }
        Iter& operator++() { ++q_; return *this; } Iter& operator--() { --q_; return *this; } Iter operator++(int) { Iter r(*this); ++q_; return r; } Iter operator--(int) { Iter r(*this); --q_; return r; }
        Iter& operator+=(ptrdiff_t d) { q_ += d; return *this; } Iter& operator-=(ptrdiff_t d) { q_ -= d; return *this; } Iter operator+(ptrdiff_t d) const { return Iter(q_ + d); } Iter operator-(ptrdiff_t d) const { return Iter(q_ - d); } friend Iter operator+(ptrdiff_t d, const Iter& i) { return i + d; }
        template <class U> ptrdiff_t operator-(const Iter<U>& o) const { return q_ - o.q_; }
        template <class U> bool operator==(const Iter<U>& o) const { return q_ == o.q_; } template <class U> bool operator!=(const Iter<U>& o) const { return q_ != o.q_; } template <class U> bool operator<(const Iter<U>& o) const { return q_ < o.q_; }
        template <class U> bool operator>(const Iter<U>& o) const { return q_ > o.q_; } template <class U> bool operator<=(const Iter<U>& o) const { return q_ <= o.q_; } template <class U> bool operator>=(const Iter<U>& o) const { return q_ >= o.q_; }
    };
    typedef D value_type; typedef size_t size_type; typedef ptrdiff_t difference_type; typedef D& reference; typedef const D& const_reference; typedef D* pointer; typedef const D* const_pointer; typedef std::allocator<D> allocator_type;
    typedef Iter<D> iterator; typedef Iter<const D> const_iterator; typedef std::reverse_iterator<iterator> reverse_iterator; typedef std::reverse_iterator<const_iterator> const_reverse_iterator;
    InlineVec() : n_(0), cap_(N), heap_(nullptr), self_(this) { for (auto& x : in_) x = junk(); }
    explicit InlineVec(size_t n) : InlineVec() { resize(n); } InlineVec(size_t n, const D& v) : InlineVec() { resize(n, v); }
    InlineVec(std::initializer_list<D> l) : InlineVec() { insert(cend(), l.begin(), l.end()); }
    template <class It, class = typename std::enable_if<!std::is_convertible<It, size_t>::value>::type> InlineVec(It a, It b) : InlineVec() { insert(cend(), a, b); }
    InlineVec(const InlineVec& o) : InlineVec() { insert(cend(), o.begin(), o.end()); }
    InlineVec(InlineVec&& o) noexcept : InlineVec() { steal(o); }
    ~InlineVec() { here(); delete[] heap_; }
    InlineVec& operator=(const InlineVec& o) { if (this != &o) { InlineVec t(o); delete[] heap_; heap_ = nullptr; steal(t); } return *this; }
    InlineVec& operator=(InlineVec&& o) noexcept { if (this != &o) { delete[] heap_; heap_ = nullptr; steal(o); } return *this; }
    InlineVec& operator=(std::initializer_list<D> l) { InlineVec t(l); return *this = std::move(t); }
    void assign(size_t n, const D& v) { InlineVec t(n, v); *this = std::move(t); } void assign(std::initializer_list<D> l) { *this = l; }
    template <class It, class = typename std::enable_if<!std::is_convertible<It, size_t>::value>::type> void assign(It a, It b) { InlineVec t(a, b); *this = std::move(t); }
    size_t size() const { return n_; } bool empty() const { return !n_; } size_t capacity() const { return cap_; } size_t max_size() const { return (size_t)1 << 40; } allocator_type get_allocator() const { return allocator_type(); }
    bool in(size_t i, const char* w) const { ++W.accesses; if (i < n_) return true; W.fail(std::string(w) + " at position " + std::to_string(i) + " of " + std::to_string(n_) + " digits"); return false; }
    D& nowhere() const { static D d; d = junk(); return d; }
    D& operator[](size_t i) { return in(i, "operator[]") ? p()[i] : nowhere(); } const D& operator[](size_t i) const { return in(i, "operator[]") ? p()[i] : nowhere(); }
    D& at(size_t i) { if (i >= n_) throw std::out_of_range("at"); return p()[i]; } const D& at(size_t i) const { if (i >= n_) throw std::out_of_range("at"); return p()[i]; }
    D& front() { return (*this)[0]; } const D& front() const { return (*this)[0]; } D& back() { return in(0, "back()") ? p()[n_ - 1] : nowhere(); } const D& back() const { return in(0, "back()") ? p()[n_ - 1] : nowhere(); }
    D* data() { return p(); } const D* data() const { return p(); }
    iterator begin() { return iterator(p()); } iterator end() { return iterator(p() + n_); } const_iterator begin() const { return const_iterator(p()); } const_iterator end() const { return const_iterator(p() + n_); } const_iterator cbegin() const { return begin(); } const_iterator cend() const { return end(); }
    reverse_iterator rbegin() { return reverse_iterator(end()); } reverse_iterator rend() { return reverse_iterator(begin()); } const_reverse_iterator rbegin() const { return const_reverse_iterator(end()); } const_reverse_iterator rend() const { return const_reverse_iterator(begin()); } const_reverse_iterator crbegin() const { return rbegin(); } const_reverse_iterator crend() const { return rend(); }
    void reserve(size_t n) { if (n <= cap_) return; if (n > max_size()) throw std::length_error("reserve"); D* q = new D[n]; for (size_t i = 0; i < n_; ++i) q[i] = p()[i]; for (size_t i = n_; i < n; ++i) q[i] = junk(); if (!heap_) ++W.spills; D* old = heap_; heap_ = q; cap_ = n; for (auto& x : in_) x = junk(); delete[] old; ++W.heap; }
    void shrink_to_fit() { if (heap_ && n_ < cap_) { InlineVec t(*this); delete[] heap_; heap_ = nullptr; steal(t); } }
    void grow(size_t n) { if (n > cap_) reserve(std::max(n, cap_ + cap_ / 2 + 1)); }
    void clear() { for (size_t i = 0; i < n_; ++i) p()[i] = junk(); n_ = 0; }
    void push_back(const D& v) { const D c = v; grow(n_ + 1); p()[n_++] = c; } void push_back(D&& v) { const D c = v; grow(n_ + 1); p()[n_++] = c; } template <class... A> void emplace_back(A&&... a) { push_back(D(std::forward<A>(a)...)); }
    void pop_back() { if (in(0, "pop_back()")) p()[--n_] = junk(); }
    void resize(size_t n) { resize(n, D()); } void resize(size_t n, const D& v) { const D c = v; if (n > n_) { if (n > max_size()) throw std::length_error("resize"); grow(n); } while (n_ < n) p()[n_++] = c; while (n_ > n) p()[--n_] = junk(); }
    size_t where(const_iterator i, const char* w) const { const ptrdiff_t d = i.raw() - p(); if (d < 0 || (size_t)d > n_) { W.fail(std::string(w) + " outside the digits"); return n_; } return (size_t)d; }
    iterator insert(const_iterator at, const D& v) { return insert(at, (size_t)1, v); } iterator insert(const_iterator at, D&& v) { return insert(at, (size_t)1, v); }
    iterator insert(const_iterator at, size_t k, const D& v) { const D c = v; const size_t i = where(at, "insert()"), old = n_; resize(n_ + k, c); for (size_t q = old; q-- > i;) p()[q + k] = p()[q]; for (size_t q = 0; q < k; ++q) p()[i + q] = c; return begin() + (ptrdiff_t)i; }
    template <class It, class = typename std::enable_if<!std::is_convertible<It, size_t>::value>::type> iterator insert(const_iterator at, It a, It b) { const size_t i = where(at, "insert()"); std::vector<D> t(a, b); const size_t k = t.size(), old = n_; resize(n_ + k, junk()); for (size_t q = old; q-- > i;) p()[q + k] = p()[q]; for (size_t q = 0; q < k; ++q) p()[i + q] = t[q]; return begin() + (ptrdiff_t)i; }
    iterator insert(const_iterator at, std::initializer_list<D> l) { return insert(at, l.begin(), l.end()); } template <class... A> iterator emplace(const_iterator at, A&&... a) { return insert(at, D(std::forward<A>(a)...)); }
    iterator erase(const_iterator at) { const size_t i = where(at, "erase()"); if (!in(i, "erase()")) return end(); return erase(at, at + 1); }
    iterator erase(const_iterator a, const_iterator b) { const size_t i = where(a, "erase()"), j = where(b, "erase()"); if (i > j) { W.fail("erase() of a reversed range"); return end(); } for (size_t q = j; q < n_; ++q) p()[i + q - j] = p()[q]; resize(n_ - (j - i)); return begin() + (ptrdiff_t)i; }
    void swap(InlineVec& o) { if (this != &o) { InlineVec t(std::move(*this)); *this = std::move(o); o = std::move(t); } } friend void swap(InlineVec& a, InlineVec& b) { a.swap(b); }
    friend bool operator==(const InlineVec& a, const InlineVec& b) { return a.n_ == b.n_ && std::equal(a.begin(), a.end(), b.begin()); } friend bool operator!=(const InlineVec& a, const InlineVec& b) { return !(a == b); } friend bool operator<(const InlineVec& a, const InlineVec& b) { return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end()); }
};

template <class BN, class TW> bool follow(Ctx& c, const std::string& T, const char* con, const std::vector<Mag>& m, const std::vector<char>& neg, const std::vector<Step>& prog, const std::vector<u64>& seen, const std::vector<std::vector<Mag>>& states, const std::vector<std::vector<int>>& descs) {
    W.bad.clear(); const long live = W.live; bool ok = true;
    {
        Runner<TW> r; for (size_t i = 0; i < m.size(); ++i) r.p.push_back(make<TW>(neg[i], m[i]));
        for (size_t k = 0; k < prog.size() && ok; ++k) {
            const std::string where = T + " on " + con + ", step " + std::to_string(k) + " (" + STEPS[prog[k].op] + " " + std::to_string(prog[k].kind) + ") on " + show(r.p[prog[k].i]) + " and " + show(r.p[prog[k].j]);
            if (vf::verbose()) c.describe(where);
            const u64 o = r.act(prog[k]); c.eval();
            if (!W.bad.empty()) { c.violation("container|contract", where + ": " + W.bad); ok = false; break; }
            if (o != seen[k]) { c.violation("container|observed", where + ": comparison, text, digits or error differ from those on std::vector"); ok = false; break; }
            for (size_t i = 0; i < m.size(); ++i) if (r.p[i].descriptor != descs[k][i] || raw(r.p[i].numData) != states[k][i]) { c.violation("container|result", where + ": number " + std::to_string(i) + " is " + show(r.p[i]) + ", on std::vector " + dname(descs[k][i]) + ref::str(states[k][i])); ok = false; break; }
        }
    }
    if (ok && !W.bad.empty()) { c.violation("container|contract", T + " on " + con + ", at the end: " + W.bad); ok = false; }
    if (ok && W.live != live) { c.violation("container|memory", T + " on " + con + ": " + std::to_string(W.live - live) + " bytes were not returned to the allocator"); ok = false; }
    return ok;
}
template <class BN> void one(Src& s, Ctx& c, int t, size_t maxlen, u64 maxsteps) {
    typedef typename Info<BN>::digit D; typedef typename Info<BN>::limits L; const u64 B = Info<BN>::base(); const std::string T = TypeName<BN>::get();
    const size_t n = (size_t)s.range(2, 4); std::vector<Mag> m; std::vector<char> neg; u64 h = (u64)t;
    Runner<BN> r;
    for (size_t i = 0; i < n; ++i) { Mag x = gen_mag(s, B, maxlen); if (s.chance(15)) add_zeros(s, x); m.push_back(x); neg.push_back(s.chance(45)); h = hash_mag(h ^ (u64)neg[i], x); r.p.push_back(make<BN>(neg[i], x)); }
    std::vector<Step> prog; std::vector<u64> seen; std::vector<std::vector<Mag>> states; std::vector<std::vector<int>> descs;
    const u64 steps = s.range(2, maxsteps);
    for (u64 k = 0; k < steps; ++k) {
        const Step q = gen_step(s, B, n, maxlen);
        if (!affordable(q, r.p)) continue;
        const u64 o = r.act(q); c.count(STEPS[q.op]); h = vf::mix64(h ^ o ^ ((u64)q.op << 32) ^ ((u64)q.kind << 40) ^ q.i ^ (q.j << 4) ^ (q.k << 8));
        prog.push_back(q); seen.push_back(o); std::vector<Mag> st; std::vector<int> ds; for (auto& x : r.p) { st.push_back(raw(x.numData)); ds.push_back(x.descriptor); } states.push_back(st); descs.push_back(ds);
    }
    if (prog.empty()) return;
    c.nontrivial(h);
    const u64 a0 = W.accesses, m0 = W.moves, h0 = W.heap, s0 = W.spills;
#ifndef VF_STD_ONLY
    if (!follow<BN, Bignum<L, std::vector<D, GuardAlloc<D>>>>(c, T, "a vector with a guarding allocator", m, neg, prog, seen, states, descs)) return;
    if (!follow<BN, Bignum<L, StrictVec<D>>>(c, T, "a vector that checks accesses", m, neg, prog, seen, states, descs)) return;
    if (!follow<BN, Bignum<L, InlineVec<D>>>(c, T, "a container with inline storage", m, neg, prog, seen, states, descs)) return;
#endif
    c.count("checked element accesses", W.accesses - a0); c.count("container moves", W.moves - m0); c.count("allocations watched", W.heap - h0); c.count("inline containers that went to the heap", W.spills - s0);
    if (c.index % 1999 == 7) c.sample(T + ": " + std::to_string(prog.size()) + " steps on " + std::to_string(n) + " numbers, same on three other containers; ends with " + show(r.p[0]));
}
#ifdef VF_FEWER
#define CONT_DISPATCH(t, EXPR) switch ((t) % 2) { case 0: { typedef bignum_medp BN; EXPR; } break; default: { typedef bignum_base10 BN; EXPR; } break; }
#else
#define CONT_DISPATCH(t, EXPR) switch ((t) % 5) { case 0: { typedef bignum_lowp BN; EXPR; } break; case 1: { typedef bignum_medp BN; EXPR; } break; case 2: { typedef bignum_highp BN; EXPR; } break; case 3: { typedef bignum_base2 BN; EXPR; } break; default: { typedef bignum_base10 BN; EXPR; } break; }
#endif
void vf::setup() {
    struct NullBuf : std::streambuf { int overflow(int ch) override { return ch; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
    static NullBuf* nb = new NullBuf; std::cerr.rdbuf(nb);
    random_workload("programs", 30000, 600000, [](Src& s, Ctx& c) { int t = (int)s.range(0, 4); CONT_DISPATCH(t, one<BN>(s, c, t, 30, 40)); });
    random_workload("short", 40000, 800000, [](Src& s, Ctx& c) { int t = (int)s.range(0, 4); CONT_DISPATCH(t, one<BN>(s, c, t, 7, 25)); });
    random_workload("long", 900, 18000, [](Src& s, Ctx& c) { int t = (int)s.range(0, 4); CONT_DISPATCH(t, one<BN>(s, c, t, 900, 12)); });
}
