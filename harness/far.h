// A digit container that stores only the digits other than zero, so that a number can have 2^40 digits.
#pragma once
#include "nums.h"
#include <iterator>
#include <map>

struct Tired {};                       // an operation looks at more digits than is affordable here: not judged
static u64 far_left = 0;               // digit accesses that are still affordable
inline void far_spend(u64 n = 1) { if (far_left < n) throw Tired(); far_left -= n; }
template <class D> class FarVec {
    std::map<u64, D> m_; u64 n_ = 0;
    static const D& zero() { static const D z = D(); return z; }
    D& ref(u64 i) { far_spend(); return m_.emplace(i, D()).first->second; } const D& ref(u64 i) const { far_spend(); auto it = m_.find(i); return it == m_.end() ? zero() : it->second; }
    void shift(u64 at, u64 from, u64 to) { far_spend(m_.size() + 1); std::map<u64, D> t; for (auto& x : m_) { if (x.first < at) t.insert(x); else if (x.first >= from) t.emplace(x.first - from + to, x.second); } m_.swap(t); }   // [at, from) is dropped, what follows begins at "to"
public:
    template <class Q, class T> class Iter {
        template <class, class> friend class Iter; friend class FarVec; Q* c_; u64 i_;
    public:
        typedef std::random_access_iterator_tag iterator_category; typedef D value_type; typedef ptrdiff_t difference_type; typedef T* pointer; typedef T& reference;
        Iter() : c_(nullptr), i_(0) {} Iter(Q* c, u64 i) : c_(c), i_(i) {} template <class Q2, class T2, class = typename std::enable_if<std::is_convertible<Q2*, Q*>::value>::type> Iter(const Iter<Q2, T2>& o) : c_(o.c_), i_(o.i_) {}
        T& operator*() const { return c_->ref(i_); } T* operator->() const { return &c_->ref(i_); } T& operator[](ptrdiff_t d) const { return c_->ref(i_ + (u64)d); }
        Iter& operator++() { ++i_; return *this; } Iter& operator--() { --i_; return *this; } Iter operator++(int) { Iter r(*this); ++i_; return r; } Iter operator--(int) { Iter r(*this); --i_; return r; }
        Iter& operator+=(ptrdiff_t d) { i_ += (u64)d; return *this; } Iter& operator-=(ptrdiff_t d) { i_ -= (u64)d; return *this; } Iter operator+(ptrdiff_t d) const { return Iter(c_, i_ + (u64)d); } Iter operator-(ptrdiff_t d) const { return Iter(c_, i_ - (u64)d); } friend Iter operator+(ptrdiff_t d, const Iter& i) { return i + d; }
        template <class Q2, class T2> ptrdiff_t operator-(const Iter<Q2, T2>& o) const { return (ptrdiff_t)(i_ - o.i_); }
        template <class Q2, class T2> bool operator==(const Iter<Q2, T2>& o) const { return i_ == o.i_; } template <class Q2, class T2> bool operator!=(const Iter<Q2, T2>& o) const { return i_ != o.i_; } template <class Q2, class T2> bool operator<(const Iter<Q2, T2>& o) const { return i_ < o.i_; }
        template <class Q2, class T2> bool operator>(const Iter<Q2, T2>& o) const { return i_ > o.i_; } template <class Q2, class T2> bool operator<=(const Iter<Q2, T2>& o) const { return i_ <= o.i_; } template <class Q2, class T2> bool operator>=(const Iter<Q2, T2>& o) const { return i_ >= o.i_; }
    };
    typedef D value_type; typedef size_t size_type; typedef ptrdiff_t difference_type; typedef D& reference; typedef const D& const_reference; typedef D* pointer; typedef const D* const_pointer; typedef std::allocator<D> allocator_type;
    typedef Iter<FarVec, D> iterator; typedef Iter<const FarVec, const D> const_iterator; typedef std::reverse_iterator<iterator> reverse_iterator; typedef std::reverse_iterator<const_iterator> const_reverse_iterator;
    FarVec() {} explicit FarVec(size_t n) { resize(n); } FarVec(size_t n, const D& v) { resize(n, v); } FarVec(std::initializer_list<D> l) { insert(cend(), l.begin(), l.end()); }
    template <class It, class = typename std::enable_if<!std::is_convertible<It, size_t>::value>::type> FarVec(It a, It b) { insert(cend(), a, b); }
    FarVec(const FarVec& o) : m_(o.m_), n_(o.n_) {} FarVec(FarVec&& o) noexcept : m_(std::move(o.m_)), n_(o.n_) { o.m_.clear(); o.n_ = 0; }
    FarVec& operator=(const FarVec& o) { if (this != &o) { m_ = o.m_; n_ = o.n_; } return *this; } FarVec& operator=(FarVec&& o) noexcept { if (this != &o) { m_ = std::move(o.m_); n_ = o.n_; o.m_.clear(); o.n_ = 0; } return *this; } FarVec& operator=(std::initializer_list<D> l) { return *this = FarVec(l); }
    void assign(size_t n, const D& v) { *this = FarVec(n, v); } void assign(std::initializer_list<D> l) { *this = FarVec(l); } template <class It, class = typename std::enable_if<!std::is_convertible<It, size_t>::value>::type> void assign(It a, It b) { *this = FarVec(a, b); }
    size_t size() const { return n_; } bool empty() const { return !n_; } size_t capacity() const { return n_; } size_t max_size() const { return (size_t)1 << 62; } allocator_type get_allocator() const { return allocator_type(); }
    D& operator[](size_t i) { return ref(i); } const D& operator[](size_t i) const { return ref(i); } D& at(size_t i) { if (i >= n_) throw std::out_of_range("at"); return ref(i); } const D& at(size_t i) const { if (i >= n_) throw std::out_of_range("at"); return ref(i); }
    D& front() { return ref(0); } const D& front() const { return ref(0); } D& back() { return ref(n_ - 1); } const D& back() const { return ref(n_ - 1); }
    D* data() { throw Tired(); } const D* data() const { throw Tired(); }
    iterator begin() { return iterator(this, 0); } iterator end() { return iterator(this, n_); } const_iterator begin() const { return const_iterator(this, 0); } const_iterator end() const { return const_iterator(this, n_); } const_iterator cbegin() const { return begin(); } const_iterator cend() const { return end(); }
    reverse_iterator rbegin() { return reverse_iterator(end()); } reverse_iterator rend() { return reverse_iterator(begin()); } const_reverse_iterator rbegin() const { return const_reverse_iterator(end()); } const_reverse_iterator rend() const { return const_reverse_iterator(begin()); } const_reverse_iterator crbegin() const { return rbegin(); } const_reverse_iterator crend() const { return rend(); }
    void reserve(size_t) {} void shrink_to_fit() {} void clear() { m_.clear(); n_ = 0; }
    void push_back(const D& v) { const D c = v; ++n_; ref(n_ - 1) = c; } template <class... A> void emplace_back(A&&... a) { push_back(D(std::forward<A>(a)...)); } void pop_back() { resize(n_ - 1); }
    void resize(size_t n) { resize(n, D()); } void resize(size_t n, const D& v) { const D c = v; if (n < n_) m_.erase(m_.lower_bound(n), m_.end()); else if ((u64)c != 0) { far_spend(n - n_); for (u64 i = n_; i < n; ++i) m_[i] = c; } n_ = n; }
    iterator insert(const_iterator at, const D& v) { return insert(at, (size_t)1, v); } iterator insert(const_iterator at, size_t k, const D& v) { const D c = v; shift(at.i_, at.i_, at.i_ + k); n_ += k; if ((u64)c != 0) { far_spend(k); for (u64 q = 0; q < k; ++q) m_[at.i_ + q] = c; } return iterator(this, at.i_); }
    template <class It, class = typename std::enable_if<!std::is_convertible<It, size_t>::value>::type> iterator insert(const_iterator at, It a, It b) { std::vector<D> t; for (; a != b; ++a) { far_spend(); t.push_back(*a); } shift(at.i_, at.i_, at.i_ + t.size()); n_ += t.size(); for (u64 q = 0; q < t.size(); ++q) m_[at.i_ + q] = t[q]; return iterator(this, at.i_); }
    iterator insert(const_iterator at, std::initializer_list<D> l) { return insert(at, l.begin(), l.end()); } template <class... A> iterator emplace(const_iterator at, A&&... a) { return insert(at, D(std::forward<A>(a)...)); }
    iterator erase(const_iterator at) { return erase(at, at + 1); } iterator erase(const_iterator a, const_iterator b) { shift(a.i_, b.i_, a.i_); n_ -= b.i_ - a.i_; return iterator(this, a.i_); }
    void swap(FarVec& o) { m_.swap(o.m_); std::swap(n_, o.n_); } friend void swap(FarVec& a, FarVec& b) { a.swap(b); }
    friend bool operator==(const FarVec& a, const FarVec& b) { return a.n_ == b.n_ && a.digits() == b.digits(); } friend bool operator!=(const FarVec& a, const FarVec& b) { return !(a == b); }
    friend bool operator<(const FarVec& a, const FarVec& b) { return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end()); }
    std::map<u64, u64> digits() const { std::map<u64, u64> r; for (auto& x : m_) if ((u64)x.second) r[x.first] = (u64)x.second; return r; }
    void put(u64 i, const D& v) { m_[i] = v; } void extent(u64 n) { n_ = n; }       // for the check only
};
template <class BN> struct Far { typedef Bignum<typename Info<BN>::limits, FarVec<typename Info<BN>::digit>> type; };
struct FarModel {                        // the digits other than zero, and the number of stored digits
    std::map<u64, u64> d; u64 n = 0;
    u64 used() const { return d.empty() ? 0 : d.rbegin()->first + 1; }
    u64 at(u64 i) const { auto it = d.find(i); return it == d.end() ? 0 : it->second; }
    std::string str() const { std::string r = std::to_string(n) + " digits"; for (auto it = d.rbegin(); it != d.rend(); ++it) r += ", " + std::to_string(it->second) + " at " + std::to_string(it->first); return r; }
};
inline int far_cmp(const FarModel& a, const FarModel& b) {
    auto x = a.d.rbegin(), y = b.d.rbegin();
    for (; x != a.d.rend() && y != b.d.rend(); ++x, ++y) { if (x->first != y->first) return x->first < y->first ? -1 : 1; if (x->second != y->second) return x->second < y->second ? -1 : 1; }
    return x != a.d.rend() ? 1 : y != b.d.rend() ? -1 : 0;
}
inline u64 far_size(Src& s) { const u64 two = (u64)1 << (s.chance(40) ? 32 : s.chance(50) ? 31 : s.range(24, 40)); switch (s.range(0, 3)) { case 0: return two; case 1: return two - s.range(1, 3); case 2: return two + s.range(1, 3); default: return two + s.range(0, 60); } }
template <class FB> FB far_make(const FarModel& m, int desc) { typedef typename Info<FB>::digit D; FB r; r.numData.extent(m.n); for (auto& x : m.d) r.numData.put(x.first, D((typename std::conditional<std::is_integral<D>::value, D, u64>::type)x.second)); r.descriptor = (bn_desc_t)desc; return r; }
#define VF_FAR_DISPATCH(t, EXPR) switch ((t) % 4) { case 0: { typedef Far<bignum_lowp>::type BN; EXPR; } break; case 1: { typedef Far<bignum_highp>::type BN; EXPR; } break; case 2: { typedef Far<bignum_base2>::type BN; EXPR; } break; default: { typedef Far<bignum_base10>::type BN; EXPR; } break; }
