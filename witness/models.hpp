// Stand-ins for the standard containers: small fixed-capacity sequences whose contents stay visible to the analysis
// (an element is selected by comparing the size with each slot), and output sequences that only report what is appended.
// Include after the standard headers and Eigen, before the header under analysis.
#pragma once
#include <algorithm>
#include <array>
#include <bitset>
#include <cmath>
#include <cstddef>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <Eigen/Dense>
#ifndef MODEL_CAP
#define MODEL_CAP 2
#endif
extern "C" void op_push(const void * where, long long v);
extern "C" void op_copy(const void * to, const void * from);
extern "C" void op_clear(const void * where);
extern "C" void op_insert(const void * map, long long i, long long j, long long k, long long v);
extern "C" bool op_find(const void * map, long long i, long long j, long long k);
extern "C" long long op_value(const void * map, int slot);
extern "C" long long op_probe(int i);
extern "C" void op_keys(const void * map, bool equal, long long hash);
extern "C" long long op_size(const void * where);
namespace std {
template <class T> struct model_seq {
    using value_type = T; using size_type = size_t; using iterator = T *; using const_iterator = const T *; using reference = T &; using const_reference = const T &;
    T d[MODEL_CAP]; size_t n = 0;
    model_seq() {}
    model_seq(std::initializer_list<T> l) { for (const T & x : l) emplace_back(x); }
    void reserve(size_t) {}
    template <class... A> void emplace_back(A &&... a) { const T v(std::forward<A>(a)...); for (size_t k = 0; k < MODEL_CAP; ++k) d[k] = n == k ? v : d[k]; ++n; }
    void push_back(const T & v) { emplace_back(v); }
    T * begin() { return d; } T * end() { return d + n; }
    const T * begin() const { return d; } const T * end() const { return d + n; }
    const T * cbegin() const { return d; } const T * cend() const { return d + n; }
    T & operator[](size_t k) { return d[k]; } const T & operator[](size_t k) const { return d[k]; }
    T & at(size_t k) { return d[k]; } const T & at(size_t k) const { return d[k]; }
    T & front() { return d[0]; } T & back() { return d[n - 1]; }
    size_t size() const { return n; } bool empty() const { return n == 0; } void clear() { n = 0; } void shrink_to_fit() {}
    const T * data() const { return d; } const T & front() const { return d[0]; } const T & back() const { return d[n - 1]; }
    template <class It> void insert(const T *, It a, It b) { for (; a != b; ++a) emplace_back(*a); }
    void resize(size_t m) { for (size_t k = 0; k < MODEL_CAP; ++k) if (k >= n && k < m) d[k] = T(); n = m; }
};
// sequences of cell indices are results: appended values are reported
struct model_out : public model_seq<long long> {
    model_out() {}
    model_out(std::initializer_list<long long> l) { for (long long x : l) emplace_back(x); }
    model_out(const model_out & o) : model_seq<long long>(o) { op_copy(this, &o); }
    model_out & operator=(const model_out & o) { model_seq<long long>::operator=(o); op_copy(this, &o); op_clear(this); return *this; }
    void clear() { op_clear(this); n = 0; }
    template <class A> void emplace_back(A a) { op_push(this, (long long) a); model_seq<long long>::emplace_back((long long) a); }
    void push_back(long long v) { emplace_back(v); }
};
template <class T> struct model_vector : public model_seq<T> { using model_seq<T>::model_seq; };
template <> struct model_vector<long long> : public model_out { using model_out::model_out; };
template <class T> struct model_list : public model_seq<T> { using model_seq<T>::model_seq; };
template <> struct model_list<long long> : public model_out { using model_out::model_out; };
// hash tables keyed by grid coordinates: insertions and look-ups are reported, a look-up may or may not find a bucket of two values
template <class K> inline long long model_key(const K & k, int i) { if (i >= (int) k.size()) return 0; return k[i]; }
template <class V, class K> struct model_bucket {
    const void * map = nullptr; K key;
    template <class A> void emplace_back(A a) { op_insert(map, model_key(key, 0), model_key(key, 1), model_key(key, 2), (long long) a); }
    template <class A> void push_back(A a) { emplace_back(a); }
};
template <class K, class V, class H, class E> struct model_unordered_map;
template <class K, class T, class H, class E> struct model_unordered_map<K, model_vector<T>, H, E> {
    using key_type = K; using mapped_type = model_vector<T>;
    struct bucket { T d[2]; const T * begin() const { return d; } const T * end() const { return d + 2; } size_t size() const { return 2; } bool empty() const { return false; } const T & operator[](size_t i) const { return d[i]; } };
    struct entry { K first; bucket second; };
    struct const_iterator {
        entry e; bool found;
        const entry * operator->() const { return &e; } const entry & operator*() const { return e; }
        bool operator==(const const_iterator & o) const { return found == o.found; } bool operator!=(const const_iterator & o) const { return found != o.found; }
    };
    using iterator = const_iterator;
    model_bucket<T, K> b; char id = 0;
    model_unordered_map() {}
    void reserve(size_t) {} void rehash(size_t) {} void max_load_factor(float) {}
    model_bucket<T, K> & operator[](const K & k) { b.map = this; b.key = k; return b; }
    const_iterator find(const K & k) const {
        const_iterator r; r.e.first = k;
        r.found = op_find(this, model_key(k, 0), model_key(k, 1), model_key(k, 2));
        for (int i = 0; i < 2; ++i) r.e.second.d[i] = op_value(this, i);
        K q; for (int i = 0; i < (int) q.size(); ++i) q[i] = op_probe(i);      // another key
        op_keys(this, E()(k, q), H()(k));
        return r;
    }
    const_iterator end() const { const_iterator r; r.found = false; return r; }
    const_iterator cend() const { return end(); }
    const bucket & at(const K & k) const { static const_iterator r; r = find(k); return r.e.second; }
    size_t count(const K & k) const { return op_find(this, model_key(k, 0), model_key(k, 1), model_key(k, 2)); }
};
struct model_set_out {
    using value_type = unsigned long long; char id = 0;
    model_set_out() {}
    model_set_out(const model_set_out & o) { op_copy(this, &o); }
    model_set_out & operator=(const model_set_out & o) { op_copy(this, &o); op_clear(this); return *this; }
    template <class A> void emplace(A a) { op_push(this, (long long) a); }
    template <class A> void insert(A a) { op_push(this, (long long) a); }
    template <class It> void insert(It a, It b) { for (; a != b; ++a) op_push(this, (long long) *a); }
    size_t size() const { return op_size(this); }
};
// the member set of a bit set is renamed as well
template <size_t N> struct model_bitset : public std::bitset<N> {
    using std::bitset<N>::bitset;
    model_bitset() {}
    model_bitset(const std::bitset<N> & b) : std::bitset<N>(b) {}
    model_bitset & model_set() { std::bitset<N>::set(); return *this; }
    model_bitset & model_set(size_t i, bool v = true) { std::bitset<N>::operator[](i) = v; return *this; }
    bool test(size_t i) const { return std::bitset<N>::operator[](i); }
};
template <class T> struct model_set;
template <> struct model_set<unsigned long> : public model_set_out {};
template <> struct model_set<unsigned long long> : public model_set_out {};
template <class T> struct model_unordered_set;
template <> struct model_unordered_set<unsigned long> : public model_set_out {};
template <> struct model_unordered_set<unsigned long long> : public model_set_out {};
}
#define unordered_map model_unordered_map
#define set model_set
#define bitset model_bitset
#define unordered_set model_unordered_set
#define vector model_vector
#define list model_list
