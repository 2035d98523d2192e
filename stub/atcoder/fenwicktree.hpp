#ifndef STUB_ACL_FEN
#define STUB_ACL_FEN 1
#include <cassert>
#include <vector>
namespace atcoder {
template <class T> struct fenwick_tree {
    fenwick_tree() : _n(0) {} explicit fenwick_tree(int n) : _n(n), d(n) {}
    void add(int p, T x) { assert(0 <= p && p < _n); p++; while (p <= _n) { d[p - 1] += x; p += p & -p; } }
    T sum(int l, int r) { assert(0 <= l && l <= r && r <= _n); return s(r) - s(l); }
private: int _n; std::vector<T> d; T s(int r) { T x = 0; while (r > 0) { x += d[r - 1]; r -= r & -r; } return x; }
};
}
#endif
