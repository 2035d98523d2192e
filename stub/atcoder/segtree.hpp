#ifndef STUB_ACL_SEG
#define STUB_ACL_SEG 1
#include <cassert>
#include <vector>
namespace atcoder {
template <class S, S (*op)(S, S), S (*e)()> struct segtree {
    segtree() : segtree(0) {} explicit segtree(int n) : segtree(std::vector<S>(n, e())) {}
    explicit segtree(const std::vector<S>& v) : _n((int) v.size()) { log = 0; while ((1U << log) < (unsigned) _n) log++; size = 1 << log; d.assign(2 * size, e()); for (int i = 0; i < _n; i++) d[size + i] = v[i]; for (int i = size - 1; i >= 1; i--) update(i); }
    void set(int p, S x) { assert(0 <= p && p < _n); p += size; d[p] = x; for (int i = 1; i <= log; i++) update(p >> i); }
    S get(int p) const { assert(0 <= p && p < _n); return d[p + size]; }
    S prod(int l, int r) const { assert(0 <= l && l <= r && r <= _n); S a = e(), b = e(); l += size; r += size; while (l < r) { if (l & 1) a = op(a, d[l++]); if (r & 1) b = op(d[--r], b); l >>= 1; r >>= 1; } return op(a, b); }
    S all_prod() const { return d[1]; }
    template <class F> int max_right(int l, F f) const { assert(f(e())); if (l == _n) return _n; l += size; S sm = e(); do { while (l % 2 == 0) l >>= 1; if (!f(op(sm, d[l]))) { while (l < size) { l = 2 * l; if (f(op(sm, d[l]))) { sm = op(sm, d[l]); l++; } } return l - size; } sm = op(sm, d[l]); l++; } while ((l & -l) != l); return _n; }
    template <bool (*f)(S)> int max_right(int l) const { return max_right(l, [](S x) { return f(x); }); }
    template <class F> int min_left(int r, F f) const { assert(f(e())); if (r == 0) return 0; r += size; S sm = e(); do { r--; while (r > 1 && (r % 2)) r >>= 1; if (!f(op(d[r], sm))) { while (r < size) { r = 2 * r + 1; if (f(op(d[r], sm))) { sm = op(d[r], sm); r--; } } return r + 1 - size; } sm = op(d[r], sm); } while ((r & -r) != r); return 0; }
    template <bool (*f)(S)> int min_left(int r) const { return min_left(r, [](S x) { return f(x); }); }
private: int _n, size, log; std::vector<S> d; void update(int k) { d[k] = op(d[2 * k], d[2 * k + 1]); }
};
}
#endif
