// C25: Fenwick trees and bit sets: many alive, copied and moved, queries interrupted by a user operation that throws.
#include "sim.hpp"
#include <algorithm>
#include <array>
#include <map>
#include <sstream>
#include "multi.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree_prefix.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree_2d.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree_2d_sparse.hpp"
#include "library/datastructure/fenwick_tree/compressed_fenwick_tree.hpp"
#include "library/datastructure/fenwick_tree/compressed_fenwick_tree_prefix.hpp"
#include "library/datastructure/fenwick_tree/rectangle_add_rectangle_sum.hpp"
#include "library/datastructure/util/dynamic_bitset.hpp"
#include "library/datastructure/util/static_bitset.hpp"
using i64 = int64_t; using u64 = uint64_t; using Rng = sim::Rng; using Ctx = sim::Ctx; using multi::Go;
namespace {
size_t size_for(Rng& r, i64 scale) { switch (scale) { case 0: return r.below(4); case 1: return r.below(12); case 2: { i64 p = 1ll << r.below(6); return (size_t) std::max<i64>(0, p + (i64) r.below(3) - 1); } default: return r.chance(1, 40) ? (r.chance(1, 2) ? 300 + r.below(1500) : (size_t) (255 + (256ll << r.below(4)) * (i64) r.below(2) + (i64) r.below(3))) : 1 + r.below(70); } }
std::pair<int, int> range(Rng& r, size_t n) { int l = (int) r.below(n + 1), x = (int) r.below(n + 1); if (r.chance(1, 8)) l = 0; if (r.chance(1, 8)) x = (int) n; return { std::min(l, x), std::max(l, x) }; }
i64 coord(Rng& r, i64 span) { return (i64) r.below((u64) (2 * span + 1)) - span; }
const i64 SPAN[4] = { 1, 4, 12, 1000000000 };
u64 add(u64 a, u64 b) { sim::callback(); return a + b; } u64 zero() { return 0; } u64 minus(u64 a) { sim::callback(); return 0 - a; }
i64 larger(i64 a, i64 b) { sim::callback(); return std::max(a, b); } i64 lowest() { return INT64_MIN; }
// everything a proxy can do, applied to the tree and to the model
template <typename P> void proxy(Ctx& c, Rng& r, P&& p, i64& m) { i64 v = 1 + (i64) r.below(9); c.eq((i64) p, m, "value through the proxy"); switch (r.below(8)) { case 0: ++p; ++m; break; case 1: --p; --m; break; case 2: p += v; m += v; break; case 3: p -= v; m -= v; break; case 4: if (m < 100000 && m > -100000) { p *= v; m *= v; } break; case 5: p /= v; m /= v; break; case 6: p %= v; m %= v; break; default: p = v; m = v; } c.eq((i64) p, m, "value through the proxy"); }
struct Fenwick {
    using T = suisen::FenwickTree<i64>; using Model = std::vector<i64>;
    static void make(Ctx&, Rng& r, i64 sc, T*& t, Model& m) { if (r.chance(1, 10)) { t = new T; return; } m.resize(size_for(r, sc)); if (r.chance(1, 3)) { t = new T((int) m.size()); return; } for (auto& x : m) x = coord(r, 50); if (r.chance(1, 2)) t = new T(m); else t = new T(Model(m)); }
    static i64 want(const Model& m, int l, int x) { i64 s = 0; for (int i = l; i < x; ++i) s += m[(size_t) i]; return s; }
    static void step(Ctx& c, Rng& r, T& t, Model& m, bool up, Go&) { auto [l, x] = range(r, m.size()); if (up && m.size()) { size_t i = r.below(m.size()); if (r.chance(1, 2)) { i64 v = coord(r, 50); t.add((int) i, v); m[i] += v; } else proxy(c, r, t[(int) i], m[i]); return; } c.eq(r.chance(1, 2) ? t.sum(l, x) : t(l, x), want(m, l, x), "sum"); }
    static void verify(Ctx& c, T& t, const Model& m) { c.eq((size_t) t.size(), m.size(), "size"); for (int i = 0; i <= (int) m.size(); ++i) c.eq(t.sum(0, i), want(m, 0, i), "prefix sum"); }
    static u64 hash(const Model& m) { u64 h = m.size(); for (i64 x : m) h = h * 31 + (u64) x; return sim::mix64(h); }
};
template <bool UNORD> struct MapFenwick {
    using T = suisen::MapFenwickTree<i64, i64, UNORD>; struct Model { i64 n = 0; std::map<i64, i64> v; };
    static void make(Ctx&, Rng& r, i64 sc, T*& t, Model& m) { if (r.chance(1, 10)) { t = new T; return; } m.n = sc == 3 ? (i64) (1 + r.below(1000000000000000000ull)) : sc == 2 ? (i64) (3000000000ll + (i64) r.below(5000000000ll)) : (i64) size_for(r, sc); t = new T(m.n); }
    static i64 at(Rng& r, const Model& m) { if (m.v.size() && r.chance(1, 2)) { auto it = m.v.begin(); std::advance(it, (long) r.below(m.v.size())); return std::min(m.n - 1, it->first + (i64) r.below(2)); } return (i64) r.below((u64) m.n); }
    static i64 want(const Model& m, i64 l, i64 x) { i64 s = 0; for (auto it = m.v.lower_bound(l); it != m.v.end() && it->first < x; ++it) s += it->second; return s; }
    static void step(Ctx& c, Rng& r, T& t, Model& m, bool up, Go& go) { if (m.n == 0) { c.eq(t.sum(0, 0), (i64) 0, "sum"); return; } if (up) { i64 i = at(r, m); if (r.chance(2, 3)) { i64 v = coord(r, 50); if (go(1, [&] { t.add(i, v); })) m.v[i] += v; } else proxy(c, r, t[i], m.v[i]); return; } i64 l = at(r, m), x = r.chance(1, 5) ? m.n : at(r, m); if (l > x) std::swap(l, x); c.eq(r.chance(1, 2) ? t.sum(l, x) : t(l, x), want(m, l, x), "sum"); }
    static void verify(Ctx& c, T& t, const Model& m) { c.eq((i64) t.size(), m.n, "size"); c.eq(t.sum(0, m.n), want(m, 0, m.n), "sum"); for (auto& [i, v] : m.v) { c.eq(t.sum(i, i + 1), v, "element"); c.eq(t.sum(0, i), want(m, 0, i), "prefix sum"); } }
    static u64 hash(const Model& m) { u64 h = (u64) m.n; for (auto& [i, v] : m.v) h = sim::mix64(h * 31 + (u64) i + (u64) v * 5); return h; }
};
struct Prefix {
    using T = suisen::FenwickTreePrefix<u64, add, zero>; using Model = std::vector<u64>;
    static void make(Ctx&, Rng& r, i64 sc, T*& t, Model& m) { if (r.chance(1, 10)) { t = new T; return; } m.resize(size_for(r, sc)); if (r.chance(1, 3)) { t = new T((int) m.size()); return; } for (auto& x : m) x = r.below(100); t = new T(m); }
    static u64 want(const Model& m, int x) { u64 s = 0; for (int i = 0; i < x; ++i) s += m[(size_t) i]; return s; }
    static void step(Ctx& c, Rng& r, T& t, Model& m, bool up, Go& go) { if (up && m.size()) { size_t i = r.below(m.size()); u64 v = r.below(100); t.apply((int) i, v); m[i] += v; return; } int x = (int) r.below(m.size() + 1); u64 got = 0; if (go(2, [&] { got = t.prefix_query(x); }, 4)) c.eq(got, want(m, x), "prefix product"); }
    static void verify(Ctx& c, T& t, const Model& m) { for (int i = 0; i <= (int) m.size(); ++i) c.eq(t.prefix_query(i), want(m, i), "prefix product"); }
    static u64 hash(const Model& m) { u64 h = m.size(); for (u64 x : m) h = h * 31 + x; return sim::mix64(h); }
};
struct Grid {
    using T = suisen::FenwickTree2D<i64>; struct Model { size_t n = 0, w = 0; std::vector<std::vector<i64>> a; };
    static void make(Ctx&, Rng& r, i64 sc, T*& t, Model& m) { if (r.chance(1, 10)) { t = new T; return; } m.n = std::min<size_t>(size_for(r, sc), 20); m.w = std::min<size_t>(size_for(r, sc), 20); m.a.assign(m.n, std::vector<i64>(m.w)); t = new T((int) m.n, (int) m.w); }
    static i64 want(const Model& m, int u, int d, int l, int x) { i64 s = 0; for (int i = u; i < d; ++i) for (int j = l; j < x; ++j) s += m.a[(size_t) i][(size_t) j]; return s; }
    static void step(Ctx& c, Rng& r, T& t, Model& m, bool up, Go&) { if (up && m.n && m.w) { size_t i = r.below(m.n), j = r.below(m.w); i64 v = coord(r, 50); if (r.chance(1, 2)) { t.add((int) i, (int) j, v); m.a[i][j] += v; } else proxy(c, r, t[{ (int) i, (int) j }], m.a[i][j]); return; } auto [u, d] = range(r, m.n); auto [l, x] = range(r, m.w); c.eq(r.chance(1, 2) ? t.sum(u, d, l, x) : t(u, d, l, x), want(m, u, d, l, x), "sum over a rectangle"); }
    static void verify(Ctx& c, T& t, const Model& m) { int n = (int) m.n, w = (int) m.w; for (int i = 0; i < n; ++i) for (int j = 0; j < w; ++j) c.eq(t.sum(i, i + 1, j, j + 1), m.a[(size_t) i][(size_t) j], "element"); c.eq(t.sum(0, n, 0, w), want(m, 0, n, 0, w), "sum over a rectangle"); }
    static u64 hash(const Model& m) { u64 h = m.n * 100 + m.w; for (auto& x : m.a) for (i64 y : x) h = h * 31 + (u64) y; return sim::mix64(h); }
};
struct Sparse2D {
    using T = suisen::FenwickTree2DSparse<i64>; struct Model { std::map<std::pair<int, int>, i64> v; int span = 1; };
    static void make(Ctx&, Rng& r, i64 sc, T*& t, Model& m) { m.span = (int) SPAN[sc]; if (r.chance(1, 10)) { t = new T; if (r.chance(1, 2)) t->build(); return; } size_t k = r.below(25); t = new T((int) (k + r.below(20))); while (k-- > 0) { int x = (int) coord(r, m.span), y = (int) coord(r, m.span); if (m.v.size() && r.chance(1, 3)) x = m.v.begin()->first.first; m.v[{ x, y }]; t->add_point(x, y); } t->build(); }
    static i64 want(const Model& m, int l, int x, int d, int u) { i64 s = 0; for (auto& [p, v] : m.v) if (l <= p.first && p.first < x && d <= p.second && p.second < u) s += v; return s; }
    static void step(Ctx& c, Rng& r, T& t, Model& m, bool up, Go& go) {
        if (up && m.v.size()) { auto it = m.v.begin(); std::advance(it, (long) r.below(m.v.size())); i64 v = coord(r, 50); auto [a, b] = it->first; switch (r.below(3)) { case 0: t.add(a, b, v); it->second += v; break; case 1: t.set(a, b, v); it->second = v; break; default: { int a1 = a, b1 = b; if (go(2, [&] { t.apply(a1, b1, [&](i64 o) { sim::callback(); return o * 2 + v; }); }, 2)) it->second = it->second * 2 + v; if (it->second > 1000000 || it->second < -1000000) { t.set(a, b, 0); it->second = 0; } } } return; }
        int s = m.span == 1000000000 ? m.span : m.span + 1, l = (int) coord(r, s), x = (int) coord(r, s), d = (int) coord(r, s), u = (int) coord(r, s); if (l > x) std::swap(l, x); if (d > u) std::swap(d, u); c.eq(r.chance(1, 2) ? t.sum(l, x, d, u) : t(l, x, d, u), want(m, l, x, d, u), "sum over a rectangle"); }
    static void verify(Ctx& c, T& t, const Model& m) { for (auto& [p, v] : m.v) c.eq(t.get(p.first, p.second), v, "value at a point"); c.eq(t.sum(0, INT_MAX, -5, 5), want(m, 0, INT_MAX, -5, 5), "sum over a rectangle"); }
    static u64 hash(const Model& m) { u64 h = m.v.size(); for (auto& [p, v] : m.v) h = sim::mix64(h * 31 + (u64) p.first * 7 + (u64) p.second + (u64) v); return h; }
};
template <size_t K, bool PREFIX> struct Comp {
    struct TS { using A = suisen::CompressedFenwickTree<u64, add, zero, minus, K, i64>; using B = suisen::CompressedFenwickTreePrefix<i64, larger, lowest, K, i64>; };
    using T = std::conditional_t<PREFIX, typename TS::B, typename TS::A>; using V = std::conditional_t<PREFIX, i64, u64>; using Pt = std::array<i64, K>; struct Model { std::map<Pt, V> v; i64 span = 1; };
    static auto point(const Pt& p) { if constexpr (K == 1) return p[0]; else return typename T::point_type(p); }
    static void make(Ctx&, Rng& r, i64 sc, T*& t, Model& m) { m.span = SPAN[sc]; t = new T; if (r.chance(1, 12)) { if (r.chance(1, 2)) t->build(); return; } for (size_t k = r.below(20); k-- > 0;) { Pt p; for (auto& x : p) x = coord(r, m.span); if (r.chance(1, 4) && m.v.size()) p[0] = m.v.begin()->first[0]; m.v[p] = PREFIX ? (V) INT64_MIN : (V) 0; t->add_point(point(p)); if (r.chance(1, 5)) t->add_point(point(p)); } t->build(); }
    using Box = std::array<std::pair<i64, i64>, K>;
    static V ask(T& t, const Box& q) { if constexpr (PREFIX) { Pt p; for (size_t k = 0; k < K; ++k) p[k] = q[k].second; return t.prefix_query(point(p)); } else if constexpr (K == 1) return t.query(q[0].first, q[0].second); else return t.query(q); }
    static V want(const Model& m, const Box& q) { V s = PREFIX ? (V) INT64_MIN : (V) 0; for (auto& [p, v] : m.v) { bool in = true; for (size_t k = 0; k < K; ++k) in &= (PREFIX || q[k].first <= p[k]) && p[k] < q[k].second; if (in) s = PREFIX ? std::max(s, v) : s + v; } return s; }
    static void step(Ctx& c, Rng& r, T& t, Model& m, bool up, Go& go) {
        if (up && m.v.size()) { auto it = m.v.begin(); std::advance(it, (long) r.below(m.v.size())); V x = (V) r.below(100); t.apply(point(it->first), x); it->second = PREFIX ? std::max(it->second, x) : it->second + x; return; }
        Box q; for (auto& [l, x] : q) { l = coord(r, m.span + 1), x = coord(r, m.span + 1); if (m.v.size() && r.chance(1, 3)) l = m.v.begin()->first[0]; if (l > x) std::swap(l, x); } V got{}; if (go(2, [&] { got = ask(t, q); })) c.eq(got, want(m, q), "product over a box"); }
    static void verify(Ctx& c, T& t, const Model& m) { Box q; for (auto& [l, x] : q) l = -m.span - 5, x = m.span + 5; c.eq(ask(t, q), want(m, q), "product over a box"); for (auto& [p, v] : m.v) { for (size_t k = 0; k < K; ++k) q[k] = { p[k], p[k] + 1 }; c.eq(ask(t, q), want(m, q), "value at a point"); } }
    static u64 hash(const Model& m) { u64 h = m.v.size(); for (auto& [p, v] : m.v) { for (i64 x : p) h = h * 31 + (u64) x; h = sim::mix64(h + (u64) v); } return h; }
};
struct Rect {
    using T = suisen::RectangleAddRectangleSum<i64>; struct Q { int l, r, d, u; }; struct Model { std::vector<Q> q; std::vector<i64> w; int span = 1; };
    static void make(Ctx&, Rng& r, i64 sc, T*& t, Model& m) { m.span = (int) std::min<i64>(SPAN[sc], 2000); if (r.chance(1, 10)) { t = new T; t->build(); return; } size_t k = r.below(12); for (size_t i = 0; i < k; ++i) { Q q{ (int) coord(r, m.span), (int) coord(r, m.span), (int) coord(r, m.span), (int) coord(r, m.span) }; if (q.l > q.r) std::swap(q.l, q.r); if (q.d > q.u) std::swap(q.d, q.u); m.q.push_back(q); m.w.push_back(0); } t = new T((int) (2 * k + r.below(5))); for (auto& q : m.q) t->register_add_query_rectangle(q.l, q.r, q.d, q.u); t->build(); }
    static i64 want(const Model& m, Q a) { i64 s = 0; for (size_t i = 0; i < m.q.size(); ++i) { auto& q = m.q[i]; i64 x = std::min(q.r, a.r) - std::max(q.l, a.l), y = std::min(q.u, a.u) - std::max(q.d, a.d); if (x > 0 && y > 0) s += x * y * m.w[i]; } return s; }
    static Q box(Rng& r, const Model& m) { Q q{ (int) coord(r, m.span + 1), (int) coord(r, m.span + 1), (int) coord(r, m.span + 1), (int) coord(r, m.span + 1) }; if (q.l > q.r) std::swap(q.l, q.r); if (q.d > q.u) std::swap(q.d, q.u); return q; }
    static void step(Ctx& c, Rng& r, T& t, Model& m, bool up, Go&) { if (up && m.q.size()) { size_t i = r.below(m.q.size()); i64 v = coord(r, 50); auto& q = m.q[i]; t.add(q.l, q.r, q.d, q.u, v); m.w[i] += v; return; } Q q = box(r, m); c.eq(t.sum(q.l, q.r, q.d, q.u), want(m, q), "sum over a rectangle"); }
    static void verify(Ctx& c, T& t, const Model& m) { for (auto& q : m.q) c.eq(t.sum(q.l, q.r, q.d, q.u), want(m, q), "sum over a rectangle"); Q q{ -m.span - 1, m.span + 1, -m.span - 1, m.span + 1 }; c.eq(t.sum(q.l, q.r, q.d, q.u), want(m, q), "sum over a rectangle"); }
    static u64 hash(const Model& m) { u64 h = m.q.size(); for (i64 x : m.w) h = h * 31 + (u64) x; return sim::mix64(h); }
};
using BV = std::vector<char>;
u64 hash_b(const BV& m) { u64 h = m.size(); for (char x : m) h = h * 3 + (u64) x; return sim::mix64(h); }
BV shifted(const BV& m, size_t k, bool left) { BV w(m.size(), 0); for (size_t i = 0; i < m.size(); ++i) { if (left) { if (i >= k) w[i] = m[i - k]; } else if (i + k >= i && i + k < m.size()) w[i] = m[i + k]; } return w; }
int compare(const BV& a, const BV& b) { for (size_t i = a.size(); i-- > 0;) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
struct Bits {
    using T = suisen::DynamicBitSet; using Model = BV;
    static size_t len(Rng& r, i64 sc) { switch (sc) { case 0: return r.below(5); case 1: return 62 + r.below(5); case 2: return 64 * r.below(4) + r.below(3); default: return r.below(300); } }
    static void make(Ctx&, Rng& r, i64 sc, T*& t, Model& m) { if (r.chance(1, 10)) { t = new T; return; } bool f = r.chance(1, 2); m.assign(len(r, sc), f); t = new T(m.size(), f); if (r.chance(1, 2)) for (size_t i = 0; i < m.size(); ++i) if (r.chance(1, 2)) { (*t)[i].flip(); m[i] ^= 1; } }
    static void two(Ctx& c, const T& a, const T& b, const BV& x, const BV& y) { int k = compare(x, y); c.eq(a == b, k == 0, "=="); c.eq(a != b, k != 0, "!="); c.eq(a < b, k < 0, "<"); c.eq(a <= b, k <= 0, "<="); c.eq(a > b, k > 0, ">"); c.eq(a >= b, k >= 0, ">="); }
    static T other(Rng& r, const BV& m, BV& w) { w = m; T t(m.size()); for (size_t i = 0; i < m.size(); ++i) { if (r.chance(1, 1 + r.below(40))) w[i] ^= 1; t[i] = w[i]; } return t; }
    static void step(Ctx& c, Rng& r, T& t, Model& m, bool up, Go& go) { size_t n = m.size(); auto [l, x] = range(r, n); size_t a = (size_t) l, b = (size_t) x; bool v = r.chance(1, 2);
        if (up) switch (r.below(12)) {
        case 0: { size_t k = r.chance(1, 2) ? r.below(300) : n + r.below(5); if (go(1, [&] { t.resize(k, v); }, 2)) m.resize(k, v); break; }
        case 1: for (size_t k = 1 + r.below(3); k-- > 0 && m.size() < 400;) if (go(1, [&] { t.push_back(v); }, 2)) m.push_back(v); break;
        case 2: if (n) { t.pop_back(); m.pop_back(); } break;
        case 3: t.range_set(a, b); std::fill(m.begin() + l, m.begin() + x, 1); break;
        case 4: t.range_reset(a, b); std::fill(m.begin() + l, m.begin() + x, 0); break;
        case 5: t.range_flip(a, b); for (size_t i = a; i < b; ++i) m[i] ^= 1; break;
        case 6: t.range_update(a, b, v); std::fill(m.begin() + l, m.begin() + x, v); break;
        case 7: if (n) { size_t i = r.below(n), j = r.below(n); auto q = t[i]; switch (r.below(8)) { case 0: q.set(); m[i] = 1; break; case 1: q.reset(); m[i] = 0; break; case 2: q.flip(); m[i] ^= 1; break; case 3: q &= v; m[i] = (char) (m[i] && v); break; case 4: q |= v; m[i] = (char) (m[i] || v); break; case 5: q ^= v; m[i] = (char) ((bool) m[i] != v); break; case 6: q = v; m[i] = v; break; default: q = t[j]; m[i] = m[j]; } c.eq(bool(q), (bool) m[i], "bit through the reference"); c.eq(q.test(), (bool) m[i], "bit through the reference"); } break;
        case 8: { BV w; T o = other(r, m, w); int k = (int) r.below(3); bool as = r.chance(1, 2); if (k == 0) { if (as) t &= o; else t = t & o; } else if (k == 1) { if (as) t |= o; else t = t | o; } else { if (as) t ^= o; else t = t ^ o; } for (size_t i = 0; i < n; ++i) m[i] = k == 0 ? m[i] & w[i] : k == 1 ? m[i] | w[i] : m[i] ^ w[i]; break; }
        case 9: { size_t k = r.chance(1, 10) ? n + r.below(100) : r.below(n + 1); bool left = r.chance(1, 2); if (left) { if (go(1, [&] { t <<= k; }, 2)) m = shifted(m, k, true); } else if (go(1, [&] { t >>= k; }, 2)) m = shifted(m, k, false); break; }
        case 10: t = ~t; for (auto& q : m) q ^= 1; break;
        default: if (r.chance(1, 3)) { if (v) t.set(); else t.reset(); std::fill(m.begin(), m.end(), v); } }
        else switch (r.below(4)) {
        case 0: c.eq(t.range_count(a, b), (int) std::count(m.begin() + l, m.begin() + x, 1), "range_count"); break;
        case 1: { BV w; T o = other(r, m, w); two(c, t, o, m, w); two(c, o, t, w, m); if (r.chance(1, 2) && w.size()) { size_t k = r.below(w.size() + 1); w.resize(k); o.resize(k); } bool hit = false; for (size_t i = 0; i < std::min(w.size(), n); ++i) hit |= w[i] && m[i]; c.eq(t.has_intersection(o), hit, "has_intersection"); c.eq(o.has_intersection(t), hit, "has_intersection"); c.eq(t.is_disjoint(o), !hit, "is_disjoint"); break; }
        case 2: if (n) { size_t p = r.below(n), k = p + 1; while (k < n && !m[k]) ++k; c.eq((size_t) t.find_next(p), k, "find_next"); } break;
        default: { size_t k = r.below(n + 3); T s = r.chance(1, 2) ? t << k : t >> k; (void) s; c.require(t == T(t), "a copy is equal"); } } }
    static void verify(Ctx& c, T& t, const Model& m) { const T& k = t; c.eq((size_t) t.size(), m.size(), "size"); c.eq(t.empty(), m.empty(), "empty"); int ones = (int) std::count(m.begin(), m.end(), 1); c.eq(t.count(), ones, "count"); c.eq(t.any(), ones > 0, "any"); c.eq(t.none(), ones == 0, "none"); c.eq(bool(t), ones > 0, "bool"); c.eq(t.all(), ones == (int) m.size(), "all"); c.eq((size_t) t.find_first(), (size_t) (std::find(m.begin(), m.end(), 1) - m.begin()), "find_first"); for (size_t i = 0; i < m.size(); ++i) c.eq(k[i], (bool) m[i], "bit"); }
    static u64 hash(const Model& m) { return hash_b(m); }
};
template <size_t N> struct Static {
    using T = suisen::static_bitset<N>; using Model = BV;
    static void make(Ctx&, Rng& r, i64 sc, T*& t, Model& m) { m.assign(N, 0); if (sc == 3) { std::array<u64, (N + 63) / 64> d; for (auto& x : d) x = r.next(); t = new T(d); for (size_t i = 0; i < N; ++i) m[i] = d[i / 64] >> (i % 64) & 1; return; } t = new T; }
    static T other(Rng& r, const BV& m, BV& w) { w = m; T t; for (size_t i = 0; i < N; ++i) { if (r.chance(1, 1 + r.below(40))) w[i] ^= 1; t.set(i, w[i]); } return t; }
    static void step(Ctx& c, Rng& r, T& t, Model& m, bool up, Go&) { auto [l, x] = range(r, N); size_t a = (size_t) l, b = (size_t) x, i = r.below(N); bool v = r.chance(1, 2);
        if (up) switch (r.below(7)) {
        case 0: t.range_set(a, b, v); std::fill(m.begin() + l, m.begin() + x, v); break;
        case 1: t.set(i, v); m[i] = v; break;
        case 2: t.flip(i); m[i] ^= 1; break;
        case 3: { BV w; T o = other(r, m, w); int k = (int) r.below(3); bool as = r.chance(1, 2); if (k == 0) { if (as) t &= o; else t = t & o; } else if (k == 1) { if (as) t |= o; else t = t | o; } else { if (as) t ^= o; else t = t ^ o; } for (size_t j = 0; j < N; ++j) m[j] = k == 0 ? m[j] & w[j] : k == 1 ? m[j] | w[j] : m[j] ^ w[j]; break; }
        case 4: { size_t k = r.chance(1, 10) ? N + r.below(100) : r.below(N + 1); bool left = r.chance(1, 2), as = r.chance(1, 2); if (left) { if (as) t <<= k; else t = t << k; } else { if (as) t >>= k; else t = t >> k; } m = shifted(m, k, left); break; }
        case 5: t = ~t; for (auto& q : m) q ^= 1; break;
        default: if (r.chance(1, 4)) { t.clear(); std::fill(m.begin(), m.end(), 0); } }
        else { BV w; T o = other(r, m, w); int k = compare(m, w); c.eq(t == o, k == 0, "=="); c.eq(t != o, k != 0, "!="); c.eq(t < o, k < 0, "<"); c.eq(t <= o, k <= 0, "<="); c.eq(t > o, k > 0, ">"); c.eq(t >= o, k >= 0, ">="); } }
    static void verify(Ctx& c, T& t, const Model& m) { for (size_t i = 0; i < N; ++i) c.eq(t[i], (bool) m[i], "bit"); c.eq(bool(t), std::count(m.begin(), m.end(), 1) > 0, "bool"); T w; for (size_t i = 0; i < N; ++i) w.set(i, m[i]); c.require(w == t, "equal to a set with the same bits"); for (size_t k = 0; k < t.data().size(); ++k) c.eq(t.data()[k], w.data()[k], "words"); }
    static u64 hash(const Model& m) { return hash_b(m); }
};
#define S "library/datastructure/fenwick_tree/"
#define W(v, nm, f, ...) sim::RegisterWorld v(multi::def<__VA_ARGS__>("C25", nm, f))
W(a1, "fenwick_tree", S "fenwick_tree.hpp", Fenwick); W(a2, "map_fenwick_tree", S "fenwick_tree.hpp", MapFenwick<false>); W(a3, "unordered_map_fenwick_tree", S "fenwick_tree.hpp", MapFenwick<true>); W(a4, "fenwick_tree_prefix", S "fenwick_tree_prefix.hpp", Prefix);
W(a5, "fenwick_tree_2d", S "fenwick_tree_2d.hpp", Grid); W(a6, "fenwick_tree_2d_sparse", S "fenwick_tree_2d_sparse.hpp", Sparse2D); W(a7, "rectangle_add_rectangle_sum", S "rectangle_add_rectangle_sum.hpp", Rect);
W(b1, "compressed_fenwick_tree_1", S "compressed_fenwick_tree.hpp", Comp<1, false>); W(b2, "compressed_fenwick_tree_2", S "compressed_fenwick_tree.hpp", Comp<2, false>); W(b3, "compressed_fenwick_tree_3", S "compressed_fenwick_tree.hpp", Comp<3, false>);
W(b4, "compressed_fenwick_tree_prefix_1", S "compressed_fenwick_tree_prefix.hpp", Comp<1, true>); W(b5, "compressed_fenwick_tree_prefix_2", S "compressed_fenwick_tree_prefix.hpp", Comp<2, true>); W(b6, "compressed_fenwick_tree_prefix_3", S "compressed_fenwick_tree_prefix.hpp", Comp<3, true>);
W(d1, "dynamic_bitset", "library/datastructure/util/dynamic_bitset.hpp", Bits); W(d2, "static_bitset_1", "library/datastructure/util/static_bitset.hpp", Static<1>); W(d3, "static_bitset_63", "library/datastructure/util/static_bitset.hpp", Static<63>); W(d4, "static_bitset_128", "library/datastructure/util/static_bitset.hpp", Static<128>); W(d5, "static_bitset_200", "library/datastructure/util/static_bitset.hpp", Static<200>);
}
