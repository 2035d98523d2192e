// C25: segment trees: many alive, copied and moved, queries interrupted by a user operation that throws.
#include "sim.hpp"
#include <algorithm>
#include <array>
#include <map>
#include <optional>
#include <tuple>
#include "monoids.hpp"
#include "multi.hpp"
#include "library/datastructure/segment_tree/segment_tree.hpp"
#include "library/datastructure/segment_tree/lazy_segment_tree.hpp"
#include "library/datastructure/segment_tree/dual_segment_tree.hpp"
#include "library/datastructure/segment_tree/commutative_dual_segment_tree.hpp"
#include "library/datastructure/segment_tree/compressed_segment_tree.hpp"
#include "library/datastructure/segment_tree/segment_tree_2d.hpp"
#include "library/datastructure/segment_tree/segment_tree_2d_sparse.hpp"
#include "library/datastructure/segment_tree/li_chao_segment_tree.hpp"
#include "library/range_query/range_chmin_chmax_add_range_sum.hpp"
#include "library/range_query/range_set_range_composite.hpp"
using namespace algebra; using i64 = int64_t; using u64 = uint64_t; using Rng = sim::Rng; using Ctx = sim::Ctx; using multi::Go;
namespace {
size_t size_for(Rng& r, i64 scale) { switch (scale) { case 0: return r.below(4); case 1: return r.below(12); case 2: { i64 p = 1ll << r.below(6); return (size_t) std::max<i64>(0, p + (i64) r.below(3) - 1); } default: return r.chance(1, 40) ? (r.chance(1, 2) ? 300 + r.below(1500) : (size_t) (255 + (256ll << r.below(4)) * (i64) r.below(2) + (i64) r.below(3))) : 1 + r.below(70); } }
M value(Rng& r) { return elem(1 + r.below(1000), (i64) r.below(4)); }
std::pair<int, int> range(Rng& r, size_t n) { int l = (int) r.below(n + 1), x = (int) r.below(n + 1); if (r.chance(1, 8)) l = 0; if (r.chance(1, 8)) x = (int) n; return { std::min(l, x), std::max(l, x) }; }
i64 g_limit = 0; bool within(M m) { sim::callback(); return m.w <= g_limit; }
u64 hash_v(const std::vector<M>& v) { u64 h = v.size(); for (auto& m : v) h = h * 31 + sim::hash_of(m); return h; }
int max_right_model(const std::vector<M>& m, int l) { i64 s = 0; int i = l; while (i < (int) m.size() && s + m[(size_t) i].w <= g_limit) s += m[(size_t) i++].w; return i; }
int min_left_model(const std::vector<M>& m, int r) { i64 s = 0; while (r > 0 && s + m[(size_t) r - 1].w <= g_limit) s += m[(size_t) --r].w; return r; }
template <typename T> void search(Ctx& c, Rng& r, T& t, const std::vector<M>& m, Go& go) {
    int n = (int) m.size(), p = (int) r.below((u64) n + 1), got = -1; g_limit = (i64) r.below(r.chance(1, 2) ? 6 : (u64) (2 * n + 2)); auto f = [](M x) { return within(x); };
    switch (r.below(4)) { case 0: if (go(2, [&] { got = t.max_right(p, f); })) c.eq(got, max_right_model(m, p), "max_right"); break; case 1: if (go(2, [&] { got = t.template max_right<within>(p); })) c.eq(got, max_right_model(m, p), "max_right"); break; case 2: if (go(2, [&] { got = t.min_left(p, f); })) c.eq(got, min_left_model(m, p), "min_left"); break; default: if (go(2, [&] { got = t.template min_left<within>(p); })) c.eq(got, min_left_model(m, p), "min_left"); } }
template <typename T> void ask(Ctx& c, Rng& r, T& t, const std::vector<M>& m, Go& go) {
    size_t n = m.size(); auto [l, x] = range(r, n); M got;
    switch (r.below(7)) {
    case 0: case 1: search(c, r, t, m, go); break;
    case 2: if (go(2, [&] { got = t.prefix_prod(x); })) c.eq(got, fold(m, 0, (size_t) x), "prefix product"); break;
    case 3: if (go(2, [&] { got = t.suffix_prod(l); })) c.eq(got, fold(m, (size_t) l, n), "suffix product"); break;
    case 4: if (n) { int i = (int) r.below(n); if (go(2, [&] { got = t.get(i); })) c.eq(got, m[(size_t) i], "element"); } break;
    default: if (go(2, [&] { got = r.chance(1, 2) ? t.prod(l, x) : t(l, x); })) c.eq(got, fold(m, (size_t) l, (size_t) x), "product"); } }
struct Seg {
    using T = suisen::SegmentTree<M, op, e>; using Model = std::vector<M>;
    static void make(Ctx&, Rng& r, i64 sc, T*& t, Model& m) { if (r.chance(1, 10)) { t = new T; return; } m.resize(size_for(r, sc)); if (r.chance(1, 3)) { t = new T((int) m.size()); return; } for (auto& x : m) x = value(r); t = new T(m); }
    static void step(Ctx& c, Rng& r, T& t, Model& m, bool up, Go& go) { if (!up || m.empty()) return ask(c, r, t, m, go); size_t i = r.below(m.size()); M v = value(r);
        switch (r.below(6)) { case 0: t[(int) i] = v; m[i] = v; break; case 1: { auto px = t[(int) i]; c.eq(M(px), m[i], "value through the proxy"); std::move(px).apply([&](M x) { return op_raw(x, v); }); m[i] = op_raw(m[i], v); break; } case 2: if (r.chance(1, 4)) { for (auto& x : m) x = value(r); t.build(m); break; } [[fallthrough]]; default: t.set((int) i, v); m[i] = v; } }
    static void verify(Ctx& c, T& t, const Model& m) { c.eq(t.all_prod(), fold(m, 0, m.size()), "product of everything"); for (size_t i = 0; i < m.size(); ++i) c.eq(t.get((int) i), m[i], "element"); for (size_t i = 0; i <= m.size(); i += 1 + m.size() / 7) c.eq(t.prod((int) i, (int) m.size()), fold(m, i, m.size()), "product"); }
    static u64 hash(const Model& m) { return hash_v(m); }
};
struct Lazy {
    using T = suisen::LazySegmentTree<M, op, e, F, mapping, composition, id>; using Model = std::vector<M>;
    static void make(Ctx&, Rng& r, i64 sc, T*& t, Model& m) { if (r.chance(1, 10)) { t = new T; return; } m.resize(size_for(r, sc)); if (r.chance(1, 4)) { t = new T((int) m.size()); return; } for (auto& x : m) x = value(r); t = new T(m); }
    static void step(Ctx& c, Rng& r, T& t, Model& m, bool up, Go& go) { if (!up) return ask(c, r, t, m, go); auto [l, x] = range(r, m.size()); F f{ r.below(5), r.below(50) }; size_t i = m.empty() ? 0 : r.below(m.size()); M v = value(r);
        switch (m.empty() ? 5 : r.below(8)) { case 0: t[(int) i] = v; m[i] = v; break; case 1: t.set((int) i, v); m[i] = v; break; case 2: t.apply((int) i, f); m[i] = map_raw(f, m[i]); break; default: t.apply(l, x, f); for (int k = l; k < x; ++k) m[(size_t) k] = map_raw(f, m[(size_t) k]); } }
    static void verify(Ctx& c, T& t, const Model& m) { c.eq(t.all_prod(), fold(m, 0, m.size()), "product of everything"); T copy(t); for (size_t i = 0; i < m.size(); i += 1 + m.size() / 9) c.eq(copy.get((int) i), m[i], "element"); for (size_t i = 0; i <= m.size(); i += 1 + m.size() / 5) c.eq(copy.prod((int) i / 2, (int) i), fold(m, i / 2, i), "product"); }
    static u64 hash(const Model& m) { return hash_v(m); }
};
template <typename D, bool COMM> struct Dual {
    using T = D; using Model = std::vector<M>;
    static void make(Ctx&, Rng& r, i64 sc, T*& t, Model& m) { if (r.chance(1, 10)) { t = new T; return; } m.resize(size_for(r, sc)); if (r.chance(1, 4)) { M v = value(r); for (auto& x : m) x = v; t = new T((int) m.size(), v); return; } for (auto& x : m) x = value(r); if (r.chance(1, 2)) t = new T(m); else t = new T(Model(m)); }
    static void step(Ctx& c, Rng& r, T& t, Model& m, bool up, Go& go) { auto [l, x] = range(r, m.size()); if (up) { F f{ COMM ? 1 : r.below(5), r.below(50) }; t.apply(l, x, f); for (int k = l; k < x; ++k) m[(size_t) k] = map_raw(f, m[(size_t) k]); } else if (m.size()) { size_t i = r.below(m.size()); M got; if (go(2, [&] { got = r.chance(1, 2) ? t[(int) i] : t.get((int) i); }, 4)) c.eq(got, m[i], "element"); } }
    static void verify(Ctx& c, T& t, const Model& m) { for (size_t i = 0; i < m.size(); ++i) c.eq(t.get((int) i), m[i], "element"); }
    static u64 hash(const Model& m) { return hash_v(m); }
};
u64 add(u64 a, u64 b) { sim::callback(); return a + b; } u64 zero() { return 0; }
i64 larger(i64 a, i64 b) { sim::callback(); return std::max(a, b); } i64 lowest() { return INT64_MIN; }
i64 coord(Rng& r, i64 span) { return (i64) r.below((u64) (2 * span + 1)) - span; }
const i64 SPAN[4] = { 1, 4, 12, 1000000000 };
template <size_t K> struct Comp {
    using T = suisen::CompressedSegmentTree<u64, add, zero, K, i64>; using Pt = std::array<i64, K>; struct Model { std::map<Pt, u64> v; i64 span = 1; };
    static auto point(const Pt& p) { if constexpr (K == 1) return p[0]; else return typename T::point_type(p); }
    static void make(Ctx&, Rng& r, i64 sc, T*& t, Model& m) { m.span = SPAN[sc]; t = new T; if (r.chance(1, 12)) { if (r.chance(1, 2)) t->build(); return; } for (size_t k = r.below(20); k-- > 0;) { Pt p; for (auto& x : p) x = coord(r, m.span); if (r.chance(1, 4) && m.v.size()) p[0] = m.v.begin()->first[0]; m.v[p]; t->add_point(point(p)); if (r.chance(1, 5)) t->add_point(point(p)); } t->build(); }
    static u64 ask(T& t, const std::array<std::pair<i64, i64>, K>& q) { if constexpr (K == 1) return t.query(q[0].first, q[0].second); else return t.query(q); }
    static u64 want(const Model& m, const std::array<std::pair<i64, i64>, K>& q) { u64 s = 0; for (auto& [p, v] : m.v) { bool in = true; for (size_t k = 0; k < K; ++k) in &= q[k].first <= p[k] && p[k] < q[k].second; if (in) s += v; } return s; }
    static void step(Ctx& c, Rng& r, T& t, Model& m, bool up, Go& go) {
        if (up && m.v.size()) { auto it = m.v.begin(); std::advance(it, (long) r.below(m.v.size())); u64 x = r.below(100); if (r.chance(1, 2)) { t.set(point(it->first), x); it->second = x; } else { t.apply(point(it->first), x); it->second += x; } return; }
        std::array<std::pair<i64, i64>, K> q; for (auto& [l, x] : q) { l = coord(r, m.span + 1), x = coord(r, m.span + 1); if (m.v.size() && r.chance(1, 3)) l = m.v.begin()->first[0]; if (l > x) std::swap(l, x); } u64 got = 0; if (go(2, [&] { got = ask(t, q); })) c.eq(got, want(m, q), "product over a box"); }
    static void verify(Ctx& c, T& t, const Model& m) { for (auto& [p, v] : m.v) c.eq(t.get(point(p)), v, "value at a point"); std::array<std::pair<i64, i64>, K> q; for (auto& [l, x] : q) l = -m.span - 5, x = m.span + 5; c.eq(ask(t, q), want(m, q), "product over a box"); if (m.v.size()) { q[K - 1] = { m.v.rbegin()->first[K - 1], m.span + 5 }; c.eq(ask(t, q), want(m, q), "product over a box"); } }
    static u64 hash(const Model& m) { u64 h = m.v.size(); for (auto& [p, v] : m.v) { for (i64 x : p) h = h * 31 + (u64) x; h = sim::mix64(h + v); } return h; }
};
struct Comp1M { // one dimension, products that do not commute
    using T = suisen::CompressedSegmentTree<M, op, e, 1, int>; struct Model { std::map<int, M> v; int span = 1; };
    static void make(Ctx&, Rng& r, i64 sc, T*& t, Model& m) { m.span = (int) SPAN[sc]; t = new T; for (size_t k = r.below(30); k-- > 0;) { int p = (int) coord(r, m.span); m.v[p]; t->add_point(p); } t->build(); }
    static M want(const Model& m, int l, int x) { M s; for (auto& [p, v] : m.v) if (l <= p && p < x) s = op_raw(s, v); return s; }
    static void step(Ctx& c, Rng& r, T& t, Model& m, bool up, Go& go) { if (up && m.v.size()) { auto it = m.v.begin(); std::advance(it, (long) r.below(m.v.size())); it->second = value(r); t.set(it->first, it->second); return; } int l = (int) coord(r, m.span), x = (int) coord(r, m.span); if (l > x) std::swap(l, x); M got; if (go(2, [&] { got = r.chance(1, 2) ? t.query(l, x) : t.query({ l, x }); })) c.eq(got, want(m, l, x), "product"); }
    static void verify(Ctx& c, T& t, const Model& m) { for (auto& [p, v] : m.v) c.eq(t.get(p), v, "value at a point"); c.eq(t.query(-m.span, m.span + 1), want(m, -m.span, m.span + 1), "product"); }
    static u64 hash(const Model& m) { u64 h = 0; for (auto& [p, v] : m.v) h = h * 31 + (u64) p + sim::hash_of(v); return h; }
};
struct Grid {
    using T = suisen::SegmentTree2D<u64, add, zero>; struct Model { size_t n = 0, w = 0; std::vector<std::vector<u64>> a; };
    static void make(Ctx&, Rng& r, i64 sc, T*& t, Model& m) { if (r.chance(1, 10)) { t = new T; return; } m.n = std::min<size_t>(size_for(r, sc), 20); m.w = std::min<size_t>(size_for(r, sc), 20); if (m.n == 0) m.w = 0; m.a.assign(m.n, std::vector<u64>(m.w)); if (r.chance(1, 3)) { t = new T((int) m.n, (int) m.w); return; } for (auto& x : m.a) for (auto& y : x) y = r.below(100); t = new T(m.a); }
    static u64 want(const Model& m, int u, int d, int l, int x) { u64 s = 0; for (int i = u; i < d; ++i) for (int j = l; j < x; ++j) s += m.a[(size_t) i][(size_t) j]; return s; }
    static void step(Ctx& c, Rng& r, T& t, Model& m, bool up, Go& go) { if (up && m.n && m.w) { size_t i = r.below(m.n), j = r.below(m.w); u64 v = r.below(100); t.set((int) i, (int) j, v); m.a[i][j] = v; return; } auto [u, d] = range(r, m.n); auto [l, x] = range(r, m.w); u64 got = 0; if (go(2, [&, u = u, d = d, l = l, x = x] { got = t(u, d, l, x); })) c.eq(got, want(m, u, d, l, x), "product over a rectangle"); }
    static void verify(Ctx& c, T& t, const Model& m) { for (size_t i = 0; i < m.n; ++i) for (size_t j = 0; j < m.w; ++j) c.eq(t.get((int) i, (int) j), m.a[i][j], "element"); int n = (int) m.n, w = (int) m.w; c.eq(t(0, n, 0, w), want(m, 0, n, 0, w), "product over a rectangle"); c.eq(t(n / 3, n, w / 2, w), want(m, n / 3, n, w / 2, w), "product over a rectangle"); }
    static u64 hash(const Model& m) { u64 h = m.n * 100 + m.w; for (auto& x : m.a) for (u64 y : x) h = h * 31 + y; return sim::mix64(h); }
};
template <bool MAX> struct Sparse2D {
    using V = std::conditional_t<MAX, i64, u64>; struct TS { using A = suisen::SegmentTree2DSparse<i64, larger, lowest>; using B = suisen::SegmentTree2DSparse<u64, add, zero>; };
    using T = std::conditional_t<MAX, typename TS::A, typename TS::B>; struct Model { std::map<std::pair<int, int>, V> v; int span = 1, cap = 0; };
    static V none() { return MAX ? (V) INT64_MIN : (V) 0; } static V join(V a, V b) { return MAX ? std::max(a, b) : a + b; }
    static void points(Rng& r, T& t, Model& m, size_t k) { while (k-- > 0) { int x = (int) coord(r, m.span), y = (int) coord(r, m.span); if (m.v.size() && r.chance(1, 3)) x = m.v.begin()->first.first; m.v[{ x, y }]; t.add_point(x, y); } t.build(); for (auto& [p, v] : m.v) v = none(); }
    static void make(Ctx&, Rng& r, i64 sc, T*& t, Model& m) { m.span = (int) SPAN[sc]; if (r.chance(1, 10)) { t = new T; if (r.chance(1, 2)) t->build(); return; } size_t k = r.below(25); t = new T((int) (k + r.below(20))); m.cap = 1; points(r, *t, m, k); }
    static V want(const Model& m, int l, int x, int d, int u) { V s = none(); for (auto& [p, v] : m.v) if (l <= p.first && p.first < x && d <= p.second && p.second < u) s = join(s, v); return s; }
    static void step(Ctx& c, Rng& r, T& t, Model& m, bool up, Go& go) {
        if (up && m.v.size()) { auto it = m.v.begin(); std::advance(it, (long) r.below(m.v.size())); V x = (V) r.below(100); auto [a, b] = it->first; if (r.chance(1, 2)) t.set(a, b, x); else t[{ a, b }] = x; it->second = x; return; }
        int s = m.span == 1000000000 ? m.span : m.span + 1, l = (int) coord(r, s), x = (int) coord(r, s), d = (int) coord(r, s), u = (int) coord(r, s); if (l > x) std::swap(l, x); if (d > u) std::swap(d, u);
        if constexpr (MAX) { if (r.chance(1, 2)) { i64 lim = (i64) r.below(110); auto f = [&](i64 y) { sim::callback(); return y <= lim; }; int got = 0, w; if (r.chance(1, 2)) { w = INT_MAX; for (auto& [p, v] : m.v) if (l <= p.first && p.first < x && p.second >= d && v > lim) w = std::min(w, p.second); if (go(2, [&] { got = t.max_up(l, x, d, f); })) c.eq(got, w, "max_up"); } else { w = INT_MIN; for (auto& [p, v] : m.v) if (l <= p.first && p.first < x && p.second < u && v > lim) w = std::max(w, p.second + 1); if (go(2, [&] { got = t.min_down(l, x, u, f); })) c.eq(got, w, "min_down"); } return; } }
        V got{}; if (go(2, [&] { got = r.chance(1, 2) ? t.prod(l, x, d, u) : t(l, x, d, u); })) c.eq(got, want(m, l, x, d, u), "product over a rectangle"); }
    static void verify(Ctx& c, T& t, const Model& m) { for (auto& [p, v] : m.v) c.eq(t.get(p.first, p.second), v, "value at a point"); V all = none(); for (auto& [p, v] : m.v) all = join(all, v); c.eq(t.all_prod(), all, "product of everything"); c.eq(t.prod(0, INT_MAX, -5, 5), want(m, 0, INT_MAX, -5, 5), "product over a rectangle"); }
    static u64 hash(const Model& m) { u64 h = m.v.size(); for (auto& [p, v] : m.v) h = sim::mix64(h * 31 + (u64) p.first * 7 + (u64) p.second + (u64) v); return h; }
};
template <typename N, bool MIN> struct LiChao {
    using T = suisen::LiChaoSegmentTree<N, MIN>; struct Model { std::vector<i64> xs; std::vector<std::array<i64, 4>> s; };
    static void make(Ctx&, Rng& r, i64 sc, T*& t, Model& m) { i64 span = std::min<i64>(SPAN[sc] * 8, 100000); if (r.chance(1, 10)) { t = new T; return; } std::vector<N> q; for (size_t k = r.below(30); k-- > 0;) { i64 x = coord(r, span); m.xs.push_back(x); q.push_back((N) x); if (r.chance(1, 6)) q.push_back((N) x); } t = new T(q); }
    static std::optional<N> want(const Model& m, i64 x) { std::optional<N> w; for (auto& s : m.s) if (s[0] <= x && x <= s[1]) { N y = (N) (s[2] * x + s[3]); if (!w || (MIN ? y < *w : y > *w)) w = y; } return w; }
    static void one(Ctx& c, T& t, const Model& m, i64 x) { auto w = want(m, x), g = x & 1 ? t((N) x) : t.query((N) x); c.eq(g.has_value(), w.has_value(), "whether there is a line"); if (w) c.eq(*g, *w, "best line"); }
    static void step(Ctx& c, Rng& r, T& t, Model& m, bool up, Go&) {
        if (!up || m.s.size() > 60) { if (m.xs.size()) one(c, t, m, m.xs[r.below(m.xs.size())]); return; }
        i64 big = r.chance(1, 3) ? 3 : 1000, a = coord(r, big), b = coord(r, big * 10); if (r.chance(1, 3)) { t.add_line((N) a, (N) b); m.s.push_back({ INT64_MIN, INT64_MAX, a, b }); return; }
        auto pt = [&] { return m.xs.size() && r.chance(1, 2) ? m.xs[r.below(m.xs.size())] + (i64) r.below(3) - 1 : coord(r, 40); }; i64 l = pt(), x = pt(); if (l > x) std::swap(l, x); t.add_segment((N) l, (N) x, (N) a, (N) b); m.s.push_back({ l, x, a, b }); }
    static void verify(Ctx& c, T& t, const Model& m) { for (i64 x : m.xs) one(c, t, m, x); }
    static u64 hash(const Model& m) { u64 h = m.xs.size(); for (auto& s : m.s) for (i64 x : s) h = sim::mix64(h * 31 + (u64) x); return h; }
};
struct Beats {
    static inline i64 bound; static bool below(suisen::RangeChMinMaxAddRangeSum<i64>::DataType d) { sim::callback(); return d.get_max() <= bound; }
    using T = suisen::RangeChMinMaxAddRangeSum<i64>; using Model = std::vector<i64>;
    static void make(Ctx&, Rng& r, i64 sc, T*& t, Model& m) { if (r.chance(1, 10)) { t = new T; return; } m.resize(size_for(r, sc)); if (r.chance(1, 4)) { t = new T((int) m.size()); return; } u64 w = r.chance(1, 2) ? 5 : 1000; for (auto& x : m) x = (i64) r.below(w) - (i64) w / 2; t = new T(m); }
    static void step(Ctx& c, Rng& r, T& t, Model& m, bool up, Go& go) { auto [l, x] = range(r, m.size()); i64 v = coord(r, r.chance(1, 2) ? 4 : 600);
        if (up) { switch (r.below(4)) { case 0: t.chmin(l, x, v); for (int i = l; i < x; ++i) m[(size_t) i] = std::min(m[(size_t) i], v); break; case 1: t.chmax(l, x, v); for (int i = l; i < x; ++i) m[(size_t) i] = std::max(m[(size_t) i], v); break; case 2: t.add(l, x, v); for (int i = l; i < x; ++i) m[(size_t) i] += v; break; default: if (r.chance(1, 3)) { t.update(l, x, v); for (int i = l; i < x; ++i) m[(size_t) i] = v; } else { t.chmin(l, x, v); for (int i = l; i < x; ++i) m[(size_t) i] = std::min(m[(size_t) i], v); } } return; }
        if (r.chance(1, 4)) { auto f = [&](const T::DataType& d) { sim::callback(); return d.get_max() <= v; }; int got = 0, w; if (r.chance(1, 2)) { for (w = l; w < (int) m.size() && m[(size_t) w] <= v; ++w); if (go(2, [&, l = l] { bound = v; got = r.chance(1, 2) ? t.max_right(l, f) : t.max_right<below>(l); }, 4)) c.eq(got, w, "max_right"); } else { for (w = x; w > 0 && m[(size_t) w - 1] <= v; --w); if (go(2, [&, x = x] { bound = v; got = r.chance(1, 2) ? t.min_left(x, f) : t.min_left<below>(x); }, 4)) c.eq(got, w, "min_left"); } return; }
        look(c, t, m, l, x); }
    static void look(Ctx& c, T& t, const Model& m, int l, int x) { i64 s = 0; for (int i = l; i < x; ++i) s += m[(size_t) i]; c.eq(t.sum(l, x), s, "sum"); if (l == x) return; std::vector<i64> v(m.begin() + l, m.begin() + x); std::sort(v.begin(), v.end()); c.eq(t.min(l, x), v.front(), "minimum"); c.eq(t.max(l, x), v.back(), "maximum"); auto d = t.prod(l, x); c.eq(d.get_min_num(), (i64) std::count(v.begin(), v.end(), v.front()), "how often the minimum occurs"); c.eq(d.get_max_num(), (i64) std::count(v.begin(), v.end(), v.back()), "how often the maximum occurs"); v.erase(std::unique(v.begin(), v.end()), v.end()); if (v.size() > 1) { c.eq(d.get_second_min(), v[1], "second minimum"); c.eq(d.get_second_max(), v[v.size() - 2], "second maximum"); } }
    static void verify(Ctx& c, T& t, const Model& m) { int n = (int) m.size(); look(c, t, m, 0, n); look(c, t, m, n / 2, n); look(c, t, m, n / 3, n / 2); }
    static u64 hash(const Model& m) { u64 h = m.size(); for (i64 x : m) h = h * 31 + (u64) x; return sim::mix64(h); }
};
struct Assign {
    using T = suisen::RangeSetRangeComposite<M, op, e>; using Model = std::vector<M>;
    static void make(Ctx&, Rng& r, i64 sc, T*& t, Model& m) { if (r.chance(1, 10)) { t = new T; return; } m.resize(size_for(r, sc)); if (r.chance(1, 3)) { M v = value(r); for (auto& x : m) x = v; t = new T((int) m.size(), v); return; } for (auto& x : m) x = value(r); t = new T(m); }
    static void step(Ctx& c, Rng& r, T& t, Model& m, bool up, Go& go) { auto [l, x] = range(r, m.size()); if (up) { M v = value(r); t.set(l, x, v); for (int i = l; i < x; ++i) m[(size_t) i] = v; return; } M got; if (go(2, [&, l = l, x = x] { got = t.prod(l, x); })) c.eq(got, fold(m, (size_t) l, (size_t) x), "product"); }
    static void verify(Ctx& c, T& t, const Model& m) { for (size_t i = 0; i <= m.size(); i += 1 + m.size() / 6) { c.eq(t.prod(0, (int) i), fold(m, 0, i), "product"); c.eq(t.prod((int) i / 2, (int) i), fold(m, i / 2, i), "product"); } for (size_t i = 0; i < m.size(); ++i) c.eq(t.prod((int) i, (int) i + 1), m[i], "element"); }
    static u64 hash(const Model& m) { return hash_v(m); }
};
#define S "library/datastructure/segment_tree/"
#define W(v, K, nm, f) sim::RegisterWorld v(multi::def<K>("C25", nm, f))
using DualT = Dual<suisen::DualSegmentTree<M, F, mapping, composition, id>, false>; using CDualT = Dual<suisen::CommutativeDualSegmentTree<M, F, mapping, composition, id>, true>;
using LMin = LiChao<i64, true>; using LMax = LiChao<i64, false>; using LMinD = LiChao<double, true>; using LMaxD = LiChao<double, false>;
W(a1, Seg, "segment_tree", S "segment_tree.hpp"); W(a2, Lazy, "lazy_segment_tree", S "lazy_segment_tree.hpp"); W(a3, DualT, "dual_segment_tree", S "dual_segment_tree.hpp"); W(a4, CDualT, "commutative_dual_segment_tree", S "commutative_dual_segment_tree.hpp");
W(a5, Comp<1>, "compressed_segment_tree_1", S "compressed_segment_tree.hpp"); W(a6, Comp<2>, "compressed_segment_tree_2", S "compressed_segment_tree.hpp"); W(a7, Comp<3>, "compressed_segment_tree_3", S "compressed_segment_tree.hpp"); W(a8, Comp1M, "compressed_segment_tree_noncommutative", S "compressed_segment_tree.hpp");
W(a9, Grid, "segment_tree_2d", S "segment_tree_2d.hpp"); W(b1, Sparse2D<false>, "segment_tree_2d_sparse_sum", S "segment_tree_2d_sparse.hpp"); W(b2, Sparse2D<true>, "segment_tree_2d_sparse_max", S "segment_tree_2d_sparse.hpp");
W(b3, LMin, "li_chao_min", S "li_chao_segment_tree.hpp"); W(b4, LMax, "li_chao_max", S "li_chao_segment_tree.hpp"); W(b5, LMinD, "li_chao_min_double", S "li_chao_segment_tree.hpp"); W(b6, LMaxD, "li_chao_max_double", S "li_chao_segment_tree.hpp");
W(b7, Beats, "range_chmin_chmax_add", "library/range_query/range_chmin_chmax_add_range_sum.hpp"); W(b8, Assign, "range_set_range_composite", "library/range_query/range_set_range_composite.hpp");
}
