// C26: indexes over sequences, sets of points and texts: many alive, built (also under memory failures), rebuilt, copied, moved and queried.
#include "sim.hpp"
#include <algorithm>
#include <array>
#include <map>
#include <numeric>
#include <set>
#include "index_kind.hpp"
#include "library/datastructure/sparse_table.hpp"
#include "library/datastructure/bit_vector.hpp"
#include "library/datastructure/wavelet_matrix.hpp"
#include "library/datastructure/compressed_wavelet_matrix.hpp"
#include "library/datastructure/cartesian_tree.hpp"
#include "library/datastructure/permutation_tree.hpp"
#include "library/algorithm/rmq_pm1.hpp"
#include "library/algorithm/rmq_pm1_with_index.hpp"
#include "library/util/cumulative_sum.hpp"
#include "library/util/cumulative_sum_2d.hpp"
#include "library/util/coordinate_compressor.hpp"
#include "library/util/step_sum.hpp"
#include "library/range_query/static_range_inversion_number_query.hpp"
#include "library/range_query/static_range_mode_query.hpp"
#include "library/range_query/static_range_xored_mex_query.hpp"
#include "library/range_query/static range_count_distinct.hpp"
#include "library/datastructure/fenwick_tree/offline_rectangle_add_point_get.hpp"
#include "library/datastructure/fenwick_tree/static_rectangle_add_rectangle_sum.hpp"
#include "library/algorithm/dynamic_convex_hull_offline.hpp"
#include "library/linear_algebra/xor_base.hpp"
#include "library/string/compare_substring.hpp"
namespace {
using Seq = std::vector<int>; using Seq64 = std::vector<i64>;
Seq values(Rng& r, i64 sc, i64 span) { Seq a(size_for(r, sc)); i64 s = r.chance(1, 3) ? 2 : span; for (auto& x : a) x = (int) sgn(r, s); return a; }
int mini(int a, int b) { return std::min(a, b); } int maxval() { return INT_MAX; }
struct Sparse : Kind<Sparse, suisen::SparseTable<int, mini, maxval>, Seq> {
    static Seq gen(Rng& r, i64 sc) { return values(r, sc, 1000000000); }
    static T* build(Rng& r, const Seq& m) { if (m.empty() && r.chance(1, 2)) return new T; return r.chance(1, 2) ? new T(m) : new T(Seq(m)); }
    static void check(Ctx& c, Rng& r, T& t, const Seq& m, Go&) { auto [l, x] = range(r, m.size()); int w = INT_MAX; for (int i = l; i < x; ++i) w = std::min(w, m[(size_t) i]); c.eq(r.chance(1, 2) ? t(l, x) : t.prod(l, x), w, "minimum of a range"); }
};
struct Bits : Kind<Bits, suisen::BitVector, std::vector<char>> {
    static Model gen(Rng& r, i64 sc) { Model a(size_for(r, sc) * (sc == 3 ? 3 : 1)); u64 d = r.below(5); for (auto& x : a) x = d == 0 ? 0 : d == 1 ? 1 : r.chance(1, d); return a; }
    static T* build(Rng& r, const Model& m) { if (m.empty() && r.chance(1, 2)) return new T; auto g = [&](int i) { return (bool) m[(size_t) i]; }; if (r.chance(1, 2)) { auto t = std::make_unique<T>((int) m.size()); t->build(g); return t.release(); } return new T((int) m.size(), g); }
    static void check(Ctx& c, Rng& r, T& t, const Model& m, Go&) {
        auto [l, x] = range(r, m.size()); bool v = r.chance(1, 2); int w = 0, p = 0; for (int i = 0; i < x; ++i) if ((bool) m[(size_t) i] == v) { ++p; w += i >= l; } c.eq(t.rank(v, x), p, "rank"); c.eq(t.rank(v, l, x), w, "rank in a range");
        if (m.size()) { int i = (int) r.below(m.size()); c.eq(r.chance(1, 2) ? t[i] : t.access(i), (bool) m[(size_t) i], "bit"); }
        int k = 1 + (int) r.below(m.size() + 1), at = -1; for (size_t i = 0, s = 0; i < m.size(); ++i) if ((bool) m[i] == v && (int) ++s == k) at = (int) i + 1; c.eq(t.select(v, k), at, "select"); }
};
template <typename V, int B, bool COMP> struct Wavelet : Kind<Wavelet<V, B, COMP>, std::conditional_t<COMP, suisen::CompressedWaveletMatrix<V, B>, suisen::WaveletMatrix<V, B>>, std::vector<V>> {
    using Base = Kind<Wavelet, std::conditional_t<COMP, suisen::CompressedWaveletMatrix<V, B>, suisen::WaveletMatrix<V, B>>, std::vector<V>>; using T = typename Base::T; using Model = typename Base::Model;
    static V value(Rng& r, u64 mode) { if constexpr (COMP) return (V) (mode == 0 ? sgn(r, 3) : mode == 1 ? sgn(r, 1000000000000ll) : r.chance(1, 4) ? (r.chance(1, 2) ? INT64_MAX : INT64_MIN) : sgn(r, 20)); else { u64 M = ((u64) 1 << B) - 1; return (V) (mode == 0 ? r.below(4) & M : mode == 1 ? r.next() & M : r.chance(1, 3) ? M - (r.below(3) & M) : r.below(3) & M); } }
    static Model gen(Rng& r, i64 sc) { Model a(size_for(r, sc)); u64 md = r.below(3); for (auto& x : a) x = value(r, md); return a; }
    static T* build(Rng& r, const Model& m) { if (m.empty() && r.chance(1, 2)) return new T; return r.chance(1, 2) ? new T(m) : new T((int) m.size(), [&](int i) { return m[(size_t) i]; }); }
    static void check(Ctx& c, Rng& r, T& t, const Model& m, Go&) {
        auto [l, x] = range(r, m.size()); V D = (V) (r.chance(1, 2) ? -1 : 77), X = 0, lo, hi; if constexpr (!COMP) X = r.chance(1, 2) ? 0 : value(r, r.below(3)); lo = m.size() && r.chance(1, 2) ? (V) (m[r.below(m.size())] ^ X) : value(r, r.below(3)); hi = m.size() && r.chance(1, 2) ? (V) (m[r.below(m.size())] ^ X) : value(r, r.below(3)); if constexpr (COMP) { if (r.chance(1, 3)) { if (hi != std::numeric_limits<V>::min() && r.chance(1, 2)) --hi; else if (hi != std::numeric_limits<V>::max()) ++hi; } }
        std::vector<V> s; for (int i = l; i < x; ++i) s.push_back((V) (m[(size_t) i] ^ X)); std::sort(s.begin(), s.end()); int n = (int) s.size(), k = (int) r.below((u64) n + 2) - (int) r.chance(1, 6), lt = (int) (std::lower_bound(s.begin(), s.end(), hi) - s.begin()), le = (int) (std::upper_bound(s.begin(), s.end(), hi) - s.begin());
        auto at = [&](int i) { return i < 0 || i >= n ? D : s[(size_t) i]; };
        if (m.size()) { int i = (int) r.below(m.size()); c.eq(r.chance(1, 2) ? t[i] : t.access(i), m[(size_t) i], "element"); }
        if (COMP || X == 0) { V v = hi; c.eq(t.rank(v, x), (int) std::count(m.begin(), m.begin() + x, v), "rank");
            c.eq(t.range_kth_smallest(l, x, k, D), at(k), "k-th smallest"); c.eq(t.range_kth_largest(l, x, k, D), k < 0 ? D : at(n - 1 - k), "k-th largest"); if (n) { c.eq(t.range_min(l, x), s.front(), "minimum"); c.eq(t.range_max(l, x), s.back(), "maximum"); }
            c.eq(t.range_freq(l, x, hi), lt, "number of smaller values"); c.eq(t.range_freq(l, x, lo, hi), lo < hi ? lt - (int) (std::lower_bound(s.begin(), s.end(), lo) - s.begin()) : 0, "number of values between two bounds");
            c.eq(t.range_min_geq(l, x, hi, D), at(lt), "smallest at least"); c.eq(t.range_min_gt(l, x, hi, D), at(le), "smallest above"); c.eq(t.range_max_lt(l, x, hi, D), at(lt - 1), "largest below"); c.eq(t.range_max_leq(l, x, hi, D), at(le - 1), "largest at most"); }
        if constexpr (!COMP) { auto el = [&](int i) { return i < 0 || i >= n ? D : (V) (s[(size_t) i] ^ X); };
            c.eq(t.range_xor_kth_smallest(l, x, k, X, D), el(k), "k-th smallest after xor"); c.eq(t.range_xor_kth_largest(l, x, k, X, D), k < 0 ? D : el(n - 1 - k), "k-th largest after xor"); if (n) { c.eq(t.range_xor_min(l, x, X), el(0), "minimum after xor"); c.eq(t.range_xor_max(l, x, X), el(n - 1), "maximum after xor"); }
            c.eq(t.range_xor_freq(l, x, X, hi), lt, "number of smaller values after xor"); c.eq(t.range_xor_freq(l, x, X, lo, hi), lo < hi ? lt - (int) (std::lower_bound(s.begin(), s.end(), lo) - s.begin()) : 0, "number of values between two bounds after xor"); V top = (V) (((u64) 1 << (B - 1)) * 2); if (top > hi) c.eq(t.range_xor_freq(l, x, X, top), n, "number of smaller values after xor");
            c.eq(t.range_xor_min_geq(l, x, X, hi, D), el(lt), "smallest at least, after xor"); c.eq(t.range_xor_min_gt(l, x, X, hi, D), el(le), "smallest above, after xor"); c.eq(t.range_xor_max_lt(l, x, X, hi, D), el(lt - 1), "largest below, after xor"); c.eq(t.range_xor_max_leq(l, x, X, hi, D), el(le - 1), "largest at most, after xor"); }
    }
};
template <bool MIN> struct Pm1 : Kind<Pm1<MIN>, suisen::RMQpm1<MIN>, Seq> {
    using T = suisen::RMQpm1<MIN>;
    static Seq walk(Rng& r, i64 sc) { Seq a(size_for(r, sc)); int v = (int) sgn(r, 50); u64 d = 2 + r.below(5); for (auto& x : a) { x = v; v += r.chance(1, d) ? 1 : -1; } if (r.chance(1, 2)) for (auto& x : a) x = -x; return a; }
    static Seq gen(Rng& r, i64 sc) { return walk(r, sc); }
    static T* build(Rng& r, const Seq& m) { return r.chance(1, 2) ? new T(m) : new T(Seq(m)); }
    static void check(Ctx& c, Rng& r, T& t, const Seq& m, Go&) { auto [l, x] = range(r, m.size()); int w = MIN ? INT_MAX : INT_MIN; for (int i = l; i < x; ++i) w = MIN ? std::min(w, m[(size_t) i]) : std::max(w, m[(size_t) i]); c.eq(t(l, x), w, "extreme of a range"); }
};
template <bool MIN> struct Pm1Index : Kind<Pm1Index<MIN>, suisen::RMQpm1WithIndex<MIN>, Seq> {
    using T = suisen::RMQpm1WithIndex<MIN>;
    static Seq gen(Rng& r, i64 sc) { return Pm1<MIN>::gen(r, sc); }
    static T* build(Rng& r, const Seq& m) { return r.chance(1, 2) ? new T(m) : new T(Seq(m)); }
    static void check(Ctx& c, Rng& r, T& t, const Seq& m, Go&) { auto [l, x] = range(r, m.size()); int w = MIN ? INT_MAX : INT_MIN; for (int i = l; i < x; ++i) w = MIN ? std::min(w, m[(size_t) i]) : std::max(w, m[(size_t) i]); auto [v, i] = t(l, x); c.eq(v, w, "extreme of a range"); if (l < x) { c.require(l <= i && i < x, "position", "the position of the extreme lies outside the range"); c.eq(m[(size_t) i], w, "value at the reported position"); } }
};
template <bool MIN> struct Cartesian : Kind<Cartesian<MIN>, Box<suisen::CartesianTree>, Seq> {
    using T = Box<suisen::CartesianTree>; using B = std::conditional_t<MIN, suisen::MinCartesianTreeBuilder, suisen::MaxCartesianTreeBuilder>;
    static Seq gen(Rng& r, i64 sc) { return values(r, sc, 1000000); }
    static T* build(Rng& r, const Seq& m) { using C = suisen::CartesianTree; auto t = std::make_unique<T>(); if (m.empty() && r.chance(1, 2)) t->p = std::make_unique<C>(); else if (r.chance(1, 2)) t->p = std::make_unique<C>(B::build(m)); else { B b(m); t->p = std::make_unique<C>(b.build()); } return t.release(); }
    static void check(Ctx& c, Rng& r, T& t, const Seq& m, Go&) {
        auto& g = *t.p; c.eq(g.size(), m.size(), "size"); auto better = [&](int a, int b) { return MIN ? a < b : a > b; };
        // the tree as an in-order search tree with the extreme on top of each range
        std::vector<std::pair<int, int>> want(m.size()); size_t seen = 0;
        auto rec = [&](auto self, int l, int v, int x) -> void { if (l == x) { c.require(v < 0, "tree", "a vertex below an empty range"); return; } c.require(l <= v && v < x, "tree", "a vertex outside its range"); for (int i = l; i < x; ++i) c.require(!better(m[(size_t) i], m[(size_t) v]), "tree", "a value better than its ancestor"); ++seen; want[(size_t) v] = { l, x }; self(self, l, g[(size_t) v][0], v); self(self, v + 1, g[(size_t) v][1], x); };
        if (m.size() <= 40 || r.chance(1, 10)) { if (m.size()) rec(rec, 0, g.root, (int) m.size()); c.eq(seen, m.size(), "vertices of the tree"); c.require(g.ranges() == want || m.empty(), "ranges", "the ranges of the vertices differ"); c.eq(g.ranges().size(), m.size(), "number of ranges"); }
        if (m.size()) { B b(m); size_t i = r.below(m.size()); int p = b[i]; c.eq(p, b.parent(i), "parent"); if (p < 0) c.eq((int) i, g.root, "root"); else c.require(g[(size_t) p][0] == (int) i || g[(size_t) p][1] == (int) i, "parent", "not a child of its parent"); } }
};
struct Perm : Kind<Perm, suisen::PermutationTree, Seq> {
    using T = suisen::PermutationTree;
    static Seq gen(Rng& r, i64 sc) { Seq p(std::min<size_t>(size_for(r, sc), 60)); if (p.empty()) return p; std::iota(p.begin(), p.end(), 0); u64 md = r.below(4); for (size_t k = md == 0 ? p.size() * 2 : r.below(6); k-- > 0;) { if (md == 3) { size_t a = r.below(p.size() + 1), b = r.below(p.size() + 1); if (a > b) std::swap(a, b); std::reverse(p.begin() + (long) a, p.begin() + (long) b); } else std::swap(p[r.below(p.size())], p[r.below(p.size())]); } if (r.chance(1, 3)) std::reverse(p.begin(), p.end()); return p; }
    static T* build(Rng& r, const Seq& m) { if (m.empty() && r.chance(1, 2)) return new T; return new T(m); }
    static void check(Ctx& c, Rng&, T& t, const Seq& m, Go&) {
        if (m.empty()) { c.eq(t.length(), 0, "length"); c.eq(t.size(), (size_t) 0, "children"); return; }
        // every vertex covers an interval of values; the vertices are exactly the intervals that overlap no other one properly
        int n = (int) m.size(); std::set<std::pair<int, int>> iv, strong, got; for (int l = 0; l < n; ++l) { int lo = m[(size_t) l], hi = lo; for (int x = l; x < n; ++x) { lo = std::min(lo, m[(size_t) x]); hi = std::max(hi, m[(size_t) x]); if (hi - lo == x - l) iv.insert({ l, x + 1 }); } }
        if (n <= 25) { for (auto& a : iv) { bool ok = true; for (auto& b : iv) ok &= !(a.first < b.first && b.first < a.second && a.second < b.second) && !(b.first < a.first && a.first < b.second && b.second < a.second); if (ok) strong.insert(a); } }
        auto rec = [&](auto self, const T& u) -> void { int l = u.begin_index(), x = u.end_index(); c.require(0 <= l && l < x && x <= n, "range", "range outside the permutation"); got.insert({ l, x }); int lo = *std::min_element(m.begin() + l, m.begin() + x), hi = *std::max_element(m.begin() + l, m.begin() + x); c.eq(u.length(), x - l, "length"); c.eq(u.min_value(), lo, "smallest value"); c.eq(u.max_value(), hi, "largest value"); c.eq(u.end_value(), hi + 1, "end of the values"); c.eq(u.min_index(), l, "first index"); c.eq(u.max_index(), x - 1, "last index"); c.require(u.get_index_range() == std::make_pair(l, x) && u.get_value_range() == std::make_pair(lo, hi + 1) && u.get_index_range_closed() == std::make_pair(l, x - 1) && u.get_value_range_closed() == std::make_pair(lo, hi), "ranges", "ranges differ"); c.require(iv.count({ l, x }), "interval", "a vertex that is not an interval");
            if (x - l == 1) { c.eq(u.size(), (size_t) 0, "children of a leaf"); return; } c.require(u.size() >= 2, "children", "a single child"); int at = l; bool join = true; for (size_t i = 0; i < u.size(); ++i) { c.eq(u[i].begin_index(), at, "children follow one another"); at = u[i].end_index(); if (i) { auto a = u[i - 1].get_value_range(), b = u[i].get_value_range(); join &= a.second == b.first || b.second == a.first; } } c.eq(at, x, "children fill their parent"); c.eq(u.is_join_node(), join, "join vertex"); for (auto& v : u) self(self, v); };
        rec(rec, t); if (n <= 25) c.require(got == strong, "vertices", "the vertices are not the strong intervals"); }
};
struct Sums : Kind<Sums, suisen::CumulativeSum<i64>, Seq64> {
    using T = suisen::CumulativeSum<i64>;
    static Seq64 gen(Rng& r, i64 sc) { Seq64 a(size_for(r, sc)); for (auto& x : a) x = sgn(r, 1000000000000ll); return a; }
    static T* build(Rng& r, const Seq64& m) { if (r.chance(1, 3)) { sim::scribble_stack(); auto t = std::make_unique<T>(); for (i64 x : m) t->push_back(x); return t.release(); } return new T(m); }
    static bool change(Ctx&, Rng& r, T& t, Seq64& m, Go& go) { if (m.size() > 900 || r.chance(1, 4)) return false; i64 v = sgn(r, 1000000); if (go(1, [&] { t.push_back(v); }, 1)) m.push_back(v); return true; }
    static void check(Ctx& c, Rng& r, T& t, const Seq64& m, Go&) { auto [l, x] = range(r, m.size()); i64 s = 0; for (int i = l; i < x; ++i) s += m[(size_t) i]; c.eq(r.chance(1, 2) ? t((size_t) l, (size_t) x) : t.sum((size_t) l, (size_t) x), s, "sum"); }
};
struct Grid : Kind<Grid, suisen::CumulativeSum2D<i64>, std::vector<Seq64>> {
    using T = suisen::CumulativeSum2D<i64>; using Model = std::vector<Seq64>;
    static Model gen(Rng& r, i64 sc) { size_t n = std::min<size_t>(size_for(r, sc), 20), w = std::min<size_t>(size_for(r, sc), 20); Model a(n, Seq64(w)); for (auto& q : a) for (auto& x : q) x = sgn(r, 1000000000); return a; }
    static T* build(Rng& r, const Model& m) { if (m.empty() && r.chance(1, 2)) { sim::scribble_stack(); return new T; } return new T(m); }
    static void check(Ctx& c, Rng& r, T& t, const Model& m, Go&) { size_t w = m.empty() ? 0 : m[0].size(); auto [u, d] = range(r, m.size()); auto [l, x] = range(r, w); i64 s = 0; for (int i = u; i < d; ++i) for (int j = l; j < x; ++j) s += m[(size_t) i][(size_t) j]; c.eq(t((size_t) u, (size_t) d, (size_t) l, (size_t) x), s, "sum over a rectangle"); if (r.chance(1, 4)) c.eq(t((size_t) u, (size_t) d, (size_t) l, w + 1), (i64) 0, "sum over a rectangle outside"); }
    static u64 hash(const Model& m) { u64 h = m.size(); for (auto& q : m) h = sim::mix64(h * 31 + hash_seq(q)); return h; }
};
struct Steps : Kind<Steps, suisen::StepSum<i64>, Seq64> {
    using T = suisen::StepSum<i64>; // the first element of the model is the step
    static Seq64 gen(Rng& r, i64 sc) { Seq64 a(1 + size_for(r, sc)); for (auto& x : a) x = sgn(r, 1000000000); a[0] = 1 + (i64) r.below(r.chance(1, 2) ? 5 : 100); return a; }
    static T* build(Rng&, const Seq64& m) { return new T(Seq64(m.begin() + 1, m.end()), (int) m[0]); }
    static void check(Ctx& c, Rng& r, T& t, const Seq64& m, Go&) { size_t n = m.size() - 1; auto [l, x] = range(r, n); int k = (int) r.below((u64) m[0]); if (r.chance(1, 4)) x += (int) r.below(9); if (r.chance(1, 8)) l = x; if (r.chance(1, 6)) l += (int) r.below(6); if (n == 0) { c.eq(t.sum(k, 0, 0), (i64) 0, "sum"); c.eq(t.sum(k, l, x), (i64) 0, "sum"); return; } i64 s = 0; for (int i = l; i < x && i < (int) n; ++i) if (i % m[0] == k) s += m[(size_t) i + 1]; c.eq(r.chance(1, 2) ? t.sum(k, l, x) : t(k, l, x), s, "sum over a residue class"); }
};
struct Inversions : Kind<Inversions, suisen::StaticRangeInversionNumberQuery<int>, Seq> {
    using T = suisen::StaticRangeInversionNumberQuery<int>;
    static Seq gen(Rng& r, i64 sc) { Seq a = values(r, sc, 1000); if (a.empty()) return a; if (a.size() > 150) a.resize(150); if (r.chance(1, 4)) a[r.below(a.size())] = INT_MAX; if (r.chance(1, 4)) a[r.below(a.size())] = INT_MIN; return a; }
    static T* build(Rng&, const Seq& m) { return new T(m); }
    static void check(Ctx& c, Rng& r, T& t, const Seq& m, Go&) { auto [l, x] = range(r, m.size()); if (l == x) return; i64 s = 0; for (int i = l; i < x; ++i) for (int j = i + 1; j < x; ++j) s += m[(size_t) i] > m[(size_t) j]; c.eq((i64) t(l, x), s, "inversions of a range"); }
};
struct Mode : Kind<Mode, suisen::StaticRangeModeQuery<int>, Seq> {
    using T = suisen::StaticRangeModeQuery<int>;
    static Seq gen(Rng& r, i64 sc) { Seq a = values(r, sc, 1 + (i64) r.below(8)); return a; }
    static T* build(Rng&, const Seq& m) { return new T(m); }
    static void check(Ctx& c, Rng& r, T& t, const Seq& m, Go&) { auto [l, x] = range(r, m.size()); if (l == x) return; std::map<int, int> f; int w = 0; for (int i = l; i < x; ++i) w = std::max(w, ++f[m[(size_t) i]]); auto [v, k] = r.chance(1, 2) ? t(l, x) : t.query(l, x); c.eq(k, w, "frequency of the mode"); c.eq(f[v], w, "frequency of the reported mode"); }
};
struct Mex : Kind<Mex, suisen::RangeXoredMexQuery<int, 6>, Seq> {
    using T = suisen::RangeXoredMexQuery<int, 6>;
    static Seq gen(Rng& r, i64 sc) { Seq a(size_for(r, sc)); if (r.chance(1, 2)) a.resize(a.size() + 70); u64 k = r.below(7); int off = (int) r.below(64); for (auto& x : a) x = (int) r.below(1ull << k) ^ off; return a; }
    static T* build(Rng& r, const Seq& m) { if (m.empty() && r.chance(1, 2)) return new T; if (r.chance(1, 3)) { auto t = std::make_unique<T>(); t->build(m); return t.release(); } return new T(m); }
    static bool change(Ctx&, Rng& r, T& t, Seq& m, Go& go) { Seq n = gen(r, (i64) r.below(4)); bool ok = go(1, [&] { t.build(n); }, 10); if (!ok) t.build(n); m = n; return true; }
    static void check(Ctx& c, Rng& r, T& t, const Seq& m, Go&) { auto [l, x] = range(r, m.size()); int X = (int) r.below(64); std::set<int> s; for (int i = l; i < x; ++i) s.insert(m[(size_t) i] ^ X); int w = 0; while (s.count(w)) ++w; c.eq(t.minimum_excluded(l, x, X), w, "smallest missing value"); if (r.chance(1, 8)) c.eq(t.minimum_excluded(l, x, X + 64), 0, "smallest missing value"); }
};
struct Distinct : Kind<Distinct, suisen::StaticRangeCountDistinctOffline, std::pair<Seq, std::vector<std::pair<int, int>>>> {
    using T = suisen::StaticRangeCountDistinctOffline;
    static Model gen(Rng& r, i64 sc) { Model m; m.first = values(r, sc, 6); return m; }
    static T* build(Rng& r, const Model& m) { if (m.first.empty() && r.chance(1, 2)) return new T; return new T(m.first); }
    static bool change(Ctx& c, Rng& r, T& t, Model& m, Go& go) { if (m.second.size() > 40) return false; auto q = range(r, m.first.size()); if (r.chance(1, 5)) t.reserve((int) r.below(50)); int id = -1; if (go(1, [&] { id = t.add_query(q.first, q.second); }, 1)) { c.eq(id, (int) m.second.size(), "number of a query"); m.second.push_back(q); } return true; }
    static void check(Ctx& c, Rng&, T& t, const Model& m, Go& go) { std::vector<int> got, want; if (!go(1, [&] { got = t.solve(); }, 12)) return; for (auto& [l, x] : m.second) want.push_back((int) std::set<int>(m.first.begin() + l, m.first.begin() + x).size()); c.require(got == want, "number of distinct values", "answers differ"); }
    static u64 hash(const Model& m) { return hash_seq(m.first) * 31 + m.second.size(); }
};
struct RectModel { struct Q { bool add; i64 l, x, d, u, w; }; std::vector<Q> q; i64 span = 1; };
struct Rects : Kind<Rects, suisen::OfflineRectangleAddPointGet<i64, i64>, RectModel> {
    using T = suisen::OfflineRectangleAddPointGet<i64, i64>;
    static Model gen(Rng&, i64 sc) { static const i64 S[4] = { 1, 4, 20, 1000000000000ll }; Model m; m.span = S[sc]; return m; }
    static T* build(Rng&, const Model&) { return new T; }
    static bool change(Ctx&, Rng& r, T& t, Model& m, Go& go) { if (m.q.size() > 80) return false; for (u64 k = 1 + r.below(6); k-- > 0;) { RectModel::Q q; q.add = r.chance(1, 2); q.l = sgn(r, m.span); q.x = sgn(r, m.span); q.d = sgn(r, m.span); q.u = sgn(r, m.span); q.w = sgn(r, 100); if (q.add) { if (q.l > q.x) std::swap(q.l, q.x); if (q.d > q.u) std::swap(q.d, q.u); } if (go(1, [&] { if (q.add) t.add(q.l, q.x, q.d, q.u, q.w); else t.get(q.l, q.d); }, 2)) m.q.push_back(q); } return true; }
    static void check(Ctx& c, Rng&, T& t, const Model& m, Go& go) { Seq64 got, want; if (!go(1, [&] { got = t.solve(); }, 12)) return; for (size_t i = 0; i < m.q.size(); ++i) if (!m.q[i].add) { i64 s = 0; for (size_t j = 0; j < i; ++j) if (auto& a = m.q[j]; a.add && a.l <= m.q[i].l && m.q[i].l < a.x && a.d <= m.q[i].d && m.q[i].d < a.u) s += a.w; want.push_back(s); } c.eq(got.size(), want.size(), "number of answers"); c.require(got == want, "value at a point", "answers differ"); }
    static u64 hash(const Model& m) { u64 h = m.q.size(); for (auto& q : m.q) h = sim::mix64(h * 31 + (u64) (q.l + 3 * q.x + 5 * q.d + 7 * q.u + 11 * q.w)); return h; }
};
// a batch of requests answered by one call, which may run out of memory
struct Batch { std::vector<suisen::AddQuery<i64>> a; std::vector<suisen::SumQuery> s; };
struct RectSums : Kind<RectSums, Batch, i64> {
    static i64 gen(Rng&, i64 sc) { static const i64 S[4] = { 1, 4, 20, 20000 }; return S[sc]; }
    static Batch* build(Rng&, const i64&) { return new Batch; }
    static bool change(Ctx&, Rng& r, Batch& t, i64& m, Go&) { if (t.a.size() + t.s.size() > 60) { t = Batch(); return true; } auto two = [&] { int a = (int) sgn(r, m), b = (int) sgn(r, m); return std::make_pair(std::min(a, b), std::max(a, b)); }; for (u64 k = 1 + r.below(6); k-- > 0;) { auto [l, x] = two(); auto [d, u] = two(); if (r.chance(1, 2)) t.a.emplace_back(l, x, d, u, sgn(r, 20)); else t.s.emplace_back(l, x, d, u); } return true; }
    static void check(Ctx& c, Rng&, Batch& t, const i64&, Go& go) { Seq64 got, want; if (!go(1, [&] { got = suisen::static_rectangle_add_rectangle_sum(t.a, t.s); }, 10)) return; for (auto& q : t.s) { i64 s = 0; for (auto& a : t.a) { i64 w = std::min(a.r, q.r) - std::max(a.l, q.l), h = std::min(a.u, q.u) - std::max(a.d, q.d); if (w > 0 && h > 0) s += w * h * a.val; } want.push_back(s); } c.require(got == want, "sum over a rectangle", "answers differ"); }
    static u64 hash(const i64& m) { return (u64) m; }
};
struct Compressor : Kind<Compressor, std::pair<suisen::CoordinateCompressorBuilder<i64>, suisen::CoordinateCompressorBuilder<i64>::Compressor>, std::pair<Seq64, std::set<i64>>> {
    using B = suisen::CoordinateCompressorBuilder<i64>; // model: what the builder holds, what the compressor was built from
    static i64 value(Rng& r) { return r.chance(1, 8) ? (r.chance(1, 2) ? INT64_MAX : INT64_MIN) : sgn(r, r.chance(1, 2) ? 8 : 1000000000000ll); }
    static Model gen(Rng& r, i64 sc) { Model m; m.first.resize(size_for(r, sc)); for (auto& x : m.first) x = value(r); m.second.insert(m.first.begin(), m.first.end()); return m; }
    static T* build(Rng& r, const Model& m) { auto& a = m.first; switch (r.below(6)) { case 0: return new T(B(a), B::build(a)); case 1: return new T(B(Seq64(a)), B::build(Seq64(a))); case 2: { auto g = [&](int i) { return a[(size_t) i]; }; return new T(B((int) a.size(), g), B::build((int) a.size(), g)); } case 3: { B b; b.push(a); return new T(b, B(b).build()); } case 4: { B b; b.push(a.begin(), a.end()); return new T(b, B::Compressor(Seq64(m.second.begin(), m.second.end()))); } default: { B b; b.reserve(5); for (i64 x : a) { if (x % 2) b.push(x); else b.emplace(x); } auto q = b.build(); return new T(b, q); } } }
    static bool change(Ctx&, Rng& r, T& t, Model& m, Go& go) { if (r.chance(1, 4)) { if (go(1, [&] { t.second = t.first.build(); }, 2)) m.second = std::set<i64>(m.first.begin(), m.first.end()); return true; } if (m.first.size() > 600) return false; i64 v = value(r); if (go(1, [&] { if (v % 2) t.first.push(v); else t.first.push(i64(v)); }, 1)) m.first.push_back(v); return true; }
    static void check(Ctx& c, Rng& r, T& t, const Model& m, Go&) { auto& k = t.second; auto& s = m.second; c.eq(k.size(), (int) s.size(), "number of keys"); i64 v = s.size() && r.chance(1, 2) ? *std::next(s.begin(), (long) r.below(s.size())) : value(r); i64 D = r.chance(1, 2) ? -7 : 123456; int lb = (int) std::distance(s.begin(), s.lower_bound(v)), ub = (int) std::distance(s.begin(), s.upper_bound(v)); auto at = [&](int i) { return i < 0 || i >= (int) s.size() ? D : *std::next(s.begin(), i); };
        c.eq(k.has_key(v), s.count(v) > 0, "has key"); c.eq(k.comp(v), s.count(v) ? lb : -1, "index of a key"); c.eq(k[v], s.count(v) ? lb : -1, "index of a key"); c.eq(k.comp(v, 99), s.count(v) ? lb : 99, "index of a key"); if (s.count(v)) c.eq(k.decomp(lb), v, "key of an index");
        c.eq(k.min_gt(v, D), at(ub), "smallest key above"); c.eq(k.min_geq(v, D), at(lb), "smallest key at least"); c.eq(k.max_lt(v, D), at(lb - 1), "largest key below"); c.eq(k.max_leq(v, D), at(ub - 1), "largest key at most"); c.eq(k.min_gt_index(v), ub, "index above"); c.eq(k.min_geq_index(v), lb, "index at least"); c.eq(k.max_lt_index(v), lb - 1, "index below"); c.eq(k.max_leq_index(v), ub - 1, "index at most"); }
    static u64 hash(const Model& m) { return hash_seq(m.first) * 31 + hash_seq(m.second); }
};
struct HullModel { std::set<int> xs; std::set<std::pair<int, int>> p; };
struct Hull : Kind<Hull, suisen::DynamicConvexHullOffline, HullModel> {
    using T = suisen::DynamicConvexHullOffline; using Pt = std::pair<int, int>;
    static Model gen(Rng& r, i64 sc) { Model m; i64 span = sc == 3 ? 1000000000 : sc == 2 ? 40 : 4; for (size_t k = 1 + std::min<size_t>(size_for(r, sc), 25); k-- > 0;) m.xs.insert((int) sgn(r, span)); return m; }
    static T* build(Rng& r, const Model& m) { Seq x(m.xs.begin(), m.xs.end()); if (r.chance(1, 2)) x.insert(x.end(), x.begin(), x.begin() + (long) (x.size() / 2)); std::reverse(x.begin(), x.end()); return new T(x); }
    static bool change(Ctx&, Rng& r, T& t, Model& m, Go&) { for (int k = 0; k < 3; ++k) { if (m.p.size() && r.chance(1, 3)) { auto it = std::next(m.p.begin(), (long) r.below(m.p.size())); t.erase(it->first, it->second); m.p.erase(it); continue; } int x = *std::next(m.xs.begin(), (long) r.below(m.xs.size())); int y = (int) sgn(r, r.chance(1, 2) ? 4 : *m.xs.rbegin() > 1000 ? 1000000000 : 40); if (m.p.insert({ x, y }).second) t.insert(x, y); } return true; }
    static int det(Pt o, Pt a, Pt b) { __int128 v = (__int128) (a.first - (i64) o.first) * (b.second - (i64) o.second) - (__int128) (a.second - (i64) o.second) * (b.first - (i64) o.first); return v > 0 ? 1 : v < 0 ? -1 : 0; }
    static void check(Ctx& c, Rng& r, T& t, const Model& m, Go&) {
        if (m.p.size()) { int a = (int) sgn(r, r.chance(1, 2) ? 3 : 1000000000), b = (int) sgn(r, r.chance(1, 2) ? 3 : 1000000000); i64 hi = INT64_MIN, lo = INT64_MAX; for (auto& [x, y] : m.p) { i64 v = (i64) a * x + (i64) b * y; hi = std::max(hi, v); lo = std::min(lo, v); } c.eq(t.linear_max(a, b), hi, "largest linear value"); c.eq(t.linear_min(a, b), lo, "smallest linear value"); }
        // all points on the upper (lower) side: for each x the extreme point, if no chord passes above (below) it
        std::map<int, std::pair<int, int>> e; for (auto& [x, y] : m.p) { auto it = e.emplace(x, std::make_pair(y, y)).first; it->second.first = std::min(it->second.first, y); it->second.second = std::max(it->second.second, y); }
        auto side = [&](int sign) { std::vector<Pt> h; for (auto& [x, b] : e) { Pt q{ x, sign > 0 ? b.second : -b.first }; while (h.size() >= 2 && det(h[h.size() - 2], h.back(), q) > 0) h.pop_back(); h.push_back(q); } for (auto& q : h) q.second *= sign; return h; };
        auto up = side(1), lo = side(-1); c.require(t.get_upper_hull() == up, "upper hull", "the points differ"); c.require(t.get_lower_hull() == lo, "lower hull", "the points differ");
        auto all = t.get_hull(); std::set<Pt> got(all.begin(), all.end()), want(up.begin(), up.end()); want.insert(lo.begin(), lo.end()); if (e.size()) for (auto& q : m.p) if (q.first == e.begin()->first || q.first == e.rbegin()->first) want.insert(q); c.eq(all.size(), got.size(), "points of the hull named once"); c.require(got == want, "hull", "the points differ"); }
    static u64 hash(const Model& m) { u64 h = m.xs.size(); for (auto& [x, y] : m.p) h = sim::mix64(h * 31 + (u64) x * 7 + (u64) y); return h; }
};
struct Xor : Kind<Xor, suisen::XorBase<u64>, std::vector<u64>> {
    using T = suisen::XorBase<u64>; // model: reduced basis, highest bit first
    static u64 reduce(const Model& b, u64 v) { for (u64 x : b) v = std::min(v, v ^ x); return v; }
    static bool insert(Model& b, u64 v) { v = reduce(b, v); if (!v) return false; for (auto& x : b) x = std::min(x, x ^ v); b.push_back(v); std::sort(b.rbegin(), b.rend()); return true; }
    static u64 value(Rng& r) { switch (r.below(4)) { case 0: return r.below(8); case 1: return r.below(256); case 2: return 1ull << r.below(64); default: return r.next() & (r.chance(1, 2) ? 0xff000000000000ffull : ~0ull); } }
    static Model gen(Rng& r, i64) { Model b; u64 k = r.below(8); if (r.chance(2, 3)) { u64 dim = 2 + r.below(6); static const u64 gen[7] = { 3, 5, 0x8000000000000009ull, 0x6, 0xff0, 0x8000000000000100ull, 0x7000000000000000ull }; for (; k-- > 0;) { u64 v = 0; for (u64 j = 0; j < dim; ++j) if (r.chance(1, 2)) v ^= r.chance(1, 40) ? value(r) : gen[j]; insert(b, v); } return b; } // spaces that meet
        for (; k-- > 0;) insert(b, value(r)); return b; }
    static T* build(Rng& r, const Model& m) { if (m.empty() && r.chance(1, 2)) return new T; Model a = m; for (size_t i = a.size(); i-- > 1;) std::swap(a[i], a[r.below(i + 1)]); for (size_t k = 1; k < a.size(); ++k) if (r.chance(1, 2)) a[k] ^= a[k - 1]; if (a.size()) a.push_back(a[0]); return new T(a); }
    static Model meet(const Model& a, const Model& b) { Model res; std::vector<std::pair<u64, u64>> z; for (u64 x : a) z.emplace_back(x, x); for (u64 x : b) z.emplace_back(x, 0); // Zassenhaus
        for (size_t i = 0; i < z.size(); ++i) { size_t p = i; for (size_t j = i; j < z.size(); ++j) if (z[j].first > z[p].first) p = j; if (z[p].first == 0) { for (size_t j = i; j < z.size(); ++j) insert(res, z[j].second); break; } std::swap(z[i], z[p]); for (size_t j = i + 1; j < z.size(); ++j) if ((z[j].first ^ z[i].first) < z[j].first) { z[j].first ^= z[i].first; z[j].second ^= z[i].second; } } return res; }
    static void same(Ctx& c, const T& t, const Model& m) { c.eq((size_t) t.dim(), m.size(), "dimension"); Model b; for (u64 x : t.get_basis()) c.require(insert(b, x), "basis", "a dependent vector in the basis"); c.require(b == m, "span", "the span differs"); }
    static bool change(Ctx& c, Rng& r, T& t, Model& m, Go& go) { u64 v = value(r); if (m.size() && r.chance(1, 4)) v = m[r.below(m.size())] ^ m[r.below(m.size())]; if (r.chance(2, 3)) { bool in = reduce(m, v) != 0, got = in; if (go(1, [&] { if (r.chance(1, 2)) got = t.add(v); else t += v; }, 1)) { c.eq(got, in, "independent"); insert(m, v); } return true; }
        Model o = gen(r, 0); std::unique_ptr<T> q(build(r, o)); if (r.chance(1, 2)) { if (go(1, [&] { t &= *q; }, 4)) m = meet(m, o); } else { t += *q; for (u64 x : o) insert(m, x); } return true; }
    static void check(Ctx& c, Rng& r, T& t, const Model& m, Go& go) { same(c, t, m); Model o = gen(r, 0); std::unique_ptr<T> q(build(r, o)); T x; if (go(1, [&] { x = t + *q; }, 4)) { Model w = m; for (u64 y : o) insert(w, y); same(c, x, w); } if (go(1, [&] { x = t & *q; }, 4)) same(c, x, meet(m, o)); same(c, t & t, m); T y = t; y += y; same(c, y, m); u64 v = value(r); Model w = m; insert(w, v); same(c, t + v, w); }
};
template <bool SEG> struct Compare : Kind<Compare<SEG>, suisen::CompareSubstring<>, std::string> {
    using T = suisen::CompareSubstring<>; using Model = std::string;
    static Model gen(Rng& r, i64 sc) { Model s; size_t n = 1 + std::min<size_t>(size_for(r, sc), 80); u64 k = 1 + r.below(3); while (s.size() < n) { if (s.size() > 3 && r.chance(1, 5)) s += s.substr(0, r.below(s.size())); else s += (char) ('a' + r.below(k)); } s.resize(n); return s; }
    static T* build(Rng& r, const Model& m) { switch (r.below(3)) { case 0: return new T(m); case 1: return new T(std::vector<int>(m.begin(), m.end()), 127); default: return new T(std::vector<i64>(m.begin(), m.end())); } }
    static void check(Ctx& c, Rng& r, T& t, const Model& m, Go&) { auto [a, b] = range(r, m.size()); auto [d, e] = range(r, m.size()); if (r.chance(1, 4)) { d = a; } if (d > e) e = d; std::string x = m.substr((size_t) a, (size_t) (b - a)), y = m.substr((size_t) d, (size_t) (e - d)); int k = 0; while (k < (int) std::min(x.size(), y.size()) && x[(size_t) k] == y[(size_t) k]) ++k; int w = x < y ? -1 : x > y ? 1 : 0; c.eq(t.lcp(a, b, d, e), k, "common prefix"); c.eq(t.compare(a, b, d, e), w, "order of two substrings"); c.eq(t(std::make_pair(a, b), std::make_pair(d, e)), w, "order of two substrings"); auto p = t.substr(a, b), q = t.substr(std::make_pair(d, e)); c.eq(p.size(), b - a, "length"); c.eq(p.lcp(q), k, "common prefix"); c.require((p < q) == (w < 0) && (p <= q) == (w <= 0) && (p > q) == (w > 0) && (p >= q) == (w >= 0) && (p == q) == (w == 0) && (p != q) == (w != 0), "order of two substrings", "comparisons differ"); }
};
#define W26(n, K, real) sim::RegisterWorld r_##n(multi::def<K>("C26", #n, real));
using WM6 = Wavelet<int, 6, false>; using WM20 = Wavelet<uint32_t, 20, false>; using WM62 = Wavelet<i64, 62, false>; using CWM = Wavelet<i64, 13, true>;
W26(sparse_table, Sparse, "sparse_table.hpp") W26(bit_vector, Bits, "bit_vector.hpp") W26(wavelet6, WM6, "wavelet_matrix.hpp, bit_vector.hpp") W26(wavelet20, WM20, "wavelet_matrix.hpp, bit_vector.hpp") W26(wavelet62, WM62, "wavelet_matrix.hpp, bit_vector.hpp") W26(wavelet_compressed, CWM, "compressed_wavelet_matrix.hpp, wavelet_matrix.hpp, coordinate_compressor.hpp")
W26(rmq_pm1_min, Pm1<true>, "rmq_pm1.hpp, sparse_table.hpp") W26(rmq_pm1_max, Pm1<false>, "rmq_pm1.hpp, sparse_table.hpp") W26(rmq_pm1_index_min, Pm1Index<true>, "rmq_pm1_with_index.hpp, sparse_table.hpp") W26(rmq_pm1_index_max, Pm1Index<false>, "rmq_pm1_with_index.hpp, sparse_table.hpp")
W26(cartesian_min, Cartesian<true>, "cartesian_tree.hpp") W26(cartesian_max, Cartesian<false>, "cartesian_tree.hpp") W26(permutation_tree, Perm, "permutation_tree.hpp") W26(cumulative_sum, Sums, "cumulative_sum.hpp") W26(cumulative_sum_2d, Grid, "cumulative_sum_2d.hpp") W26(step_sum, Steps, "step_sum.hpp, barrett_reduction.hpp")
W26(range_inversions, Inversions, "static_range_inversion_number_query.hpp") W26(range_mode, Mode, "static_range_mode_query.hpp") W26(range_mex, Mex, "static_range_xored_mex_query.hpp, bit_vector.hpp") W26(range_distinct, Distinct, "static range_count_distinct.hpp") W26(rectangles_points, Rects, "offline_rectangle_add_point_get.hpp") W26(rectangle_sums, RectSums, "static_rectangle_add_rectangle_sum.hpp, fenwick_tree.hpp")
W26(compressor, Compressor, "coordinate_compressor.hpp") W26(dynamic_hull, Hull, "dynamic_convex_hull_offline.hpp") W26(xor_base, Xor, "xor_base.hpp") W26(compare_substring, Compare<false>, "compare_substring.hpp, sparse_table.hpp")
}
