// C27: indexes and dynamic programs over trees: many alive, built under memory failures, rebuilt, copied, moved and queried.
#include "sim.hpp"
#include <algorithm>
#include <array>
#include <map>
#include <numeric>
#include <set>
#include "index_kind.hpp"
#include "library/tree/lowest_common_ancestor.hpp"
#include "library/tree/euler_tour.hpp"
#include "library/tree/level_ancestor.hpp"
#include "library/tree/heavy_light_decomposition.hpp"
#include "library/tree/auxiliary_tree.hpp"
#include "library/tree/centroid_decomposition.hpp"
#include "library/tree/find_centroid.hpp"
#include "library/tree/get_path.hpp"
#include "library/tree/frequency_table_of_tree_distance.hpp"
#include "library/tree/rerooting.hpp"
#include "library/tree/rerooting_invertible.hpp"
#include "library/tree/static_top_tree.hpp"
#include "library/number/stern_brocot_tree.hpp"
namespace {
using Adj = std::vector<std::vector<int>>; using Ints = std::vector<int>;
// A forest with one root per component.
struct Tree {
    int n = 0; std::vector<std::array<int, 2>> edges; Adj g; Ints roots, par, dep, ord; std::vector<u64> vw, ew;
    size_t size() const { return (size_t) n; }
    void derive() { par.assign(size(), -2); dep.assign(size(), 0); ord.clear(); for (int r : roots) { size_t h = ord.size(); par[(size_t) r] = -1; ord.push_back(r); for (; h < ord.size(); ++h) { int u = ord[h]; for (int v : g[(size_t) u]) if (par[(size_t) v] == -2) par[(size_t) v] = u, dep[(size_t) v] = dep[(size_t) u] + 1, ord.push_back(v); } } }
    int P(int u) const { return par[(size_t) u]; } int D(int u) const { return dep[(size_t) u]; }
    int root_of(int u) const { while (P(u) >= 0) u = P(u); return u; }
    int lca(int u, int v) const { while (u != v) { if (D(u) < D(v)) std::swap(u, v); if (P(u) < 0) return -1; u = P(u); } return u; }
    bool above(int u, int v) const { while (v >= 0 && D(v) > D(u)) v = P(v); return u == v; }
    int up(int u, i64 k, int d = -1) const { if (k < 0) return d; while (u >= 0 && k-- > 0) u = P(u); return u < 0 ? d : u; }
    Ints path(int u, int v) const { Ints a, b; int w = lca(u, v); for (; u != w; u = P(u)) a.push_back(u); a.push_back(w); for (; v != w; v = P(v)) b.push_back(v); a.insert(a.end(), b.rbegin(), b.rend()); return a; }
};
u64 tree_hash(const Tree& t) { u64 h = (u64) t.n; for (auto& e : t.edges) h = sim::mix64(h * 31 + (u64) e[0] * 1009 + (u64) e[1]); for (int r : t.roots) h = sim::mix64(h + (u64) r); return h; }
Tree tree(Rng& r, i64 sc, bool forest = false, size_t cap = 100000) {
    Tree t; t.n = (int) std::min(cap, std::max<size_t>(1, size_for(r, sc))); size_t n = t.size(); Ints id(n); std::iota(id.begin(), id.end(), 0); if (r.chance(2, 3)) for (size_t i = n; i-- > 1;) std::swap(id[i], id[r.below(i + 1)]); if (r.chance(1, 3) && n > 1) std::swap(id[0], id[r.below(n)]);
    u64 md = r.below(7), comps = forest && r.chance(1, 2) ? 1 + r.below(5) : 1; Ints top(n); for (size_t i = 0; i < n; ++i) top[i] = (int) i;
    for (size_t i = 1; i < n; ++i) { if (comps > 1 && r.chance(comps, n)) continue; size_t p = md == 0 ? i - 1 : md == 1 ? 0 : md == 2 ? (i - 1) / 2 : md == 3 ? (i * 2 < n ? i - 1 : n / 2 ? n / 2 - 1 : 0) : md == 4 ? i - 1 - (i > 1 && i % 2) : md == 5 ? i - 1 - r.below(std::min<size_t>(i, 4)) : r.below(i); top[i] = top[p]; int a = id[i], b = id[p]; if (r.chance(1, 2)) std::swap(a, b); t.edges.push_back({ a, b }); }
    for (size_t i = t.edges.size(); i-- > 1;) if (r.chance(1, 2)) std::swap(t.edges[i], t.edges[r.below(i + 1)]);
    t.g.resize(n); for (auto& e : t.edges) t.g[(size_t) e[0]].push_back(e[1]), t.g[(size_t) e[1]].push_back(e[0]); for (auto& a : t.g) for (size_t i = a.size(); i-- > 1;) std::swap(a[i], a[r.below(i + 1)]);
    // one root per component: any vertex of it
    std::map<int, Ints> c; for (size_t i = 0; i < n; ++i) c[top[i]].push_back(id[i]); bool low = r.chance(1, 2); for (auto& [k, v] : c) t.roots.push_back(low ? *std::min_element(v.begin(), v.end()) : v[r.below(v.size())]); if (low) std::sort(t.roots.begin(), t.roots.end()); else for (size_t i = t.roots.size(); i-- > 1;) std::swap(t.roots[i], t.roots[r.below(i + 1)]);
    t.derive(); t.vw.resize(n); t.ew.resize(t.edges.size()); for (auto& x : t.vw) x = r.next() >> r.below(60); for (auto& x : t.ew) x = r.next() >> r.below(60);
    return t;
}
int pick(Rng& r, const Tree& m) { return r.chance(1, 6) ? m.ord[m.size() - 1 - r.below(std::min<u64>(3, m.size()))] : r.chance(1, 8) ? m.roots[r.below(m.roots.size())] : (int) r.below(m.size()); }
int mate(Rng& r, const Tree& m, int u) { int a = m.root_of(u); for (int k = 0; k < 20; ++k) { int v = pick(r, m); if (m.root_of(v) == a) return v; } return r.chance(1, 2) ? u : a; }
template <typename D, typename T> struct TreeKind : Kind<D, T, Tree> { static Tree gen(Rng& r, i64 sc) { return tree(r, sc); } static u64 hash(const Tree& m) { return tree_hash(m); } };
bool rooted_low(const Tree& m) { for (int r : m.roots) for (size_t v = 0; v < (size_t) r; ++v) if (m.root_of((int) v) == r) return false; return std::is_sorted(m.roots.begin(), m.roots.end()); }
template <typename T, typename G> T* with_root(Rng& r, const G& g, int root) { if (root == 0 && r.chance(1, 2)) return new T(g); return new T(g, root); }

struct Lca : TreeKind<Lca, suisen::LowestCommonAncestor> {
    static T* build(Rng& r, const Tree& m) { return with_root<T>(r, m.g, m.roots[0]); }
    static void check(Ctx& c, Rng& r, T& t, const Tree& m, Go&) { int u = pick(r, m), v = pick(r, m), w = m.lca(u, v); c.eq(r.chance(1, 2) ? t(u, v) : t.lca(u, v), w, "lowest common ancestor"); c.eq(t.dist(u, v), m.D(u) + m.D(v) - 2 * m.D(w), "distance"); }
};
struct Euler : TreeKind<Euler, Box<suisen::EulerTour>> {
    static T* build(Rng& r, const Tree& m) {
        using E = suisen::EulerTour; int root = m.roots[0]; auto b = std::make_unique<T>();
        switch (r.below(3)) { case 0: b->p.reset(with_root<E>(r, m.g, root)); break;
        case 1: { const Adj& g = m.g; b->p.reset(new E([&g](int u, auto f) { for (int v : g[(size_t) u]) f(v); }, m.n, root)); break; }
        default: { std::vector<std::vector<std::pair<int, int>>> h(m.size()); for (size_t u = 0; u < m.size(); ++u) for (int v : m.g[u]) h[u].emplace_back(7, v); b->p.reset(new E(h, [](const std::pair<int, int>& e) { return e.second; }, root)); } }
        return b.release(); }
    static void check(Ctx& c, Rng& r, T& b, const Tree& m, Go&) {
        auto& t = *b.p; int u = pick(r, m), v = pick(r, m), w = m.lca(u, v); c.eq(t.lca(u, v), w, "lowest common ancestor"); c.eq(t.dist(u, v), m.D(u) + m.D(v) - 2 * m.D(w), "distance"); c.eq(t.depth(u), m.D(u), "depth"); c.eq(t.parent(u), m.P(u), "parent");
        int a = t.visit_time(u), z = t.leave_time(u), x = t.visit_time(v), y = t.leave_time(v); c.require(0 <= a && a < z && z < 2 * m.n, "times", "times of a vertex out of order"); if (u != v) { bool in = m.above(u, v), out = m.above(v, u); c.eq(a < x && y < z, in, "the times of a descendant lie within those of its ancestor"); c.require(in || out || z < x || y < a, "times", "unrelated vertices overlap in time"); } }
};
struct Level : TreeKind<Level, suisen::LevelAncestor> {
    static T* build(Rng& r, const Tree& m) { return with_root<T>(r, m.g, m.roots[0]); }
    static void check(Ctx& c, Rng& r, T& t, const Tree& m, Go&) { int u = pick(r, m), v = pick(r, m), k = (int) r.below((u64) m.D(u) + 3) - 1; c.eq(r.chance(1, 2) ? t(u, k) : t.query(u, k), m.up(u, k), "k-th ancestor"); c.eq(t.get_depth(u), m.D(u), "depth"); int a = t.get_visit_time(u); c.require(0 <= a && a < m.n, "time", "time out of range"); c.eq(t.get_visit_time_inv(a), u, "vertex visited at its time"); c.eq(t.get_kth_visited(a), u, "k-th visited vertex"); if (m.P(v) >= 0) c.require(t.get_visit_time(m.P(v)) < t.get_visit_time(v), "time", "a vertex visited before its parent"); }
};
int lg(int n) { int k = 0; while ((1 << k) < n) ++k; return k; }
struct Hld : TreeKind<Hld, suisen::HeavyLightDecomposition> {
    static Tree gen(Rng& r, i64 sc) { return tree(r, sc, true); }
    static T* build(Rng& r, const Tree& m) { Adj g = m.g; std::unique_ptr<T> t(rooted_low(m) && r.chance(1, 2) ? new T(g) : new T(g, m.roots)); Adj h = m.g; for (auto& a : g) std::sort(a.begin(), a.end()); for (auto& a : h) std::sort(a.begin(), a.end()); if (g != h) throw std::logic_error("the graph lost edges"); return t.release(); }
    static void check(Ctx& c, Rng& r, T& t, const Tree& m, Go& go) {
        if (r.chance(1, 8)) { sim::scribble_stack(); T d; c.eq(d.size(), 0, "size of a default-constructed object"); d = t; c.eq(d.size(), m.n, "size"); }
        c.eq(t.size(), m.n, "size"); int u = pick(r, m), v = mate(r, m, u), w = m.lca(u, v), d = m.D(u) + m.D(v) - 2 * m.D(w); c.eq(t.lca(u, v), w, "lowest common ancestor"); c.eq(t.dist(u, v), d, "distance"); c.eq(t.get_depth(u), m.D(u), "depth"); c.eq(t.get_parent(u), m.P(u), "parent");
        int df = (int) r.below(3) - 2, k = (int) r.below((u64) m.D(u) + 3) - 1; c.eq(r.chance(1, 2) || df == -1 ? t.la(u, k, df) : t.la(u, k, df), m.up(u, k, df), "k-th ancestor"); Ints p = m.path(u, v); k = (int) r.below(p.size() + 2) - 1; c.eq(t.jump(u, v, k, df), k < 0 || k > d ? df : p[(size_t) k], "k-th vertex of a path");
        int a = t.get_visit_time(u), z = t.get_leave_time(u), sz = 0; for (int x : m.ord) sz += m.above(u, x); c.eq(z - a, sz, "size of a subtree by times"); c.eq(t.get_subtree_size(u), sz, "size of a subtree"); c.eq(t.get_kth_visited(a), u, "k-th visited vertex"); c.eq(a <= t.get_visit_time(v) && t.get_visit_time(v) < z, m.above(u, v), "vertices of a subtree");
        int h = t.get_head(u); c.require(m.above(h, u), "head", "not above its vertex"); c.eq(a - t.get_visit_time(h), m.D(u) - m.D(h), "heavy paths are consecutive"); int hops = 0; for (int x = u; x >= 0; x = m.P(t.get_head(x))) ++hops; c.require(hops <= lg(m.n) + 1, "paths", "more heavy paths above a vertex than the logarithm of the size");
        if (r.chance(1, 6)) { Ints inv = t.inv_ids(), seen; c.eq(inv.size(), m.size(), "inverse size"); for (size_t i = 0; i < inv.size(); ++i) c.eq(t.get_visit_time(inv[i]), (int) i, "inverse of the visit times"); Ints ro = m.roots; std::sort(ro.begin(), ro.end()); c.require(t.get_roots() == ro, "roots", "roots differ"); }
        // folds over paths and subtrees, as lists of vertices; the user's functions may throw
        bool edge = r.chance(1, 2); auto list = [&](int l, int x) { sim::callback(); c.require(0 <= l && l <= x && x <= m.n, "interval", "interval out of range"); Ints s; for (; l < x; ++l) s.push_back(t.get_kth_visited(l)); return s; }; auto back = [&](int l, int x) { Ints s = list(l, x); std::reverse(s.begin(), s.end()); return s; }; auto cat = [&](Ints x, Ints y) { sim::callback(); x.insert(x.end(), y.begin(), y.end()); return x; };
        Ints q = p; if (edge) q.erase(std::find(q.begin(), q.end(), w)); Ints got;
        if (go(3, [&] { got = t.fold_path_noncommutative(u, v, Ints{}, cat, list, back, edge); }, 12)) c.require(got == q, "path", "the fold over a path does not follow it");
        std::sort(q.begin(), q.end()); if (go(3, [&] { got = t.fold_path(u, v, Ints{}, cat, list, edge); }, 12)) { std::sort(got.begin(), got.end()); c.require(got == q, "path", "the fold over a path misses or repeats vertices"); }
        got.clear(); t.update_path(u, v, [&](int l, int x) { Ints s = list(l, x); got.insert(got.end(), s.begin(), s.end()); }, edge); std::sort(got.begin(), got.end()); c.require(got == q, "path", "the update of a path misses or repeats vertices");
        Ints sub; for (int x : m.ord) if (m.above(u, x) && !(edge && x == u)) sub.push_back(x); std::sort(sub.begin(), sub.end()); got = t.fold_subtree<Ints>(u, list, edge); std::sort(got.begin(), got.end()); c.require(got == sub, "subtree", "the fold over a subtree differs"); got.clear(); t.update_subtree(u, [&](int l, int x) { got = list(l, x); }, edge); std::sort(got.begin(), got.end()); c.require(got == sub, "subtree", "the update of a subtree differs");
        c.eq(t.get_point<int>(u, [&](int i) { return t.get_kth_visited(i); }), u, "value of a vertex"); int at = -1; t.update_point(u, [&](int i) { at = i; }); c.eq(at, a, "position of a vertex"); }
};
struct AuxT { suisen::AuxiliaryTree a; std::set<int> keys; bool any = false; };
struct Aux : TreeKind<Aux, AuxT> {
    static Tree gen(Rng& r, i64 sc) { return tree(r, sc); }
    static T* build(Rng& r, const Tree& m) { (void) r; Adj g = m.g; suisen::HeavyLightDecomposition h(g, m.roots); return new T{ suisen::AuxiliaryTree(h), {}, false }; }
    static bool change(Ctx&, Rng& r, T& t, Tree& m, Go& go) {
        for (int k = 0; k < 2; ++k) { std::set<int> s; size_t w = 1 + r.below(r.chance(1, 4) ? m.size() : 6); for (size_t i = 0; i < w; ++i) s.insert(pick(r, m)); Ints vs(s.begin(), s.end()); for (size_t i = vs.size(); i-- > 1;) std::swap(vs[i], vs[r.below(i + 1)]);
            if (go(k == 0 ? 1 : 0, [&] { t.a.build(vs); }, 1 << r.below(5))) { t.keys = s; t.any = true; return true; } }
        return true; }
    static void check(Ctx& c, Rng& r, T& t, const Tree& m, Go&) {
        std::set<int> s = t.keys; for (int u : t.keys) for (int v : t.keys) if (t.keys.size() <= 8 || r.chance(1, 4)) s.insert(m.lca(u, v)); if (t.keys.size() > 8) { Ints o(t.keys.begin(), t.keys.end()); std::sort(o.begin(), o.end(), [&](int x, int y) { return t.a.get_hld().get_visit_time(x) < t.a.get_hld().get_visit_time(y); }); for (size_t i = 1; i < o.size(); ++i) s.insert(m.lca(o[i - 1], o[i])); }
        std::map<int, std::multiset<int>> adj; for (int u : s) { int p = m.P(u); while (p >= 0 && !s.count(p)) p = m.P(p); if (p >= 0) adj[u].insert(p), adj[p].insert(u); }
        for (int u = 0; u < m.n; ++u) { std::multiset<int> g(t.a[u].begin(), t.a[u].end()); c.require(g == adj[u], "auxiliary tree", "the neighbours of vertex " + std::to_string(u) + " differ"); } }
};
// components left when all centroids of smaller depth are removed
template <typename F> Ints region(const Tree& m, int c, F&& blocked) { Ints s{ c }; std::set<int> seen{ c }; for (size_t i = 0; i < s.size(); ++i) for (int v : m.g[(size_t) s[i]]) if (!blocked(v) && seen.insert(v).second) s.push_back(v); return s; }
template <typename T> void check_centroids(Ctx& c, const T& t, const Tree& m, int u) {
    int d = t.dct_depth(u); c.require(d >= 0 && d <= lg(m.n + 1), "depth", "depth of the decomposition exceeds the logarithm of the size"); auto gone = [&](int v) { return t.dct_depth(v) < d; }; Ints s = region(m, u, gone); c.eq(t.dct_size(u), (int) s.size(), "size of a component"); int best = -1; for (int v : s) { if (v != u) c.require(t.dct_depth(v) > d, "depth", "two centroids in one component"); for (int w : m.g[(size_t) v]) if (gone(w) && (best < 0 || t.dct_depth(w) > t.dct_depth(best))) best = w; }
    c.eq(t.dct_parent(u), best, "parent in the decomposition"); c.eq(d, best < 0 ? 0 : t.dct_depth(best) + 1, "depth in the decomposition"); for (int v : m.g[(size_t) u]) if (!gone(v)) { Ints q = region(m, v, [&](int x) { return gone(x) || x == u; }); c.require(q.size() * 2 <= s.size(), "centroid", "a part larger than half"); } }
template <typename V, typename W> std::vector<std::vector<std::pair<int, V>>> parts(const Tree& m, int u, const std::vector<int>& depth, V init, W&& weigh) {
    std::vector<std::vector<std::pair<int, V>>> res{ { { u, init } } }; for (int s : m.g[(size_t) u]) if (depth[(size_t) s] > depth[(size_t) u]) { std::vector<std::pair<int, V>> q; std::vector<std::tuple<int, int, V>> st{ { s, u, weigh(init, u, s) } }; while (st.size()) { auto [x, p, w] = st.back(); st.pop_back(); q.emplace_back(x, w); for (int y : m.g[(size_t) x]) if (y != p && depth[(size_t) y] > depth[(size_t) u]) st.emplace_back(y, x, weigh(w, x, y)); } std::sort(q.begin(), q.end()); res[0].insert(res[0].end(), q.begin(), q.end()); res.push_back(q); }
    std::sort(res[0].begin(), res[0].end()); std::sort(res.begin() + 1, res.end()); return res; }
struct Centroid : TreeKind<Centroid, suisen::CentroidDecompositionUnweighted> {
    static T* build(Rng&, const Tree& m) { std::vector<std::pair<int, int>> e; for (auto& x : m.edges) e.emplace_back(x[0], x[1]); return new T(suisen::UnweightedGraph::create_undirected_graph(m.n, e)); }
    static void check(Ctx& c, Rng& r, T& t, const Tree& m, Go& go) { int u = pick(r, m), off = (int) r.below(5) - 2; c.eq((int) t.size(), m.n, "size"); check_centroids(c, t, m, u); Ints dp; for (int i = 0; i < m.n; ++i) dp.push_back(t.dct_depth(i)); std::vector<std::vector<std::pair<int, int>>> g; if (go(1, [&] { g = off ? t.collect(u, off) : t.collect(u); }, 16)) { for (auto& x : g) std::sort(x.begin(), x.end()); std::sort(g.begin() + 1, g.end()); c.require(g == parts(m, u, dp, off, [](int w, int, int) { return w + 1; }), "parts", "the parts around a centroid differ"); } }
};
u64 along(u64 w, u64 e) { return sim::mix64(w * 3 + e); }
struct CentroidW : TreeKind<CentroidW, suisen::CentroidDecompositionWeighted<u64>> {
    static T* build(Rng&, const Tree& m) { std::vector<std::tuple<int, int, u64>> e; for (size_t i = 0; i < m.edges.size(); ++i) e.emplace_back(m.edges[i][0], m.edges[i][1], m.ew[i]); return new T(suisen::WeightedGraph<u64>::create_undirected_graph(m.n, e)); }
    static void check(Ctx& c, Rng& r, T& t, const Tree& m, Go& go) { int u = pick(r, m); u64 off = r.next(); check_centroids(c, t, m, u); Ints dp; for (int i = 0; i < m.n; ++i) dp.push_back(t.dct_depth(i)); std::map<std::pair<int, int>, u64> ew; for (size_t i = 0; i < m.edges.size(); ++i) ew[{ m.edges[i][0], m.edges[i][1] }] = ew[{ m.edges[i][1], m.edges[i][0] }] = m.ew[i];
        std::vector<std::vector<std::pair<int, u64>>> g; if (go(3, [&] { g = t.collect(u, [](u64 w, u64 e) { sim::callback(); return along(w, e); }, off); }, 16)) { for (auto& x : g) std::sort(x.begin(), x.end()); std::sort(g.begin() + 1, g.end()); c.require(g == parts(m, u, dp, off, [&](u64 w, int x, int y) { return along(w, ew[{ x, y }]); }), "parts", "the parts around a centroid differ"); } }
};
// Functions of a tree; the graph itself is what is copied and moved.
struct Free : TreeKind<Free, Adj> {
    static Tree gen(Rng& r, i64 sc) { if (sc == 3 && r.chance(1, 40)) { Tree t; t.n = 40000 + (int) r.below(40000); int k = 1 + (int) r.below(4); t.roots = { 0 }; t.g.resize(t.size()); t.vw.resize(t.size()); for (int i = 1; i < t.n; ++i) { int p = i <= k ? i - 1 : k - (i % 7 == 0 && k > 1); t.edges.push_back({ i, p }); t.g[(size_t) i].push_back(p); t.g[(size_t) p].push_back(i); } t.ew.resize(t.edges.size()); t.derive(); return t; } return tree(r, sc); }
    static T* build(Rng&, const Tree& m) { return new Adj(m.g); }
    static bool change(Ctx& c, Rng& r, T&, Tree& m, Go& go) {
        if (!r.chance(1, 2)) return false; std::vector<std::pair<int, int>> e; for (auto& x : m.edges) e.emplace_back(x[0], x[1]); std::vector<long long> got, want(m.size()); if (!go(1, [&] { got = suisen::frequency_table_of_tree_distance(m.size(), e); }, 32)) return true; c.eq(got.size(), m.size(), "size of the table");
        if (m.n <= 200) { for (int u = 0; u < m.n; ++u) for (int v = u; v < m.n; ++v) want[(size_t) (m.D(u) + m.D(v) - 2 * m.D(m.lca(u, v)))]++; }
        else { // small to large over arrays of depths
            std::vector<std::vector<long long>> f(m.size()); for (size_t i = m.ord.size(); i-- > 0;) { int u = m.ord[i]; auto& a = f[(size_t) u]; if (a.empty()) a = { 1 }; else ++a[0]; want[0]++; for (size_t d = 1; d < a.size(); ++d) want[d] += a[d]; if (m.P(u) >= 0) { auto& b = f[(size_t) m.P(u)]; a.insert(a.begin(), 0); if (b.empty()) b = { 0 }; for (size_t x = 1; x < a.size(); ++x) for (size_t y = 1; y < b.size(); ++y) want[x + y] += a[x] * b[y]; if (b.size() < a.size()) b.resize(a.size()); for (size_t x = 1; x < a.size(); ++x) b[x] += a[x]; a.clear(); } } }
        for (size_t k = 1; k < m.size(); ++k) if (got[k] != want[k]) c.eq(got[k], want[k], "number of pairs at a distance"); return true; }
    static void check(Ctx& c, Rng& r, T& t, const Tree& m, Go& go) {
        int u = pick(r, m), v = pick(r, m); if (m.n > 1000) return; Ints p; if (go(1, [&] { p = suisen::get_tree_path(t, u, v); }, 6)) c.require(p == m.path(u, v), "path", "not the path between two vertices");
        Ints q; if (go(1, [&] { q = suisen::find_centroids(t); }, 6)) { std::sort(q.begin(), q.end()); Ints sz(m.size(), 1), mx(m.size(), 0), want; for (size_t i = m.ord.size(); i-- > 0;) { size_t x = (size_t) m.ord[i]; mx[x] = std::max(mx[x], m.n - sz[x]); if (m.par[x] >= 0) { size_t y = (size_t) m.par[x]; sz[y] += sz[x]; mx[y] = std::max(mx[y], sz[x]); } } for (int x = 0; x < m.n; ++x) if (2 * mx[(size_t) x] <= m.n) want.push_back(x); c.require(q == want, "centroids", "centroids differ"); } }
};
// Rerooting: a hash of the tree seen from each vertex.  V, E: with vertex / edge weights
u64 dp_up(u64 x, u64 vw, u64 ew) { return sim::mix64(x + vw * 3 + ew * 0x9e3779b97f4a7c15ull + 1); } u64 dp_top(u64 x, u64 vw) { return sim::mix64(x * 5 + vw + 7); }
template <bool V, bool E, bool INV> struct Reroot : TreeKind<Reroot<V, E, INV>, std::conditional_t<INV, suisen::internal::rerooting::RerootingInvertible<std::conditional_t<V, u64, std::monostate>, std::conditional_t<E, u64, std::monostate>>, suisen::internal::rerooting::Rerooting<std::conditional_t<V, u64, std::monostate>, std::conditional_t<E, u64, std::monostate>>>> {
    using VW = std::conditional_t<V, u64, std::monostate>; using T = std::conditional_t<INV, suisen::internal::rerooting::RerootingInvertible<VW, std::conditional_t<E, u64, std::monostate>>, suisen::internal::rerooting::Rerooting<VW, std::conditional_t<E, u64, std::monostate>>>;
    static VW vertex(u64 x) { if constexpr (V) return x; else { (void) x; return {}; } }
    static std::vector<VW> weights(const Tree& m) { std::vector<VW> w; for (u64 x : m.vw) w.push_back(vertex(x)); return w; }
    static void edge(T& t, int u, int v, u64 w) { if constexpr (E) t.add_edge(u, v, w); else { (void) w; t.add_edge(u, v); } }
    static Tree gen(Rng& r, i64 sc) { return tree(r, sc, false, 120); }
    static T* build(Rng& r, const Tree& m) { std::unique_ptr<T> t; switch (r.below(3)) { case 0: t = std::make_unique<T>(); if (r.chance(1, 2)) t->reserve(m.n); for (u64 x : m.vw) t->add_vertex(vertex(x)); break; case 1: t = std::make_unique<T>(m.n); t->set_vertex_weights(weights(m)); break; default: t = std::make_unique<T>(weights(m)); } for (size_t i = 0; i < m.edges.size(); ++i) edge(*t, m.edges[i][0], m.edges[i][1], m.ew[i]); return t.release(); }
    static bool change(Ctx&, Rng& r, T& t, Tree& m, Go& go) {
        switch (r.below(3)) { case 0: for (u64& x : m.vw) if (r.chance(1, 2)) x = r.next(); t.set_vertex_weights(weights(m)); return true;
        case 1: { if (m.n > 120) return false; u64 x = r.next(), w = r.next() >> r.below(60); int p = (int) r.below(m.size()), u = m.n; if (!go(1, [&] { t.add_vertex(vertex(x)); }, 2)) return true; while (!go(1, [&] { if (r.chance(1, 2)) edge(t, p, u, w); else edge(t, u, p, w); }, 2)); ++m.n; m.vw.push_back(x); m.ew.push_back(w); m.edges.push_back({ p, u }); m.g.emplace_back(); m.g[(size_t) p].push_back(u); m.g[(size_t) u].push_back(p); m.derive(); return true; }
        default: return false; } }
    static void check(Ctx& c, Rng& r, T& t, const Tree& m, Go& go) {
        auto op = [](u64 a, u64 b) { sim::callback(); return a + b; }; auto e = [] { return (u64) 0; }; auto inv = [](u64 a) { sim::callback(); return 0 - a; }; std::vector<u64> got;
        auto up = [&] { if constexpr (V && E) return [](u64 x, u64 v, u64 w) { sim::callback(); return dp_up(x, v, w); }; else if constexpr (V) return [](u64 x, u64 v) { sim::callback(); return dp_up(x, v, 0); }; else if constexpr (E) return [](u64 x, u64 w) { sim::callback(); return dp_up(x, 0, w); }; else return [](u64 x) { sim::callback(); return dp_up(x, 0, 0); }; }(); auto top = [&] { if constexpr (V) return [](u64 x, u64 v) { sim::callback(); return dp_top(x, v); }; else return [](u64 x) { sim::callback(); return dp_top(x, 0); }; }();
        if (!go(3, [&] { if constexpr (INV) got = t.run_dp(op, e, inv, up, top); else got = t.run_dp(op, e, up, top); }, 40)) return;
        c.eq(got.size(), m.size(), "number of answers"); std::vector<std::vector<std::pair<int, u64>>> g(m.size()); for (size_t i = 0; i < m.edges.size(); ++i) for (int k = 0; k < 2; ++k) g[(size_t) m.edges[i][(size_t) k]].emplace_back(m.edges[i][(size_t) !k], E ? m.ew[i] : 0);
        auto rec = [&](auto self, int u, int p) -> u64 { u64 s = 0; for (auto [v, w] : g[(size_t) u]) if (v != p) s += dp_up(self(self, v, u), V ? m.vw[(size_t) v] : 0, w); return s; };
        for (int k = 0; k < 4; ++k) { int u = pick(r, m); c.eq(got[(size_t) u], dp_top(rec(rec, u, -1), V ? m.vw[(size_t) u] : 0), "the tree seen from a vertex"); } }
};
// Static top tree: value(v) = a[v] + b[v] * sum of the children's values
const Tree* g_tree; std::vector<u64> g_a, g_b; Ctx* g_ctx;
struct PathDp { int top = -9, bottom = -9; u64 a = 0, b = 0; }; struct SubDp { int par = -9; u64 s = 0; };
PathDp tt_vertex(int v) { sim::callback(); return { v, v, g_a[(size_t) v], g_b[(size_t) v] }; }
SubDp tt_edge(PathDp& p, int v, int u) { sim::callback(); g_ctx->eq(p.top, v, "top of a path"); g_ctx->eq(u, g_tree->P(v), "parent of a path"); return { u, p.a }; }
SubDp tt_sum(SubDp& x, SubDp& y) { sim::callback(); g_ctx->eq(x.par, y.par, "subtrees of one vertex"); return { x.par, x.s + y.s }; }
PathDp tt_root(SubDp& x, int v) { sim::callback(); g_ctx->eq(x.par, v, "root of subtrees"); return { v, v, g_a[(size_t) v] + g_b[(size_t) v] * x.s, g_b[(size_t) v] }; }
PathDp tt_join(PathDp& h, PathDp& l) { sim::callback(); g_ctx->eq(g_tree->P(l.top), h.bottom, "paths that meet"); return { h.top, l.bottom, h.a + h.b * l.a, h.b * l.b }; }
struct Top : TreeKind<Top, suisen::static_toptree> {
    static T* build(Rng&, const Tree& m) { return new T(m.g, m.roots[0]); }
    static u64 value(const Tree& m) { std::vector<u64> f(m.size()); for (size_t i = m.size(); i-- > 0;) { size_t u = (size_t) m.ord[i]; u64 s = f[u]; f[u] = g_a[u] + g_b[u] * s; if (m.par[u] >= 0) f[(size_t) m.par[u]] += f[u]; } return f[(size_t) m.roots[0]]; }
    static void check(Ctx& c, Rng& r, T& t, const Tree& m, Go& go) {
        int u = pick(r, m), sz = 0; for (int x : m.ord) sz += m.above(u, x); c.eq(t.parent(u), m.P(u), "parent"); c.eq(t.subtree_size(u), sz, "size of a subtree");
        g_tree = &m; g_ctx = &c; g_a = m.vw; g_b.clear(); for (size_t i = 0; i < m.size(); ++i) g_b.push_back(r.next() | 1);
        auto make = [&] { return t.template tree_dp<SubDp, PathDp, tt_vertex, tt_edge, tt_sum, tt_root, tt_join>(); }; go(3, [&] { auto d = make(); }, 20); auto d = make(), e = d; c.eq(d().a, value(m), "value of the tree"); c.eq(e.answer().a, value(m), "value of the tree");
        for (int k = 0; k < 6; ++k) { int v = pick(r, m); g_a[(size_t) v] = r.next(); g_b[(size_t) v] = r.next() | 1; if (!go(2, [&] { d.update(v); }, 10)) d.update(v); c.eq(d.answer().a, value(m), "value of the tree after an update"); c.eq(d().top, m.roots[0], "root of the tree"); if (r.chance(1, 2)) { c.eq(e.update(v).a, value(m), "value of the tree after an update"); } else { e = d; } }
        std::vector<u64>().swap(g_a); std::vector<u64>().swap(g_b); }
};
// A cursor on the Stern-Brocot tree; the model is the path from the root.
template <typename Int> struct Sbt : Kind<Sbt<Int>, suisen::sbt_node<Int>, std::vector<std::pair<bool, i64>>> {
    using T = suisen::sbt_node<Int>; using Model = std::vector<std::pair<bool, i64>>; using W = __int128; static constexpr W LIM = sizeof(Int) == 8 ? (W) 4000000000000000000ll : (W) 2000000000;
    struct Ends { W a = 0, b = 1, x = 1, y = 0; };
    static Ends ends(const Model& m) { Ends e; for (auto [d, k] : m) if (d) e.a += e.x * k, e.b += e.y * k; else e.x += e.a * k, e.y += e.b * k; return e; }
    static bool fits(const Model& m) { Ends e; for (auto [d, k] : m) { if (d) e.a += e.x * k, e.b += e.y * k; else e.x += e.a * k, e.y += e.b * k; if (e.a + e.x > LIM || e.b + e.y > LIM) return false; } return true; }
    static i64 depth(const Model& m) { i64 s = 0; for (auto& x : m) s += x.second; return s; }
    static void down(Model& m, bool d, i64 k) { if (!k) return; if (m.size() && m.back().first == d) m.back().second += k; else m.emplace_back(d, k); }
    static void up(Model& m, i64 k) { while (k) { i64 u = std::min(k, m.back().second); k -= u; if (!(m.back().second -= u)) m.pop_back(); } }
    static i64 steps(Rng& r) { u64 s = r.below(6); return s == 0 ? 0 : s < 4 ? 1 + (i64) r.below(3) : s == 4 ? 1 + (i64) r.below(1000) : (i64) (r.next() >> (sizeof(Int) == 8 ? 3 + r.below(40) : 34 + r.below(28))); }
    static Model gen(Rng& r, i64 sc) { Model m; for (u64 k = r.below(2 + (u64) sc * 6); k-- > 0;) { Model n = m; down(n, r.chance(1, 2), steps(r)); if (fits(n)) m = n; } return m; }
    static Model near(Rng& r, const Model& m) { Model n = m; if (r.chance(1, 6)) return gen(r, (i64) r.below(4)); if (depth(n) && r.chance(3, 4)) up(n, 1 + (i64) r.below((u64) std::min<i64>(depth(n), r.chance(1, 2) ? 4 : depth(n)))); for (u64 k = r.below(4); k-- > 0;) { Model q = n; down(q, r.chance(1, 2), steps(r)); if (fits(q)) n = q; } return n; }
    static typename T::rational rat(const Model& m) { Ends e = ends(m); return { (Int) (e.a + e.x), (Int) (e.b + e.y) }; }
    static T* build(Rng& r, const Model& m) { if (m.empty() && r.chance(1, 2)) return new T; auto q = rat(m); switch (r.below(4)) { case 0: return new T(q); case 1: { typename T::sbt_path p; for (auto [d, k] : m) p.emplace_back(d, (Int) k); return new T(p); } case 2: { i64 f = (i64) std::min<W>(7, LIM / std::max(q.first, q.second)); return new T((Int) (q.first * f), (Int) (q.second * f)); } default: return new T(q.first, q.second); } }
    static T node(Rng& r, const Model& m) { std::unique_ptr<T> t(build(r, m)); return *t; }
    static Model common(const Model& a, const Model& b) { Model c; for (size_t i = 0; i < std::min(a.size(), b.size()); ++i) { if (a[i].first != b[i].first) break; i64 k = std::min(a[i].second, b[i].second); down(c, a[i].first, k); if (a[i].second != b[i].second) break; } return c; }
    static bool change(Ctx& c, Rng& r, T& t, Model& m, Go& go) {
        switch (r.below(4)) {
        case 0: { i64 d = depth(m), k = (i64) r.below((u64) d + 3) - 1; if (r.chance(1, 2)) k = std::min<i64>(k, 3); c.eq(t.move_up((Int) k), k >= 0 && k <= d, "moving up"); if (k >= 0 && k <= d) up(m, k); return true; }
        case 1: { bool d = r.chance(1, 2); i64 k = steps(r); Model n = m; down(n, d, k); if (!fits(n)) return true; u64 w = r.below(3); if (go(1, [&] { if (w == 0) t.move_down(d, (Int) k); else if (d) t.move_down_right((Int) k); else t.move_down_left((Int) k); }, 2)) m = n; return true; }
        case 2: { Model n = near(r, m); T x = node(r, n); Model a = common(m, n); i64 d1 = depth(m) - depth(a), d2 = depth(n) - depth(a), k = (i64) r.below((u64) (d1 + d2) + 3) - 1; if (r.chance(1, 3)) k = std::min(k, d1 + 1); k = std::min<i64>(k, std::numeric_limits<Int>::max()); bool ok = false; if (go(1, [&] { ok = t.move_to(r.chance(1, 12) ? t : x, (Int) 0), ok = t.move_to(x, (Int) k); }, 4)) { c.eq(ok, k >= 0 && k <= d1 + d2, "moving towards a node"); if (ok) { if (k <= d1) up(m, k); else { m = n; up(m, d1 + d2 - k); } } } return true; }
        default: return false; } }
    static void check(Ctx& c, Rng& r, T& t, const Model& m, Go& go) {
        Ends e = ends(m); c.require(t.get() == rat(m) && (typename T::rational) t == rat(m), "value", "the fraction differs"); auto rg = t.range(); c.require((W) rg.first.first == e.a && (W) rg.first.second == e.b && (W) rg.second.first == e.x && (W) rg.second.second == e.y, "range", "the range below a node differs"); c.eq((i64) t.depth(), depth(m), "depth"); bool same = t.path().size() == m.size(); for (size_t i = 0; same && i < m.size(); ++i) same = t.path()[i].first == m[i].first && (i64) t.path()[i].second == m[i].second; c.require(same, "path", "the path from the root differs");
        Model n = near(r, m); T x = node(r, n); Model a = common(m, n); c.require((r.chance(1, 2) ? t.lca(x) : T::lca(t, x)).get() == rat(a), "common ancestor", "the lowest common ancestor differs"); if (i64 d = depth(m) + depth(n) - 2 * depth(a); d <= std::numeric_limits<Int>::max()) /* a longer distance is not an Int */ c.eq((i64) (r.chance(1, 2) ? t.dist(x) : T::dist(x, t)), d, "distance"); c.eq(t.is_ancestor_of(x), a == m, "ancestor"); c.eq(t.is_descendant_of(x), a == n, "descendant");
        auto p = rat(m), q = rat(n); W cmp = (W) p.first * q.second - (W) q.first * p.second; c.require((t == x) == (cmp == 0) && (t != x) == (cmp != 0) && (t < x) == (cmp < 0) && (t > x) == (cmp > 0) && (t <= x) == (cmp <= 0) && (t >= x) == (cmp >= 0), "comparison", "comparison of two nodes"); int in = cmp < 0 ? -1 : cmp > 0; c.eq(T::compare_in_order(t, x), in, "in-order"); c.eq(T::compare_pre_order(t, x), cmp == 0 ? 0 : a == m ? -1 : a == n ? 1 : in, "pre-order"); c.eq(T::compare_post_order(t, x), cmp == 0 ? 0 : a == m ? 1 : a == n ? -1 : in, "post-order");
        if (r.chance(1, 3)) { // auxiliary tree of some nodes
            std::vector<Model> ms; std::vector<T> xs; for (u64 k = r.below(8); k-- > 0;) { Model b = ms.size() && r.chance(1, 2) ? near(r, ms[r.below(ms.size())]) : near(r, m); ms.push_back(b); xs.push_back(node(r, b)); } std::set<Model> s(ms.begin(), ms.end()); for (auto& y : ms) for (auto& z : ms) s.insert(common(y, z));
            if (go(1, [&] { T::auxiliary_tree(xs); }, 40)) { auto g = T::auxiliary_tree(xs); c.eq((size_t) g.size(), s.size(), "size of the auxiliary tree"); std::map<typename T::rational, int> id; for (int i = 0; i < g.size(); ++i) id[g.node(i).get()] = i; c.eq(id.size(), s.size(), "distinct nodes of the auxiliary tree"); std::vector<std::multiset<int>> adj(s.size());
                for (auto& y : s) { c.require(id.count(rat(y)), "auxiliary tree", "a node is missing"); const Model* best = nullptr; for (auto& z : s) if (z != y && common(y, z) == z && (!best || depth(z) > depth(*best))) best = &z; int i = id[rat(y)]; if (best) adj[(size_t) i].insert(id[rat(*best)]), adj[(size_t) id[rat(*best)]].insert(i); else c.eq(g.root(), i, "root of the auxiliary tree"); }
                for (int i = 0; i < g.size(); ++i) c.require(std::multiset<int>(g[i].begin(), g[i].end()) == adj[(size_t) i], "auxiliary tree", "the neighbours of a node differ"); } } }
    static u64 hash(const Model& m) { u64 h = 7; for (auto [d, k] : m) h = sim::mix64(h * 2 + d + (u64) k * 31); return h; }
};
#define W27(K, nm, real) sim::RegisterWorld r_##nm(multi::def<K>("C27", #nm, real));
W27(Lca, lca, "LowestCommonAncestor, RMQpm1WithIndex") W27(Euler, euler_tour, "EulerTour") W27(Level, level_ancestor, "LevelAncestor") W27(Hld, heavy_light, "HeavyLightDecomposition") W27(Aux, auxiliary, "AuxiliaryTree, HeavyLightDecomposition") W27(Centroid, centroid, "CentroidDecompositionUnweighted") W27(CentroidW, centroid_weighted, "CentroidDecompositionWeighted") W27(Free, functions, "find_centroids, get_tree_path, frequency_table_of_tree_distance")
using R000 = Reroot<false, false, false>; using R010 = Reroot<false, true, false>; using R100 = Reroot<true, false, false>; using R110 = Reroot<true, true, false>; using R001 = Reroot<false, false, true>; using R011 = Reroot<false, true, true>; using R101 = Reroot<true, false, true>; using R111 = Reroot<true, true, true>;
W27(R000, reroot, "Rerooting") W27(R010, reroot_edges, "RerootingEdgeWeighted") W27(R100, reroot_vertices, "RerootingVertexWeighted") W27(R110, reroot_both, "RerootingWeighted") W27(R001, reroot_inv, "RerootingInvertible") W27(R011, reroot_inv_edges, "RerootingInvertibleEdgeWeighted") W27(R101, reroot_inv_vertices, "RerootingInvertibleVertexWeighted") W27(R111, reroot_inv_both, "RerootingInvertibleWeighted")
W27(Top, static_top_tree, "static_toptree") W27(Sbt<int64_t>, stern_brocot, "sbt_node<int64_t>") W27(Sbt<int>, stern_brocot_int, "sbt_node<int>")
}
