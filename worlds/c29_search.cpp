// C29: graph searches and the objects they return: many alive, interrupted by failing callbacks and memory, while their graphs change.
#include "sim.hpp"
#include <algorithm>
#include <array>
#include <deque>
#include <map>
#include <numeric>
#include <optional>
#include <set>
#include "index_kind.hpp"
#include "library/graph/bfs.hpp"
#include "library/graph/bfs_complement.hpp"
#include "library/graph/bfs01.hpp"
#include "library/graph/dijkstra.hpp"
#include "library/graph/topological_sort.hpp"
#include "library/graph/functional_graph.hpp"
#include "library/graph/segment_tree_graph.hpp"
#include "library/graph/csr_graph.hpp"
#include "library/graph/cycle_detection.hpp"
#include "library/graph/single_source_shortest_path_dag.hpp"
namespace {
using Ints = std::vector<int>; using Adj = std::vector<Ints>;
struct Edge { int u, v; i64 w; };
struct Net { int n = 0; std::vector<Edge> e; size_t size() const { return (size_t) n; } };
u64 net_hash(const Net& m) { u64 h = (u64) m.n; for (auto& x : m.e) h = sim::mix64(h * 31 + (u64) x.u * 1009 + (u64) x.v + ((u64) x.w << 40)); return h; }
// maxw: largest weight.  dag: edges lead from an earlier to a later vertex of a hidden order
Net net(Rng& r, i64 sc, i64 maxw, bool dag = false, size_t cap = 160) {
    Net m; m.n = (int) std::min(cap, size_for(r, sc)); if (m.n == 0) return m; u64 n = (u64) m.n; Ints id(n); std::iota(id.begin(), id.end(), 0); for (size_t i = n; i-- > 1;) std::swap(id[i], id[r.below(i + 1)]);
    size_t k = r.chance(1, 6) ? 0 : r.chance(1, 2) ? r.below(2 * n + 1) : r.chance(1, 3) ? r.below(n * n + 1) : n + r.below(3 * n); if (k > 900) k = 900; bool path = r.chance(1, 3); bool ties = r.chance(1, 3);
    if (path) for (u64 i = 1; i < n; ++i) m.e.push_back({ id[i - 1], id[i], 0 });
    for (; k-- > 0;) { size_t a = r.below(n), b = r.chance(1, 3) ? std::min<size_t>(n - 1, a + r.below(4)) : r.below(n); if (dag) { if (a == b) continue; if (a > b) std::swap(a, b); } m.e.push_back({ id[a], id[b], 0 }); }
    for (auto& x : m.e) x.w = ties ? (i64) r.below(2) * maxw : (i64) r.below((u64) std::min<i64>(maxw, r.chance(1, 2) ? 5 : INT64_MAX - 1) + 1);
    for (size_t i = m.e.size(); i-- > 1;) std::swap(m.e[i], m.e[r.below(i + 1)]);
    return m; }
Edge an_edge(Rng& r, const Net& m, i64 maxw) { return { (int) r.below(m.size()), (int) r.below(m.size()), (i64) r.below((u64) maxw + 1) }; }
std::vector<std::vector<std::pair<int, i64>>> lists(const Net& m, bool both) { std::vector<std::vector<std::pair<int, i64>>> g(m.size()); for (auto& x : m.e) { g[(size_t) x.u].push_back({ x.v, x.w }); if (both) g[(size_t) x.v].push_back({ x.u, x.w }); } return g; }
Adj plain(const Net& m, bool both) { Adj g(m.size()); for (auto& x : m.e) { g[(size_t) x.u].push_back(x.v); if (both) g[(size_t) x.v].push_back(x.u); } return g; }
constexpr i64 INF = INT64_MAX;
// distances by relaxing every edge until nothing changes
std::vector<i64> relax(const Net& m, const Ints& src, bool both) { std::vector<i64> d(m.size(), INF); for (int s : src) d[(size_t) s] = 0; for (bool up = true; up;) { up = false; auto go = [&](int u, int v, i64 w) { if (d[(size_t) u] != INF && d[(size_t) u] + w < d[(size_t) v]) d[(size_t) v] = d[(size_t) u] + w, up = true; }; for (auto& x : m.e) { go(x.u, x.v, x.w); if (both) go(x.v, x.u, x.w); } } return d; }
Ints sources(Rng& r, const Net& m) { Ints s; for (u64 k = r.chance(2, 3) ? 1 : r.below(4); k-- > 0;) s.push_back((int) r.below(m.size())); return s; }

template <bool COMPL> struct Bfs : Kind<Bfs<COMPL>, std::conditional_t<COMPL, suisen::ComplementBFS, suisen::BFS>, Net> {
    using T = std::conditional_t<COMPL, suisen::ComplementBFS, suisen::BFS>;
    static Net gen(Rng& r, i64 sc) { if (r.chance(1, 24)) { Net f; f.n = 260 + (int) r.below(200); int hub = (int) r.below(f.size()); for (u64 k = r.below(COMPL ? 300 : 600); k-- > 0;) f.e.push_back({ r.chance(1, 2) ? hub : (int) r.below(f.size()), (int) r.below(f.size()), 0 }); return f; } // more vertices than a piece of a queue holds
        Net m = net(r, sc, 1); if (COMPL && r.chance(1, 2) && m.n < 40) { Net f; f.n = m.n; u64 k = 1 + r.below(8); for (int u = 0; u < m.n; ++u) for (int v = 0; v < u; ++v) if (!r.chance(1, k + 1)) f.e.push_back({ u, v, 0 }); return f; } return m; }
    static u64 hash(const Net& m) { return net_hash(m); }
    static T* build(Rng& r, const Net& m) { if (m.n == 0 && r.chance(1, 2)) return new T; if (r.chance(1, 2)) return new T(plain(m, true)); std::vector<std::pair<int, int>> e; for (auto& x : m.e) e.push_back({ x.u, x.v }); return new T(m.n, e); }
    static bool change(Ctx&, Rng& r, T& t, Net& m, Go&) { if (!m.n || !r.chance(2, 3)) return false; for (u64 k = 1 + r.below(4); k-- > 0;) { Edge x = an_edge(r, m, 1); t.add_edge(x.u, x.v); m.e.push_back(x); } return true; }
    static Net view(const Net& m) { Net f; f.n = m.n; if (COMPL) { std::set<std::pair<int, int>> s; for (auto& x : m.e) s.insert(std::minmax(x.u, x.v)); for (int u = 0; u < m.n; ++u) for (int v = u + 1; v < m.n; ++v) if (!s.count({ u, v })) f.e.push_back({ u, v, 1 }); } else { f.e = m.e; for (auto& x : f.e) x.w = 1; } return f; }
    static void check(Ctx& c, Rng& r, T& t, const Net& m, Go& go) { if (!m.n) { c.eq(t.connected_components().size(), (size_t) 0, "components"); return; } Net f = view(m);
        if (r.chance(1, 2)) { Ints s = sources(r, m); Ints got; if (!go(1, [&] { got = s.size() == 1 && r.chance(1, 2) ? t.distance(s[0]) : t.distance(s); }, m.n > 200 ? 24 : 12)) return; auto w = relax(f, s, true); c.eq(got.size(), w.size(), "distances"); for (size_t i = 0; i < w.size(); ++i) c.eq((i64) got[i], w[i] == INF ? (i64) T::unreachable : w[i], "distance"); return; }
        Adj got; if (!go(1, [&] { got = t.connected_components(); }, m.n > 200 ? 40 : 12)) return; for (auto& a : got) std::sort(a.begin(), a.end()); std::sort(got.begin(), got.end()); Adj w; std::vector<char> seen(m.size()); for (int i = 0; i < m.n; ++i) if (!seen[(size_t) i]) { auto d = relax(f, { i }, true); w.emplace_back(); for (int j = 0; j < m.n; ++j) if (d[(size_t) j] != INF) seen[(size_t) j] = 1, w.back().push_back(j); } std::sort(w.begin(), w.end()); c.require(got == w, "connected components"); }
};
// searches whose graph is given by a callback; the object is the result
template <typename B> Box<B>* boxed(std::unique_ptr<B> p) { auto b = std::make_unique<Box<B>>(); b->p = std::move(p); return b.release(); }
template <typename F> struct Kept { Net m; int s = 0; F f; };
template <typename C> struct Dijkstra : Kind<Dijkstra<C>, Box<suisen::dijkstra<C>>, Kept<int>> {
    using T = Box<suisen::dijkstra<C>>; using Model = Kept<int>;
    static Model gen(Rng& r, i64 sc) { Model k; do k.m = net(r, sc, r.chance(1, 4) ? (i64) (std::is_same_v<C, int> ? 10000000 : 1000000000000) : 9); while (!k.m.n); k.s = (int) r.below(k.m.size()); return k; }
    static u64 hash(const Model& k) { return net_hash(k.m) * 31 + (u64) k.s; }
    static T* make1(Rng& r, const Model& k) { using D = suisen::dijkstra<C>; if (r.chance(1, 2)) { std::vector<std::vector<std::pair<int, C>>> g(k.m.size()); for (auto& x : k.m.e) g[(size_t) x.u].push_back({ x.v, (C) x.w }); return boxed(std::make_unique<D>(g, (unsigned) k.s)); } auto g = lists(k.m, false); return boxed(std::unique_ptr<D>(new D((unsigned) k.m.n, [g](unsigned u, C du, auto f) { for (auto [v, w] : g[u]) { sim::callback(); f((unsigned) v, (C) (du + (C) w)); } }, (unsigned) k.s))); }
    static T* build(Rng& r, const Model& k) { return make1(r, k); }
    static void check(Ctx& c, Rng& r, T& t, const Model& k, Go& go) {
        { T* q = nullptr; u64 s = r.next(); if (r.chance(1, 4)) { if (!go(3, [&] { Rng z(s); q = build(z, k); }, 20)) { Rng z(s); q = build(z, k); } t = *q; delete q; } } // again, after an interrupted attempt
        auto d = relax(k.m, { k.s }, false); const auto& p = *t.p; for (int it = 0; it < 6; ++it) { unsigned v = (unsigned) r.below(k.m.size()); bool reach = d[v] != INF; c.eq(p.is_reachale(v), reach, "reachable"); c.eq(p.is_unreachable(v), !reach, "unreachable"); if (!reach) continue; c.eq((i64) p[v], d[v], "distance"); std::vector<unsigned> path; if (!go(1, [&] { path = p.path_to(v); }, 3)) continue; c.eq((int) path.front(), k.s, "the path starts at the source"); c.eq(path.back(), v, "the path ends at its target"); i64 len = 0; for (size_t i = 1; i < path.size(); ++i) { i64 best = INF; for (auto& x : k.m.e) if (x.u == (int) path[i - 1] && x.v == (int) path[i]) best = std::min(best, x.w); c.require(best != INF, "the path follows edges"); len += best; } c.eq(len, d[v], "length of the path"); } }
};
template <bool MAP> struct Bfs01 : Kind<Bfs01<MAP>, Box<std::conditional_t<MAP, suisen::MapBFS01<std::pair<int, int>>, suisen::BFS01>>, Kept<Ints>> {
    using B = std::conditional_t<MAP, suisen::MapBFS01<std::pair<int, int>>, suisen::BFS01>; using T = Box<B>; using Model = Kept<Ints>; using Node = std::conditional_t<MAP, std::pair<int, int>, int>;
    static Node at(int v) { if constexpr (MAP) return { v % 7, v / 7 }; else return v; }
    static int of(const Node& x) { if constexpr (MAP) return x.second * 7 + x.first; else return x; }
    static Model gen(Rng& r, i64 sc) { Model k; do k.m = net(r, sc, 1); while (!k.m.n); k.f = sources(r, k.m); return k; }
    static u64 hash(const Model& k) { return net_hash(k.m) * 31 + hash_seq(k.f); }
    static T* build(Rng& r, const Model& k) { auto g = lists(k.m, false); auto next = [g](const Node& u, auto f) { for (auto [v, w] : g[(size_t) of(u)]) { sim::callback(); f(at(v), w != 0); } }; std::vector<Node> s; for (int v : k.f) s.push_back(at(v)); bool one = s.size() == 1 && r.chance(1, 2);
        if constexpr (MAP) return boxed(std::unique_ptr<B>(one ? new B(s[0], next) : new B(s, next))); else return boxed(std::unique_ptr<B>(one ? new B(k.m.n, s[0], next) : new B(k.m.n, s, next))); }
    static void check(Ctx& c, Rng& r, T& t, const Model& k, Go& go) {
        { T* q = nullptr; u64 s = r.next(); if (r.chance(1, 4)) { if (!go(3, [&] { Rng z(s); q = build(z, k); }, 20)) { Rng z(s); q = build(z, k); } t = *q; delete q; } }
        auto d = relax(k.m, k.f, false); for (int it = 0; it < 8; ++it) { size_t v = r.below(k.m.size()); bool reach = d[v] != INF; c.eq(t.p->is_reachable(at((int) v)), reach, "reachable"); c.eq(t.p->is_unreachable(at((int) v)), !reach, "unreachable"); c.eq((*t.p)[at((int) v)], reach ? (int) d[v] : B::INF, "distance"); } if (MAP) c.eq(t.p->is_reachable(at(k.m.n + 3)), false, "reachable"); }
};
struct Topo : Kind<Topo, Box<suisen::topological_sort>, Net> {
    static Net gen(Rng& r, i64 sc) { Net m = net(r, sc, 1, r.chance(2, 3)); return m; }
    static u64 hash(const Net& m) { return net_hash(m); }
    static T* build(Rng&, const Net& m) { return boxed(std::make_unique<suisen::topological_sort>(plain(m, false))); }
    static void check(Ctx& c, Rng&, T& t, const Net& m, Go&) { std::vector<int> in(m.size()); for (auto& x : m.e) ++in[(size_t) x.v]; auto left = m.e; Ints done; for (bool up = true; up;) { up = false; for (int v = 0; v < m.n; ++v) if (in[(size_t) v] == 0) { in[(size_t) v] = -1; done.push_back(v); up = true; for (auto& x : left) if (x.u == v) --in[(size_t) x.v]; } } bool dag = (int) done.size() == m.n; c.eq(t.p->is_dag(), dag, "whether there is a topological order"); const Ints& o = t.p->sorted(); c.eq(o.size(), done.size(), "length of the order"); Ints pos(m.size(), -1); for (size_t i = 0; i < o.size(); ++i) { c.require(o[i] >= 0 && o[i] < m.n && pos[(size_t) o[i]] < 0, "each vertex once"); pos[(size_t) o[i]] = (int) i; c.eq((*t.p)[(int) i], o[i], "order"); } if (dag) for (auto& x : m.e) c.require(pos[(size_t) x.u] < pos[(size_t) x.v], "edges lead forward"); }
};
using Sum = std::pair<u64, u64>; // a word, as hash and power
Sum join(Sum a, Sum b) { sim::callback(); return { a.first * b.second + b.first, a.second * b.second }; } Sum none() { return { 0, 1 }; } Sum letter(u64 x) { return { x, 1000003 }; }
// a functional graph with tables made from it earlier
struct Fun {
    using G = suisen::FunctionalGraph; G g; std::optional<G::Doubling> d; std::optional<G::DoublingSum<Sum, join, none>> s;
};
struct FunModel { Ints nxt, dn, sn; std::vector<Sum> w; i64 dmax = 0, smax = 0; size_t size() const { return nxt.size(); } };
struct Functional : Kind<Functional, Fun, FunModel> {
    static FunModel gen(Rng& r, i64 sc) { FunModel m; m.nxt.resize(std::min<size_t>(200, size_for(r, sc))); size_t n = m.nxt.size(); u64 md = r.below(5); for (size_t i = 0; i < n; ++i) m.nxt[i] = (int) (md == 0 ? (i + 1) % n : md == 1 ? i / 2 : md == 2 ? (i ? i - 1 : n - 1 - r.below(n)) : md == 3 ? i - i % 3 + (i + 1) % 3 : r.below(n)); for (auto& x : m.nxt) x = std::min<int>(x, (int) n - 1); return m; }
    static u64 hash(const FunModel& m) { return hash_seq(m.nxt) ^ hash_seq(m.dn) * 3 ^ hash_seq(m.sn) * 5; }
    static T* build(Rng& r, const FunModel& m) { if (m.nxt.empty() && r.chance(1, 2)) return new Fun; if (r.chance(1, 2)) return new Fun{ Fun::G(m.nxt), {}, {} }; auto q = std::make_unique<Fun>(Fun{ Fun::G((int) m.nxt.size()), {}, {} }); for (size_t i = 0; i < m.nxt.size(); ++i) q->g[(int) i] = m.nxt[i]; return q.release(); }
    static bool change(Ctx& c, Rng& r, T& t, FunModel& m, Go& go) { size_t n = m.nxt.size(); if (!n || r.chance(1, 4)) return false; i64 mx = r.chance(1, 4) ? (i64) (r.next() >> (2 + r.below(50))) : (i64) r.below(40);
        switch (r.below(4)) { case 0: if (go(1, [&] { t.d.emplace(t.g.doubling(mx)); }, 10)) m.dn = m.nxt, m.dmax = mx; else t.d.reset(), m.dn.clear(); break;
        case 1: { std::vector<Sum> w; for (size_t i = 0; i < n; ++i) w.push_back(letter(r.next() | 1)); if (go(3, [&] { t.s.emplace(t.g.doubling<Sum, join, none>(mx, w)); }, 60)) m.sn = m.nxt, m.smax = mx, m.w = w; else t.s.reset(), m.sn.clear(); break; }
        default: for (u64 k = 1 + r.below(4); k-- > 0;) { size_t u = r.below(n); int v = (int) r.below(n); t.g[(int) u] = v; m.nxt[u] = v; } } (void) c; return true; }
    static i64 bits(i64 mx) { i64 k = 1; while (k <= mx / 2) k *= 2; return 2 * k - 1; } // the longest walk the table holds
    static void check(Ctx& c, Rng& r, T& t, const FunModel& m, Go& go) {
        size_t n = m.nxt.size(); const auto& cg = t.g; if (!n) { c.eq(cg.infinite_paths().size(), (size_t) 0, "paths"); return; }
        auto walk = [](const Ints& f, int u, i64 k) { std::map<int, i64> at; Ints seq; for (i64 i = 0; i < k; ++i) { auto [it, fresh] = at.emplace(u, i); if (!fresh) { i64 a = it->second, p = i - a; return seq[(size_t) (a + (k - a) % p)]; } seq.push_back(u); u = f[(size_t) u]; } return u; };
        { size_t u = r.below(n); c.eq(cg[(int) u], m.nxt[u], "edge"); }
        switch (r.below(4)) {
        case 0: { i64 k = r.chance(1, 3) ? (i64) (r.next() >> (1 + r.below(60))) : (i64) r.below(2 * n + 2); Ints got; if (!go(1, [&] { got = cg.kth_iterate(k); }, 30)) break; c.eq(got.size(), n, "iterates"); for (size_t u = 0; u < n; ++u) c.eq(got[u], walk(m.nxt, (int) u, k), "k-th iterate"); break; }
        case 1: { std::vector<suisen::FunctionalGraph::InfinitePath> got; if (!go(1, [&] { got = cg.infinite_paths(); }, 5)) break; c.eq(got.size(), n, "paths"); for (size_t u = 0; u < n; ++u) { std::map<int, int> at; int v = (int) u, i = 0; for (; !at.count(v); v = m.nxt[(size_t) v]) at[v] = i++; c.eq(got[u].head_v, (int) u, "start of the path"); c.eq(got[u].head_len, at[v], "length of the head"); c.eq(got[u].loop_v, v, "entry of the loop"); c.eq(got[u].loop_len, i - at[v], "length of the loop"); } break; }
        case 2: if (m.dn.size()) { int u = (int) r.below(n); i64 k = (i64) r.below((u64) m.dmax + 1); if (r.chance(1, 4)) k = m.dmax; c.eq(t.d->query(u, k), walk(m.dn, u, k), "walk in the table"); { bool some = r.chance(1, 2); auto x = t.d->step_until(u, [&](int) { return some; }); c.eq(x.has_value(), some, "whether the walk gets there"); if (some) { c.eq(x->step, 0ll, "steps to get there"); c.eq(x->v, u, "where the walk gets"); } }
            // a predicate that holds on a prefix of the walk: not yet at a chosen vertex that the walk never leaves once it is there
            i64 lim = std::min<i64>(bits(m.dmax), 300), stop = (i64) r.below((u64) lim + 3); std::set<int> good; i64 len = 0; int v = u; for (; len < stop; ++len) { good.insert(v); v = m.dn[(size_t) v]; } if (!good.count(v) && good.size()) { std::set<int> later; int x = v; for (size_t i = 0; i <= n; ++i) later.insert(x), x = m.dn[(size_t) x]; bool mono = true; for (int y : later) mono &= !good.count(y); if (mono) { auto f = [&](int y) { sim::callback(); return good.count(y) > 0; }; i64 most = std::min(stop - 1, bits(m.dmax)); std::pair<int, i64> got; if (go(2, [&] { got = (std::pair<int, long long>) t.d->max_step(u, f); }, 12)) { c.eq(got.second, most, "longest walk inside"); c.eq(got.first, walk(m.dn, u, most), "end of the longest walk inside"); }
                bool some = false; std::pair<int, i64> g2; if (go(2, [&] { auto x2 = t.d->step_until(u, [&](int y) { return !f(y); }); some = x2.has_value(); if (some) g2 = (std::pair<int, long long>) *x2; }, 12)) { bool want = stop <= bits(m.dmax) + 1; c.eq(some, want, "whether the walk gets there"); if (want) { c.eq(g2.second, stop, "steps to get there"); c.eq(g2.first, v, "where the walk gets"); } } } } } break;
        default: if (m.sn.size()) { int u = (int) r.below(n); i64 k = (i64) r.below(std::min<u64>((u64) m.smax + 1, 400)); if (r.chance(1, 4)) k = std::min<i64>(400, m.smax); Sum w = none(); int v = u; for (i64 i = 0; i < k; ++i) w = { w.first * m.w[(size_t) v].second + m.w[(size_t) v].first, w.second * m.w[(size_t) v].second }, v = m.sn[(size_t) v]; std::pair<int, Sum> got; if (go(2, [&] { got = t.s->query(u, k); }, 8)) { c.eq(got.first, v, "end of the walk"); c.require(got.second == w, "product along the walk"); }
            i64 lim = std::min<i64>(bits(m.smax), 300), stop = (i64) r.below((u64) lim + 2); u64 pw = 1; for (i64 i = 0; i < stop; ++i) pw *= 1000003; std::map<u64, i64> len; { u64 q = 1; for (i64 i = 0; i <= 2 * bits(std::min<i64>(m.smax, 300)) + 2; ++i) len.emplace(q, i), q *= 1000003; } auto f = [&](const Sum& x) { sim::callback(); auto it = len.find(x.second); return it != len.end() && it->second <= stop; }; i64 most = std::min(stop, bits(m.smax)); v = u; w = none(); for (i64 i = 0; i < most; ++i) w = { w.first * m.w[(size_t) v].second + m.w[(size_t) v].first, w.second * m.w[(size_t) v].second }, v = m.sn[(size_t) v];
            { bool yes = r.chance(1, 2); auto x = t.s->step_until(u, [&](const Sum&) { return yes; }); c.eq(x.has_value(), yes, "whether the product gets there"); if (yes) { c.eq(x->step, 0ll, "steps for the product to get there"); c.eq(x->v, u, "where the product gets"); c.require(x->sum == none(), "product that gets there"); } }
            std::tuple<int, Sum, i64> g2; if (go(2, [&] { g2 = (std::tuple<int, Sum, long long>) t.s->max_step(u, f); }, 20)) { c.eq(std::get<2>(g2), most, "longest product inside"); c.eq(std::get<0>(g2), v, "end of the longest product inside"); c.require(std::get<1>(g2) == w, "longest product inside"); }
            bool some = false; if (go(2, [&] { auto x = t.s->step_until(u, [&](const Sum& y) { return !f(y); }); some = x.has_value(); if (some) g2 = (std::tuple<int, Sum, long long>) *x; }, 20)) { bool want = stop <= bits(m.smax); c.eq(some, want, "whether the product gets there"); if (want) { c.eq(std::get<2>(g2), stop + 1, "steps for the product to get there"); c.require(std::get<1>(g2) == Sum{ w.first * m.w[(size_t) v].second + m.w[(size_t) v].first, w.second * m.w[(size_t) v].second }, "product that gets there"); c.eq(std::get<0>(g2), m.sn[(size_t) v], "where the product gets"); } } } break; } }
};
struct SegModel { int n = 0; Adj ord; size_t size() const { return ord.size(); } };
struct SegGraph : Kind<SegGraph, suisen::SegmentTreeGraph, SegModel> {
    static SegModel gen(Rng& r, i64 sc) { SegModel m; m.n = (int) std::min<size_t>(100, size_for(r, sc)); return m; }
    static u64 hash(const SegModel& m) { u64 h = (u64) m.n; for (auto& o : m.ord) h = sim::mix64(h * 31 + hash_seq(o)); return h; }
    static T* build(Rng& r, const SegModel& m) { return m.n == 0 && r.chance(1, 2) ? new T : new T(m.n); }
    static bool change(Ctx& c, Rng& r, T& t, SegModel& m, Go& go) { if (m.ord.size() > 6 || r.chance(1, 4)) return false; Ints p((size_t) m.n); std::iota(p.begin(), p.end(), 0); bool same = r.chance(1, 3); if (!same) for (size_t i = p.size(); i-- > 1;) std::swap(p[i], p[r.below(i + 1)]); int id = -1; if (go(1, [&] { id = same ? t.add_order_identity() : t.add_order(p); }, 4)) { c.eq(id, (int) m.ord.size(), "number of the order"); m.ord.push_back(p); } return true; }
    static void check(Ctx& c, Rng& r, T& t, const SegModel& m, Go& go) {
        c.eq(t.size(), m.n + (int) m.ord.size() * std::max(0, m.n - 1), "number of nodes"); for (int v = 0; v < m.n; v += 1 + m.n / 5) c.eq(t.is_segment_node(v), false, "kind of a node"); if (m.ord.empty() || m.n == 0) return;
        std::map<int, Ints> ch; bool three = r.chance(1, 2); if (!go(2, [&] { ch.clear(); if (three) t.add_edges_to_children([&](int p, int a, int b) { sim::callback(); ch[p] = { a, b }; }); else t.add_edges_to_children([&](int p, int a) { sim::callback(); ch[p].push_back(a); }); }, 20)) return;
        std::map<int, Ints> leaves; auto rec = [&](auto rec, int v) -> const Ints& { auto it = leaves.find(v); if (it != leaves.end()) return it->second; Ints l; if (v < m.n) l = { v }; else { c.require(ch.count(v), "a segment node has children"); c.eq(t.is_segment_node(v), true, "kind of a node"); c.eq(ch[v].size(), (size_t) 2, "a segment node has two children"); for (int w : ch[v]) { c.require(w >= 0 && w < t.size() && w != v, "child"); auto& q = rec(rec, w); l.insert(l.end(), q.begin(), q.end()); } } return leaves[v] = l; };
        for (int k = 0; k < 4; ++k) { size_t o = r.below(m.ord.size()); auto [l, x] = range(r, (size_t) m.n); std::vector<std::pair<int, int>> es; if (!go(2, [&, l = l, x = x] { es.clear(); t.add_edge(77, { (int) o, l, x }, [&](int a, int b) { sim::callback(); es.push_back({ a, b }); }); }, 6)) continue; Ints got; for (auto& [a, b] : es) { c.eq(a, 77, "the edges start at the given node"); auto& q = rec(rec, b); got.insert(got.end(), q.begin(), q.end()); if (b >= m.n) { auto s = r.chance(1, 2) ? t[b] : t.get_segment_node(b); c.eq(s.order_id, (int) o, "order of a node"); Ints w(m.ord[o].begin() + s.l, m.ord[o].begin() + s.r); c.require(w == q, "range of a node"); } } std::sort(got.begin(), got.end()); Ints w(m.ord[o].begin() + l, m.ord[o].begin() + x); std::sort(w.begin(), w.end()); c.require(got == w, "the edges reach exactly the range"); int lg = 1; while ((1 << lg) < m.n) ++lg; c.require((int) es.size() <= 2 * lg + 2, "logarithmically many edges"); } }
};
// cycles and shortest paths on compressed graphs
template <bool DIR> struct Cycle : Kind<Cycle<DIR>, suisen::Graph<i64>, Net> {
    using T = suisen::Graph<i64>;
    static Net gen(Rng& r, i64 sc) { Net m = net(r, sc, 2, DIR && r.chance(1, 2)); if (!DIR && m.n && r.chance(1, 2)) { Net f; f.n = m.n; Ints top(m.size()); std::iota(top.begin(), top.end(), 0); auto find = [&](int x) { while (top[(size_t) x] != x) x = top[(size_t) x]; return x; }; for (auto& x : m.e) if (find(x.u) != find(x.v)) top[(size_t) find(x.u)] = find(x.v), f.e.push_back(x); if (m.e.size() && r.chance(1, 2)) f.e.push_back(r.chance(1, 2) ? m.e[r.below(m.e.size())] : f.e.empty() ? m.e[0] : f.e[r.below(f.e.size())]); return f; } return m; }
    static u64 hash(const Net& m) { return net_hash(m); }
    static T* build(Rng&, const Net& m) { std::vector<std::tuple<int, int, i64>> e; for (auto& x : m.e) e.push_back({ x.u, x.v, x.w }); if constexpr (DIR) return new T(m.n, e, suisen::directed_graph_tag{}); else return new T(m.n, e, suisen::undirected_graph_tag{}); }
    static void check(Ctx& c, Rng& r, T& t, const Net& m, Go& go) {
        bool has; if (DIR) { std::vector<int> in(m.size()); for (auto& x : m.e) ++in[(size_t) x.v]; int left = m.n; for (bool up = true; up;) { up = false; for (int v = 0; v < m.n; ++v) if (in[(size_t) v] == 0) { in[(size_t) v] = -1; --left; up = true; for (auto& x : m.e) if (x.u == v) --in[(size_t) x.v]; } } has = left > 0; } else { Ints top(m.size()); std::iota(top.begin(), top.end(), 0); auto find = [&](int x) { while (top[(size_t) x] != x) x = top[(size_t) x]; return x; }; has = false; for (auto& x : m.e) { if (find(x.u) == find(x.v)) has = true; else top[(size_t) find(x.u)] = find(x.v); } }
        std::optional<std::vector<T::edge_type>> got; if (!go(1, [&] { if constexpr (DIR) got = suisen::get_cycle_directed(t); else got = suisen::get_cycle_undirected(t); }, 6)) return; c.eq(got.has_value(), has, "whether there is a cycle"); if (!has) return; c.require(got->size() > 0, "a cycle has edges"); std::vector<char> used(m.e.size()); std::set<int> vs; int at = (int) got->back(); for (auto& e : *got) { int v = e; i64 w = e.second; c.require(vs.insert(v).second, "a cycle visits a vertex once"); bool ok = false; for (size_t i = 0; i < m.e.size() && !ok; ++i) if (!used[i] && m.e[i].w == w && ((m.e[i].u == at && m.e[i].v == v) || (!DIR && m.e[i].v == at && m.e[i].u == v))) used[i] = 1, ok = true; c.require(ok, "a cycle uses each edge once and follows edges"); at = v; } (void) r; }
};
struct DagPaths : Kind<DagPaths, suisen::Graph<i64>, Net> {
    static Net gen(Rng& r, i64 sc) { Net m; do m = net(r, sc, r.chance(1, 4) ? 1000000000000 : 9, true); while (!m.n); if (r.chance(1, 2)) for (auto& x : m.e) if (r.chance(1, 3)) x.w = -x.w; return m; }
    static u64 hash(const Net& m) { return net_hash(m); }
    static T* build(Rng&, const Net& m) { std::vector<std::tuple<int, int, i64>> e; for (auto& x : m.e) e.push_back({ x.u, x.v, x.w }); return new T(m.n, e, suisen::directed_graph_tag{}); }
    static void check(Ctx& c, Rng& r, T& t, const Net& m, Go& go) { std::vector<char> in(m.size()); for (auto& x : m.e) in[(size_t) x.v] = 1; Ints s; for (int v = 0; v < m.n; ++v) if (!in[(size_t) v]) s.push_back(v); int a = s[r.below(s.size())]; std::vector<i64> got; if (!go(1, [&] { got = suisen::single_source_shortest_path_dag(t, a); }, 6)) return; auto w = relax(m, { a }, false); c.require(got == w, "shortest paths"); }
};
#define W(v, K, nm, f) sim::RegisterWorld v(multi::def<K>("C29", nm, "library/graph/" f))
W(a1, Bfs<false>, "bfs", "bfs.hpp"); W(a2, Bfs<true>, "bfs_complement", "bfs_complement.hpp"); W(a3, Dijkstra<i64>, "dijkstra", "dijkstra.hpp"); W(a4, Dijkstra<int>, "dijkstra_int", "dijkstra.hpp"); W(a5, Bfs01<false>, "bfs01", "bfs01.hpp"); W(a6, Bfs01<true>, "bfs01_map", "bfs01.hpp");
W(a7, Topo, "topological_sort", "topological_sort.hpp"); W(a8, Functional, "functional_graph", "functional_graph.hpp"); W(a9, SegGraph, "segment_tree_graph", "segment_tree_graph.hpp"); W(b1, Cycle<true>, "cycle_directed", "cycle_detection.hpp"); W(b2, Cycle<false>, "cycle_undirected", "cycle_detection.hpp"); W(b3, DagPaths, "shortest_paths_dag", "single_source_shortest_path_dag.hpp");
}
