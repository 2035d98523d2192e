// C18: graph objects that are built, extended, rebuilt and queried in any order, several alive at once, with failing requests
#include "sim.hpp"
#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <tuple>
#include <vector>
#include "library/graph/block_cut_forest.hpp"
#include "library/graph/two_edge_connected_components.hpp"
#include "library/graph/kruscal.hpp"
#include "library/graph/directed_eulerian_graph.hpp"
#include "library/graph/undirected_eulerian_graph.hpp"
using i64 = int64_t; using u64 = uint64_t; using E = std::pair<int, int>; using VE = std::vector<E>;
struct Req { bool on; sim::Rng& r; bool failed = false; // one request, possibly with an allocation failure inside
    template <typename F> bool operator()(F&& f, int span = 12) { failed = false; if (!on || !r.chance(1, 4)) { f(); return true; } sim::arm_alloc_failure((i64) r.below((u64) span)); try { sim::Armed a; f(); } catch (const std::bad_alloc&) { failed = true; sim::probe("request_failed"); } sim::disarm_alloc_failure(); return !failed; } };
// components of the graph without vertex dv and without edge de
static std::vector<int> comps(int n, const VE& es, int dv = -1, int de = -1, const std::set<int>* drop = nullptr) {
    std::vector<int> l((size_t) n); for (int i = 0; i < n; ++i) l[i] = i == dv ? -1 : i;
    for (bool ch = true; ch;) { ch = false; for (int i = 0; i < (int) es.size(); ++i) { auto [u, v] = es[i]; if (i == de || u == dv || v == dv || (drop && drop->count(i))) continue; int m = std::min(l[u], l[v]); if (l[u] != m || l[v] != m) l[u] = l[v] = m, ch = true; } }
    return l; }
static int ncomp(const std::vector<int>& l) { std::set<int> s(l.begin(), l.end()); s.erase(-1); return (int) s.size(); }
template <typename S> static u64 hset(const S& s) { u64 h = 7; for (auto& x : s) h = sim::mix64(h ^ (u64) x); return h; }
enum { NEW, ADD, BURST, BUILD, QUERY, REMOVED, COPY, COMPS };
static bool big(sim::Ctx& c) { return sim::mix64(c.s.seed ^ 0xb16) % 9 == 0; } // one history in nine has bigger graphs
template <typename G> static void lowlink(sim::Ctx& c) { const bool L = big(c); const size_t EC = L ? 80 : 22;
    constexpr bool B = std::is_same_v<G, suisen::BiconnectedComponents>, T = std::is_same_v<G, suisen::TwoEdgeConnectedComponents>;
    struct Obj { G g; VE es; int n; bool built; }; std::vector<std::unique_ptr<Obj>> os; bool on = c.faults_on();
    auto mk = [&](sim::Rng& r) { int n = r.chance(1, 12) ? 0 : 1 + (int) r.below(L ? 45 : 9); VE es; sim::scribble_stack();
        if (n > 1 && r.chance(1, 3)) { for (int k = (int) r.below(L ? 60 : 12); k-- > 0;) { int u = (int) r.below((u64) n), v = (int) r.below((u64) n); if (B && u == v) v = (u + 1) % n; es.push_back({ u, v }); } return std::unique_ptr<Obj>(new Obj{ G(n, es), es, n, true }); }
        if (n == 0 && r.chance(1, 2)) return std::unique_ptr<Obj>(new Obj{ G(), {}, 0, false }); return std::unique_ptr<Obj>(new Obj{ G(n), {}, n, false }); };
    { sim::Rng r(c.s.seed ^ 3); os.push_back(mk(r)); }
    auto verify = [&](Obj& o) { if (!o.built) return; const G& g = o.g; c.eq(g.vertex_num(), o.n, "vertices"); c.eq(g.edge_num(), (int) o.es.size(), "edges"); c.require(g.edges() == o.es, "edge list"); auto base = comps(o.n, o.es); int k = ncomp(base); c.eq(g.connected_component_num(), k, "number of components");
        std::set<int> br, ap; for (int e = 0; e < (int) o.es.size(); ++e) if (ncomp(comps(o.n, o.es, -1, e)) > k) br.insert(e); for (int v = 0; v < o.n; ++v) if (ncomp(comps(o.n, o.es, v)) > k) ap.insert(v);
        { const suisen::LowLink& lg = g; std::vector<int> ps, seen((size_t) o.n); for (int v = 0; v < o.n; ++v) { ps.push_back(lg.pre_order(v)); c.require(lg.low_link(v) >= 0 && lg.low_link(v) <= lg.pre_order(v), "low link"); std::multiset<std::pair<int, int>> a(lg[v].begin(), lg[v].end()), w; for (int e = 0; e < (int) o.es.size(); ++e) { if (o.es[(size_t) e].first == v) w.insert({ o.es[(size_t) e].second, e }); if (o.es[(size_t) e].second == v) w.insert({ o.es[(size_t) e].first, e }); } c.require(a == w, "edges at a vertex"); } std::sort(ps.begin(), ps.end()); for (int v = 0; v < o.n; ++v) c.eq(ps[(size_t) v], v, "visiting order"); for (int e = 0; e < (int) o.es.size(); ++e) c.require(lg.edge(e) == o.es[(size_t) e], "edge"); }
        auto gb = g.bridge_ids(); c.require(gb.size() == br.size() && std::set<int>(gb.begin(), gb.end()) == br, "bridges"); auto ga = g.articulation_points(); c.require(ga.size() == ap.size() && std::set<int>(ga.begin(), ga.end()) == ap, "articulation points");
        for (int e = 0; e < (int) o.es.size(); ++e) c.eq(g.is_bridge(o.es[e].first, o.es[e].second), br.count(e) > 0, "is_bridge");
        if constexpr (T) { auto l = comps(o.n, o.es, -1, -1, &br); c.eq(g.component_num(), ncomp(l), "number of two-edge-connected components"); for (int i = 0; i < o.n; ++i) { c.require(g[i] >= 0 && g[i] < g.component_num(), "component id in range"); for (int j = 0; j < i; ++j) c.eq(g[i] == g[j], l[i] == l[j], "same two-edge-connected component"); }
            auto gr = g.groups(); size_t tot = 0; for (size_t q = 0; q < gr.size(); ++q) for (int v : gr[q]) c.eq(g[v], (int) q, "group"), ++tot; c.eq(tot, (size_t) o.n, "groups partition the vertices");
            std::multiset<std::tuple<int, int, int>> w, h; for (int e : br) { auto [u, v] = o.es[e]; w.insert({ g[u], g[v], e }); w.insert({ g[v], g[u], e }); } auto f = g.reduced_forest(); for (size_t q = 0; q < f.size(); ++q) for (auto [v, id] : f[q]) h.insert({ (int) q, v, id }); c.require(w == h, "reduced forest"); }
        if constexpr (B) { int m = (int) o.es.size(); std::vector<int> b((size_t) m); for (int i = 0; i < m; ++i) b[i] = i; auto other = [&](int e, int v) { return o.es[e].first == v ? o.es[e].second : o.es[e].first; };
            for (int v = 0; v < o.n; ++v) { auto l = comps(o.n, o.es, v); for (int e = 0; e < m; ++e) for (int f = 0; f < e; ++f) if ((o.es[e].first == v || o.es[e].second == v) && (o.es[f].first == v || o.es[f].second == v) && l[other(e, v)] == l[other(f, v)] && b[e] != b[f]) { int x = b[e], y = b[f]; for (int& z : b) if (z == x) z = y; } }
            int nb = ncomp(b); std::set<int> iso; for (int v = 0; v < o.n; ++v) { bool any = false; for (auto& e : o.es) any |= e.first == v || e.second == v; if (!any) iso.insert(v); }
            c.eq(g.edge_component_num(), nb, "number of blocks"); c.eq(g.isolated_vertex_num(), (int) iso.size(), "number of isolated vertices"); c.eq(g.component_num(), nb + (int) iso.size(), "number of components with isolated vertices"); for (int e = 0; e < m; ++e) { c.require(g[e] >= 0 && g[e] < nb, "block id in range"); for (int f = 0; f < e; ++f) c.eq(g[e] == g[f], b[e] == b[f], "same block"); }
            auto cs = g.components(); c.eq((int) cs.size(), g.component_num(), "components"); std::map<int, std::set<int>> bv; for (int e = 0; e < m; ++e) bv[g[e]].insert(o.es[e].first), bv[g[e]].insert(o.es[e].second);
            for (int q = 0; q < (int) cs.size(); ++q) { auto& s = cs[q]; c.eq(g.is_isolated_component(q), q >= nb, "isolated component"); c.require(s.vertex_num() == (int) s.vids.size() && s.edge_num() == (int) s.eids.size() && s.vertex_set() == s.vids && s.edge_set() == s.eids && s == cs[(size_t) q] && (q == 0 || s != cs[(size_t) q - 1]), "accessors of a block"); std::set<int> vs(s.vids.begin(), s.vids.end()); c.require(vs.size() == s.vids.size(), "vertex listed once"); if (q < nb) { c.require(vs == bv[q], "vertices of a block"); for (int e : s.eids) c.eq(g[e], q, "edges of a block"); } else c.require(vs.size() == 1 && iso.count(*vs.begin()) && s.eids.empty(), "isolated vertex component"); }
            const suisen::BlockCutForest f(g); c.eq(f.size(), g.component_num() + (int) ap.size(), "nodes of the block-cut forest"); std::multiset<std::set<int>> wa, ha; for (int v : ap) { std::set<int> s; for (int e = 0; e < m; ++e) if (o.es[e].first == v || o.es[e].second == v) s.insert(g[e]); wa.insert(s); } for (int q = g.component_num(); q < f.size(); ++q) { c.require(f.is_articulation_point(q) && f.vertex_num(q) == 1, "cut node"); ha.insert(std::set<int>(f[q].begin(), f[q].end())); c.require(f[q].size() == std::set<int>(f[q].begin(), f[q].end()).size(), "no double edge in the forest"); } c.require(wa == ha, "edges of the block-cut forest");
            for (int q = 0; q < g.component_num(); ++q) { c.require(f.is_biconnected_component(q) && f.is_isolated_vertex(q) == (q >= nb), "block node"); c.eq(f.vertex_num(q), q < nb ? (int) bv[q].size() : 1, "vertices in a block node"); } for (int v = 0; v < o.n; ++v) { int q = f.component_id(v); c.require(q < nb ? bv[q].count(v) > 0 : iso.count(v) > 0, "component of a vertex"); } } };
    while (c.next()) {
        sim::Rng r = c.rng(2); Obj& o = *os[(size_t) c.arg(0, 0, (i64) os.size() - 1)]; Req go{ on, r };
        auto edge = [&] { int u = (int) r.below((u64) o.n), v = (int) r.below((u64) o.n); if (B && u == v) v = (u + 1) % o.n; return E{ u, v }; }; bool can = o.n > (B ? 1 : 0) && o.es.size() < EC;
        switch (c.cur->code) {
        case NEW: if (os.size() < 5) os.push_back(mk(r)); else os[r.below(5)] = mk(r); break;
        case ADD: if (can) { auto [u, v] = edge(); c.eq(o.g.add_edge(u, v), (int) o.es.size(), "edge id"); o.es.push_back({ u, v }); o.built = false; } break;
        case BURST: for (int k = (int) r.below(L ? 30 : 8); k-- > 0 && can;) { auto [u, v] = edge(); o.g.add_edge(u, v); o.es.push_back({ u, v }); o.built = false; } break;
        case BUILD: { bool was = o.built; o.built = false; if (go([&] { o.g.build(); }, 20)) { o.built = true; verify(o); } else if (r.chance(1, 2)) { o.g.build(); o.built = true; verify(o); } (void) was; break; }
        case QUERY: verify(o); break;
        case REMOVED: if (o.built && o.n) { int u = (int) r.below((u64) o.n), g = 0; if (go([&] { g = o.g.connected_component_num_if_removed(u); }, 2)) c.eq(g, ncomp(comps(o.n, o.es, u)), "components without a vertex"); bool a = false; if (go([&] { a = o.g.is_articulation_point(u); }, 2)) c.eq(a, ncomp(comps(o.n, o.es, u)) > ncomp(comps(o.n, o.es)), "is_articulation_point"); if (o.es.size()) { auto e = r.below(o.es.size()); c.eq(o.g.connected_component_num_if_removed(o.es[e].first, o.es[e].second), ncomp(comps(o.n, o.es, -1, (int) e)), "components without an edge"); } } break;
        case COPY: { auto q = std::make_unique<Obj>(o); if (os.size() < 5) os.push_back(std::move(q)); else os[r.below(5)] = std::move(q); break; }
        case COMPS: if (o.built && o.n) { if constexpr (T) { std::vector<std::vector<int>> g; go([&] { g = o.g.groups(); }); } if constexpr (B) go([&] { o.g.components(); suisen::BlockCutForest f(o.g); }, 30); verify(o); } break;
        }
        u64 h = 0; for (auto& q : os) { h = sim::mix64(h ^ (u64) q->n ^ (q->built ? 512 : 0)); for (auto& e : q->es) h = sim::mix64(h ^ (u64) (e.first * 64 + e.second)); } c.state(h);
    }
    for (auto& q : os) { if (!q->built) q->g.build(), q->built = true; verify(*q); }
}
template <typename K, bool MX> static void kruskal(sim::Ctx& c) { const bool L = big(c);
    struct Obj { K k; int n; std::vector<std::tuple<int, int, int>> es; bool built, conn; }; std::vector<std::unique_ptr<Obj>> os; bool on = c.faults_on();
    auto mk = [&](sim::Rng& r) { int n = (int) r.below(L ? 60 : 9); sim::scribble_stack(); return std::unique_ptr<Obj>(new Obj{ n == 0 && r.chance(1, 2) ? K() : K(n), n, {}, false, false }); };
    { sim::Rng r(c.s.seed ^ 3); os.push_back(mk(r)); }
    auto verify = [&](Obj& o) { if (!o.built) return; std::vector<int> l((size_t) o.n); for (int i = 0; i < o.n; ++i) l[i] = i; auto s = o.es; std::sort(s.begin(), s.end(), [](auto& a, auto& b) { return MX ? std::get<2>(a) > std::get<2>(b) : std::get<2>(a) < std::get<2>(b); }); i64 tot = 0; std::vector<int> ws; for (auto [u, v, w] : s) if (l[u] != l[v]) { int x = l[u], y = l[v]; for (int& z : l) if (z == x) z = y; tot += w; ws.push_back(w); }
        c.eq((i64) o.k.get_weight(), tot, "weight of the spanning forest"); auto t = o.k.get_mst(); std::vector<int> gw; VE te; auto pool = std::multiset<std::tuple<int, int, int>>(o.es.begin(), o.es.end()); for (auto& e : t) { gw.push_back(std::get<2>(e)); te.push_back({ std::get<0>(e), std::get<1>(e) }); auto it = pool.find(e); c.require(it != pool.end(), "forest edge was added"); pool.erase(it); } c.require(gw == ws, "weights of the forest edges in order"); c.eq(ncomp(comps(o.n, te)), ncomp(l), "forest spans the components"); c.eq(o.conn, o.n == 0 || ncomp(l) == 1, "connected"); };
    while (c.next()) { sim::Rng r = c.rng(2); Obj& o = *os[(size_t) c.arg(0, 0, (i64) os.size() - 1)]; Req go{ on, r };
        switch (c.cur->code) {
        case NEW: if (os.size() < 4) os.push_back(mk(r)); else os[r.below(4)] = mk(r); break;
        case ADD: case BURST: for (int k = c.cur->code == ADD ? 1 : (int) r.below(L ? 50 : 8); k-- > 0 && o.n && o.es.size() < (L ? 200u : 30u);) { std::tuple<int, int, int> e{ (int) r.below((u64) o.n), (int) r.below((u64) o.n), (int) r.below(r.chance(1, 2) ? 4 : 100) - 2 }; if (r.chance(1, 2)) o.k.add_edge(e); else o.k.add_edge(std::get<0>(e), std::get<1>(e), std::get<2>(e)); o.es.push_back(e); o.built = false; } break;
        case BUILD: { bool was = o.built; bool g = false; if (go([&] { g = o.k.build(); }, 4)) { o.built = true; o.conn = g; verify(o); } else if (!was && r.chance(1, 2)) { o.conn = o.k.build(); o.built = true; verify(o); } else o.built = was; break; }
        case QUERY: verify(o); break;
        case COPY: { auto q = std::make_unique<Obj>(o); if (os.size() < 4) os.push_back(std::move(q)); else os[r.below(4)] = std::move(q); break; } }
        u64 h = 0; for (auto& q : os) { h = sim::mix64(h ^ (u64) q->n); for (auto& [u, v, w] : q->es) h = sim::mix64(h ^ (u64) (u * 4096 + v * 256 + w)); } c.state(h); }
    for (auto& q : os) { q->conn = q->k.build(); q->built = true; verify(*q); }
}
enum { XNEW, XADD, XWALK, XCIRC, XCIRC_AT, XTRAIL, XTRAIL_D, XADJ, XCOPY };
template <typename G, bool DIR> static void euler(sim::Ctx& c) { const bool L = big(c); const size_t EC = L ? 90 : 16;
    struct Obj { G g; int n; VE es; }; std::vector<std::unique_ptr<Obj>> os; bool on = c.faults_on();
    auto mk = [&](sim::Rng& r) { int n = 1 + (int) r.below(L ? 30 : 7); return std::unique_ptr<Obj>(new Obj{ G(n), n, {} }); };
    { sim::Rng r(c.s.seed ^ 3); os.push_back(mk(r)); }
    auto adj = [&](Obj& o) { std::vector<std::vector<int>> w((size_t) o.n); for (auto [u, v] : o.es) { w[u].push_back(v); if (!DIR) w[v].push_back(u); } const G& cg = o.g; for (int u = 0; u < o.n; ++u) { c.require(cg[u] == w[u], "adjacency list unchanged by queries"); if constexpr (!DIR) for (int i = 0; i < (int) w[u].size(); ++i) { auto [v, j] = cg.rev_edge(u, i); c.require(v == w[u][i] && j >= 0 && j < (int) w[v].size() && cg.rev_edge(v, j) == std::make_pair(u, i), "reverse edge"); } } };
    auto walk_ok = [&](Obj& o, const std::vector<int>& p) { if (p.size() != o.es.size() + 1) return false; std::multiset<E> s; auto nm = [](E e) { if (!DIR && e.first > e.second) std::swap(e.first, e.second); return e; }; for (auto e : o.es) s.insert(nm(e)); for (size_t i = 0; i + 1 < p.size(); ++i) { auto it = s.find(nm({ p[i], p[i + 1] })); if (it == s.end()) return false; s.erase(it); } return true; };
    while (c.next()) { sim::Rng r = c.rng(2); Obj& o = *os[(size_t) c.arg(0, 0, (i64) os.size() - 1)]; Req go{ on, r }; int n = o.n; std::vector<int> in((size_t) n), out((size_t) n); for (auto [u, v] : o.es) ++out[u], ++in[v]; auto l = comps(n, o.es); std::set<int> ec; for (auto [u, v] : o.es) ec.insert(l[u]); bool conn = ec.size() <= 1, bal = true; int odd = 0, plus = 0, minus = 0, other = 0; for (int i = 0; i < n; ++i) { if (DIR) { int d = out[i] - in[i]; bal &= d == 0; plus += d == 1; minus += d == -1; other += d > 1 || d < -1; } else { bal &= (in[i] + out[i]) % 2 == 0; odd += (in[i] + out[i]) % 2; } } bool two = DIR ? plus == 1 && minus == 1 && !other : odd == 2; std::optional<std::vector<int>> p;
        switch (c.cur->code) {
        case XNEW: if (os.size() < 4) os.push_back(mk(r)); else os[r.below(4)] = mk(r); break;
        case XADD: if (o.es.size() < EC) { E e{ (int) r.below((u64) n), (int) r.below((u64) n) }; o.g.add_edge(e.first, e.second); o.es.push_back(e); } break;
        case XWALK: { int u = (int) r.below((u64) n), st = u; for (int k = 1 + (int) r.below(L ? 40 : 6); k-- > 0 && o.es.size() < EC;) { int v = (int) r.below((u64) n); o.g.add_edge(u, v); o.es.push_back({ u, v }); u = v; } if (r.chance(1, 2)) { o.g.add_edge(u, st); o.es.push_back({ u, st }); } break; }
        case XCIRC: if (go([&] { p = o.g.eulerian_circuit(); }, 16)) { c.eq(p.has_value(), bal && conn, "circuit exists"); if (p) c.require(walk_ok(o, *p) && p->front() == p->back(), "circuit uses every edge once"); } adj(o); break;
        case XCIRC_AT: { int s = (int) r.below((u64) n); if (go([&] { p = o.g.eulerian_circuit(s); }, 16)) { c.eq(p.has_value(), bal && conn && (o.es.empty() || l[s] == *ec.begin()), "circuit from a start exists"); if (p) c.require(walk_ok(o, *p) && p->front() == s && p->back() == s, "circuit uses every edge once"); } adj(o); break; }
        case XTRAIL: case XTRAIL_D: { bool d = c.cur->code == XTRAIL_D; if (go([&] { p = o.g.eulerian_trail(d); }, 24)) { bool w = conn && ((!d && bal) || two); c.eq(p.has_value(), w, "trail exists"); if (p) { c.require(walk_ok(o, *p), "trail uses every edge once"); if (two) c.require(p->front() != p->back(), "endpoints differ"); } } adj(o); break; }
        case XADJ: adj(o); break;
        case XCOPY: { auto q = std::make_unique<Obj>(o); if (os.size() < 4) os.push_back(std::move(q)); else os[r.below(4)] = std::move(q); break; } }
        u64 h = 0; for (auto& q : os) { h = sim::mix64(h ^ (u64) q->n); for (auto& e : q->es) h = sim::mix64(h ^ (u64) (e.first * 64 + e.second)); } c.state(h); }
    for (auto& q : os) adj(*q);
}
#define GR "library/graph/"
static sim::WorldDef ll(const char* nm, void (*run)(sim::Ctx&), const char* real) { sim::WorldDef d; d.prop = "C18"; d.name = nm; d.run = run; d.max_ops = 60; d.ncfg = 0; d.faults = true; d.real = real; d.stub = "ac-library dsu stand-in"; d.ops = { {"new", 1, 3}, {"add", 8, 3}, {"burst", 3, 3}, {"build", 7, 3}, {"query", 2, 3}, {"removed", 6, 3}, {"copy", 1, 3}, {"components", 2, 3} }; return d; }
static sim::WorldDef eu(const char* nm, void (*run)(sim::Ctx&), const char* real) { sim::WorldDef d; d.prop = "C18"; d.name = nm; d.run = run; d.max_ops = 50; d.ncfg = 0; d.faults = true; d.real = real; d.stub = ""; d.ops = { {"new", 1, 3}, {"add", 4, 3}, {"walk", 5, 3}, {"circuit", 3, 3}, {"circuit_at", 3, 3}, {"trail", 5, 3}, {"trail_diff", 3, 3}, {"adj", 1, 3}, {"copy", 1, 3} }; return d; }
static sim::RegisterWorld w1(ll("low_link", lowlink<suisen::LowLink>, GR "low_link.hpp")), w2(ll("biconnected", lowlink<suisen::BiconnectedComponents>, GR "{biconnected_components,block_cut_forest}.hpp")), w3(ll("two_edge_connected", lowlink<suisen::TwoEdgeConnectedComponents>, GR "two_edge_connected_components.hpp")),
    w4(ll("kruskal_min", kruskal<suisen::KruscalMinimumSpanningTree<int>, false>, GR "kruscal.hpp")), w5(ll("kruskal_max", kruskal<suisen::KruscalMaximumSpanningTree<int>, true>, GR "kruscal.hpp")), w6(eu("euler_directed", euler<suisen::DirectedEulerianGraph, true>, GR "directed_eulerian_graph.hpp")), w7(eu("euler_undirected", euler<suisen::UndirectedEulerianGraph, false>, GR "undirected_eulerian_graph.hpp"));
