// C19: adjacency containers that are copied, moved, edited and shrunk while others live
#include "sim.hpp"
#include <algorithm>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <tuple>
#include <vector>
#include "library/graph/csr_graph.hpp"
using i64 = int64_t; using u64 = uint64_t;
namespace {
enum { NEW, BUILDER, COPY, MOVE, ASSIGN, MASSIGN, SWAP, PUSH, POP, ERASE, CLEAR, INSERT, EDIT, SHRINK, REVERSED, DFS, READ, SORT, UNLINK, LINK };
template <typename W> void run(sim::Ctx& c) { const bool L = sim::mix64(c.s.seed ^ 0xb16) % 9 == 0; // one history in nine has bigger graphs
    using G = suisen::Graph<W>; constexpr bool WT = G::weighted; using In = typename G::input_edge_type; using Ed = typename G::edge_type; using M = std::pair<int, int>;
    struct Obj { G g; std::vector<std::vector<M>> a; std::vector<int> cap; bool und; bool alive = true; }; std::vector<std::shared_ptr<Obj>> os; bool on = c.faults_on();
    auto val = [](const Ed& e) { if constexpr (WT) return M{ (int) e, std::get<1>(e) }; else return M{ e, 1 }; };
    auto mke = [](M m) { if constexpr (WT) return Ed(m.first, m.second); else return Ed(m.first); };
    auto verify = [&](Obj& o) { int n = (int) o.a.size(); if (!o.alive) return; c.eq(o.g.size(), n, "vertices"); const G& cg = o.g;
        for (int u = 0; u < n; ++u) { const auto& l = cg[u]; auto& w = o.a[u]; c.eq(l.size(), (int) w.size(), "degree"); c.eq(l.empty(), w.empty(), "empty"); c.eq(l.capacity(), o.cap[u], "capacity"); size_t i = 0; for (const auto& e : l) { c.require(val(e) == w[i] && G::get_weight(e) == w[i].second, "adjacent edge"); ++i; } i = w.size(); for (auto it = l.crbegin(); it != l.crend(); ++it) c.require(val(*it) == w[--i], "adjacent edge, backwards"); for (i = 0; i < w.size(); ++i) c.require(val(l[(int) i]) == w[i] && val(l.data()[i]) == w[i], "adjacent edge by index"); if (w.size()) c.require(val(l.back()) == w.back() && val(l.front()) == w.front(), "first and last edge"); i = 0; for (auto it = l.cbegin(); it != l.cend(); ++it) c.require(val(*it) == w[i++], "adjacent edge, const iterator"); i = w.size(); for (auto it = l.rbegin(); it != l.rend(); ++it) c.require(i > 0 && val(*it) == w[--i], "adjacent edge, backwards"); c.eq(i, (size_t) 0, "length, backwards"); for (i = 0; i < w.size(); ++i) c.require(val(l.at((uint32_t) i)) == w[i], "adjacent edge by checked index"); } };
    auto others = [&](Obj* except) { for (auto& q : os) if (q.get() != except) verify(*q); };
    auto edges = [&](sim::Rng& r, int n, std::vector<std::vector<M>>& a, bool und) { std::vector<In> es; for (int k = n ? (int) r.below(L ? 300 : 16) : 0; k-- > 0;) { int u = (int) r.below((u64) n), v = (int) r.below((u64) n), w = WT ? (int) r.below(5) : 1; if constexpr (WT) es.push_back({ u, v, w }); else es.push_back({ u, v }); a[u].push_back({ v, w }); if (und) a[v].push_back({ u, w }); } return es; };
    auto caps = [](Obj& o) { o.cap.clear(); for (auto& l : o.a) o.cap.push_back((int) l.size()); };
    auto mk = [&](sim::Rng& r, bool builder) { int n = (int) r.below(L ? 60 : 7); bool und = r.chance(1, 2); std::vector<std::vector<M>> a((size_t) n); auto es = edges(r, n, a, und); std::unique_ptr<Obj> o;
        if (builder) { auto via = [&](auto b) { if (r.chance(1, 5)) return decltype(b)::build(n, es); for (size_t i = 0; i < es.size() / 2; ++i) { if (r.chance(1, 2)) b.add_edge(es[i]); else if constexpr (WT) b.emplace_edge(std::get<0>(es[i]), std::get<1>(es[i]), std::get<2>(es[i])); else b.emplace_edge(es[i].first, es[i].second); } b.add_edges(std::vector<In>(es.begin() + es.size() / 2, es.end())); if (r.chance(1, 2)) { { G first = b.build_without_move(); (void) first; } return b.build_without_move(); } return b.build(); }; o.reset(new Obj{ und ? via(suisen::UndirectedGraphBuilder<W>(n)) : via(suisen::DirectedGraphBuilder<W>(n)), a, {}, und }); }
        else if (!und && r.chance(1, 3)) { std::vector<std::vector<Ed>> g((size_t) n); for (int u = 0; u < n; ++u) for (auto m : a[u]) g[u].push_back(mke(m)); o.reset(new Obj{ G(g), a, {}, und }); }
        else o.reset(new Obj{ und ? G::create_undirected_graph(n, es) : G::create_directed_graph(n, es), a, {}, und }); caps(*o); return o; };
    auto put = [&](sim::Rng& r, std::unique_ptr<Obj> q) { if (os.size() < 5) os.push_back(std::move(q)); else os[r.below(5)] = std::move(q); };
    { sim::Rng r(c.s.seed ^ 3); os.push_back(mk(r, false)); }
    while (c.next()) { sim::Rng r = c.rng(2); auto keep = os[(size_t) c.arg(0, 0, (i64) os.size() - 1)], keep2 = os[r.below(os.size())]; Obj& o = *keep; Obj& p = *keep2; if (!o.alive && c.cur->code != NEW && c.cur->code != ASSIGN && c.cur->code != MASSIGN) continue; int n = (int) o.a.size(), u = n ? (int) r.below((u64) n) : 0; M e{ n ? (int) r.below((u64) n) : 0, WT ? (int) r.below(5) : 1 };
        switch (c.cur->code) {
        case NEW: put(r, mk(r, false)); break;
        case BUILDER: put(r, mk(r, true)); break;
        case COPY: put(r, std::make_unique<Obj>(o)); break;
        case MOVE: { auto q = std::unique_ptr<Obj>(new Obj{ std::move(o.g), o.a, o.cap, o.und }); o.alive = false; put(r, std::move(q)); break; }
        case ASSIGN: if (p.alive) { o.g = p.g; o.a = p.a; o.cap = p.cap; o.und = p.und; o.alive = true; } break;
        case MASSIGN: if (&p != &o && p.alive) { o.g = std::move(p.g); o.a = p.a; o.cap = p.cap; o.und = p.und; o.alive = true; p.alive = false; } break;
        case SWAP: if (&p != &o && p.alive) { std::swap(o.g, p.g); std::swap(o.a, p.a); std::swap(o.cap, p.cap); std::swap(o.und, p.und); } break;
        case PUSH: if (n && (int) o.a[u].size() < o.cap[u]) { if (r.chance(1, 2)) o.g[u].push_back(mke(e)); else { if constexpr (WT) o.g[u].emplace_back(e.first, e.second); else o.g[u].emplace_back(e.first); } o.a[u].push_back(e); o.und = false; } break;
        case POP: if (n && o.a[u].size()) { o.g[u].pop_back(); o.a[u].pop_back(); o.und = false; } break;
        case ERASE: if (n && o.a[u].size()) { auto& l = o.g[u]; size_t x = r.below(o.a[u].size()), y = x + 1 + r.below(o.a[u].size() - x); if (r.chance(1, 2)) { y = x + 1; l.erase(l.cbegin() + (int) x); } else { if (r.chance(1, 6)) y = x; l.erase(l.cbegin() + (int) x, l.cbegin() + (int) y); } o.a[u].erase(o.a[u].begin() + (int) x, o.a[u].begin() + (int) y); o.und = false; } break;
        case CLEAR: if (n) { o.g[u].clear(); o.a[u].clear(); o.und = false; } break;
        case INSERT: if (n) { auto& l = o.g[u]; auto& w = o.a[u]; int room = o.cap[u] - (int) w.size(), x = (int) r.below(w.size() + 1); if (room <= 0) break; int num = 1 + (int) r.below((u64) room); o.und = false; if (w.size() && r.chance(1, 4)) { size_t j = r.below(w.size()); M z = w[j]; if (r.chance(1, 3)) { l.push_back(l[(int) j]); w.push_back(z); } else { l.insert(l.cbegin() + x, l[(int) j]); w.insert(w.begin() + x, z); } break; } switch (r.below(4)) { case 0: l.insert(l.cbegin() + x, mke(e)); w.insert(w.begin() + x, e); break; case 1: l.insert(l.cbegin() + x, num, mke(e)); w.insert(w.begin() + x, (size_t) num, e); break; case 2: { std::vector<Ed> v; std::vector<M> wm; for (int i = 0; i < num; ++i) { M z{ (int) r.below((u64) n), WT ? (int) r.below(5) : 1 }; v.push_back(mke(z)); wm.push_back(z); } l.insert(l.cbegin() + x, v.begin(), v.end()); w.insert(w.begin() + x, wm.begin(), wm.end()); break; } default: if (room >= 2) { M z{ u, 1 }; l.insert(l.cbegin() + x, { mke(e), mke(z) }); w.insert(w.begin() + x, z); w.insert(w.begin() + x, e); } else { if constexpr (WT) l.emplace(l.cbegin() + x, e.first, e.second); else l.emplace(l.cbegin() + x, e.first); w.insert(w.begin() + x, e); } } } break;
        case EDIT: if (n && o.a[u].size()) { size_t x = r.below(o.a[u].size()); o.und = false; switch (r.below(4)) { case 0: o.g[u][(int) x] = mke(e); break; case 1: o.g[u].at((uint32_t) x) = mke(e); break; case 2: o.g[u].front() = mke(e); x = 0; break; default: o.g[u].back() = mke(e); x = o.a[u].size() - 1; } o.a[u][x] = e; } break;
        case SORT: if (n) { auto& l = o.g[u]; if constexpr (WT) std::sort(l.begin(), l.end()); else std::sort(l.begin(), l.end()); std::sort(o.a[u].begin(), o.a[u].end()); o.und = false; } break;
        case SHRINK: { bool f = false; if (on && r.chance(1, 4)) { sim::arm_alloc_failure(0); try { sim::Armed ar; o.g.shrink_to_fit(); } catch (const std::bad_alloc&) { f = true; sim::probe("request_failed"); } sim::disarm_alloc_failure(); } else o.g.shrink_to_fit(); if (!f) caps(o); break; }
        case REVERSED: { Obj q{ o.g.reversed(), std::vector<std::vector<M>>((size_t) n), {}, false }; for (int i = 0; i < n; ++i) for (auto m : o.a[i]) q.a[m.first].push_back({ i, m.second }); caps(q); verify(q); if (r.chance(1, 2)) put(r, std::make_unique<Obj>(q)); break; }
        case DFS: { if (!n) break; { int st = (int) r.below((u64) n); auto t = r.chance(1, 4) ? (st = 0, o.g.dfs_tree()) : o.g.dfs_tree(st); using E3 = std::tuple<int, int, int>; std::vector<int> pi((size_t) n, -1), qi((size_t) n, -1); c.require((int) t.pre_ord.size() == n && (int) t.pst_ord.size() == n && (int) t.par.size() == n, "orders have every vertex"); for (int i = 0; i < n; ++i) pi[(size_t) t.pre_ord[(size_t) i]] = i, qi[(size_t) t.pst_ord[(size_t) i]] = i; for (int i = 0; i < n; ++i) c.require(pi[i] >= 0 && qi[i] >= 0, "orders are permutations"); c.eq(t.pre_ord[0], st, "search starts at the given vertex");
                std::map<E3, int> left; std::map<E3, int> back; const G& tr = t.tree; const G& bk = t.back; for (int i = 0; i < n; ++i) for (auto m : o.a[i]) { ++left[{ i, m.first, m.second }]; c.require(pi[i] > pi[m.first] || qi[i] >= qi[m.first], "an edge forward in preorder leads to a descendant"); }
                for (int i = 0; i < n; ++i) { for (const auto& x : tr[i]) { auto [v, wt] = val(x); c.require(left[{ i, v, wt }]-- > 0, "tree edge is an edge of the graph"); c.eq(t.par[(size_t) v], i, "parent"); c.require(pi[i] < pi[v] && qi[i] > qi[v], "tree edges go down"); } for (const auto& x : bk[i]) { auto [v, wt] = val(x); c.require(left[{ i, v, wt }]-- > 0, "back edge is an edge of the graph"); ++back[{ i, v, wt }]; c.require(pi[v] <= pi[i] && qi[v] >= qi[i], "back edges go to an ancestor"); } }
                for (int i = 0; i < n; ++i) if (t.par[(size_t) i] < 0) { int k = 0; for (int j = 0; j < n; ++j) for (const auto& x : tr[j]) k += (int) x == i; c.eq(k, 0, "a root has no parent edge"); }
                std::vector<int> skipped((size_t) n, 0); for (auto& [k, num] : left) if (num) { auto [a, b, wt] = k; if (pi[b] <= pi[a] && qi[b] >= qi[a]) { c.require(t.par[(size_t) a] == b, "every edge to an ancestor other than the parent is a back edge"); skipped[(size_t) a] += num; c.require(skipped[(size_t) a] <= 1, "at most one edge to the parent is left out"); } } }
            if (!o.und) break; bool loops = false; for (int i = 0; i < n; ++i) for (auto m : o.a[i]) loops |= m.first == i; if (loops) break; int st = (int) r.below((u64) n); auto t = o.g.dfs_tree(st); std::vector<int> pi((size_t) n, -1), qi((size_t) n, -1); c.require((int) t.pre_ord.size() == n && (int) t.pst_ord.size() == n && (int) t.par.size() == n, "orders have every vertex"); for (int i = 0; i < n; ++i) pi[t.pre_ord[i]] = i, qi[t.pst_ord[i]] = i; for (int i = 0; i < n; ++i) c.require(pi[i] >= 0 && qi[i] >= 0, "orders are permutations"); c.eq(t.pre_ord[0], st, "search starts at the given vertex"); auto anc = [&](int a, int d) { return pi[a] <= pi[d] && qi[a] >= qi[d]; };
            std::multiset<std::tuple<int, int, int>> w, g; for (int i = 0; i < n; ++i) for (auto m : o.a[i]) if (i < m.first) w.insert({ i, m.first, m.second }); std::vector<int> par((size_t) n, -1); const G& tr = t.tree; const G& bk = t.back; c.eq(tr.size(), n, "tree has every vertex"); for (int i = 0; i < n; ++i) { for (const auto& x : tr[i]) { auto [v, wt] = val(x); c.eq(par[v], -1, "one tree edge into a vertex"); par[v] = i; g.insert({ std::min(i, v), std::max(i, v), wt }); c.require(anc(i, v) && i != v, "tree edges go down"); } for (const auto& x : bk[i]) { auto [v, wt] = val(x); g.insert({ std::min(i, v), std::max(i, v), wt }); c.require(anc(v, i) && i != v, "back edges go to an ancestor"); } } c.require(par == t.par, "parents"); c.require(w == g, "tree and back edges are the edges of the graph"); break; }
        case UNLINK: if (o.und && n && o.a[u].size()) { auto& w = o.a[u]; int x = (int) r.below(w.size()); M z = w[(size_t) x]; if (z.first == u) break; auto& w2 = o.a[z.first]; int y = -1; for (int i = 0; i < (int) w2.size(); ++i) if (w2[(size_t) i] == M{ u, z.second } && (y < 0 || r.chance(1, 2))) y = i; c.require(y >= 0, "both ends have the edge"); o.g[u].erase(o.g[u].cbegin() + x); o.g[z.first].erase(o.g[z.first].cbegin() + y); w.erase(w.begin() + x); w2.erase(w2.begin() + y); } break;
        case LINK: if (o.und && n) { int v = e.first; if (v == u || (int) o.a[u].size() >= o.cap[u] || (int) o.a[v].size() >= o.cap[v]) break; o.g[u].push_back(mke({ v, e.second })); o.g[v].insert(o.g[v].cbegin(), mke({ u, e.second })); o.a[u].push_back({ v, e.second }); o.a[v].insert(o.a[v].begin(), { u, e.second }); } break;
        case READ: break; }
        verify(o); if (r.chance(1, 3)) others(&o);
        u64 h = 0; for (auto& q : os) { h = sim::mix64(h ^ (u64) q->alive); for (auto& l : q->a) { h = sim::mix64(h ^ l.size()); for (auto m : l) h = sim::mix64(h ^ (u64) (m.first * 8 + m.second)); } } c.state(h); }
    others(nullptr);
}
sim::WorldDef def(const char* nm, void (*run)(sim::Ctx&)) { sim::WorldDef d; d.prop = "C19"; d.name = nm; d.run = run; d.max_ops = 70; d.ncfg = 0; d.faults = true; d.real = "library/graph/csr_graph.hpp"; d.stub = ""; d.ops = { {"new", 2, 3}, {"builder", 2, 3}, {"copy", 4, 3}, {"move", 3, 3}, {"assign", 3, 3}, {"move_assign", 2, 3}, {"swap", 2, 3}, {"push", 6, 3}, {"pop", 4, 3}, {"erase", 5, 3}, {"clear", 1, 3}, {"insert", 5, 3}, {"edit", 3, 3}, {"shrink", 4, 3}, {"reversed", 2, 3}, {"dfs_tree", 4, 3}, {"read", 2, 3}, {"sort", 1, 3}, {"unlink", 5, 3}, {"link", 4, 3} }; return d; }
sim::RegisterWorld w1(def("csr_weighted", run<int>)), w2(def("csr_unweighted", run<void>));
}
