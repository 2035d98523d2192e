// C18: matching, colouring, satisfiability, selection and flow objects extended and solved in any order, several alive at once, with failing requests
#include "sim.hpp"
#include <algorithm>
#include <array>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <tuple>
#include <vector>
#include "library/graph/dulmage_mendelsohn_decomposition.hpp"
#include "library/graph/edge_coloring_of_bipartite_graph.hpp"
#include "library/algorithm/horn_sat.hpp"
#include "library/algorithm/two_sat.hpp"
#include "library/optimization/k_project_selection_problem.hpp"
#include "library/graph/min_cost_flow.hpp"
using i64 = int64_t; using u64 = uint64_t; using E = std::pair<int, int>; using VE = std::vector<E>;
namespace {
struct Req { bool on; sim::Rng& r; bool failed = false;
    template <typename F> bool operator()(F&& f, int span = 12) { failed = false; if (!on || !r.chance(1, 4)) { f(); return true; } sim::arm_alloc_failure((i64) r.below((u64) span)); try { sim::Armed a; f(); } catch (const std::bad_alloc&) { failed = true; sim::probe("request_failed"); } sim::disarm_alloc_failure(); return !failed; } };
template <typename O, typename F> void put(std::vector<std::unique_ptr<O>>& os, sim::Rng& r, F&& mk, size_t cap = 4) { auto q = mk(); if (os.size() < cap) os.push_back(std::move(q)); else os[r.below(cap)] = std::move(q); }
int kuhn(int n, int m, const VE& es) { std::vector<int> to((size_t) m, -1); int res = 0; for (int s = 0; s < n; ++s) { std::vector<char> vis((size_t) m, 0); std::function<bool(int)> f = [&](int u) { for (auto [a, b] : es) if (a == u && !vis[b]) { vis[b] = 1; if (to[b] < 0 || f(to[b])) { to[b] = u; return true; } } return false; }; res += f(s); } return res; }
bool big(sim::Ctx& c) { return sim::mix64(c.s.seed ^ 0xb16) % 9 == 0; } // one history in nine has bigger instances
enum { NEW, ADD, BURST, SOLVE, MATCH, ECOVER, VCOVER, INDEP, DM, COPY };
void matching(sim::Ctx& c) { const bool L = big(c);
    struct Obj { suisen::BipartiteMatching b; int n, m; VE es; }; std::vector<std::unique_ptr<Obj>> os; bool on = c.faults_on();
    auto mk = [&](sim::Rng& r) { int n = (int) r.below(L ? 40 : 8), m = (int) r.below(L ? 40 : 8); if (r.chance(1, 8)) n = m = 0; sim::scribble_stack(); return std::unique_ptr<Obj>(new Obj{ n == 0 && m == 0 && r.chance(1, 2) ? suisen::BipartiteMatching() : suisen::BipartiteMatching(n, m), n, m, {} }); };
    { sim::Rng r(c.s.seed ^ 3); os.push_back(mk(r)); }
    auto consistent = [&](Obj& o, int f) { int k = 0; std::set<E> s(o.es.begin(), o.es.end()); for (int l = 0; l < o.n; ++l) { int q = o.b.right(l); if (q >= 0) { ++k; c.require(s.count({ l, q }) > 0, "matched pair is an edge"); c.eq(o.b.left(q), l, "left and right agree"); } } int k2 = 0; for (int q = 0; q < o.m; ++q) k2 += o.b.left(q) >= 0; c.eq(k, f, "matched left vertices"); c.eq(k2, f, "matched right vertices"); c.require(o.b.size() == E{ o.n, o.m } && o.b.left_size() == o.n && o.b.right_size() == o.m, "size"); };
    while (c.next()) { sim::Rng r = c.rng(2); Obj& o = *os[(size_t) c.arg(0, 0, (i64) os.size() - 1)]; Req go{ on, r }; int f = kuhn(o.n, o.m, o.es); bool ok = false;
        switch (c.cur->code) {
        case NEW: put(os, r, [&] { return mk(r); }); break;
        case ADD: case BURST: for (int k = c.cur->code == ADD ? 1 : (int) r.below(L ? 60 : 10); k-- > 0 && o.n && o.m && o.es.size() < (L ? 160u : 40u);) { E e{ (int) r.below((u64) o.n), (int) r.below((u64) o.m) }; o.b.add_edge(e.first, e.second); o.es.push_back(e); } break;
        case SOLVE: { int g = -1; ok = go([&] { g = o.b.solve(); }, 16); if (ok) { c.eq(g, f, "size of a maximum matching"); consistent(o, f); } break; }
        case MATCH: { VE g; ok = go([&] { g = o.b.max_matching(); }, 16); if (ok) { std::set<int> a, b; std::set<E> s(o.es.begin(), o.es.end()); for (auto e : g) a.insert(e.first), b.insert(e.second), c.require(s.count(e) > 0, "matched pair is an edge"); c.require((int) g.size() == f && (int) a.size() == f && (int) b.size() == f, "maximum matching"); consistent(o, f); } break; }
        case ECOVER: { VE g; ok = go([&] { g = o.b.min_edge_cover(); }, 16); if (ok) { std::set<int> a, b, wa, wb; std::set<E> s(o.es.begin(), o.es.end()); for (auto e : o.es) wa.insert(e.first), wb.insert(e.second); for (auto e : g) a.insert(e.first), b.insert(e.second), c.require(s.count(e) > 0, "covering pair is an edge"); c.require(a == wa && b == wb, "every vertex with an edge is covered"); c.eq(g.size(), wa.size() + wb.size() - (size_t) f, "size of a minimum edge cover"); } break; }
        case VCOVER: case INDEP: { bool in = c.cur->code == INDEP; std::vector<int> g; ok = go([&] { g = in ? o.b.max_independent_set() : o.b.min_vertex_cover(); }, 24); if (ok) { std::set<int> s(g.begin(), g.end()); c.require(s.size() == g.size() && (g.empty() || (*s.begin() >= 0 && *s.rbegin() < o.n + o.m)), "vertex set"); c.eq((int) g.size(), in ? o.n + o.m - f : f, in ? "size of a maximum independent set" : "size of a minimum vertex cover"); for (auto [u, v] : o.es) c.require(in ? !(s.count(u) && s.count(o.n + v)) : s.count(u) || s.count(o.n + v), in ? "independent" : "every edge is covered"); } break; }
        case DM: { std::vector<std::pair<std::vector<int>, std::vector<int>>> g; ok = go([&] { g = suisen::dulmage_mendelsohn_decomposition(o.b); }, 40); if (ok) { std::vector<int> pl((size_t) o.n, -1), pr((size_t) o.m, -1); c.require(g.size() >= 2, "first and last part exist"); int K = (int) g.size() - 1; for (int i = 0; i <= K; ++i) { auto& [a, b] = g[i]; for (int x : a) c.require(pl[x] < 0, "left vertex in one part"), pl[x] = i; for (int x : b) c.require(pr[x] < 0, "right vertex in one part"), pr[x] = i; for (size_t q = 0; q < std::min(a.size(), b.size()); ++q) c.eq(o.b.right(a[q]), b[q], "pairs of a part are matched"); if (i == 0) c.require(a.size() <= b.size(), "first part"); else if (i == K) c.require(a.size() >= b.size(), "last part"); else c.require(a.size() == b.size() && a.size() > 0, "middle part"); } for (int x : pl) c.require(x >= 0, "left vertex in some part"); for (int x : pr) c.require(x >= 0, "right vertex in some part"); for (auto [u, v] : o.es) c.require(pl[u] <= pr[v], "block triangular"); } break; }
        case COPY: put(os, r, [&] { return std::make_unique<Obj>(o); }); break; }
        u64 h = 0; for (auto& q : os) { h = sim::mix64(h ^ (u64) (q->n * 16 + q->m)); for (auto& e : q->es) h = sim::mix64(h ^ (u64) (e.first * 64 + e.second)); } c.state(h); }
    for (auto& q : os) { int f = kuhn(q->n, q->m, q->es); c.eq(q->b.solve(), f, "size of a maximum matching"); consistent(*q, f); c.require(true, ""); }
}
enum { CNEW, CADD, CBURST, CSOLVE, CCOPY };
void colouring(sim::Ctx& c) { const bool L = big(c);
    struct Obj { suisen::EdgeColoringOfBipartiteGraph b; int n, m; VE es; }; std::vector<std::unique_ptr<Obj>> os; bool on = c.faults_on();
    auto mk = [&](sim::Rng& r) { int n = 1 + (int) r.below(L ? 24 : 6), m = 1 + (int) r.below(L ? 24 : 6); return std::unique_ptr<Obj>(new Obj{ suisen::EdgeColoringOfBipartiteGraph(n, m), n, m, {} }); };
    { sim::Rng r(c.s.seed ^ 3); os.push_back(mk(r)); }
    auto check = [&](Obj& o, const std::pair<int, std::vector<int>>& g) { std::map<int, int> dl, dr; int k = 0; for (auto [u, v] : o.es) k = std::max({ k, ++dl[u], ++dr[v] }); c.eq(g.first, k, "number of colours is the maximum degree"); c.eq(g.second.size(), o.es.size(), "one colour per edge"); std::set<E> a, b; for (size_t i = 0; i < o.es.size(); ++i) { int q = g.second[i]; c.require(q >= 0 && q < k, "colour in range"); c.require(a.insert({ o.es[i].first, q }).second && b.insert({ o.es[i].second, q }).second, "edges at a vertex have different colours"); } };
    while (c.next()) { sim::Rng r = c.rng(2); Obj& o = *os[(size_t) c.arg(0, 0, (i64) os.size() - 1)]; Req go{ on, r };
        switch (c.cur->code) {
        case CNEW: put(os, r, [&] { return mk(r); }); break;
        case CADD: case CBURST: for (int k = c.cur->code == CADD ? 1 : (int) r.below(L ? 80 : 12); k-- > 0 && o.es.size() < (L ? 260u : 40u);) { E e{ (int) r.below((u64) o.n), (int) r.below((u64) o.m) }; o.b.add_edge(e.first, e.second); o.es.push_back(e); } break;
        case CSOLVE: { std::pair<int, std::vector<int>> g; if (go([&] { g = o.b.solve(); }, 60)) check(o, g); break; }
        case CCOPY: put(os, r, [&] { return std::make_unique<Obj>(o); }); break; }
        u64 h = 0; for (auto& q : os) { h = sim::mix64(h ^ (u64) (q->n * 16 + q->m)); for (auto& e : q->es) h = sim::mix64(h ^ (u64) (e.first * 64 + e.second)); } c.state(h); }
    for (auto& q : os) check(*q, q->b.solve());
}
enum { HNEW, HADD, HFACT, HSOLVE, HANS };
void horn(sim::Ctx& c) { const bool L = big(c); const size_t HC = L ? 90 : 24;
    struct Cl { std::vector<int> lhs; int rhs; bool val; }; struct Obj { std::unique_ptr<suisen::HornSAT> h; int n; std::vector<Cl> cs; bool ans; }; std::vector<std::unique_ptr<Obj>> os; bool on = c.faults_on();
    auto mk = [&](sim::Rng& r) { int n = (int) r.below(L ? 50 : 7); return std::unique_ptr<Obj>(new Obj{ std::make_unique<suisen::HornSAT>(n), n, {}, false }); };
    auto sat = [](Obj& o, u64 x) { for (auto& k : o.cs) { bool all = true; for (int i : k.lhs) all &= x >> i & 1; if (all && (k.rhs < 0 || bool(x >> k.rhs & 1) != k.val)) return false; } return true; };
    auto any = [&](Obj& o) { u64 x = 0; for (bool ch = true; ch;) { ch = false; for (auto& k : o.cs) if (k.rhs >= 0 && k.val && !(x >> k.rhs & 1)) { bool all = true; for (int i : k.lhs) all &= x >> i & 1; if (all) x |= 1ull << k.rhs, ch = true; } } bool w = sat(o, x); /* the least model of the definite clauses */ if (o.n < 8) { bool b = false; for (u64 y = 0; y < (1ull << o.n); ++y) b |= sat(o, y); if (b != w) sim::probe("reference_disagreement"); w = b; } return w; };
    auto look = [&](Obj& o) { auto& a = o.h->answer(); c.eq((int) a.size(), o.n, "one value per variable"); u64 x = 0; for (int i = 0; i < o.n; ++i) x |= (u64) a[i] << i; c.require(sat(o, x), "answer satisfies every clause"); };
    { sim::Rng r(c.s.seed ^ 3); os.push_back(mk(r)); }
    while (c.next()) { sim::Rng r = c.rng(2); Obj& o = *os[(size_t) c.arg(0, 0, (i64) os.size() - 1)]; Req go{ on, r };
        switch (c.cur->code) {
        case HNEW: put(os, r, [&] { return mk(r); }); break;
        case HFACT: if (o.n && o.cs.size() < HC) { Cl k{ {}, (int) r.below((u64) o.n), r.chance(2, 3) }; o.h->add_clause(k.rhs, k.val); o.cs.push_back(k); o.ans = false; } break;
        case HADD: for (int z = L ? 4 : 1; z-- > 0;) if (o.n && o.cs.size() < HC) { Cl k{ {}, r.chance(1, 8) ? -1 : (int) r.below((u64) o.n), r.chance(3, 4) }; for (int q = 1 + (int) r.below(3); q-- > 0;) k.lhs.push_back((int) r.below((u64) o.n)); o.h->add_clause(k.lhs, k.rhs, k.val); o.cs.push_back(k); o.ans = false; } break;
        case HSOLVE: { bool g = false; if (go([&] { g = o.h->satisfiable(); }, 8)) { c.eq(g, any(o), "satisfiable"); o.ans = g; if (g) look(o); } break; }
        case HANS: if (o.ans) look(o); break; }
        u64 h = 0; for (auto& q : os) { h = sim::mix64(h ^ (u64) q->n); for (auto& k : q->cs) { h = sim::mix64(h ^ (u64) (k.rhs * 2 + k.val)); for (int i : k.lhs) h = sim::mix64(h ^ (u64) i); } } c.state(h); }
    for (auto& q : os) { bool g = q->h->satisfiable(); c.eq(g, any(*q), "satisfiable"); if (g) look(*q); }
}
enum { TNEW, TIMP, TSET, TAMO, TEX1, TCL, TSOLVE };
void twosat(sim::Ctx& c) { const bool L = big(c);
    struct Cl { int k, x; bool f; int y; bool g; }; struct Obj { suisen::TwoSAT t; int n; std::vector<Cl> cs; }; std::vector<std::unique_ptr<Obj>> os;
    auto mk = [&](sim::Rng& r) { int n = 1 + (int) r.below(L ? 30 : 6); return std::unique_ptr<Obj>(new Obj{ suisen::TwoSAT(n), n, {} }); };
    auto sat = [](Obj& o, u64 v) { for (auto& k : o.cs) { bool a = bool(v >> k.x & 1) == k.f, b = bool(v >> k.y & 1) == k.g; bool ok = k.k == TIMP ? !a || b : k.k == TSET ? a : k.k == TAMO ? !(a && b) : k.k == TEX1 ? a != b : a || b; if (!ok) return false; } return true; };
    // satisfiable iff no literal implies its negation and back (closure of the implication graph), enumeration where small
    auto possible = [&](Obj& o) { if (o.n <= 6) { for (u64 v = 0; v < (1ull << o.n); ++v) if (sat(o, v)) return true; return false; } std::vector<u64> a((size_t) o.n * 2); for (int i = 0; i < o.n * 2; ++i) a[i] = 1ull << i; auto or_ = [&](int x, bool f, int y, bool g) { a[2 * x + !f] |= 1ull << (2 * y + g); a[2 * y + !g] |= 1ull << (2 * x + f); }; // literal 2x+f means x == f
        for (auto& k : o.cs) { if (k.k == TIMP) or_(k.x, !k.f, k.y, k.g); if (k.k == TSET) or_(k.x, k.f, k.x, k.f); if (k.k == TAMO || k.k == TEX1) or_(k.x, !k.f, k.y, !k.g); if (k.k == TEX1 || k.k == TCL) or_(k.x, k.f, k.y, k.g); }
        for (int m = 0; m < o.n * 2; ++m) for (auto& z : a) if (z >> m & 1) z |= a[m]; for (int x = 0; x < o.n; ++x) if ((a[2 * x] >> (2 * x + 1) & 1) && (a[2 * x + 1] >> (2 * x) & 1)) return false; return true; };
    auto solve = [&](Obj& o) { bool w = possible(o); bool g = o.t.satisfiable(); c.eq(g, w, "satisfiable"); if (g) { auto a = o.t.answer(); u64 v = 0; for (int i = 0; i < o.n; ++i) v |= (u64) a[i] << i; c.require(sat(o, v), "answer satisfies every clause"); } };
    { sim::Rng r(c.s.seed ^ 3); os.push_back(mk(r)); }
    while (c.next()) { sim::Rng r = c.rng(2); Obj& o = *os[(size_t) c.arg(0, 0, (i64) os.size() - 1)]; Cl k{ (int) c.cur->code, (int) r.below((u64) o.n), r.chance(1, 2), (int) r.below((u64) o.n), r.chance(1, 2) };
        switch (c.cur->code) {
        case TNEW: put(os, r, [&] { return mk(r); }); break;
        case TIMP: o.t.implies(k.x, k.f, k.y, k.g); o.cs.push_back(k); break;
        case TSET: o.t.set(k.x, k.f); o.cs.push_back(k); break;
        case TAMO: o.t.at_most_one(k.x, k.f, k.y, k.g); o.cs.push_back(k); break;
        case TEX1: o.t.exactly_one(k.x, k.f, k.y, k.g); o.cs.push_back(k); break;
        case TCL: o.t.add_clause(k.x, k.f, k.y, k.g); o.cs.push_back(k); break;
        case TSOLVE: solve(o); break; }
        u64 h = 0; for (auto& q : os) for (auto& k2 : q->cs) h = sim::mix64(h ^ (u64) (k2.k * 100000 + k2.x * 1000 + k2.f * 500 + k2.y * 4 + k2.g)); c.state(h); }
    for (auto& q : os) solve(*q);
}
enum { PNEW, P0, P1, P2, PN, P3, PALL, PSOLVE, PMAX, PCOPY };
void project(sim::Ctx& c) { const bool L = big(c);
    using PS = suisen::ProjectSelection<i64>; struct Obj { PS p; int n; std::vector<i64> cost; }; std::vector<std::unique_ptr<Obj>> os; bool on = c.faults_on();
    auto mk = [&](sim::Rng& r) { int n = (int) r.below(L ? 12 : 6); sim::scribble_stack(); return std::unique_ptr<Obj>(new Obj{ n == 0 && r.chance(1, 2) ? PS() : PS((size_t) n), n, std::vector<i64>((size_t) 1 << n) }); };
    auto check = [&](Obj& o, const std::pair<i64, std::vector<bool>>& g, bool mx) { i64 w = *std::min_element(o.cost.begin(), o.cost.end()); c.eq(mx ? -g.first : g.first, w, "minimum cost"); c.eq((int) g.second.size(), o.n, "one choice per item"); u64 x = 0; for (int i = 0; i < o.n; ++i) x |= (u64) g.second[i] << i; c.eq(o.cost[x], w, "the choice has the reported cost"); };
    { sim::Rng r(c.s.seed ^ 3); os.push_back(mk(r)); }
    while (c.next()) { sim::Rng r = c.rng(2); Obj& o = *os[(size_t) c.arg(0, 0, (i64) os.size() - 1)]; Req go{ on, r }; int n = o.n; auto& C = o.cost; auto all = [&](auto&& f) { for (u64 x = 0; x < C.size(); ++x) C[x] += f(x); }; auto rc = [&] { return (i64) r.below(41) - 20; };
        size_t i = n ? r.below((u64) n) : 0, j = n > 1 ? (i + 1 + r.below((u64) n - 1)) % n : 0, k = 0; if (n > 2) do k = r.below((u64) n); while (k == i || k == j); i64 v = (i64) r.below(20), s = rc();
        switch (c.cur->code) {
        case PNEW: put(os, r, [&] { return mk(r); }); break;
        case P0: if (r.chance(1, 2)) o.p.add_cost(s), all([&](u64) { return s; }); else o.p.add_profit(s), all([&](u64) { return -s; }); break;
        case P1: if (n) { int q = (int) r.below(4); if (q == 0) o.p.add_cost_0(i, s); if (q == 1) o.p.add_cost_1(i, s); if (q == 2) o.p.add_profit_0(i, s); if (q == 3) o.p.add_profit_1(i, s); all([&](u64 x) { return (int) (x >> i & 1) == q % 2 ? (q < 2 ? s : -s) : 0; }); } break;
        case P2: if (n > 1) { int q = (int) r.below(6); if (q == 0) o.p.add_cost_01(i, j, v); if (q == 1) o.p.add_cost_10(i, j, v); if (q == 2) o.p.add_cost_not_same(i, j, v); if (q == 3) o.p.add_profit_00(i, j, v); if (q == 4) o.p.add_profit_11(i, j, v); if (q == 5) o.p.add_profit_same(i, j, v); all([&](u64 x) -> i64 { int a = x >> i & 1, b = x >> j & 1; switch (q) { case 0: return !a && b ? v : 0; case 1: return a && !b ? v : 0; case 2: return a != b ? v : 0; case 3: return !a && !b ? -v : 0; case 4: return a && b ? -v : 0; default: return a == b ? -v : 0; } }); } break;
        case PN: if (n > 1) { i64 a = rc(), b = rc(), d = rc(), e = a + d - b - (i64) r.below(10) * -1; PS::CostFunc2 f; f[0][0] = a; f[1][1] = d; f[0][1] = b; f[1][0] = e; if (r.chance(1, 2)) o.p.add_cost(i, j, f); else { PS::CostFunc2 h; for (int p = 0; p < 2; ++p) for (int q = 0; q < 2; ++q) h[p][q] = -f[p][q]; o.p.add_profit(i, j, h); } all([&](u64 x) { return f[x >> i & 1][x >> j & 1]; }); } break;
        case P3: if (n > 2) { PS::CostFunc3 f; // a random submodular function: modular + pairwise + triple parts
            i64 a = rc(), m[3] = { rc(), rc(), rc() }, w[3] = { (i64) r.below(10), (i64) r.below(10), (i64) r.below(10) }, t1 = (i64) r.below(12), t0 = r.chance(1, 2) ? 0 : (i64) r.below(12); if (r.chance(1, 2)) t1 = 0; for (int p = 0; p < 8; ++p) { int b[3] = { p >> 2 & 1, p >> 1 & 1, p & 1 }; i64 z = a; for (int q = 0; q < 3; ++q) { z += b[q] * m[q]; if (b[q] != b[(q + 1) % 3]) z += w[q]; } if (p == 7) z -= t1; if (p == 0) z -= t0; f[b[0]][b[1]][b[2]] = z; } o.p.add_cost(i, j, k, f); all([&](u64 x) { return f[x >> i & 1][x >> j & 1][x >> k & 1]; }); } break;
        case PALL: { std::vector<size_t> is; u64 mask = 0; for (int q = 0; q < n; ++q) if (r.chance(2, 3)) is.push_back((size_t) q), mask |= 1ull << q; bool one = r.chance(1, 2); if (one) o.p.add_profit_all_1(is, v); else o.p.add_profit_all_0(is, v); all([&](u64 x) { return (one ? (x & mask) == mask : (x & mask) == 0) ? -v : 0; }); break; }
        case PSOLVE: case PMAX: { bool mx = c.cur->code == PMAX; std::pair<i64, std::vector<bool>> g; if (go([&] { auto z = mx ? o.p.max_profit() : o.p.min_cost(); g = { z.first, std::vector<bool>(z.second.begin(), z.second.end()) }; }, 40)) check(o, g, mx); break; }
        case PCOPY: put(os, r, [&] { return std::make_unique<Obj>(o); }); break; }
        u64 h = 0; for (auto& q : os) for (i64 z : q->cost) h = sim::mix64(h ^ (u64) z); c.state(h); }
    for (auto& q : os) { auto z = q->p.min_cost(); check(*q, { z.first, std::vector<bool>(z.second.begin(), z.second.end()) }, false); }
}
enum { KNEW, K0, K1, K2, KSOLVE, KCOPY };
void kproject(sim::Ctx& c) { const bool L = big(c);
    using PS = suisen::KProjectSelection<i64>; struct Obj { PS p; std::vector<int> k; std::vector<i64> cost; }; std::vector<std::unique_ptr<Obj>> os; bool on = c.faults_on();
    auto dig = [](const std::vector<int>& k, size_t x, size_t i) { for (size_t q = 0; q < i; ++q) x /= (size_t) k[q]; return (int) (x % (size_t) k[i]); };
    auto mk = [&](sim::Rng& r) { int n = (int) r.below(L ? 7 : 4); std::vector<int> k; size_t t = 1; bool same = r.chance(1, 3); for (int i = 0; i < n; ++i) k.push_back(same && i ? k[0] : 1 + (int) r.below(4)), t *= (size_t) k.back(); return std::unique_ptr<Obj>(new Obj{ n && same ? PS((size_t) n, (size_t) k[0]) : PS(k), k, std::vector<i64>(t) }); };
    auto check = [&](Obj& o, const std::pair<i64, std::vector<int>>& g) { i64 w = *std::min_element(o.cost.begin(), o.cost.end()); c.eq(g.first, w, "minimum cost"); c.eq(g.second.size(), o.k.size(), "one choice per item"); size_t x = 0, m = 1; for (size_t i = 0; i < o.k.size(); ++i) { c.require(g.second[i] >= 0 && g.second[i] < o.k[i], "choice in range"); x += m * (size_t) g.second[i]; m *= (size_t) o.k[i]; } c.eq(o.cost[x], w, "the choice has the reported cost"); };
    { sim::Rng r(c.s.seed ^ 3); os.push_back(mk(r)); }
    while (c.next()) { sim::Rng r = c.rng(2); Obj& o = *os[(size_t) c.arg(0, 0, (i64) os.size() - 1)]; Req go{ on, r }; int n = (int) o.k.size(); auto& C = o.cost; auto rc = [&] { return (i64) r.below(41) - 20; }; size_t i = n ? r.below((u64) n) : 0, j = n > 1 ? (i + 1 + r.below((u64) n - 1)) % n : 0; i64 s = rc();
        switch (c.cur->code) {
        case KNEW: put(os, r, [&] { return mk(r); }); break;
        case K0: if (r.chance(1, 2)) { o.p.add_cost(s); for (auto& z : C) z += s; } else { o.p.add_profit(s); for (auto& z : C) z -= s; } break;
        case K1: if (n) { std::vector<i64> f; for (int q = 0; q < o.k[i]; ++q) f.push_back(rc()); bool pr = r.chance(1, 3); if (pr) o.p.add_profit(i, f); else o.p.add_cost(i, f); for (size_t x = 0; x < C.size(); ++x) C[x] += (pr ? -1 : 1) * f[(size_t) dig(o.k, x, i)]; } break;
        case K2: if (n > 1) { std::vector<std::vector<i64>> f((size_t) o.k[i], std::vector<i64>((size_t) o.k[j])); for (auto& row : f) row[0] = rc(); for (size_t b = 1; b < f[0].size(); ++b) f[0][b] = rc(); for (size_t a = 1; a < f.size(); ++a) for (size_t b = 1; b < f[0].size(); ++b) f[a][b] = f[a][b - 1] + f[a - 1][b] - f[a - 1][b - 1] - (i64) r.below(8); o.p.add_cost(i, j, f); for (size_t x = 0; x < C.size(); ++x) C[x] += f[(size_t) dig(o.k, x, i)][(size_t) dig(o.k, x, j)]; } break;
        case KSOLVE: { std::pair<i64, std::vector<int>> g; bool mx = r.chance(1, 3); if (go([&] { g = mx ? o.p.max_profit() : o.p.min_cost(); }, 40)) { if (mx) g.first = -g.first; check(o, g); } break; }
        case KCOPY: put(os, r, [&] { return std::make_unique<Obj>(o); }); break; }
        u64 h = 0; for (auto& q : os) for (i64 z : q->cost) h = sim::mix64(h ^ (u64) z); c.state(h); }
    for (auto& q : os) check(*q, q->p.min_cost());
}
enum { FNEW, FADD, FBURST, FFLOW, FMAX, FARB, FSLOPE, FEDGES, FCOPY };
template <suisen::MCFPotentialInitializer I> void mcf(sim::Ctx& c) { const bool L0 = big(c);
    using M = suisen::MinCostFlow<i64, i64, I>; constexpr bool BF = I == suisen::BELLMAN_FORD, DAG = I == suisen::DAG; struct Ed { int u, v; i64 cap, cost; }; struct Obj { M m; int n; std::vector<Ed> es; bool flown; int s, t; }; std::vector<std::unique_ptr<Obj>> os;
    auto mk = [&](sim::Rng& r) { int n = 2 + (int) r.below(L0 ? 24 : 6); return std::unique_ptr<Obj>(new Obj{ M(n), n, {}, false, 0, 0 }); };
    { sim::Rng r(c.s.seed ^ 3); os.push_back(mk(r)); }
    struct Res { int u, v; i64 cap, cost; };
    // reference: successive shortest augmentations, one Bellman-Ford each, on the residual network read from the object before the request
    auto ref = [](int n, std::vector<Res> g, int s, int t, i64 lim, bool arb) { std::vector<std::pair<i64, i64>> sl{ { 0, 0 } }; i64 f = 0, w = 0; const i64 INF = 1ll << 60; while (f < lim) { std::vector<i64> d((size_t) n, INF); std::vector<int> pe((size_t) n, -1); d[s] = 0; for (int it = 0; it < n; ++it) for (int e = 0; e < (int) g.size(); ++e) if (g[e].cap > 0 && d[g[e].u] < INF && d[g[e].u] + g[e].cost < d[g[e].v]) d[g[e].v] = d[g[e].u] + g[e].cost, pe[g[e].v] = e; if (d[t] >= INF || (arb && d[t] >= 0)) break; i64 df = lim - f; for (int v = t; v != s; v = g[pe[v]].u) df = std::min(df, g[pe[v]].cap); for (int v = t; v != s; v = g[pe[v]].u) g[pe[v]].cap -= df, g[pe[v] ^ 1].cap += df; f += df; w += df * d[t]; sl.push_back({ f, w }); } return sl; };
    auto resid = [&](Obj& o) { std::vector<Res> g; auto es = o.m.get_edges(); for (auto& e : es) { g.push_back({ e.from, e.to, e.cap - e.flow, e.cost }); g.push_back({ e.to, e.from, e.flow, -e.cost }); } return g; };
    auto shape = [&](Obj& o) { auto es = o.m.get_edges(); c.eq(es.size(), o.es.size(), "number of edges"); for (size_t i = 0; i < es.size(); ++i) { auto& e = es[i]; auto& w = o.es[i]; c.require(e.from == w.u && e.to == w.v && e.cap == w.cap && e.cost == w.cost && e.flow >= 0 && e.flow <= e.cap, "edge keeps its data and a feasible flow"); auto q = o.m.get_edge((int) i); c.require(q.flow == e.flow && q.cap == e.cap, "get_edge"); } };
    auto bal = [&](Obj& o) { std::vector<i64> b((size_t) o.n); i64 w = 0; for (auto& e : o.m.get_edges()) b[e.from] -= e.flow, b[e.to] += e.flow, w += e.flow * e.cost; b.push_back(w); return b; };
    auto slope_at = [](const std::vector<std::pair<i64, i64>>& s, i64 f, i64* out) { for (size_t i = 0; i + 1 < s.size(); ++i) if (s[i].first <= f && f <= s[i + 1].first) { i64 df = s[i + 1].first - s[i].first; *out = s[i].second + (s[i + 1].second - s[i].second) / df * (f - s[i].first); return true; } if (s.size() == 1 && f == s[0].first) { *out = s[0].second; return true; } return false; };
    while (c.next()) { sim::Rng r = c.rng(2); Obj& o = *os[(size_t) c.arg(0, 0, (i64) os.size() - 1)]; int n = o.n;
        switch (c.cur->code) {
        case FNEW: put(os, r, [&] { return mk(r); }); break;
        case FADD: case FBURST: for (int k = c.cur->code == FADD ? 1 : (int) r.below(L0 ? 50 : 10); k-- > 0 && !o.flown && o.es.size() < (L0 ? 120u : 16u);) { int u = (int) r.below((u64) n), v = (int) r.below((u64) n); if (!BF && !DAG) { if (u == v) continue; } else { if (u == v) continue; if (u > v) std::swap(u, v); if (BF && r.chance(1, 4)) std::swap(u, v); } i64 cap = (i64) r.below(5), cost = (i64) r.below(12); if (DAG || (BF && u < v)) cost -= 4; if (BF && u > v) cost += 30; c.eq(o.m.add_edge(u, v, cap, cost), (int) o.es.size(), "edge id"); o.es.push_back({ u, v, cap, cost }); } break;
        case FFLOW: case FMAX: case FARB: case FSLOPE: { int s = (int) r.below((u64) n), t = (s + 1 + (int) r.below((u64) n - 1)) % n; if (DAG && s > t) std::swap(s, t); if (DAG && o.flown) break; if (!BF && o.flown) s = o.s, t = o.t; bool arb = c.cur->code == FARB, lim = c.cur->code == FFLOW || (c.cur->code == FSLOPE && r.chance(1, 2)); i64 L = lim ? (i64) r.below(6) : (1ll << 50); auto before = bal(o); auto w = ref(n, resid(o), s, t, L, arb); std::vector<std::pair<i64, i64>> g; o.flown = true; o.s = s; o.t = t;
            if (c.cur->code == FSLOPE) g = lim ? o.m.min_cost_max_flow_slope(s, t, L) : o.m.min_cost_max_flow_slope(s, t); else g = { arb ? o.m.min_cost_arbitrary_flow(s, t) : lim ? o.m.min_cost_max_flow(s, t, L) : o.m.min_cost_max_flow(s, t) };
            c.eq(g.back().first, w.back().first, "amount of flow"); c.eq(g.back().second, w.back().second, "cost of the flow"); if (c.cur->code == FSLOPE) { c.require(g[0] == std::make_pair((i64) 0, (i64) 0), "slope starts at zero"); for (auto& [f, k] : w) { i64 got = 0; c.require(slope_at(g, f, &got) && got == k, "slope"); } for (size_t i = 0; i + 1 < g.size(); ++i) c.require(g[i].first < g[i + 1].first, "slope is increasing in the flow"); }
            shape(o); auto after = bal(o); for (int v = 0; v < n; ++v) c.eq(after[v] - before[v], v == s ? -g.back().first : v == t ? g.back().first : (i64) 0, "flow is conserved"); c.eq(after[n] - before[n], g.back().second, "reported cost is the cost of the edges"); break; }
        case FEDGES: shape(o); break;
        case FCOPY: put(os, r, [&] { return std::make_unique<Obj>(o); }); break; }
        u64 h = 0; for (auto& q : os) { for (auto& e : q->es) h = sim::mix64(h ^ (u64) (e.u * 4096 + e.v * 256 + e.cap * 64 + e.cost)); for (auto x : bal(*q)) h = sim::mix64(h ^ (u64) x); } c.state(h); }
    for (auto& q : os) shape(*q);
}
sim::WorldDef def(const char* nm, void (*run)(sim::Ctx&), const char* real, const char* stub, bool faults, int ops, std::vector<sim::OpDef> l) { sim::WorldDef d; d.prop = "C18"; d.name = nm; d.run = run; d.max_ops = ops; d.ncfg = 0; d.faults = faults; d.real = real; d.stub = stub; d.ops = std::move(l); return d; }
sim::RegisterWorld w1(def("bipartite_matching", matching, "library/graph/{bipartite_matching,dulmage_mendelsohn_decomposition}.hpp", "ac-library scc stand-in", true, 50, { {"new", 1, 3}, {"add", 6, 3}, {"burst", 4, 3}, {"solve", 6, 3}, {"max_matching", 3, 3}, {"edge_cover", 3, 3}, {"vertex_cover", 3, 3}, {"independent", 2, 3}, {"dm", 2, 3}, {"copy", 1, 3} })),
    w2(def("edge_coloring", colouring, "library/graph/edge_coloring_of_bipartite_graph.hpp", "ac-library dsu stand-in", true, 30, { {"new", 1, 3}, {"add", 4, 3}, {"burst", 4, 3}, {"solve", 6, 3}, {"copy", 1, 3} })),
    w3(def("horn_sat", horn, "library/algorithm/horn_sat.hpp", "", true, 50, { {"new", 1, 3}, {"clause", 10, 3}, {"fact", 5, 3}, {"solve", 8, 3}, {"answer", 3, 3} })),
    w4(def("two_sat", twosat, "library/algorithm/two_sat.hpp", "ac-library two_sat stand-in", false, 40, { {"new", 1, 3}, {"implies", 4, 3}, {"set", 1, 3}, {"at_most_one", 3, 3}, {"exactly_one", 2, 3}, {"clause", 2, 3}, {"solve", 6, 3} })),
    w5(def("project_selection", project, "library/optimization/project_selection_problem.hpp", "ac-library max-flow stand-in", true, 40, { {"new", 1, 3}, {"cost0", 2, 3}, {"cost1", 6, 3}, {"cost2", 8, 3}, {"cost2_any", 4, 3}, {"cost3", 4, 3}, {"all", 4, 3}, {"min_cost", 6, 3}, {"max_profit", 2, 3}, {"copy", 1, 3} })),
    w6(def("k_project_selection", kproject, "library/optimization/k_project_selection_problem.hpp", "ac-library max-flow stand-in", true, 30, { {"new", 1, 3}, {"cost0", 2, 3}, {"cost1", 6, 3}, {"cost2", 8, 3}, {"solve", 6, 3}, {"copy", 1, 3} })),
    w7(def("min_cost_flow_bf", mcf<suisen::BELLMAN_FORD>, "library/graph/min_cost_flow.hpp", "", false, 40, { {"new", 1, 3}, {"add", 3, 3}, {"burst", 4, 3}, {"flow", 5, 3}, {"max_flow", 2, 3}, {"arbitrary", 3, 3}, {"slope", 3, 3}, {"edges", 1, 3}, {"copy", 1, 3} })),
    w8(def("min_cost_flow_dijkstra", mcf<suisen::DIJKSTRA>, "library/graph/min_cost_flow.hpp", "", false, 40, { {"new", 1, 3}, {"add", 3, 3}, {"burst", 4, 3}, {"flow", 5, 3}, {"max_flow", 1, 3}, {"arbitrary", 1, 3}, {"slope", 3, 3}, {"edges", 1, 3}, {"copy", 1, 3} })),
    w9(def("min_cost_flow_dag", mcf<suisen::DAG>, "library/graph/min_cost_flow.hpp", "", false, 20, { {"new", 3, 3}, {"add", 3, 3}, {"burst", 6, 3}, {"flow", 3, 3}, {"max_flow", 2, 3}, {"arbitrary", 2, 3}, {"slope", 3, 3}, {"edges", 1, 3}, {"copy", 1, 3} }));
}
