// Disjoint-set forests of every kind, several alive at once, with failing memory and throwing group operations.
#include <cassert>
#include <atcoder/dsu>
#include <numeric>
#include "library/datastructure/union_find/union_find.hpp"
#include "library/datastructure/union_find/union_find_component_sum.hpp"
#include "library/datastructure/union_find/linked_union_find.hpp"
#include "library/datastructure/union_find/union_find_lazy.hpp"
#include "library/datastructure/union_find/weighted_union_find.hpp"
#include "library/datastructure/union_find/merge_history_forest.hpp"
using u64 = uint64_t; using i64 = int64_t; using u128 = unsigned __int128;
static const u64 P = (1ull << 61) - 1; static u64 mul(u64 a, u64 b) { return (u64) ((u128) a * b % P); } static u64 add(u64 a, u64 b) { return (a + b) % P; }
static u64 pw(u64 a, u64 e) { u64 r = 1; for (; e; e >>= 1, a = mul(a, a)) if (e & 1) r = mul(r, a); return r; }
struct G { u64 a = 1, b = 0; bool operator==(const G& o) const { return a == o.a && b == o.b; } }; // x -> a x + b, a non-commutative group
static G gop(G f, G g) { sim::callback(); return { mul(f.a, g.a), add(mul(f.a, g.b), f.b) }; }
static G gid() { return {}; } static G ginv(G f) { sim::callback(); u64 i = pw(f.a, P - 2); return { i, mul(i, P - f.b) % P }; }
static G rg(sim::Rng& r) { return { 1 + r.below(P - 1), r.below(P) }; }
static G rop(G f, G g) { return { mul(f.a, g.a), add(mul(f.a, g.b), f.b) }; } static G rinv(G f) { u64 i = pw(f.a, P - 2); return { i, mul(i, P - f.b) % P }; }
static void msum(u64& a, u64 b) { a = add(a, b); } static u64 mneg(u64 a) { return (P - a) % P; } static void mmap(G f, u64& s, int n) { s = add(mul(f.a, s), mul(f.b, (u64) n)); }
struct Bag { std::vector<int> v; }; static void bagm(Bag& a, Bag b) { if (a.v.size() < b.v.size()) std::swap(a.v, b.v); a.v.insert(a.v.end(), b.v.begin(), b.v.end()); }
using Plain = suisen::UnionFind; using CSum = suisen::UnionFindComponentSum<u64, msum>; using CBag = suisen::UnionFindComponentSum<Bag, bagm>; using Linked = suisen::LinkedUnionFind; using Lazy = suisen::UnionFindLazy<u64, msum, mneg, G, mmap, gop, gid, ginv>; using Wt = suisen::WeightedUnionFind<G, gop, gid, ginv>; using WtI = suisen::WeightedUnionFind<i64>;
struct Part { std::vector<int> lab; std::vector<u64> val; std::vector<G> pot; std::vector<i64> pi;
    int size(int x) const { int s = 0; for (int l : lab) s += l == lab[x]; return s; } u64 sum(int x) const { u64 s = 0; for (size_t i = 0; i < lab.size(); ++i) if (lab[i] == lab[x]) s = add(s, val[i]); return s; }
    bool merge(int x, int y) { if (lab[x] == lab[y]) return false; int o = lab[y], nw = lab[x]; for (int& l : lab) if (l == o) l = nw; return true; } };
enum { NEW, MERGE, SAME, SIZE, ROOT, GROUPS, SPEC1, SPEC2, SPEC3, COPY, CHAIN };
template <typename UF> static void run(sim::Ctx& c) {
    constexpr bool WT = std::is_same_v<UF, Wt>, WI = std::is_same_v<UF, WtI>, LZ = std::is_same_v<UF, Lazy>, LK = std::is_same_v<UF, Linked>, CS = std::is_same_v<UF, CSum>, CB = std::is_same_v<UF, CBag>;
    struct Obj { UF uf; Part m; }; std::vector<std::unique_ptr<Obj>> os; bool faults = c.faults_on();
    auto mk = [&](sim::Rng& r) { int n = r.chance(1, 10) ? 0 : 1 + (int) r.below(r.chance(1, 1500) ? 4000 : r.chance(1, 60) ? 400 : r.chance(1, 5) ? 60 : 12); Part m; m.lab.resize((size_t) n); for (int i = 0; i < n; ++i) m.lab[i] = i; m.val.resize((size_t) n); for (auto& v : m.val) v = r.below(P); m.pot.resize((size_t) n); m.pi.resize((size_t) n);
        sim::scribble_stack(); std::unique_ptr<Obj> o;
        if constexpr (CS || LZ) { if (n && r.chance(1, 5)) { for (auto& v : m.val) v = m.val[0]; o.reset(new Obj{ UF(n, m.val[0]), m }); } else if (n == 0) o.reset(new Obj{ UF(), m }); else o.reset(new Obj{ UF(m.val), m }); }
        else if constexpr (CB) { std::vector<Bag> b; for (int i = 0; i < n; ++i) b.push_back({ { i } }); o.reset(new Obj{ UF(b), m }); }
        else if (n == 0 && r.chance(1, 2)) o.reset(new Obj{ UF(), m }); else o.reset(new Obj{ UF(n), m }); return o; };
    { sim::Rng r(c.s.seed ^ 11); os.push_back(mk(r)); }
    while (c.next()) {
        sim::Rng r = c.rng(2); Obj& o = *os[(size_t) c.arg(0, 0, (i64) os.size() - 1)]; Part& m = o.m; int n = (int) m.lab.size(), x = n ? (int) r.below((u64) n) : 0, y = n ? (int) r.below((u64) n) : 0; bool failed = false;
        auto go = [&](auto&& f) { if (!faults || !r.chance(1, 4)) { f(); return; } bool cb = (WT) && r.chance(1, 2); if (cb) sim::arm_callback_throw((i64) r.below(5)); else sim::arm_alloc_failure((i64) r.below(4)); try { sim::Armed a; f(); } catch (const std::bad_alloc&) { failed = true; } catch (const sim::InjectedFault&) { failed = true; } sim::disarm_alloc_failure(); sim::disarm_callback_throw(); if (failed) sim::probe("request_failed"); };
        auto check = [&](Obj& q) { int k = (int) q.m.lab.size(); for (int i = 0; i < k; ++i) { int rt = q.uf.root(i); c.require(rt >= 0 && rt < k && q.m.lab[rt] == q.m.lab[i], "root is a member of the component"); c.eq(q.uf.root(rt), rt, "root is its own root"); c.eq(q.uf.size(i), q.m.size(i), "size"); for (int j = 0; j < i; j += 1 + k / 6) { c.eq(q.uf.same(i, j), q.m.lab[i] == q.m.lab[j], "same"); if constexpr (WT) if (q.m.lab[i] == q.m.lab[j]) c.require(q.uf.diff(i, j) == rop(rinv(q.m.pot[i]), q.m.pot[j]), "diff"); if constexpr (WI) if (q.m.lab[i] == q.m.lab[j]) c.eq(q.uf.diff(i, j), q.m.pi[j] - q.m.pi[i], "diff"); }
            if constexpr (LZ) { c.eq(q.uf.get_point(i), q.m.val[i], "value of an element"); c.eq(q.uf.get_component(i), q.m.sum(i), "sum of a component"); } if constexpr (CS) c.eq(q.uf.sum(i), q.m.sum(i), "sum of a component"); } };
        switch (c.cur->code) {
        case NEW: if (os.size() < 5) os.push_back(mk(r)); else os[r.below(5)] = mk(r); break;
        case MERGE: case CHAIN: for (int t = c.cur->code == CHAIN ? (int) r.below(20) : 1; t-- > 0 && n;) { if (c.cur->code == CHAIN) x = (int) r.below((u64) n), y = r.chance(1, 2) ? (x + 1) % n : (int) r.below((u64) n); bool want = m.lab[x] != m.lab[y], got = false; failed = false;
            if constexpr (WT) { G d = rg(r); go([&] { got = o.uf.merge(x, y, d); }); if (!failed && want) { G sh = rop(rop(m.pot[x], d), rinv(m.pot[y])); int ly = m.lab[y]; for (int i = 0; i < n; ++i) if (m.lab[i] == ly) m.pot[i] = rop(sh, m.pot[i]); } }
            else if constexpr (WI) { i64 d = (i64) r.below(2001) - 1000; go([&] { got = o.uf.merge(x, y, d); }); if (!failed && want) { i64 sh = m.pi[x] + d - m.pi[y]; int ly = m.lab[y]; for (int i = 0; i < n; ++i) if (m.lab[i] == ly) m.pi[i] += sh; } }
            else if constexpr (CB) got = o.uf.merge(x, y); // the data itself lives on the heap: a failure inside it is the caller's to handle
            else go([&] { got = o.uf.merge(x, y); });
            if (!failed) { c.eq(got, want, "merge result"); m.merge(x, y); } } break;
        case SAME: if (n) { bool g = false; go([&] { g = o.uf.same(x, y); }); if (!failed) c.eq(g, m.lab[x] == m.lab[y], "same"); } break;
        case SIZE: if (n) { int g = 0; go([&] { g = o.uf.size(x); }); if (!failed) c.eq(g, m.size(x), "size"); } break;
        case ROOT: if (n) { if constexpr (std::is_same_v<UF, Plain> || WT) c.eq(o.uf[x], o.uf.root(x), "operator[]"); } check(o); break;
        case GROUPS: { std::vector<std::vector<int>> g; go([&] { g = o.uf.groups(); }); if (failed) break; std::map<int, std::set<int>> w; for (int i = 0; i < n; ++i) w[m.lab[i]].insert(i); std::set<std::set<int>> gs, ws; size_t tot = 0; for (auto& v : g) gs.insert(std::set<int>(v.begin(), v.end())), tot += v.size(); for (auto& [k, v] : w) ws.insert(v); c.require(gs == ws && tot == (size_t) n && g.size() == ws.size(), "groups"); break; }
        case SPEC1: if (n) { if constexpr (LZ) { G f = rg(r); go([&] { o.uf.apply_component(x, f); }); if (!failed) for (int i = 0; i < n; ++i) if (m.lab[i] == m.lab[x]) mmap(f, m.val[i], 1); }
            if constexpr (LZ || LK) { std::vector<int> g; bool f0 = failed; failed = false; go([&] { g = o.uf.connected_component(x); }); if (!failed) { std::set<int> s(g.begin(), g.end()), w; for (int i = 0; i < n; ++i) if (m.lab[i] == m.lab[x]) w.insert(i); c.require(s == w && g.size() == w.size(), "connected component"); } (void) f0; }
            if constexpr (CB) { auto v = o.uf.sum(x).v; std::set<int> s(v.begin(), v.end()), w; for (int i = 0; i < n; ++i) if (m.lab[i] == m.lab[x]) w.insert(i); c.require(s == w && v.size() == w.size(), "component data"); }
            if constexpr (WT) if (m.lab[x] == m.lab[y]) { G g; go([&] { g = o.uf.diff(x, y); }); if (!failed) c.require(g == rop(rinv(m.pot[x]), m.pot[y]), "diff"); } } break;
        case SPEC2: if (n) if constexpr (LZ) { G f = rg(r); u64 nv = r.below(P); bool set = r.chance(1, 2); go([&] { if (set) o.uf.set_point(x, nv); else o.uf.apply_point(x, f); }); if (!failed) { if (set) m.val[x] = nv; else mmap(f, m.val[x], 1); } } break;
        case SPEC3: if (n) if constexpr (LZ) { go([&] { o.uf.propagate(x); }); if (!failed) for (int i = 0; i < n; ++i) if (m.lab[i] == m.lab[x]) c.eq(o.uf.raw_value(i), m.val[i], "raw value after propagate"), c.eq(std::as_const(o.uf).raw_value(i), m.val[i], "raw value after propagate"); } break;
        case COPY: { if (r.chance(1, 2)) { Obj& q = *os[r.below(os.size())]; if (r.chance(1, 3)) { if (&q != &o) std::swap(q, o); } else q = o; check(q); break; } auto q = std::make_unique<Obj>(o); if (os.size() < 5) os.push_back(std::move(q)); else os[r.below(5)] = std::move(q); break; }
        }
        if (failed) for (auto& q : os) check(*q);
        u64 h = 0; for (auto& q : os) for (int l : q->m.lab) h = sim::mix64(h ^ (u64) l); c.state(h);
    }
    for (auto& q : os) for (int i = 0; i < (int) q->m.lab.size(); ++i) c.eq(q->uf.size(i), q->m.size(i), "size");
}
enum { FNEW, FMERGE, FSIM, FGROUP, FGROUPS, FSAME, FSTRUCT, FCOPY };
static void runf(sim::Ctx& c) {
    struct Obj { suisen::MergeHistoryForest f; std::vector<std::vector<int>> hist; int n; }; std::vector<std::unique_ptr<Obj>> os; bool faults = c.faults_on();
    auto mk = [&](sim::Rng& r) { int n = 1 + (int) r.below(r.chance(1, 12) ? 80 : 14); auto o = std::unique_ptr<Obj>(new Obj{ suisen::MergeHistoryForest(n), {}, n }); std::vector<int> l((size_t) n); for (int i = 0; i < n; ++i) l[i] = i; o->hist.push_back(l); return o; };
    { sim::Rng r(c.s.seed ^ 13); os.push_back(mk(r)); }
    auto join = [](std::vector<int>& l, int a, int b) { int o = l[b], nw = l[a]; for (int& x : l) if (x == o) x = nw; };
    while (c.next()) {
        sim::Rng r = c.rng(2); Obj& o = *os[(size_t) c.arg(0, 0, (i64) os.size() - 1)]; int n = o.n, x = (int) r.below((u64) n), y = (int) r.below((u64) n); auto& f = o.f; int T = (int) o.hist.size() - 1, t = (int) r.below((u64) T + 2); const auto& L = o.hist[(size_t) std::min(t, T)]; bool failed = false;
        auto go = [&](auto&& g) { if (!faults || !r.chance(1, 4)) { g(); return; } sim::arm_alloc_failure((i64) r.below(r.chance(1, 3) ? 20 : 6)); try { sim::Armed a; g(); } catch (const std::bad_alloc&) { failed = true; sim::probe("request_failed"); } sim::disarm_alloc_failure(); };
        switch (c.cur->code) {
        case FNEW: if (os.size() < 4) os.push_back(mk(r)); else os[r.below(4)] = mk(r); break;
        case FMERGE: { bool two = r.chance(1, 2); go([&] { if (two) f.merge(x, y); else f.merge(std::make_pair(x, y)); }); if (failed) break; auto l = o.hist.back(); join(l, x, y); o.hist.push_back(l); c.eq(f.current_time(), (int) o.hist.size() - 1, "time"); break; }
        case FSIM: { std::vector<std::pair<int, int>> e; auto l = o.hist.back(); for (int k = (int) r.below(8); k-- > 0;) { int a = (int) r.below((u64) n), b = (int) r.below((u64) n); e.push_back({ a, b }); join(l, a, b); } go([&] { f.merge_simultaneously(e); }); if (failed) break; o.hist.push_back(l); c.eq(f.current_time(), (int) o.hist.size() - 1, "time"); break; }
        case FGROUP: { std::vector<int> g; bool now = r.chance(1, 4); go([&] { g = now ? f.group(x) : f.group(x, t); }); if (failed) break; const auto& M = now ? o.hist.back() : L; std::set<int> s(g.begin(), g.end()), w; for (int i = 0; i < n; ++i) if (M[i] == M[x]) w.insert(i); c.require(s == w && g.size() == w.size(), "group at a time"); break; }
        case FGROUPS: { std::vector<std::vector<int>> g; go([&] { g = f.groups(t); }); if (failed) break; std::set<std::set<int>> gs, ws; std::map<int, std::set<int>> w; for (int i = 0; i < n; ++i) w[L[i]].insert(i); for (auto& [k, v] : w) ws.insert(v); for (auto& v : g) gs.insert(std::set<int>(v.begin(), v.end())); c.require(gs == ws && g.size() == ws.size(), "groups at a time"); break; }
        case FSAME: { auto lca = [&](int a, int b) { std::set<int> up; for (int v = a; v >= 0; v = f.forest_parent(v)) up.insert(v); int v = b; while (!up.count(v)) v = f.forest_parent(v); return v; }; c.eq(f.same(x, y, t, lca), L[x] == L[y], "same at a time"); c.eq(f.same(x, y), o.hist.back()[x] == o.hist.back()[y], "same"); break; }
        case FCOPY: { bool now = r.chance(1, 2); size_t b = r.below(os.size()); if (now) { os[b]->f = o.f; os[b]->hist = o.hist; os[b]->n = n; } else { auto q = std::make_unique<Obj>(o); if (os.size() < 4) os.push_back(std::move(q)); else os[b] = std::move(q); } break; }
        case FSTRUCT: { c.eq(f.leaf_num(), n, "leaves"); c.eq((int) f.get_forest().size(), f.node_num(), "nodes of the forest"); for (int v = 0; v < n; ++v) { int t0 = f.forest_root(v); c.require(f.is_forest_root(t0), "root of an element"); std::set<int> g, w; std::vector<int> st{ t0 }; while (st.size()) { int u = st.back(); st.pop_back(); if (u < n) g.insert(u); for (int ch : f.get_forest()[(size_t) u]) { c.eq(f.forest_parent(ch), u, "parent of a child"); c.require(f.created_time(ch) < f.created_time(u), "created before its parent"); st.push_back(ch); } } for (int i = 0; i < n; ++i) if (o.hist.back()[i] == o.hist.back()[v]) w.insert(i); c.require(g == w, "leaves below the root"); } auto rs = f.forest_roots(); std::set<int> q(rs.begin(), rs.end()); std::set<int> labs(o.hist.back().begin(), o.hist.back().end()); c.eq(q.size(), labs.size(), "one root per component"); for (int v = 0; v < f.node_num(); ++v) { c.eq(f.is_forest_leaf(v), v < n, "leaf"); c.eq(f.is_forest_root(v), q.count(v) > 0, "root"); if (v >= n) { c.require(f.forest_children(v).size() >= 2, "an inner node joins at least two components"); for (int ch : f.forest_children(v)) { c.eq(f.forest_parent(ch), v, "parent of child"); c.require(f.created_time(ch) <= f.created_time(v), "time grows upwards"); } } int w = v; while (f.forest_parent(w) >= 0) w = f.forest_parent(w); if (v < n) c.eq(f.forest_root(v), w, "forest root"); } break; }
        }
        u64 h = 0; for (auto& q : os) { for (int l : q->hist.back()) h = sim::mix64(h ^ (u64) l); h = sim::mix64(h ^ q->hist.size()); } c.state(h);
    }
}
static sim::WorldDef def(const char* name, void (*f)(sim::Ctx&), const char* real, int special) { sim::WorldDef d; d.prop = "C17"; d.name = name; d.run = f; d.max_ops = 100; d.ncfg = 0; d.faults = true; d.real = real; d.stub = "user operations";
    d.ops = { {"new", 2, 3}, {"merge", 16, 3}, {"same", 5, 3}, {"size", 4, 3}, {"root", 2, 3}, {"groups", 2, 3}, {"special1", special ? 6 : 0, 3}, {"special2", special > 1 ? 6 : 0, 3}, {"special3", special > 1 ? 3 : 0, 3}, {"copy", 2, 3}, {"chain", 3, 3} }; return d; }
#define U "datastructure/union_find/"
static sim::RegisterWorld w1(def("plain", run<Plain>, U "union_find.hpp", 0)), w2(def("component_sum", run<CSum>, U "union_find_component_sum.hpp", 0)), w3(def("component_bag", run<CBag>, U "union_find_component_sum.hpp", 1)), w4(def("linked", run<Linked>, U "linked_union_find.hpp", 1)), w5(def("lazy", run<Lazy>, U "union_find_lazy.hpp", 2)), w6(def("weighted", run<Wt>, U "weighted_union_find.hpp", 1)), w7(def("weighted_int", run<WtI>, U "weighted_union_find.hpp", 0));
static sim::RegisterWorld w8([] { sim::WorldDef d; d.prop = "C17"; d.name = "merge_history"; d.run = runf; d.max_ops = 60; d.ncfg = 0; d.faults = true; d.real = U "merge_history_forest.hpp"; d.stub = "ac-library dsu stand-in"; d.ops = { {"new", 1, 3}, {"merge", 10, 3}, {"merge_sim", 5, 3}, {"group", 5, 3}, {"groups", 4, 3}, {"same", 5, 3}, {"structure", 3, 3}, {"copy", 1, 3} }; return d; }());
