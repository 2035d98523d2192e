// Undo logs: rollback-able union-find (plain and with component data), offline dynamic connectivity, and the incremental window of Mo's algorithm.
#include <memory>
#include <set>
#include <map>
#include "library/datastructure/union_find/undo_union_find.hpp"
#include "library/datastructure/union_find/undo_union_find_component_sum.hpp"
#include "library/algorithm/offline_dynamic_connectivity.hpp"
#include "library/algorithm/offline_dynamic_connectivity_component_sum.hpp"
#include "library/algorithm/mo.hpp"
using u64 = uint64_t; using i64 = int64_t;
// component data with its own undo stack; every merge goes through a user callback that may fail
struct Sum { std::vector<std::pair<u64, u64>> st; };
static void merge_data(Sum& a, const Sum& b) { sim::callback(); auto t = std::make_pair(a.st.back().first + b.st.back().first, a.st.back().second ^ b.st.back().second); a.st.push_back(t); }
static void undo_data(Sum& a) { sim::callback(); a.st.pop_back(); }
static std::pair<u64, u64> get_value(const Sum& a) { return a.st.back(); }
struct Model { std::vector<int> lab; std::vector<std::vector<int>> log; std::vector<std::pair<u64, u64>> val;
    bool merge(int x, int y) { if (lab[x] == lab[y]) return false; log.push_back(lab); int o = lab[y], nw = lab[x]; for (int& l : lab) if (l == o) l = nw; return true; }
    void undo() { lab = log.back(); log.pop_back(); }
    int size(int x) const { int s = 0; for (int l : lab) s += l == lab[x]; return s; }
    std::pair<u64, u64> sum(int x) const { std::pair<u64, u64> s{ 0, 0 }; for (size_t i = 0; i < lab.size(); ++i) if (lab[i] == lab[x]) s.first += val[i].first, s.second ^= val[i].second; return s; } };
enum { NEW, MERGE, UNDO, ROLLBACK, SNAPSHOT, SAME, SIZE, ROOT, GROUPS, SUM, COPY, NEST };
template <typename UF, bool COMP> static void run(sim::Ctx& c) {
    struct Obj { UF uf; Model m; }; std::vector<std::unique_ptr<Obj>> os; bool faults = c.faults_on();
    auto mk = [&](sim::Rng& r) { auto o = std::make_unique<Obj>(); int n = (int) r.below(r.chance(1, 6) ? 60 : 14); if (r.chance(1, 15)) n = 0; o->m.lab.resize((size_t) n); for (int i = 0; i < n; ++i) o->m.lab[i] = i;
        if constexpr (COMP) { std::vector<Sum> init((size_t) n); for (auto& s : init) { u64 a = r.next(), b = r.next(); s.st.push_back({ a, b }); o->m.val.push_back({ a, b }); } if (n && r.chance(1, 6)) { for (auto& s : init) s = init[0]; for (auto& s : o->m.val) s = o->m.val[0]; o->uf = UF(n, init[0]); } else o->uf = UF(init); } else o->uf = UF(n);
        if (n == 0 && r.chance(1, 2)) o->uf = UF(); return o; };
    { sim::Rng r(c.s.seed ^ 77); os.push_back(mk(r)); }
    while (c.next()) {
        sim::Rng r = c.rng(2); Obj& o = *os[(size_t) c.arg(0, 0, (i64) os.size() - 1)]; int n = (int) o.m.lab.size(); int x = n ? (int) r.below((u64) n) : 0, y = n ? (int) r.below((u64) n) : 0;
        auto check = [&](Obj& q, bool all) { int m = (int) q.m.lab.size(); for (int i = 0; i < m; ++i) { if (!all && i % 3) continue; int rt = q.uf.root(i); c.require(rt >= 0 && rt < m && q.m.lab[rt] == q.m.lab[i], "root is a member of the component"); c.eq(q.uf.root(rt), rt, "root is its own root"); c.eq(q.uf[i], rt, "operator[]"); for (int j = 0; j < i; j += 1 + m / 8) c.eq(q.uf.same(i, j), q.m.lab[i] == q.m.lab[j], "same"); c.eq(q.uf.size(i), q.m.size(i), "size"); if constexpr (COMP) c.require(get_value(std::as_const(q.uf).sum(i)) == q.m.sum(i), "component data"); } };
        switch (c.cur->code) {
        case NEW: if (os.size() < 5) os.push_back(mk(r)); else os[r.below(5)] = mk(r); break;
        case MERGE: if (n) { bool want = o.m.lab[x] != o.m.lab[y], arm = faults && r.chance(1, 3), cb = COMP && arm && r.chance(1, 2); bool got = false, failed = false;
            try { if (cb) sim::arm_callback_throw(0); else if (arm) sim::arm_alloc_failure((i64) r.below(3)); { sim::Armed a; got = o.uf.merge(x, y); } } catch (const std::bad_alloc&) { failed = true; } catch (const sim::InjectedFault&) { failed = true; }
            sim::disarm_alloc_failure(); sim::disarm_callback_throw();
            if (failed) { sim::probe("merge_failed"); check(o, true); } else { c.eq(got, want, "merge result"); o.m.merge(x, y); } } break;
        case UNDO: { int k = 1 + (int) r.below(4); while (k-- > 0 && o.m.log.size()) o.uf.undo(), o.m.undo(); check(o, false); break; }
        case ROLLBACK: o.uf.rollback(); while (o.m.log.size()) o.m.undo(); check(o, true); break;
        case SNAPSHOT: o.uf.snapshot(); o.m.log.clear(); break;
        case SAME: if (n) c.eq(o.uf.same(x, y), o.m.lab[x] == o.m.lab[y], "same"); break;
        case SIZE: if (n) c.eq(o.uf.size(x), o.m.size(x), "size"); break;
        case ROOT: check(o, false); break;
        case GROUPS: { auto g = o.uf.groups(); std::map<int, std::set<int>> w; for (int i = 0; i < n; ++i) w[o.m.lab[i]].insert(i); std::set<std::set<int>> gs, ws; size_t tot = 0; for (auto& v : g) gs.insert(std::set<int>(v.begin(), v.end())), tot += v.size(); for (auto& [k, v] : w) ws.insert(v); c.require(gs == ws && tot == (size_t) n && g.size() == ws.size(), "groups"); break; }
        case SUM: if constexpr (COMP) if (n) { c.require(get_value(o.uf.sum(x)) == o.m.sum(x), "component data"); } break;
        case COPY: { auto q = std::make_unique<Obj>(o); if (os.size() < 5) os.push_back(std::move(q)); else os[r.below(5)] = std::move(q); break; }
        case NEST: { // a burst of merges undone again must restore the state and the depth of the log exactly
            int k = 0, lim = (int) r.below(12); for (int i = 0; i < lim && n; ++i) { int a = (int) r.below((u64) n), b = (int) r.below((u64) n); bool g = o.uf.merge(a, b); c.eq(g, o.m.merge(a, b), "merge result"); k += g; } check(o, false); while (k-- > 0) o.uf.undo(), o.m.undo(); check(o, true); break; }
        }
        u64 h = 0; for (auto& q : os) { for (int l : q->m.lab) h = sim::mix64(h ^ (u64) l); h = sim::mix64(h ^ q->m.log.size()); } c.state(h);
    }
}
enum { ADD, DEL, QUERY, QSUM, ANSWER, RESTART };
template <bool COMP> static void run_off(sim::Ctx& c) {
    using O = std::conditional_t<COMP, suisen::OfflineDynamicConnectivityComponentSum, suisen::OfflineDynamicConnectivity>; bool faults = c.faults_on();
    int n = c.s.seed % 64 == 9 ? 40 + (int) (c.s.seed / 64 % 300) : (int) c.cfg(0, 14) + 1; struct Obj { O o; std::multiset<std::pair<int, int>> e; std::vector<std::pair<bool, std::pair<u64, u64>>> want; };
    auto make = [&] { auto p = std::make_unique<Obj>(); if constexpr (!COMP) p->o = O(n); return p; };
    std::vector<Sum> init; sim::Rng r0(c.s.seed ^ 5); for (int i = 0; i < n; ++i) init.push_back({ { { r0.next(), r0.next() } } });
    std::vector<std::unique_ptr<Obj>> os; os.push_back(make()); os.push_back(make());
    while (c.next()) {
        sim::Rng r = c.rng(2); auto& p = os[(size_t) c.arg(0, 0, 1)]; Obj& o = *p; int u = (int) r.below((u64) n), v = (int) r.below((u64) n); bool failed = false;
        auto go = [&](auto&& f, int span) { if (!faults || !r.chance(1, 4)) { f(); return; } sim::arm_alloc_failure((i64) r.below((u64) span)); try { sim::Armed a; f(); } catch (const std::bad_alloc&) { failed = true; sim::probe("request_failed_by_allocation"); } sim::disarm_alloc_failure(); };
        auto label = [&] { std::vector<int> l((size_t) n); for (int i = 0; i < n; ++i) l[i] = i; for (bool ch = true; ch;) { ch = false; for (auto [a, b] : o.e) if (l[a] != l[b]) { int m = std::min(l[a], l[b]); l[a] = l[b] = m; ch = true; } } return l; };
        switch (c.cur->code) {
        case ADD: go([&] { o.o.add_query(u, v); }, 2); if (!failed) o.e.insert(std::minmax(u, v)); break;
        case DEL: if (o.e.size()) { auto it = o.e.begin(); std::advance(it, (long) r.below(o.e.size())); auto [a, b] = *it; if (r.chance(1, 2)) std::swap(a, b); go([&] { o.o.del_query(a, b); }, 2); if (!failed) o.e.erase(it); } break;
        case QUERY: go([&] { o.o.connectivity_query(u, v); }, 2); if (!failed) { auto l = label(); o.want.push_back({ true, { l[u] == l[v], 0 } }); } break;
        case QSUM: if constexpr (COMP) { go([&] { o.o.component_sum_query(u); }, 2); if (!failed) { auto l = label(); std::pair<u64, u64> s{ 0, 0 }; for (int i = 0; i < n; ++i) if (l[i] == l[u]) s.first += init[i].st[0].first, s.second ^= init[i].st[0].second; o.want.push_back({ false, s }); } } break;
        case ANSWER: {
            if constexpr (COMP) { std::vector<std::variant<bool, std::pair<u64, u64>>> a; go([&] { a = o.o.template answer<Sum, merge_data, undo_data, std::pair<u64, u64>, get_value>(init); }, 60); if (failed) break; c.eq(a.size(), o.want.size(), "number of answers");
                for (size_t i = 0; i < a.size(); ++i) { c.eq(a[i].index() == 0, o.want[i].first, "kind of answer"); if (a[i].index() == 0) c.eq(std::get<0>(a[i]), (bool) o.want[i].second.first, "connectivity answer"); else c.require(std::get<1>(a[i]) == o.want[i].second, "component sum answer"); } }
            else { std::vector<bool> a; go([&] { a = o.o.answer(); }, 60); if (failed) break; c.eq(a.size(), o.want.size(), "number of answers"); for (size_t i = 0; i < a.size(); ++i) c.eq((bool) a[i], (bool) o.want[i].second.first, "connectivity answer"); }
            break; }
        case RESTART: p = make(); break;
        }
        u64 h = 0; for (auto& q : os) { for (auto [a, b] : q->e) h = sim::mix64(h ^ (u64) (a * 100 + b)); h = sim::mix64(h ^ q->want.size()); } c.state(h);
    }
}
enum { SOLVE, SOLVE2 };
static void run_mo(sim::Ctx& c) {
    struct Obj { suisen::Mo mo; std::vector<std::pair<int, int>> q; int n; }; std::vector<std::unique_ptr<Obj>> os;
    while (c.next()) {
        sim::Rng r = c.rng(2);
        if (os.empty() || r.chance(1, 3)) { auto o = std::make_unique<Obj>(); o->n = 1 + (int) r.below(r.chance(1, 4) ? 150 : 15); int q = (int) r.below(40); int shape = (int) r.below(3); for (int i = 0; i < q; ++i) { int a = (int) r.below((u64) o->n + 1), b = (int) r.below((u64) o->n + 1); if (a > b) std::swap(a, b); if (shape == 1) b = std::min(o->n, a + (int) r.below(4)); if (shape == 2) a = 0; o->q.push_back({ a, b }); } o->mo = suisen::Mo(o->n, o->q); if (os.size() < 3) os.push_back(std::move(o)); else os[r.below(3)] = std::move(o); }
        Obj& o = *os[r.below(os.size())]; std::vector<int> val((size_t) o.n); for (int& v : val) v = (int) r.below(1000) + 1;
        int L = 0, R = 0; i64 sum = 0; u64 moves = 0; auto& mo = o.mo;
        int target = -1; // an order-changing read: the answer must be taken for exactly the query it is stored under
        auto eval = [&] { sim::callback(); int id = mo.get_query_id(); c.require(id >= 0 && id < (int) o.q.size(), "query id"); c.require(o.q[(size_t) id] == std::make_pair(L, R), "window equals the query at evaluation"); c.require(mo.get_range() == std::make_pair(L, R), "getters agree with the window at evaluation"); (void) target; return std::make_pair(id, sum); };
        auto addl = [&](int i) { sim::callback(); c.eq(i, L - 1, "add_l index"); c.eq(mo.get_left(), i, "get_left in add_l"); L = i; sum += val[(size_t) i]; ++moves; }; auto addr = [&](int i) { sim::callback(); c.eq(i, R, "add_r index"); c.eq(mo.get_right(), i, "get_right in add_r"); R = i + 1; sum += val[(size_t) i]; ++moves; };
        auto dell = [&](int i) { sim::callback(); c.require(L < R, "window never inverted"); c.eq(i, L, "del_l index"); c.eq(mo.get_left(), i, "get_left in del_l"); L = i + 1; sum -= val[(size_t) i]; ++moves; }; auto delr = [&](int i) { sim::callback(); c.require(L < R, "window never inverted"); c.eq(i, R - 1, "del_r index"); c.eq(mo.get_right(), i, "get_right in del_r"); R = i; sum -= val[(size_t) i]; ++moves; };
        if (c.faults_on() && r.chance(1, 4)) { sim::arm_callback_throw((i64) r.below(40)); try { mo.solve(eval, addl, dell, addr, delr); } catch (const sim::InjectedFault&) { sim::probe("mo_aborted_by_callback"); } sim::disarm_callback_throw(); L = R = 0; sum = 0; moves = 0; }
        std::vector<std::pair<int, i64>> got;
        if (c.cur->code == SOLVE) got = mo.solve(eval, addl, dell, addr, delr);
        else { std::multiset<int> win; auto ev = [&] { int id = mo.get_query_id(); i64 s = 0; for (int i : win) s += val[(size_t) i]; c.eq((int) win.size(), o.q[(size_t) id].second - o.q[(size_t) id].first, "window size"); return std::make_pair(id, s); }; auto ad = [&](int i) { c.require(win.insert(i) != win.end() && win.count(i) == 1, "index added twice"); }; auto de = [&](int i) { c.require(win.erase(i) == 1, "deleted index was in the window"); }; got = mo.solve(ev, ad, de); }
        c.eq(got.size(), o.q.size(), "one answer per query"); for (size_t i = 0; i < got.size(); ++i) { i64 s = 0; for (int j = o.q[i].first; j < o.q[i].second; ++j) s += val[(size_t) j]; c.eq(got[i].first, (int) i, "answer stored under its query"); c.eq(got[i].second, s, "window answer"); }
        double q = (double) o.q.size(), nn = o.n; if (c.cur->code == SOLVE) c.require((double) moves <= 8 * (nn * std::sqrt(q + 1) + nn + q) + 100, "number of window moves is O(n sqrt q)");
        c.state(sim::mix64((u64) o.n * 1000 + o.q.size()) ^ moves);
    }
}
static sim::WorldDef def(const char* name, void (*f)(sim::Ctx&), bool comp) { sim::WorldDef d; d.prop = "C13"; d.name = name; d.run = f; d.max_ops = 120; d.ncfg = 1; d.faults = true; d.real = comp ? "datastructure/union_find/undo_union_find_component_sum.hpp" : "datastructure/union_find/undo_union_find.hpp"; d.stub = "user callbacks (merge_data, undo_data)";
    d.ops = { {"new", 2, 3}, {"merge", 20, 3}, {"undo", 8, 3}, {"rollback", 2, 3}, {"snapshot", 2, 3}, {"same", 4, 3}, {"size", 2, 3}, {"root", 2, 3}, {"groups", 2, 3}, {"sum", comp ? 4 : 0, 3}, {"copy", 2, 3}, {"nest", 4, 3} }; return d; }
static sim::RegisterWorld w1(def("undo_uf", run<suisen::UndoUnionFind, false>, false)), w2(def("undo_uf_sum", run<suisen::UndoUnionFindComponentSum<Sum, merge_data, undo_data>, true>, true));
static sim::WorldDef defo(const char* name, void (*f)(sim::Ctx&), bool comp) { sim::WorldDef d; d.prop = "C13"; d.name = name; d.run = f; d.max_ops = 120; d.ncfg = 1; d.faults = true; d.real = comp ? "algorithm/offline_dynamic_connectivity_component_sum.hpp" : "algorithm/offline_dynamic_connectivity.hpp"; d.stub = "user callbacks";
    d.ops = { {"add", 14, 3}, {"del", 8, 3}, {"query", 14, 3}, {"query_sum", comp ? 8 : 0, 3}, {"answer", 4, 3}, {"restart", 1, 3} }; return d; }
static sim::RegisterWorld w3(defo("offline_conn", run_off<false>, false)), w4(defo("offline_conn_sum", run_off<true>, true));
static sim::RegisterWorld w5([] { sim::WorldDef d; d.prop = "C13"; d.name = "mo_window"; d.run = run_mo; d.max_ops = 8; d.ncfg = 1; d.faults = true; d.real = "algorithm/mo.hpp"; d.stub = "user callbacks"; d.ops = { {"solve", 3, 3}, {"solve2", 2, 3} }; return d; }());
