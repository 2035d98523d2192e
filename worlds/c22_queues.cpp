// C22: aggregating queues and deques, sliding windows, interval sets and index sets, several alive, while memory fails.
#include "sim.hpp"
#include <algorithm>
#include <deque>
#include <memory>
#include <set>
#include <string>
#include <tuple>
#include "monoids.hpp"
#include "library/datastructure/queue_aggregation.hpp"
#include "library/datastructure/deque_aggregation.hpp"
#include "library/datastructure/sliding_window_minimum.hpp"
#include "library/datastructure/util/range_set.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree_set.hpp"
using i64 = int64_t; using u64 = uint64_t; using algebra::M;
namespace {
struct Both { M f, b; }; Both be() { return {}; } Both bapp(Both s, M v) { sim::callback(); return { algebra::op_raw(s.f, v), algebra::op_raw(v, s.b) }; } M bmerge(Both l, Both r) { return algebra::op_raw(l.b, r.f); }
using Q = suisen::QueueAggregation<M, Both, be, bapp, M, bmerge>; using D = suisen::DequeAggregation<M, algebra::op, algebra::e>;
enum { NEW, PUSHB, PUSHF, POPF, POPB, READ, ITER, CLEAR, SHRINK, COPY, MOVE, ASSIGN, SWAP, FROM, BURST };
template <typename T> void qrun(sim::Ctx& c) {
    constexpr bool DE = std::is_same_v<T, D>; bool on = c.faults_on(); u64 base = sim::live_blocks(); {
    struct Obj { std::unique_ptr<T> t = std::make_unique<T>(); std::vector<M> m; }; std::vector<std::shared_ptr<Obj>> os; os.push_back(std::make_shared<Obj>()); const size_t cap = c.cfg(0, 7) ? 60 : 1500;
    auto verify = [&](Obj& o) { const T& t = *o.t; int n = (int) o.m.size(); c.eq(t.size(), n, "size"); c.eq(t.prod(), algebra::fold(o.m, 0, o.m.size()), "product of the queue"); for (int i = 0; i < n; ++i) c.eq(t[i], o.m[(size_t) i], "element"); if (n) { c.eq(t.front(), o.m.front(), "front"); c.eq(t.back(), o.m.back(), "back"); } int i = 0; for (auto it = t.begin(); it != t.end(); ++it) { c.require(i < n, "iteration ends"); c.eq(*it, o.m[(size_t) i++], "iterated element"); } c.eq(i, n, "number of iterated elements"); };
    auto put = [&](sim::Rng& r, std::shared_ptr<Obj> o) { if (os.size() < 4) os.push_back(o); else os[r.below(4)] = o; };
    while (c.next()) { sim::Rng r = c.rng(2); auto keep = os[(size_t) c.arg(0, 0, (i64) os.size() - 1)], keep2 = os[r.below(os.size())]; Obj& o = *keep; Obj& p = *keep2; T& t = *o.t; int n = (int) o.m.size(); M v = algebra::elem(r.below(1000)); bool failed = false;
        auto go = [&](auto&& f) { failed = false; if (!on || !r.chance(1, 3)) { f(); return true; } if (r.chance(1, 2)) sim::arm_alloc_failure((i64) r.below(3)); else sim::arm_callback_throw((i64) r.below(r.chance(1, 2) ? 2 : 12)); try { sim::Armed a; f(); } catch (const std::bad_alloc&) { failed = true; } catch (const sim::InjectedFault&) { failed = true; } sim::disarm_alloc_failure(); sim::disarm_callback_throw(); if (failed) sim::probe("request_failed"); return !failed; };
        auto pop = [&](bool back) { if (o.m.empty()) return; if (go([&] { if constexpr (DE) { if (back) t.pop_back(); else t.pop_front(); } else t.pop_front(); })) o.m.erase(back && DE ? o.m.end() - 1 : o.m.begin()); };
        auto push = [&](bool front) { if (o.m.size() > cap) return; M x = algebra::elem(r.below(1000)); bool own = o.m.size() && r.chance(1, 5); size_t k = own ? r.below(o.m.size()) : 0; if (own) { x = o.m[k]; sim::probe("element_of_itself"); } if (go([&] { const M& y = own ? t[(int) k] : x; if constexpr (DE) { if (front) t.push_front(y); else t.push_back(y); } else t.push_back(y); })) o.m.insert(front && DE ? o.m.begin() : o.m.end(), x); };
        switch (c.cur->code) {
        case NEW: put(r, std::make_shared<Obj>()); break;
        case FROM: { auto q = std::make_shared<Obj>(); for (int k = (int) r.below(15); k-- > 0;) q->m.push_back(algebra::elem(r.below(1000))); if (r.chance(1, 2)) q->t.reset(new T(q->m)); else q->t.reset(new T(q->m.begin(), q->m.end())); put(r, q); break; }
        case PUSHB: push(false); break; case PUSHF: push(true); break; case POPF: pop(false); break; case POPB: pop(true); break;
        case READ: { M g; if (go([&] { g = t.prod(); })) c.eq(g, algebra::fold(o.m, 0, o.m.size()), "product of the queue"); break; }
        case ITER: { auto b = t.cbegin(), e = t.cend(); c.eq((int) (e - b), n, "distance"); if (!n) break; int i = (int) r.below((u64) n), j = (int) r.below((u64) n); auto x = b + i, y = e - (n - j); c.eq(*x, o.m[(size_t) i], "random access"); c.eq(*y, o.m[(size_t) j], "random access from the end"); c.eq((int) (y - x), j - i, "difference of iterators"); c.eq(b[j], o.m[(size_t) j], "indexed iterator"); x += j - i; c.require(x == y && !(x != y) && x <= y && x >= y && !(x < y) && !(x > y), "iterators that meet"); x -= j - i; c.eq(*x, o.m[(size_t) i], "moved back"); c.eq(x < y, i < j, "order of iterators"); c.eq(x > y, i > j, "order of iterators"); c.eq(x <= y, i <= j, "order of iterators"); c.eq(x >= y, i >= j, "order of iterators"); c.eq(x != y, i != j, "equality of iterators"); c.eq(*(j + b), o.m[(size_t) j], "number plus iterator"); { auto w = e; w -= n - i; c.eq(*w, o.m[(size_t) i], "moved from the end"); w += -i; c.require(w == b, "moved by a negative amount"); } c.eq(x == y, i == j, "equality of iterators"); auto z = e; for (int k = n; k-- > 0;) { auto w = z--; (void) w; c.eq(*z, o.m[(size_t) k], "backwards"); } c.require(z == b, "back at the front"); auto u = b++; c.eq(*u, o.m[0], "post-increment"); break; }
        case CLEAR: t.clear(); o.m.clear(); break;
        case SHRINK: go([&] { t.shrink_to_fit(); }); break;
        case COPY: { auto q = std::make_shared<Obj>(Obj{ nullptr, o.m }); if (go([&] { q->t.reset(new T(t)); })) put(r, q); break; }
        case MOVE: { auto q = std::make_shared<Obj>(Obj{ std::unique_ptr<T>(new T(std::move(t))), o.m }); for (auto& x : os) if (x == keep) x = q; continue; }
        case ASSIGN: t = *p.t; o.m = p.m; break;
        case SWAP: if (&o != &p) { std::swap(t, *p.t); std::swap(o.m, p.m); } break;
        case BURST: { bool a = r.chance(1, 2), b = r.chance(1, 2); for (int k = (int) r.below(cap / 3); k-- > 0;) push(a); for (int k = (int) r.below(cap / 3); k-- > 0;) { pop(b); if (failed) { verify(o); failed = false; } } break; }
        }
        verify(o); if (failed || r.chance(1, 5)) for (auto& q : os) verify(*q);
        u64 h = 0; for (auto& q : os) { h = sim::mix64(h + 1); for (auto& x : q->m) h = sim::mix64(h * 31 ^ sim::hash_of(x)); } c.state(h); }
    for (auto& q : os) verify(*q); }
    c.eq(sim::live_blocks(), base, "all memory is returned"); sim::check_heap("end");
}
sim::WorldDef def(const char* nm, void (*run)(sim::Ctx&), const char* real, std::vector<sim::OpDef> ops) { sim::WorldDef d; d.prop = "C22"; d.name = nm; d.run = run; d.max_ops = 100; d.ncfg = 2; d.faults = true; d.real = real; d.stub = "memory (failures, reuse, poison)"; d.ops = ops; return d; }
std::vector<sim::OpDef> qo{ {"new", 1, 3}, {"push_back", 8, 3}, {"push_front", 8, 3}, {"pop_front", 8, 3}, {"pop_back", 8, 3}, {"prod", 3, 3}, {"iterate", 3, 3}, {"clear", 1, 3}, {"shrink", 1, 3}, {"copy", 2, 3}, {"move", 1, 3}, {"assign", 1, 3}, {"swap", 1, 3}, {"from", 1, 3}, {"burst", 4, 3} };
sim::RegisterWorld w1(def("queue_aggregation", qrun<Q>, "library/datastructure/queue_aggregation.hpp", qo)), w2(def("deque_aggregation", qrun<D>, "library/datastructure/deque_aggregation.hpp", qo));

// windows over one array each
enum { WNEW, RIGHT, LEFT, BOTH, WREAD, WCOPY };
template <typename Cmp, int SIGN, bool LAST> void wrun(sim::Ctx& c) { using W = suisen::sliding_window_minimum<int, Cmp>; bool on = c.faults_on(); u64 base = sim::live_blocks(); {
    struct Obj { std::unique_ptr<W> w; std::vector<int> a; int l = 0, r = 0; }; std::vector<std::shared_ptr<Obj>> os;
    auto mk = [&](sim::Rng& r) { auto o = std::make_shared<Obj>(); int n = (int) r.below(r.chance(1, 6) ? 700 : 60), sp = 1 + (int) r.below(12), kind = (int) r.below(3); for (int i = 0; i < n; ++i) o->a.push_back(kind == 0 ? (int) r.below((u64) sp) : kind == 1 ? i / sp : -i / sp); o->w.reset(new W(n, [&](int i) { return o->a[(size_t) i]; })); return o; };
    auto verify = [&](Obj& o) { c.eq(o.w->get_left(), o.l, "left end"); c.eq(o.w->get_right(), o.r, "right end"); c.eq(o.w->get_window_size(), o.r - o.l, "window size"); if (o.l == o.r) return; int best = o.l; for (int i = o.l; i < o.r; ++i) { int d = SIGN * (o.a[(size_t) i] - o.a[(size_t) best]); if (d < 0 || (LAST && d == 0)) best = i; } c.eq(o.w->arg_query(), best, "position of the best"); c.eq(o.w->query(), o.a[(size_t) best], "best of the window"); };
    { sim::Rng r(c.s.seed ^ 7); os.push_back(mk(r)); }
    while (c.next()) { sim::Rng r = c.rng(2); auto keep = os[(size_t) c.arg(0, 0, (i64) os.size() - 1)]; Obj& o = *keep; int n = (int) o.a.size(); bool failed = false;
        auto go = [&](auto&& f) { failed = false; if (!on || !r.chance(1, 2)) { f(); return true; } sim::arm_alloc_failure((i64) r.below(2)); try { sim::Armed a; f(); } catch (const std::bad_alloc&) { failed = true; sim::probe("request_failed"); } sim::disarm_alloc_failure(); return !failed; };
        // a failed move of an end stops between two positions: it has moved right as far as reported
        switch (c.cur->code) {
        case WNEW: if (os.size() < 3) os.push_back(mk(r)); else os[r.below(3)] = mk(r); break;
        case WCOPY: { auto q = std::make_shared<Obj>(Obj{ std::make_unique<W>(*o.w), o.a, o.l, o.r }); if (os.size() < 3) os.push_back(q); else os[r.below(3)] = q; break; }
        case RIGHT: if (o.r < n) { if (go([&] { o.w->proc_right(); })) ++o.r; } break;
        case LEFT: if (o.l < o.r) { o.w->proc_left(); ++o.l; } break;
        case BOTH: { int nr = o.r + (int) r.below((u64) (n - o.r) + 1), nl = o.l + (int) r.below((u64) (nr - o.l) + 1); if (r.chance(1, 2)) { if (go([&] { o.w->proc(nl, nr); })) o.l = nl, o.r = nr; else { int g = o.w->get_right(); c.require(g >= o.r && g < nr, "a failed move stops on the way"); o.r = g; } } else { if (go([&] { o.w->proc_right(nr); })) { o.r = nr; } else { int g = o.w->get_right(); c.require(g >= o.r && g < nr, "a failed move stops on the way"); o.r = g; } nl = std::min(nl, o.r); o.w->proc_left(nl); o.l = std::max(o.l, nl); } break; }
        case WREAD: break; }
        for (auto& q : os) verify(*q);
        u64 h = 0; for (auto& q : os) h = sim::mix64(h + (u64) q->l * 1009 + (u64) q->r + q->a.size() * 7919); c.state(h); } }
    c.eq(sim::live_blocks(), base, "all memory is returned");
}
std::vector<sim::OpDef> wo{ {"new", 1, 3}, {"right", 8, 3}, {"left", 4, 3}, {"move", 4, 3}, {"read", 1, 3}, {"copy", 1, 3} };
sim::RegisterWorld v1(def("window_left_min", wrun<suisen::prioritizing_mode::left_most_min<int>, 1, false>, "library/datastructure/sliding_window_minimum.hpp", wo)), v2(def("window_right_min", wrun<suisen::prioritizing_mode::right_most_min<int>, 1, true>, "library/datastructure/sliding_window_minimum.hpp", wo)), v3(def("window_left_max", wrun<suisen::prioritizing_mode::left_most_max<int>, -1, false>, "library/datastructure/sliding_window_minimum.hpp", wo)), v4(def("window_right_max", wrun<suisen::prioritizing_mode::right_most_max<int>, -1, true>, "library/datastructure/sliding_window_minimum.hpp", wo));

// interval sets
enum { RNEW, RINS, RINS1, RERA, RERA1, RQ, RCOPY, RMOVE, RSWAP, RCLEAR };
template <bool MERGE> void rrun(sim::Ctx& c) { using R = suisen::RangeSet<i64, MERGE>; bool on = c.faults_on(); u64 base = sim::live_blocks(); {
    int span = (int) c.cfg(4, 70); const i64 B = c.cfg(0, 3) == 0 ? INT64_MAX - span + 1 : c.cfg(0, 1) ? INT64_MIN + 1000 : -30; // universe [B, B + span)
    struct Obj { std::unique_ptr<R> s = std::make_unique<R>(); std::vector<char> in, cut; }; std::vector<std::shared_ptr<Obj>> os; // cut[i]: a range starts at i
    auto fresh = [&] { auto o = std::make_shared<Obj>(); o->in.assign((size_t) span, 0); o->cut.assign((size_t) span + 1, 0); return o; };
    auto ranges = [&](Obj& o) { std::vector<std::pair<i64, i64>> v; for (int i = 0; i < span; ++i) if (o.in[(size_t) i]) { if (i && o.in[(size_t) i - 1] && (MERGE || !o.cut[(size_t) i])) v.back().second = B + i; else v.push_back({ B + i, B + i }); } return v; };
    auto verify = [&](Obj& o) { auto w = ranges(o); i64 cnt = 0; for (char x : o.in) cnt += x; c.eq((i64) o.s->size(), cnt, "number of integers"); c.eq((i64) o.s->number_of_elements(), cnt, "number of integers"); c.eq(o.s->number_of_ranges(), (int) w.size(), "number of ranges"); size_t i = 0; for (auto& [l, r] : *o.s) { c.require(i < w.size() && l == w[i].first && r == w[i].second, "ranges"); ++i; } };
    auto put = [&](sim::Rng& r, std::shared_ptr<Obj> o) { if (os.size() < 4) os.push_back(o); else os[r.below(4)] = o; };
    os.push_back(fresh());
    while (c.next()) { sim::Rng r = c.rng(2); auto keep = os[(size_t) c.arg(0, 0, (i64) os.size() - 1)], keep2 = os[r.below(os.size())]; Obj& o = *keep; Obj& p = *keep2; bool failed = false; int l = (int) r.below((u64) span), len = 1 + (int) r.below(r.chance(1, 3) ? 3 : (u64) span), h = std::min(span - 1, l + len - 1);
        auto go = [&](auto&& f) { failed = false; if (!on || !r.chance(1, 3)) { f(); return true; } sim::arm_alloc_failure(0); try { sim::Armed a; f(); } catch (const std::bad_alloc&) { failed = true; sim::probe("request_failed"); } sim::disarm_alloc_failure(); return !failed; };
        switch (c.cur->code) {
        case RNEW: put(r, fresh()); break;
        case RINS: case RINS1: { if (c.cur->code == RINS1) h = l; if (r.chance(1, 20) && l) { c.eq((i64) o.s->insert(B + l, B + l - 1), (i64) 0, "empty range"); break; } i64 g = 0; if (go([&] { g = c.cur->code == RINS1 ? o.s->insert(B + l) : o.s->insert(B + l, B + h); })) { i64 w = 0; // without merging, an insertion swallows every range it overlaps
                    int a = l, b = h; if (o.in[(size_t) a]) while (a && o.in[(size_t) a - 1] && !o.cut[(size_t) a]) --a; if (o.in[(size_t) b]) while (b + 1 < span && o.in[(size_t) b + 1] && !o.cut[(size_t) b + 1]) ++b; for (int i = l; i <= h; ++i) w += !o.in[(size_t) i], o.in[(size_t) i] = 1; for (int i = a + 1; i <= b; ++i) o.cut[(size_t) i] = 0; o.cut[(size_t) a] = 1; if (b + 1 <= span) o.cut[(size_t) b + 1] = 1; c.eq(g, w, "number of inserted integers"); } break; }
        case RERA: case RERA1: { if (c.cur->code == RERA1) h = l; i64 g = 0; if (go([&] { g = c.cur->code == RERA1 ? o.s->erase(B + l) : o.s->erase(B + l, B + h); })) { i64 w = 0; for (int i = l; i <= h; ++i) w += o.in[(size_t) i], o.in[(size_t) i] = 0, o.cut[(size_t) i] = 0; if (h + 1 <= span) o.cut[(size_t) h + 1] = 1; c.eq(g, w, "number of erased integers"); } break; }
        case RQ: { c.eq(o.s->contains(B + l), (bool) o.in[(size_t) l], "contains"); auto w = ranges(o); auto it = std::as_const(*o.s).find_range(B + l); bool f = false; for (auto& [a, b] : w) if (a <= B + l && B + l <= b) { f = true; c.require(it != o.s->end() && it->first == a && it->second == b, "find_range"); c.eq(o.s->in_the_same_range(B + l, B + h), B + h <= b, "in_the_same_range"); } if (!f) { c.require(it == o.s->end(), "find_range of a gap"); c.eq(o.s->in_the_same_range(B + l, B + h), false, "in_the_same_range of a gap"); } if constexpr (MERGE) { int x = l; while (x < span && o.in[(size_t) x]) ++x; if (x < span) c.eq(o.s->minimum_excluded(B + l), B + x, "minimum excluded"); x = l; while (x >= 0 && o.in[(size_t) x]) --x; if (x >= 0) c.eq(o.s->maximum_excluded(B + l), B + x, "maximum excluded"); } break; }
        case RCOPY: { auto q = std::make_shared<Obj>(o.in.size() ? Obj{ nullptr, o.in, o.cut } : Obj{}); if (go([&] { q->s.reset(new R(*o.s)); })) put(r, q); break; }
        case RMOVE: { auto q = std::make_shared<Obj>(Obj{ std::make_unique<R>(std::move(*o.s)), o.in, o.cut }); for (auto& x : os) if (x == keep) x = q; continue; }
        case RSWAP: if (&o != &p) { o.s->swap(*p.s); std::swap(o.in, p.in); std::swap(o.cut, p.cut); verify(p); } break;
        case RCLEAR: o.s->clear(); o.in.assign((size_t) span, 0); o.cut.assign((size_t) span + 1, 0); break; }
        verify(o); if (failed || r.chance(1, 5)) for (auto& q : os) verify(*q);
        u64 hh = 0; for (auto& q : os) { hh = sim::mix64(hh + 1); for (auto& x : ranges(*q)) hh = sim::mix64(hh * 31 ^ (u64) (x.first - B) * 101 ^ (u64) (x.second - B)); } c.state(hh); } }
    c.eq(sim::live_blocks(), base, "all memory is returned");
}
std::vector<sim::OpDef> ro{ {"new", 1, 3}, {"insert", 8, 3}, {"insert_one", 6, 3}, {"erase", 7, 3}, {"erase_one", 4, 3}, {"query", 5, 3}, {"copy", 2, 3}, {"move", 1, 3}, {"swap", 1, 3}, {"clear", 1, 3} };
sim::RegisterWorld r1(def("range_set", rrun<true>, "library/datastructure/util/range_set.hpp", ro)), r2(def("range_set_unmerged", rrun<false>, "library/datastructure/util/range_set.hpp", ro));

// index sets
enum { FNEW, FINS, FERA, FERAIT, FQ, FITER, FCOPY, FASSIGN, FSWAP, FDENSE };
void frun(sim::Ctx& c) { using T = suisen::fenwick_tree_set; bool on = c.faults_on(); u64 base = sim::live_blocks(); {
    struct Obj { std::unique_ptr<T> t; std::set<int> m; int n; }; std::vector<std::shared_ptr<Obj>> os;
    auto mk = [&](sim::Rng& r) { int n = r.chance(1, 10) ? 0 : r.chance(1, 4) ? 64 * (int) (1 + r.below(6)) + (int) r.below(3) - 1 : r.chance(1, 3) ? (int) r.below(3000) : 1 + (int) r.below(80); auto o = std::make_shared<Obj>(); o->n = n; switch (r.below(4)) { case 0: o->t.reset(new T(n)); break; case 1: o->t.reset(new T(n, true)); for (int i = 0; i < n; ++i) o->m.insert(i); break; case 2: { std::vector<int> v; for (int k = n ? (int) r.below(40) : 0; k-- > 0;) v.push_back((int) r.below((u64) n)); o->t.reset(new T(n, v)); o->m.insert(v.begin(), v.end()); break; } default: { std::string s((size_t) n, '.'); for (auto& x : s) if (r.chance(1, 3)) x = '#'; for (int i = 0; i < n; ++i) if (s[(size_t) i] == '#') o->m.insert(i); o->t.reset(new T(s, '#')); } } return o; };
    auto probe1 = [&](Obj& o, int v) { auto& t = *o.t; auto& m = o.m; c.eq(t.contains(v), m.count(v) > 0, "contains"); auto lo = m.lower_bound(v), up = m.upper_bound(v); int cl = (int) std::distance(m.begin(), lo), cu = (int) std::distance(m.begin(), up), n = (int) m.size(); c.eq(t.count_lt(v), cl, "count_lt"); c.eq(t.count_leq(v), cu, "count_leq"); c.eq(t.count_gt(v), n - cu, "count_gt"); c.eq(t.count_geq(v), n - cl, "count_geq"); c.eq(t.min_geq(v), lo == m.end() ? -1 : *lo, "min_geq"); c.eq(t.min_gt(v), up == m.end() ? -1 : *up, "min_gt"); c.eq(t.max_lt(v), lo == m.begin() ? -1 : *std::prev(lo), "max_lt"); c.eq(t.max_leq(v), up == m.begin() ? -1 : *std::prev(up), "max_leq"); c.eq(t.lower_bound(v).index(), cl, "lower_bound"); c.eq(t.upper_bound(v).index(), cu, "upper_bound"); c.eq(t.find(v) == t.end(), m.count(v) == 0, "find"); };
    auto verify = [&](Obj& o, sim::Rng& r) { c.eq(o.t->size(), (int) o.m.size(), "size"); int k = (int) r.below(o.m.size() + 1); c.eq(o.t->kth_element(k), k < (int) o.m.size() ? *std::next(o.m.begin(), k) : -1, "kth element"); probe1(o, (int) r.below((u64) o.n + 2) - 1); };
    { sim::Rng r(c.s.seed ^ 9); os.push_back(mk(r)); }
    while (c.next()) { sim::Rng r = c.rng(2); auto keep = os[(size_t) c.arg(0, 0, (i64) os.size() - 1)], keep2 = os[r.below(os.size())]; Obj& o = *keep; Obj& p = *keep2; int n = o.n, v = n ? (int) r.below((u64) n) : 0;
        switch (c.cur->code) {
        case FNEW: if (os.size() < 4) os.push_back(mk(r)); else os[r.below(4)] = mk(r); break;
        case FINS: if (n) c.eq(o.t->insert(v), o.m.insert(v).second, "insert reports whether it was new"); break;
        case FERA: if (r.chance(1, 2) && o.m.size()) v = *std::next(o.m.begin(), (i64) r.below(o.m.size())); c.eq(o.t->erase(v), o.m.erase(v) > 0, "erase reports whether it was there"); break;
        case FERAIT: if (o.m.size()) { int k = (int) r.below(o.m.size()); auto it = o.t->begin() + k; auto nx = o.t->erase(it); o.m.erase(std::next(o.m.begin(), k)); c.eq(nx.has_value(), k < (int) o.m.size(), "iterator after erase"); if (nx.has_value()) c.eq(*nx, *std::next(o.m.begin(), k), "iterator after erase"); } break;
        case FQ: for (int x : { -1, 0, n - 1, n, n + 1, INT32_MAX, INT32_MIN, v }) probe1(o, x); c.eq((*o.t)[-1], -1, "kth out of range"); c.eq(o.t->kth_element((int) o.m.size()), -1, "kth out of range"); break;
        case FITER: { int sz = (int) o.m.size(), i = (int) r.below((u64) sz + 1), j = (int) r.below((u64) sz + 1); auto b = o.t->begin(), e = o.t->end(); auto x = b + i, y = e - (sz - j); auto w = [&](int k) { return k < 0 || k >= sz ? -1 : *std::next(o.m.begin(), k); }; c.eq(*x, w(i), "random access"); c.eq(*(j + b), w(j), "number plus iterator"); c.eq(x[j - i], w(j), "indexed iterator"); c.eq((int) (y - x), j - i, "difference of iterators"); c.require((x < y) == (i < j) && (x <= y) == (i <= j) && (x > y) == (i > j) && (x >= y) == (i >= j) && (x == y) == (i == j) && (x != y) == (i != j), "order of iterators"); x += j - i; c.require(x == y, "iterators that meet"); x -= j - i; c.eq(x.index(), i, "moved back"); c.eq((x++).index(), i, "post-increment"); c.eq((x--).index(), i + 1, "post-decrement"); c.eq((++x).index(), i + 1, "pre-increment"); c.eq((--x).index(), i, "pre-decrement"); c.eq((e - 1).has_value(), sz > 0, "last element"); c.eq((b - 1).has_value(), false, "before the first element"); auto it = o.m.begin(); int k = 0; for (auto jt = o.t->begin(); jt != o.t->end() && k < 200; ++jt, ++it, ++k) c.eq(*jt, *it, "iteration in order"); break; }
        case FCOPY: { auto q = std::make_shared<Obj>(Obj{ nullptr, o.m, n }); bool failed = false; if (on && r.chance(1, 2)) { sim::arm_alloc_failure((i64) r.below(3)); try { sim::Armed a; q->t.reset(new T(*o.t)); } catch (const std::bad_alloc&) { failed = true; sim::probe("request_failed"); } sim::disarm_alloc_failure(); } else q->t.reset(new T(*o.t)); if (!failed) { if (os.size() < 4) os.push_back(q); else os[r.below(4)] = q; } break; }
        case FASSIGN: *o.t = *p.t; o.m = p.m; o.n = p.n; break;
        case FSWAP: std::swap(*o.t, *p.t); if (&o != &p) { std::swap(o.m, p.m); std::swap(o.n, p.n); } break;
        case FDENSE: if (n) { int l = (int) r.below((u64) n), h = std::min(n, l + 1 + (int) r.below(200)); bool add = r.chance(1, 2); for (int i = l; i < h; ++i) if (add) c.eq(o.t->insert(i), o.m.insert(i).second, "insert"); else c.eq(o.t->erase(i), o.m.erase(i) > 0, "erase"); } break; }
        for (auto& q : os) verify(*q, r);
        u64 hh = 0; for (auto& q : os) { hh = sim::mix64(hh + (u64) q->n); for (int x : q->m) hh = sim::mix64(hh * 31 ^ (u64) x); } c.state(hh); } }
    c.eq(sim::live_blocks(), base, "all memory is returned");
}
sim::RegisterWorld f1(def("fenwick_set", frun, "library/datastructure/fenwick_tree/fenwick_tree_set.hpp", { {"new", 2, 3}, {"insert", 8, 3}, {"erase", 6, 3}, {"erase_iterator", 3, 3}, {"query", 5, 3}, {"iterate", 1, 3}, {"copy", 2, 3}, {"assign", 1, 3}, {"swap", 1, 3}, {"dense", 4, 3} }));
}
