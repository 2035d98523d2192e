// C22: priority queues: several alive, copied, moved and swapped, with comparators that carry state, while memory fails.
#include "sim.hpp"
#include <algorithm>
#include <memory>
#include <set>
#include <string>
#include "library/datastructure/heap/binary_heap.hpp"
#include "library/datastructure/heap/interval_heap.hpp"
#include "library/datastructure/double_ended_priority_queue.hpp"
#include "library/datastructure/priority_queue.hpp"
#include "library/datastructure/util/priority_sum.hpp"
using i64 = int64_t; using u64 = uint64_t;
namespace {
// strings ordered by one of several orders, chosen when the comparator is made
struct Cmp { int mode = 0; const int* alive = nullptr; bool operator()(const std::string& a, const std::string& b) const { sim::callback(); return raw(a, b); } bool raw(const std::string& a, const std::string& b) const { switch (mode) { case 0: return a < b; case 1: return a > b; default: return a.size() != b.size() ? a.size() < b.size() : a < b; } } };
using MinH = suisen::MinBinaryHeap<std::string, Cmp>; using MaxH = suisen::MaxBinaryHeap<std::string, Cmp>; using Itv = suisen::IntervalHeap<std::string, Cmp>; using Dpq = suisen::DoubleEndedPriorityQueue<std::string, Cmp>; using MinP = suisen::MinPriorityQueue<int>; using MaxP = suisen::MaxPriorityQueue<int>;
enum { NEW, PUSH, EMPLACE, POPMIN, POPMAX, PEEK, COPY, MOVE, ASSIGN, SWAP, CLEAR, BULK, DUMP, RESERVE, DRAIN };
template <typename H> void run(sim::Ctx& c) {
    constexpr bool INT = std::is_same_v<typename H::value_type, int>, DE = std::is_same_v<H, Itv> || std::is_same_v<H, Dpq>, DQ = std::is_same_v<H, Dpq>, MINH = std::is_same_v<H, MinH> || std::is_same_v<H, MinP>; using V = typename H::value_type; bool on = c.faults_on(); const bool L = sim::mix64(c.s.seed ^ 0xb16) % 9 == 0; u64 base = sim::live_blocks(); {
    struct Less { Cmp c; bool operator()(const V& a, const V& b) const { if constexpr (INT) return a < b; else return c.raw(a, b); } }; using S = std::multiset<V, Less>;
    struct Obj { std::unique_ptr<H> h; S m; int mode; }; std::vector<std::shared_ptr<Obj>> os; int span = (int) c.cfg(2, 200);
    auto val = [&](sim::Rng& r) { int x = (int) r.below((u64) span); if constexpr (INT) return x - span / 2; else return "priority " + std::string((size_t) (x % 5), '+') + std::to_string(x); };
    auto mk = [&](sim::Rng& r, bool bulk) { int mode = (int) r.below(3); auto o = std::make_shared<Obj>(Obj{ nullptr, S(Less{ { mode } }), mode }); std::vector<V> v; if (bulk) for (int k = (int) r.below(L ? 300 : 25); k-- > 0;) v.push_back(val(r)); o->m.insert(v.begin(), v.end()); Cmp cm{ mode };
        if constexpr (INT) { if (bulk) o->h.reset(new H(v)); else o->h.reset(new H()); } else if constexpr (std::is_same_v<H, Itv>) { o->h.reset(new H(cm)); for (auto& x : v) o->h->push(x); } else { if (DQ && mode == 0 && r.chance(1, 3)) { if (bulk) o->h.reset(r.chance(1, 2) ? new H(v) : new H(v.begin(), v.end())); else o->h.reset(new H()); } else if (!bulk) o->h.reset(new H(cm)); else if (r.chance(1, 2)) o->h.reset(new H(v, cm)); else o->h.reset(new H(v.begin(), v.end(), cm)); } return o; };
    auto same = [&](Obj& o, const V& got, const V& want, const char* cls) { Less l{ { o.mode } }; c.require(!l(got, want) && !l(want, got), cls, "got " + sim::show(got) + " want " + sim::show(want)); };
    auto peek = [&](Obj& o) { c.eq((int) o.h->size(), (int) o.m.size(), "size"); c.eq(o.h->empty(), o.m.empty(), "empty"); if (o.m.empty()) return; if constexpr (std::is_same_v<H, Itv>) { same(o, std::as_const(*o.h).min(), *o.m.begin(), "minimum"); o.h->check_heap_property(); } if constexpr (DQ) same(o, o.h->top(), *o.m.rbegin(), "top"); if constexpr (DE) { same(o, o.h->max(), *o.m.rbegin(), "maximum"); } else same(o, o.h->top(), MINH ? *o.m.begin() : *o.m.rbegin(), "top"); };
    auto deep = [&](Obj& o) { peek(o); H h = *o.h; S m = o.m; bool up = (o.m.size() & 1) != 0; while (m.size()) { if constexpr (DE) { if (up) { same(o, h.pop_min(), *m.begin(), "minimum of a copy"); m.erase(m.begin()); } else { same(o, h.pop_max(), *m.rbegin(), "maximum of a copy"); m.erase(std::prev(m.end())); } up = !up; } else { auto it = MINH ? m.begin() : std::prev(m.end()); same(o, h.pop(), *it, "order of a copy"); m.erase(it); } } c.require(h.empty(), "nothing is left after the last element"); };
    auto put = [&](sim::Rng& r, std::shared_ptr<Obj> o) { if (os.size() < 5) os.push_back(o); else os[r.below(5)] = o; };
    { sim::Rng r(c.s.seed ^ 5); os.push_back(mk(r, false)); }
    while (c.next()) { sim::Rng r = c.rng(2); auto keep = os[(size_t) c.arg(0, 0, (i64) os.size() - 1)], keep2 = os[r.below(os.size())]; Obj& o = *keep; Obj& p = *keep2; bool failed = false; V v = val(r);
        auto go = [&](auto&& f) { if (!on || !r.chance(1, 3)) { f(); return true; } sim::arm_alloc_failure((i64) r.below(r.chance(1, 2) ? 1 : 4)); try { sim::Armed a; f(); } catch (const std::bad_alloc&) { failed = true; sim::probe("request_failed"); } sim::disarm_alloc_failure(); return !failed; };
        switch (c.cur->code) {
        case NEW: put(r, mk(r, false)); break; case BULK: put(r, mk(r, true)); break;
        case PUSH: { bool own = o.m.size() && r.chance(1, 6); if (own) { if constexpr (DE) { sim::probe("element_of_itself"); const V& y = o.h->max(); v = y; if (go([&] { o.h->push(y); })) o.m.insert(v); } else { sim::probe("element_of_itself"); const V& y = o.h->top(); v = y; if (go([&] { o.h->push(y); })) o.m.insert(v); } } else if (go([&] { o.h->push(v); })) o.m.insert(v); break; }
        case EMPLACE: if (go([&] { if constexpr (INT) o.h->emplace(v); else o.h->emplace(v.c_str()); })) o.m.insert(v); break;
        case POPMIN: if (o.m.size()) { if constexpr (DE) { V g{}; if (go([&] { g = o.h->pop_min(); })) { same(o, g, *o.m.begin(), "pop_min"); o.m.erase(o.m.begin()); } } else { V g{}; if (go([&] { g = o.h->pop(); })) { auto it = MINH ? o.m.begin() : std::prev(o.m.end()); same(o, g, *it, "pop"); o.m.erase(it); } } } break;
        case POPMAX: if (o.m.size()) if constexpr (DE) { V g{}; bool alt = DQ && r.chance(1, 2); if (go([&] { if constexpr (DQ) g = alt ? o.h->pop() : o.h->pop_max(); else g = o.h->pop_max(); })) { auto it = std::prev(o.m.end()); same(o, g, *it, "pop_max"); o.m.erase(it); } } break;
        case PEEK: if (o.m.size()) if constexpr (DE) { const V* g = nullptr; if (go([&] { g = &o.h->min(); })) same(o, *g, *o.m.begin(), "minimum"); } break;
        case COPY: { auto q = std::make_shared<Obj>(Obj{ nullptr, o.m, o.mode }); if (go([&] { q->h.reset(new H(*o.h)); })) put(r, q); break; }
        case MOVE: { auto q = std::make_shared<Obj>(Obj{ nullptr, o.m, o.mode }); q->h.reset(new H(std::move(*o.h))); put(r, q); for (auto& x : os) if (x == keep) x = q; continue; }
        case ASSIGN: *o.h = *p.h; o.m = p.m; o.mode = p.mode; break;
        case SWAP: if (&o != &p) { std::swap(*o.h, *p.h); std::swap(o.m, p.m); std::swap(o.mode, p.mode); } break;
        case CLEAR: if constexpr (!DE) { if (r.chance(1, 4)) { o.h->clear(); o.m.clear(); } else go([&] { o.h->shrink_to_fit(); }); } break;
        case RESERVE: if constexpr (!DQ) go([&] { o.h->reserve((int) r.below(50)); }); break;
        case DUMP: if constexpr (DQ) { std::vector<V> g; if (go([&] { g = std::as_const(*o.h).dump_sorted(); })) { c.eq(g.size(), o.m.size(), "dump size"); size_t i = 0; for (auto& x : o.m) same(o, g[i++], x, "sorted dump"); } } else deep(o); break;
        case DRAIN: for (int k = (int) r.below(L ? 150 : 12); k-- > 0 && o.m.size();) { auto it = MINH ? o.m.begin() : std::prev(o.m.end()); if constexpr (DE) { it = std::prev(o.m.end()); same(o, o.h->pop_max(), *it, "pop_max"); } else same(o, o.h->pop(), *it, "pop"); o.m.erase(it); } break;
        }
        peek(o); if (failed || r.chance(1, 8)) for (auto& q : os) deep(*q);
        u64 h = 0; for (auto& q : os) { h = sim::mix64(h + 1 + (u64) q->mode); for (auto& x : q->m) h = sim::mix64(h * 31 ^ sim::hash_of(x)); } c.state(h); }
    for (auto& q : os) deep(*q); }
    c.eq(sim::live_blocks(), base, "all memory is returned"); sim::check_heap("end");
}
sim::WorldDef def(const char* nm, void (*run)(sim::Ctx&), const char* real) { sim::WorldDef d; d.prop = "C22"; d.name = nm; d.run = run; d.max_ops = 100; d.ncfg = 1; d.faults = true; d.real = real; d.stub = "memory (failures, reuse, poison)"; d.ops = { {"new", 1, 3}, {"push", 12, 3}, {"emplace", 4, 3}, {"pop_min", 6, 3}, {"pop_max", 6, 3}, {"peek", 4, 3}, {"copy", 3, 3}, {"move", 2, 3}, {"assign", 2, 3}, {"swap", 2, 3}, {"clear", 1, 3}, {"bulk", 2, 3}, {"dump", 2, 3}, {"reserve", 1, 3}, {"drain", 2, 3} }; return d; }
sim::RegisterWorld w1(def("min_heap", run<MinH>, "library/datastructure/heap/binary_heap.hpp")), w2(def("max_heap", run<MaxH>, "library/datastructure/heap/binary_heap.hpp")), w3(def("interval_heap", run<Itv>, "library/datastructure/heap/interval_heap.hpp")), w4(def("double_ended_queue", run<Dpq>, "library/datastructure/double_ended_priority_queue.hpp")), w5(def("min_priority_queue", run<MinP>, "library/datastructure/priority_queue.hpp")), w6(def("max_priority_queue", run<MaxP>, "library/datastructure/priority_queue.hpp"));

enum { PNEW, INS, ERA, SETK, INC, DEC, PCOPY, PASSIGN };
template <typename P, bool SMALLEST> void sumrun(sim::Ctx& c) {
    struct Obj { P p; std::multiset<i64> m; int k; }; std::vector<Obj> os; const bool L = sim::mix64(c.s.seed ^ 0xb16) % 9 == 0; int span = (int) c.cfg(2, 40); auto check = [&](Obj& o) { i64 s = 0; int i = 0; if (SMALLEST) { for (auto x : o.m) if (i++ < o.k) s += x; } else for (auto it = o.m.rbegin(); it != o.m.rend(); ++it) if (i++ < o.k) s += *it; c.eq(o.p.get_sum(), s, "sum of the first k"); c.eq(o.p.size(), (int) o.m.size(), "size"); c.eq(o.p.get_k(), o.k, "k"); };
    os.push_back({ P(), {}, 0 });
    while (c.next()) { sim::Rng r = c.rng(2); size_t a = (size_t) c.arg(0, 0, (i64) os.size() - 1), b = r.below(os.size()); i64 v = (i64) r.below((u64) span) - span / 3;
        switch (c.cur->code) {
        case PNEW: { int k = (int) r.below(6); if (os.size() < 4) os.push_back({ P(k), {}, k }); else os[b] = { P(k), {}, k }; break; }
        case INS: for (int z = L ? 1 + (int) r.below(30) : 1; z-- > 0; v = (i64) r.below((u64) span) - span / 3) os[a].p.insert(v), os[a].m.insert(v); break;
        case ERA: if (os[a].m.size()) { auto it = std::next(os[a].m.begin(), (i64) r.below(os[a].m.size())); os[a].p.erase(*it); os[a].m.erase(it); } break;
        case SETK: { int k = (int) r.below(L ? 150 : 8); os[a].p.set_k(k); os[a].k = k; break; }
        case INC: os[a].p.incr_k(); ++os[a].k; break;
        case DEC: if (os[a].k) { os[a].p.decr_k(); --os[a].k; } break;
        case PCOPY: { Obj q = os[a]; if (os.size() < 4) os.push_back(q); else os[b] = q; break; }
        case PASSIGN: if (a != b) { os[a] = os[b]; } break; }
        for (auto& o : os) check(o);
        u64 h = 0; for (auto& q : os) { h = sim::mix64(h + 1 + (u64) q.k); for (auto x : q.m) h = sim::mix64(h * 31 ^ (u64) x); } c.state(h); }
}
sim::WorldDef sdef(const char* nm, void (*run)(sim::Ctx&)) { sim::WorldDef d; d.prop = "C22"; d.name = nm; d.run = run; d.max_ops = 120; d.ncfg = 1; d.real = "library/datastructure/util/priority_sum.hpp"; d.ops = { {"new", 1, 3}, {"insert", 10, 3}, {"erase", 8, 3}, {"set_k", 2, 3}, {"incr_k", 2, 3}, {"decr_k", 2, 3}, {"copy", 1, 3}, {"assign", 1, 3} }; return d; }
sim::RegisterWorld s1(sdef("sum_of_smallest", sumrun<suisen::MaximumPrioritySum<i64>, true>)), s2(sdef("sum_of_largest", sumrun<suisen::MinimumPrioritySum<i64>, false>));
}
