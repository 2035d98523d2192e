// C21: object pools and 32-bit pointers: slots in use are never handed out again, whatever fails in between.
#include "sim.hpp"
#include <algorithm>
#include <map>
#include <memory>
#include <string>
#include "library/util/object_pool.hpp"
#include "library/util/pointer_32bit.hpp"
using i64 = int64_t; using u64 = uint64_t;
namespace {
struct Node { u64 tag = 0; std::string body; Node() { sim::callback(); } };
enum { NEW, ALLOC, FREE, WRITE, CLEAR, RESET, SWAP, BURST };
template <bool AUTO> void run(sim::Ctx& c) {
    using P = suisen::ObjectPool<Node, AUTO>; bool on = c.faults_on(); const bool large = AUTO && c.s.seed % 4 == 3; u64 base = sim::live_blocks(); {
    struct Obj { std::unique_ptr<P> p; std::map<Node*, u64> m; int cap; }; std::vector<std::shared_ptr<Obj>> os; u64 serial = 0;
    auto mk = [&](sim::Rng& r) { auto o = std::make_shared<Obj>(); o->cap = AUTO && r.chance(1, 2) ? 0 : (int) r.below(large ? 500 : 12); if (o->cap == 0 && r.chance(1, 2)) o->p.reset(new P()); else o->p.reset(new P(o->cap)); return o; };
    auto verify = [&](Obj& o) { c.eq(o.p->size(), (int) o.m.size(), "slots in use"); c.require(o.p->capacity() >= (int) o.m.size(), "capacity covers the slots in use"); if constexpr (!AUTO) c.eq(o.p->capacity(), o.cap, "capacity"); for (auto& [q, t] : o.m) { c.eq(q->tag, t, "an object in use keeps its value"); c.eq(q->body, "body of an object " + std::to_string(t), "an object in use keeps its value"); } };
    { sim::Rng r(c.s.seed ^ 5); os.push_back(mk(r)); }
    while (c.next()) { sim::Rng r = c.rng(2); auto keep = os[(size_t) c.arg(0, 0, (i64) os.size() - 1)], keep2 = os[r.below(os.size())]; Obj& o = *keep; Obj& p = *keep2; bool failed = false;
        auto alloc = [&] { if (!AUTO && (int) o.m.size() == o.cap) return; if (o.m.size() > (large ? 1500u : 200u)) return; Node* q = nullptr; failed = false; if (!on || !r.chance(1, 3)) q = o.p->alloc(); else { if (r.chance(1, 2)) sim::arm_alloc_failure((i64) r.below(large && r.chance(1, 2) ? 80 : 5)); else sim::arm_callback_throw((i64) r.below(large && r.chance(1, 2) ? 900 : 8)); try { sim::Armed a; q = o.p->alloc(); } catch (const std::bad_alloc&) { failed = true; } catch (const sim::InjectedFault&) { failed = true; } sim::disarm_alloc_failure(); sim::disarm_callback_throw(); if (failed) sim::probe("request_failed"); } if (failed) return;
            c.require(q != nullptr && !o.m.count(q), "a slot in use is not handed out again"); for (auto& x : os) if (x.get() != &o) c.require(!x->m.count(q), "a slot belongs to one pool"); q->tag = ++serial; q->body = "body of an object " + std::to_string(serial); o.m[q] = serial; };
        auto rel = [&] { if (o.m.empty()) return; auto it = std::next(o.m.begin(), (i64) r.below(o.m.size())); o.p->free(it->first); o.m.erase(it); };
        switch (c.cur->code) {
        case NEW: if (os.size() < 4) os.push_back(mk(r)); else os[r.below(4)] = mk(r); break;
        case ALLOC: alloc(); break;
        case FREE: rel(); break;
        case WRITE: if (o.m.size()) { auto it = std::next(o.m.begin(), (i64) r.below(o.m.size())); it->first->tag = it->second = ++serial; it->first->body = "body of an object " + std::to_string(serial); } break;
        case CLEAR: o.p->clear(); o.m.clear(); break;
        case RESET: { int k = (int) r.below(10); *o.p = P(k); o.m.clear(); o.cap = k; break; }
        case SWAP: if (&o != &p) { std::swap(o.p, p.p); std::swap(o.m, p.m); std::swap(o.cap, p.cap); } break;
        case BURST: { int d = 1 + (int) r.below(3); for (int k = (int) r.below(large ? 600 : 30); k-- > 0;) { if (r.chance((unsigned) d, 4)) alloc(); else rel(); if (failed) break; } break; } }
        verify(o); if (failed || r.chance(1, 5)) for (auto& q : os) verify(*q);
        u64 h = 0; for (auto& q : os) h = sim::mix64(h * 31 + q->m.size() * 64 + (u64) q->p->capacity()); c.state(h); }
    for (auto& q : os) verify(*q); }
    c.eq(sim::live_blocks(), base, "all memory is returned"); sim::check_heap("end");
}
sim::WorldDef def(const char* nm, void (*run)(sim::Ctx&), const char* real, std::vector<sim::OpDef> ops) { sim::WorldDef d; d.prop = "C21"; d.name = nm; d.run = run; d.max_ops = 90; d.ncfg = 1; d.faults = true; d.real = real; d.stub = "memory (failures, reuse, poison)"; d.ops = ops; return d; }
std::vector<sim::OpDef> po{ {"new", 1, 3}, {"alloc", 12, 3}, {"free", 8, 3}, {"write", 3, 3}, {"clear", 1, 3}, {"reset", 1, 3}, {"swap", 1, 3}, {"burst", 3, 3} };
sim::RegisterWorld w1(def("pool_fixed", run<false>, "library/util/object_pool.hpp", po)), w2(def("pool_growing", run<true>, "library/util/object_pool.hpp", po));

// one table per type, shared by everybody
struct Obj32 { u64 tag = 0; std::string body; Obj32() { sim::callback(); } Obj32(u64 t) : tag(t), body("body of an object " + std::to_string(t)) { sim::callback(); } };
struct Plain { u64 tag = 0; char pad[5] = { 1, 2, 3, 4, 5 }; Plain() = default; Plain(u64 t) : tag(t) {} };
enum { A0, A1, DEL, EDIT, COPYP, ALL, RES, B32 };
template <typename T> void prun(sim::Ctx& c) { using P = suisen::ptr32<T>; bool on = c.faults_on(); u64 base = sim::live_blocks(); { std::map<int, u64> m; std::vector<P> hs; u64 serial = 0; size_t most = 0;
    auto verify = [&] { for (auto& p : hs) { c.require(p.is_not_null() && !p.is_null() && bool(p), "a pointer in use is not null"); auto it = m.find((int) p); c.require(it != m.end(), "handle"); c.eq(p->tag, it->second, "an object in use keeps its value"); c.eq((*p).tag, it->second, "an object in use keeps its value"); if constexpr (std::is_same_v<T, Obj32>) c.eq(p->body, it->second ? "body of an object " + std::to_string(it->second) : std::string(), "an object in use keeps its value"); else c.require(p->pad[0] == 1 && p->pad[4] == 5, "an object in use keeps its value"); } };
    while (c.next()) { sim::Rng r = c.rng(2); bool failed = false;
        auto go = [&](auto&& f) { failed = false; if (!on || !r.chance(1, 3)) { f(); return true; } if (r.chance(1, 2)) sim::arm_alloc_failure((i64) r.below(3)); else sim::arm_callback_throw((i64) r.below(2)); try { sim::Armed a; f(); } catch (const std::bad_alloc&) { failed = true; } catch (const sim::InjectedFault&) { failed = true; } sim::disarm_alloc_failure(); sim::disarm_callback_throw(); if (failed) sim::probe("request_failed"); return !failed; };
        auto alloc = [&](bool arg) { if (m.size() > 300) return; P p; u64 t = arg ? ++serial : 0; c.require(p.is_null() && p == P(nullptr), "a fresh pointer is null"); if (!go([&] { p = arg ? P::alloc(t) : P::alloc(); })) return; c.require(p.is_not_null() && !m.count((int) p), "a slot in use is not handed out again"); c.require((int) p >= 0 && (size_t) (int) p <= most, "freed slots are used before new ones", "slot " + std::to_string((int) p) + " with at most " + std::to_string(most) + " ever in use"); m[(int) p] = t; hs.push_back(p); most = std::max(most, m.size()); };
        auto rel = [&] { if (hs.empty()) return; size_t i = r.below(hs.size()); P p = hs[i]; if (go([&] { P::dealloc(p); })) { m.erase((int) p); hs.erase(hs.begin() + (i64) i); } };
        switch (c.cur->code) {
        case A0: alloc(false); break; case A1: alloc(true); break; case DEL: rel(); break;
        case EDIT: if (hs.size()) { P p = hs[r.below(hs.size())]; *p = T(++serial); m[(int) p] = serial; } break;
        case COPYP: if (hs.size()) { P p = hs[r.below(hs.size())], q = p, z = hs[r.below(hs.size())]; c.require(q == p && !(q != p) && q <= p && q >= p && &*q == &*p, "copies of a pointer are equal"); c.eq(p == z, (int) p == (int) z, "pointers are equal when their slots are"); c.eq(p < z, (int) p < (int) z, "order"); c.eq(p > z, (int) p > (int) z, "order"); c.eq(p <= z, (int) p <= (int) z, "order"); c.eq(p >= z, (int) p >= (int) z, "order"); } break;
        case ALL: P::dealloc_all(r.chance(1, 2)); m.clear(); hs.clear(); most = 0; break;
        case RES: go([&] { P::reserve(r.below(200)); }); break;
        case B32: { int d = 1 + (int) r.below(3); for (int k = (int) r.below(40); k-- > 0;) { if (r.chance((unsigned) d, 4)) alloc(r.chance(3, 4)); else rel(); } break; } }
        verify(); c.state(sim::mix64(m.size() * 1000003 + most)); }
    verify(); P::dealloc_all(true); }
    c.eq(sim::live_blocks(), base, "all memory is returned"); sim::check_heap("end");
}
std::vector<sim::OpDef> so{ {"alloc", 4, 3}, {"alloc_with", 10, 3}, {"dealloc", 8, 3}, {"edit", 3, 3}, {"copy", 2, 3}, {"dealloc_all", 1, 3}, {"reserve", 1, 3}, {"burst", 3, 3} };
sim::RegisterWorld p1(def("ptr32_heap_objects", prun<Obj32>, "library/util/pointer_32bit.hpp", so)), p2(def("ptr32_plain", prun<Plain>, "library/util/pointer_32bit.hpp", so));
}
