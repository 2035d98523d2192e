// A register machine over several live values of one kind: new values, operations on one or two of them (possibly the same
// object twice), copies, assignments (also to itself), swaps and moves, any of which may run out of memory.
// A kind K has: K::T, K::Model, make(c, r, scale, T*&, Model&), act(c, r, scale, T&, Model&, const T&, const Model&, Go&), verify(c, T&, Model), hash(Model).
#pragma once
#include "index_kind.hpp"
#include <optional>
namespace values {
enum { NEW, ACT, SELF, COPY, ASSIGN, SWAP, MOVE };
inline std::vector<sim::OpDef> ops() { return { {"new", 2, 2}, {"act", 14, 3}, {"act_on_itself", 3, 2}, {"copy", 1, 3}, {"assign", 2, 3}, {"swap", 1, 3}, {"move", 1, 3} }; }
template <typename K> void run(Ctx& c) {
    K::warm(); uint64_t base = sim::live_blocks(); {
    using T = typename K::T; using Model = typename K::Model; struct Obj { std::unique_ptr<T> t; Model m; };
    std::vector<std::shared_ptr<Obj>> os; i64 scale = c.cfg(0, 3);
    auto mk = [&](Rng& r) { auto o = std::make_shared<Obj>(); sim::scribble_stack(); T* t = nullptr; K::make(c, r, scale, t, o->m); o->t.reset(t); return o; };
    auto put = [&](Rng& r, std::shared_ptr<Obj> o) { if (os.size() < 4) os.push_back(o); else os[r.below(4)] = o; };
    { Rng r(c.s.seed ^ 0x28); os.push_back(mk(r)); }
    while (c.next()) {
        Rng r = c.rng(1); auto ko = os[(size_t) c.arg(0, 0, (i64) os.size() - 1)], kp = os[(size_t) c.arg(2, 0, (i64) os.size() - 1)]; Obj& o = *ko; Obj& p = *kp; Go go{ c, r, c.faults_on() };
        bool moved = false;
        switch (c.cur->code) {
        case NEW: put(r, mk(r)); break;
        case ACT: { Model before = p.m; K::act(c, r, scale, *o.t, o.m, *p.t, before, go); break; }
        case SELF: { Model before = o.m; K::act(c, r, scale, *o.t, o.m, *o.t, before, go); break; }
        case COPY: { T* q = nullptr; if (go(1, [&] { q = new T(*o.t); }, 4)) { auto n = std::make_shared<Obj>(); n->t.reset(q); n->m = o.m; put(r, n); } break; }
        case ASSIGN: { T& a = *o.t; T& b = *p.t; a = b; if (&o != &p) o.m = p.m; break; }
        case SWAP: if (&o != &p) { std::swap(*o.t, *p.t); std::swap(o.m, p.m); } break;
        case MOVE: { auto n = std::make_shared<Obj>(); n->t = std::make_unique<T>(std::move(*o.t)); n->m = o.m; for (auto& q : os) if (q == ko) q = n; K::verify(c, *n->t, n->m); moved = true; break; }
        }
        if (!moved) { K::verify(c, *o.t, o.m); K::verify(c, *p.t, p.m); }
        if (go.failed || r.chance(1, 6)) for (auto& q : os) K::verify(c, *q->t, q->m);
        uint64_t h = 0; for (auto& q : os) h = sim::mix64(h * 31 + 1 + K::hash(q->m)); c.state(h);
    }
    for (auto& q : os) K::verify(c, *q->t, q->m); }
    c.eq(sim::live_blocks(), base, "all memory is returned"); sim::check_heap("end");
}
template <typename K> sim::WorldDef def(const char* nm, const char* real) { sim::WorldDef d; d.prop = "C28"; d.name = nm; d.run = run<K>; d.max_ops = 60; d.ncfg = 1; d.faults = true; d.real = real; d.stub = "memory (failures, reuse, poison)"; d.ops = ops(); return d; }
// z = f() under a possible failure
template <typename T, typename F> std::optional<T> tried(Go& go, F&& f, int within = 8) { std::optional<T> z; if (!go(1, [&] { z.emplace(f()); }, within)) z.reset(); return z; }
}
