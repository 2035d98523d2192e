// Drives several live objects of one kind through creation, copies, assignments, swaps, updates and queries.
// A kind K has: K::T, K::Model, static make(c, r, T*&, Model&), step(c, r, T&, Model&, update?, Go), verify(c, T&, Model&), hash(Model).
#pragma once
#include <memory>
namespace multi {
// Runs a request that may be made to fail.  mode: 0 no fault, 1 memory, 2 user operation, 3 either
struct Go {
    sim::Ctx& c; sim::Rng& r; bool on; bool failed = false;
    template <typename Fn> bool operator()(int mode, Fn&& f, int within = 8) {
        if (!on || !mode || !r.chance(1, 4)) { f(); return true; }
        bool mem = mode == 1 || (mode == 3 && r.chance(1, 2)), bad = false; if (within > 6 && r.chance(1, 3)) within = 6; // the first few requests set a call up
        if (mem) sim::arm_alloc_failure((int64_t) r.below((uint64_t) within)); else sim::arm_callback_throw((int64_t) r.below((uint64_t) within));
        try { sim::Armed z; f(); } catch (const std::bad_alloc&) { bad = true; } catch (const sim::InjectedFault&) { bad = true; }
        sim::disarm_alloc_failure(); sim::disarm_callback_throw();
        if (bad) { failed = true; sim::probe("request_failed"); }
        return !bad;
    }
};
enum { NEW, UPDATE, QUERY, COPY, ASSIGN, SWAP, MOVE };
inline std::vector<sim::OpDef> ops() { return { {"new", 1, 3}, {"update", 10, 3}, {"query", 8, 3}, {"copy", 2, 3}, {"assign", 1, 3}, {"swap", 1, 3}, {"move", 1, 3} }; }
template <typename K> void run(sim::Ctx& c) {
    uint64_t base = sim::live_blocks(); {
    using T = typename K::T; using Model = typename K::Model; struct Obj { std::unique_ptr<T> t; Model m; };
    std::vector<std::shared_ptr<Obj>> os; int64_t scale = c.cfg(0, 3); const bool quiet = sim::mix64(c.s.seed ^ 0xf1) % 2; // in quiet runs pending state is seldom flushed by a full comparison
    auto mk = [&](sim::Rng& r) { auto o = std::make_shared<Obj>(); sim::scribble_stack(); T* t = nullptr; K::make(c, r, scale, t, o->m); o->t.reset(t); return o; };
    auto put = [&](sim::Rng& r, std::shared_ptr<Obj> o) { if (os.size() < 4) os.push_back(o); else os[r.below(4)] = o; };
    { sim::Rng r(c.s.seed ^ 0x25); os.push_back(mk(r)); }
    while (c.next()) {
        sim::Rng r = c.rng(2); auto ko = os[(size_t) c.arg(0, 0, (int64_t) os.size() - 1)], kp = os[r.below(os.size())]; Obj& o = *ko; Obj& p = *kp; Go go{ c, r, c.faults_on() };
        switch (c.cur->code) {
        case NEW: put(r, mk(r)); break;
        case UPDATE: K::step(c, r, *o.t, o.m, true, go); break;
        case QUERY: K::step(c, r, *o.t, o.m, false, go); break;
        case COPY: { T* q = nullptr; if (go(1, [&] { q = new T(*o.t); }, 4)) { auto n = std::make_shared<Obj>(); n->t.reset(q); n->m = o.m; put(r, n); } break; }
        case ASSIGN: *o.t = *p.t; if (&o != &p) o.m = p.m; break; // also to itself
        case SWAP: if (&o != &p) { std::swap(*o.t, *p.t); std::swap(o.m, p.m); } break;
        case MOVE: { auto n = std::make_shared<Obj>(); n->t = std::make_unique<T>(std::move(*o.t)); n->m = o.m; for (auto& q : os) if (q == ko) q = n; if (!quiet) K::verify(c, *n->t, n->m); ko.reset(); kp.reset(); break; }
        }
        if (ko && c.cur->code != MOVE && (!quiet || r.chance(1, 12))) K::verify(c, *o.t, o.m); if (quiet ? r.chance(1, go.failed ? 3 : 30) : go.failed || r.chance(1, 6)) for (auto& q : os) K::verify(c, *q->t, q->m);
        uint64_t h = 0; for (auto& q : os) h = sim::mix64(h * 31 + 1 + K::hash(q->m)); c.state(h);
    }
    for (auto& q : os) K::verify(c, *q->t, q->m); }
    c.eq(sim::live_blocks(), base, "all memory is returned"); sim::check_heap("end");
}
template <typename K> sim::WorldDef def(const char* prop, const char* nm, const char* real) { sim::WorldDef d; d.prop = prop; d.name = nm; d.run = run<K>; d.max_ops = 90; d.ncfg = 1; d.faults = true; d.real = real; d.stub = "memory (failures, reuse, poison), user operations"; d.ops = ops(); return d; }
}
