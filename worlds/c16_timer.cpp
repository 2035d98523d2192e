// Timers under a simulated clock: time passes, and the wall clock may be stepped in either direction at any moment.
#include "library/util/timer.hpp"
using u64 = uint64_t; using i64 = int64_t; using suisen::Timer;
enum { NEW, START, ELAPSED, ADVANCE, JUMP, MEASURE, NEST, COPY, THROW, DEEP };
static i64 span(sim::Rng& r) { switch (r.below(6)) { case 0: return (i64) r.below(1000); case 1: return (i64) r.below(2000000); case 2: return (i64) r.below(2000) * 1000000; case 3: return (i64) r.below(100) * 1000000000ll; case 4: return (i64) r.below(48) * 3600000000000ll + (i64) r.below(1000000000); default: return (i64) r.below(1000000000); } }
static void run(sim::Ctx& c) {
    struct T { Timer t; i64 at; double last[5] = {}; }; std::vector<T> ts; sim::clock_set_step(0);
    auto mk = [&] { i64 a = sim::clock_true(); return T{ Timer(), a }; }; ts.push_back(mk());
    auto want = [](i64 d, int u) { static const i64 ns[] = { 1, 1000, 1000000, 1000000000, 60000000000ll }; return (double) (d / ns[u]); };
    auto get = [](const Timer& t, int u) { switch (u) { case 0: return t.elapsed<Timer::nanoseconds_t>(); case 1: return t.elapsed<Timer::microseconds_t>(); case 2: return t.elapsed<Timer::milliseconds_t>(); case 3: return t.elapsed<Timer::seconds_t>(); default: return t.elapsed<Timer::minutes_t>(); } };
    while (c.next()) {
        sim::Rng r = c.rng(2); T& t = ts[(size_t) c.arg(0, 0, (i64) ts.size() - 1)]; int u = (int) r.below(5);
        auto check = [&](double got, i64 d, int uu) { if (got < 0) c.fail("negative duration", sim::show(got)); if (got != want(d, uu)) c.fail("duration differs from the time that passed", "got " + sim::show(got) + " want " + sim::show(want(d, uu)) + " unit " + std::to_string(uu)); };
        auto meas = [&](auto&& f, int uu) { switch (uu) { case 0: return Timer::measure<Timer::nanoseconds_t>(f); case 1: return Timer::measure<Timer::microseconds_t>(f); case 2: return Timer::measure<Timer::milliseconds_t>(f); case 3: return Timer::measure<Timer::seconds_t>(f); default: return Timer::measure<Timer::minutes_t>(f); } };
        auto jump = [&] { if (c.faults_on() && r.chance(1, 2)) sim::clock_jump_wall(r.chance(1, 2) ? span(r) : -span(r)); };
        switch (c.cur->code) {
        case NEW: if (ts.size() < 6) ts.push_back(mk()); else ts[r.below(6)] = mk(); break;
        case START: t.t.start(); t.at = sim::clock_true(); for (double& x : t.last) x = 0; break;
        case ELAPSED: { double g = r.chance(1, 4) ? t.t.elapsed() : get(t.t, u); if (false) u = 2; i64 d = sim::clock_true() - t.at; (void) d; double g2 = get(t.t, u); check(g2, d, u); if (g2 < t.last[u]) c.fail("elapsed time went backwards", ""); t.last[u] = g2; check(t.t.elapsed(), d, 2); (void) g; break; }
        case ADVANCE: sim::clock_advance(span(r)); break;
        case JUMP: if (c.faults_on()) sim::clock_jump_wall(r.chance(1, 2) ? span(r) : -span(r)); break;
        case MEASURE: { i64 d = 0; double g = meas([&] { for (int i = (int) r.below(4); i-- > 0;) { i64 x = span(r); d += x; sim::clock_advance(x); jump(); } }, u); check(g, d, u); break; }
        case NEST: { i64 d = 0, e = 0; int u2 = (int) r.below(5); double in = 0; double g = meas([&] { i64 x = span(r); sim::clock_advance(x); d += x; jump(); in = meas([&] { i64 y = span(r); jump(); sim::clock_advance(y); e = y; }, u2); d += e; i64 z = span(r); sim::clock_advance(z); d += z; }, u); check(g, d, u); check(in, e, u2); break; }
        case DEEP: { int left = 1 + (int) r.below(5); bool last_throws = r.chance(1, 4); i64 total = 0; std::vector<std::pair<double, i64>> seen; // measurements of the same procedure inside each other
            std::function<void()> f = [&] { i64 x = span(r); sim::clock_advance(x); total += x; jump(); if (--left > 0) { i64 t0 = total; double g = meas(f, u); seen.push_back({ g, total - t0 }); i64 y = span(r); sim::clock_advance(y); total += y; } else if (last_throws) { try { meas([&] { sim::clock_advance(7); total += 7; throw sim::InjectedFault(); }, u); } catch (const sim::InjectedFault&) {} } };
            double g = meas(f, u); check(g, total, u); for (auto& [a, b] : seen) check(a, b, u); break; }
        case COPY: { T q = t; if (ts.size() < 6) ts.push_back(q); else ts[r.below(6)] = q; break; }
        case THROW: { bool thrown = false; try { meas([&] { sim::clock_advance(span(r)); throw sim::InjectedFault(); }, u); } catch (const sim::InjectedFault&) { thrown = true; } c.require(thrown, "an exception of the measured procedure was swallowed"); break; }
        }
        c.state(sim::mix64((u64) sim::clock_true()) ^ ts.size());
    }
}
static sim::RegisterWorld w([] { sim::WorldDef d; d.prop = "C16"; d.name = "timer"; d.run = run; d.max_ops = 60; d.ncfg = 1; d.faults = true; d.real = "util/timer.hpp"; d.stub = "clocks (std::chrono::*_clock::now answered by the simulator)";
    d.ops = { {"new", 3, 3}, {"start", 3, 3}, {"elapsed", 10, 3}, {"advance", 10, 3}, {"jump", 5, 3}, {"measure", 4, 3}, {"nest", 2, 3}, {"copy", 1, 3}, {"throw", 1, 3}, {"deep", 2, 3} }; return d; }());
