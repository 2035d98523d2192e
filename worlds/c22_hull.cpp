// C22: lower envelopes and convex piecewise-linear functions built online, several alive, while memory fails.
#include "sim.hpp"
#include <algorithm>
#include <memory>
#include <tuple>
#include "library/datastructure/convex_hull_trick.hpp"
#include "library/datastructure/monotonic_convex_hull_trick.hpp"
#include "library/datastructure/slope_trick.hpp"
using i64 = int64_t; using u64 = uint64_t;
namespace {
enum { NEW, ADD, QUERY, COPY, ASSIGN, SWAP, BURST };
template <typename T> struct Kind;
template <typename V, bool MIN> struct Kind<suisen::ConvexHullTrick<V, MIN>> { static constexpr bool min = MIN, mono = false; static constexpr int dir = 0; };
template <typename V, bool MIN, typename Tag> struct Kind<suisen::MonotonicCHT<V, MIN, Tag>> { static constexpr bool min = MIN, mono = true; static constexpr int dir = std::is_same_v<Tag, suisen::inc_query_tag> ? 1 : std::is_same_v<Tag, suisen::dec_query_tag> ? -1 : 0; };
template <typename T> struct Val { using type = i64; }; template <typename V, bool MIN, typename Tag> struct Val<suisen::MonotonicCHT<V, MIN, Tag>> { using type = V; };
template <typename V, bool MIN> struct Val<suisen::ConvexHullTrick<V, MIN>> { using type = V; };
template <typename T> void run(sim::Ctx& c) {
    constexpr bool MIN = Kind<T>::min, MONO = Kind<T>::mono; constexpr int DIR = Kind<T>::dir; bool on = c.faults_on(); u64 base = sim::live_blocks(); {
    const bool L = !std::is_floating_point_v<typename Val<T>::type> && sim::mix64(c.s.seed ^ 0xb16) % 4 == 0; i64 span = c.cfg(1, 40), ispan = c.cfg(1, 400), sx = 1; if (L) span = 1000000000, ispan = 1000000000000000000, sx = 1000000; // one history in four has long slopes, intercepts and arguments
    struct Obj { std::unique_ptr<T> t = std::make_unique<T>(); std::vector<std::pair<i64, i64>> m; i64 lo = 0, hi = 0, x = 0; bool asked = false; }; std::vector<std::shared_ptr<Obj>> os; os.push_back(std::make_shared<Obj>());
    auto want = [&](Obj& o, i64 x) { i64 w = 0; bool f = true; for (auto& [a, b] : o.m) { i64 y = a * x + b; if (f || (MIN ? y < w : y > w)) w = y; f = false; } return w; };
    auto ask = [&](Obj& o, i64 x) { c.eq((i64) o.t->query(x), want(o, x), "best line"); };
    auto verify = [&](Obj& o) { if constexpr (!MONO) c.eq(o.t->has_line(), !o.m.empty(), "has_line"); if (o.m.empty()) return; if constexpr (DIR == 0) { for (i64 x : { -1000, -41, -17, -3, -1, 0, 1, 2, 5, 19, 40, 1000 }) ask(o, x * sx); if (!MONO || o.m.size() > 1) { auto& [a1, b1] = o.m.back(); for (auto& [a2, b2] : o.m) if (a1 != a2) { i64 q = (b2 - b1) / (a1 - a2); if (q > -1000 * sx && q < 1000 * sx) for (i64 x = q - 1; x <= q + 1; ++x) ask(o, x); } } } else { T copy = *o.t; i64 x = o.asked ? o.x : -DIR * 1000 * sx; for (int k = 0; k < 12; ++k) { c.eq((i64) copy.query(x), want(o, x), "best line, from a copy"); x += DIR * (1 + 9 * k) * sx; } } };
    auto put = [&](sim::Rng& r, std::shared_ptr<Obj> o) { if (os.size() < 4) os.push_back(o); else os[r.below(4)] = o; };
    while (c.next()) { sim::Rng r = c.rng(2); auto keep = os[(size_t) c.arg(0, 0, (i64) os.size() - 1)], keep2 = os[r.below(os.size())]; Obj& o = *keep; Obj& p = *keep2; bool failed = false;
        auto add = [&] { i64 a = (i64) r.below((u64) (2 * span + 1)) - span, b = (i64) r.below((u64) (2 * ispan + 1)) - ispan; if (MONO && o.m.size()) { i64 d = (i64) r.below(4) * (L ? 1 + (i64) r.below(10000000) : 1); a = r.chance(1, 2) ? o.hi + d : o.lo - d; } failed = false; auto f = [&] { o.t->add_line(a, b); }; if (!on || !r.chance(1, 3)) f(); else { sim::arm_alloc_failure((i64) r.below(2)); try { sim::Armed z; f(); } catch (const std::bad_alloc&) { failed = true; sim::probe("request_failed"); } sim::disarm_alloc_failure(); }
            if (!failed) { o.lo = o.m.size() ? std::min(o.lo, a) : a; o.hi = o.m.size() ? std::max(o.hi, a) : a; o.m.push_back({ a, b }); } };
        switch (c.cur->code) {
        case NEW: put(r, std::make_shared<Obj>()); break;
        case ADD: if (o.m.size() < 60) add(); break;
        case BURST: for (int k = (int) r.below(12); k-- > 0 && o.m.size() < 60;) add(); break;
        case QUERY: if (o.m.size()) { if constexpr (DIR == 0) ask(o, ((i64) r.below(2001) - 1000) * sx + (i64) r.below((u64) sx) / 2); else { i64 x = o.asked ? o.x + DIR * (i64) r.below((u64) (12 * sx)) : -DIR * (i64) r.below((u64) (60 * sx)); o.x = x; o.asked = true; ask(o, x); } } break;
        case COPY: { auto q = std::make_shared<Obj>(Obj{ std::make_unique<T>(*o.t), o.m, o.lo, o.hi, o.x, o.asked }); put(r, q); break; }
        case ASSIGN: *o.t = *p.t; o.m = p.m; o.lo = p.lo; o.hi = p.hi; o.x = p.x; o.asked = p.asked; break;
        case SWAP: if (&o != &p) { std::swap(o.t, p.t); std::swap(*o.t, *p.t); std::swap(o.t, p.t); std::swap(o.m, p.m); std::swap(o.lo, p.lo); std::swap(o.hi, p.hi); std::swap(o.x, p.x); std::swap(o.asked, p.asked); } break; }
        verify(o); if (failed || r.chance(1, 5)) for (auto& q : os) verify(*q);
        u64 h = 0; for (auto& q : os) { h = sim::mix64(h + 1 + (u64) q->x); for (auto& [a, b] : q->m) h = sim::mix64(h * 31 ^ (u64) a * 7 ^ (u64) b); } c.state(h); } }
    c.eq(sim::live_blocks(), base, "all memory is returned"); sim::check_heap("end");
}
sim::WorldDef def(const char* nm, void (*run)(sim::Ctx&), const char* real) { sim::WorldDef d; d.prop = "C22"; d.name = nm; d.run = run; d.max_ops = 80; d.ncfg = 2; d.faults = true; d.real = real; d.stub = "memory (failures, reuse, poison)"; d.ops = { {"new", 1, 3}, {"add_line", 10, 3}, {"query", 8, 3}, {"copy", 2, 3}, {"assign", 1, 3}, {"swap", 1, 3}, {"burst", 2, 3} }; return d; }
#define M "library/datastructure/monotonic_convex_hull_trick.hpp"
sim::RegisterWorld h1(def("hull_min", run<suisen::MinCHT<i64>>, "library/datastructure/convex_hull_trick.hpp")), h2(def("hull_max", run<suisen::MaxCHT<i64>>, "library/datastructure/convex_hull_trick.hpp")), m1(def("hull_monotone_min_inc", run<suisen::MinMonotonicCHT<i64, suisen::inc_query_tag>>, M)), m2(def("hull_monotone_max_dec", run<suisen::MaxMonotonicCHT<i64, suisen::dec_query_tag>>, M)), m3(def("hull_monotone_min_any", run<suisen::MinMonotonicCHT<i64, suisen::non_monotonic_query_tag>>, M)), m4(def("hull_monotone_max_any", run<suisen::MaxMonotonicCHT<i64, suisen::non_monotonic_query_tag>>, M)), h3(def("hull_min_floating", run<suisen::MinCHT<double>>, "library/datastructure/convex_hull_trick.hpp")), m5(def("hull_monotone_min_inc_floating", run<suisen::MinMonotonicCHT<double, suisen::inc_query_tag>>, M)), m6(def("hull_monotone_max_dec_floating", run<suisen::MaxMonotonicCHT<double, suisen::dec_query_tag>>, M));

enum { SNEW, CONST, RIGHT, LEFT, ABS, CML, CMR, SHIFT, WINDOW, SCOPY, SASSIGN, LINES };
// the function itself on a wide grid; outside it is linear
struct Fn { static constexpr int W = 400; std::vector<i64> f = std::vector<i64>(2 * W + 1, 0); i64 at(i64 x) const { if (x < -W) return f[0] + (f[0] - f[1]) * (-W - x); if (x > W) return f[2 * W] + (f[2 * W] - f[2 * W - 1]) * (x - W); return f[(size_t) (x + W)]; } };
void srun(sim::Ctx& c) { using T = suisen::SlopeTrick<i64>; bool on = c.faults_on(); u64 base = sim::live_blocks(); {
    struct Obj { std::unique_ptr<T> t = std::make_unique<T>(); Fn f; i64 travel = 0; }; std::vector<std::shared_ptr<Obj>> os; os.push_back(std::make_shared<Obj>()); const int W = Fn::W;
    auto verify = [&](Obj& o) { i64 mn = *std::min_element(o.f.f.begin(), o.f.f.end()); c.eq(o.t->min(), mn, "minimum"); int l = 0, r = 2 * W; while (o.f.f[(size_t) l] != mn) ++l; while (o.f.f[(size_t) r] != mn) --r; auto [a, b] = o.t->argmin_range(); if (l == 0) c.require(a < -T::inf / 2, "argmin is unbounded to the left"); else c.eq(a, (i64) l - W, "left end of the argmin"); if (r == 2 * W) c.require(b > T::inf / 2, "argmin is unbounded to the right"); else c.eq(b, (i64) r - W, "right end of the argmin"); };
    auto lines = [&](Obj& o) { auto [neg, bs, pos] = o.t->lines(); c.require(std::is_sorted(neg.begin(), neg.end()) && std::is_sorted(pos.begin(), pos.end()), "breakpoints are sorted"); for (int x = -W; x <= W; x += 3) { i64 y = bs; for (i64 e : neg) if (e > -T::inf / 2) y += std::max<i64>(0, e - x); for (i64 e : pos) if (e < T::inf / 2) y += std::max<i64>(0, x - e); c.eq(y, o.f.f[(size_t) (x + W)], "function from its breakpoints"); } };
    auto put = [&](sim::Rng& r, std::shared_ptr<Obj> o) { if (os.size() < 3) os.push_back(o); else os[r.below(3)] = o; };
    while (c.next()) { sim::Rng r = c.rng(2); auto keep = os[(size_t) c.arg(0, 0, (i64) os.size() - 1)], keep2 = os[r.below(os.size())]; Obj& o = *keep; Obj& p = *keep2; T& t = *o.t; bool failed = false; i64 a = (i64) r.below(61) - 30;
        auto go = [&](auto&& f) { failed = false; if (!on || !r.chance(1, 3)) { f(); return true; } sim::arm_alloc_failure((i64) r.below(3)); try { sim::Armed z; f(); } catch (const std::bad_alloc&) { failed = true; sim::probe("request_failed"); } sim::disarm_alloc_failure(); return !failed; };
        auto each = [&](auto&& g) { Fn n; for (int x = -W; x <= W; ++x) n.f[(size_t) (x + W)] = g((i64) x); o.f = n; };
        switch (c.cur->code) {
        case SNEW: put(r, std::make_shared<Obj>()); break;
        case CONST: t.add_const(a); each([&](i64 x) { return o.f.at(x) + a; }); break;
        case RIGHT: if (go([&] { t.add_right(a); })) each([&](i64 x) { return o.f.at(x) + std::max<i64>(0, x - a); }); break;
        case LEFT: if (go([&] { t.add_left(a); })) each([&](i64 x) { return o.f.at(x) + std::max<i64>(0, a - x); }); break;
        case ABS: t.add_abs(a); each([&](i64 x) { return o.f.at(x) + std::abs(x - a); }); break; // two requests in one: not failed half-way
        case CML: if (go([&] { t.cumulative_min_left(); })) { i64 best = INT64_MAX; each([&](i64 x) { if (x == -W) best = o.f.at(-W); return best = std::min(best, o.f.at(x)); }); } break;
        case CMR: if (go([&] { t.cumulative_min_right(); })) { i64 best = INT64_MAX; Fn n; for (int x = W; x >= -W; --x) n.f[(size_t) (x + W)] = best = std::min(best, o.f.at(x)); o.f = n; } break;
        case SHIFT: { i64 d = (i64) r.below(9) - 4; if (o.travel + 4 > 300) break; o.travel += std::abs(d); switch (r.below(3)) { case 0: t >>= d; break; case 1: t <<= -d; break; default: t.translate(d); } each([&](i64 x) { return o.f.at(x - d); }); break; }
        case WINDOW: { i64 x0 = (i64) r.below(9) - 4, x1 = x0 + (i64) r.below(4); if (o.travel + 8 > 300) break; o.travel += 8; t.sliding_window_minimum(x0, x1); each([&](i64 x) { i64 b = INT64_MAX; for (i64 y = x - x1; y <= x - x0; ++y) b = std::min(b, o.f.at(y)); return b; }); break; }
        case SCOPY: { auto q = std::make_shared<Obj>(Obj{ nullptr, o.f, o.travel }); if (go([&] { q->t.reset(new T(t)); })) put(r, q); break; }
        case SASSIGN: t = *p.t; o.f = p.f; o.travel = p.travel; break;
        case LINES: lines(o); break; }
        verify(o); if (failed || r.chance(1, 5)) for (auto& q : os) { verify(*q); lines(*q); }
        u64 h = 0; for (auto& q : os) h = sim::mix64(h + (u64) q->f.at(0) * 7 + (u64) q->f.at(-30) * 31 + (u64) q->f.at(30) * 101); c.state(h); } }
    c.eq(sim::live_blocks(), base, "all memory is returned"); sim::check_heap("end");
}
sim::WorldDef sdef() { sim::WorldDef d; d.prop = "C22"; d.name = "slope_trick"; d.run = srun; d.max_ops = 60; d.ncfg = 0; d.faults = true; d.real = "library/datastructure/slope_trick.hpp"; d.stub = "memory (failures, reuse, poison)"; d.ops = { {"new", 1, 3}, {"add_const", 2, 3}, {"add_right", 8, 3}, {"add_left", 8, 3}, {"add_abs", 3, 3}, {"cumulative_min_left", 1, 3}, {"cumulative_min_right", 1, 3}, {"shift", 3, 3}, {"window", 3, 3}, {"copy", 1, 3}, {"assign", 1, 3}, {"lines", 2, 3} }; return d; }
sim::RegisterWorld s1(sdef());
}
