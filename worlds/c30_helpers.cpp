// C30: helpers that keep state between calls and algorithms that call user functions: several alive, interrupted by failing callbacks and memory.
#include "sim.hpp"
#include <algorithm>
#include <array>
#include <cmath>
#include <deque>
#include <functional>
#include <map>
#include <numeric>
#include <optional>
#include <set>
#include <string>
#include "index_kind.hpp"
#include "library/util/run_length_encoder.hpp"
#include "library/util/default_vector.hpp"
#include "library/util/step_view.hpp"
#include "library/util/search.hpp"
#include "library/number/bezout_equation.hpp"
#include "library/number/sum_of_mobius_function.hpp"
#include "library/number/sum_of_totient_function.hpp"
#include "library/number/mobius_function.hpp"
#include "library/number/enumerate_quotient.hpp"
#include "library/string/morris_pratt.hpp"
#include "library/algorithm/monotone_minima.hpp"
#include "library/algorithm/maximum_rectangle.hpp"
#include "library/optimization/alien_dp.hpp"
#include "library/graph/enumerate_cliques.hpp"
#include "library/graph/enumerate_triangles.hpp"
#include "library/graph/tree_decomposition_tw2_dp.hpp"
#include "library/integral_geom/convex_hull_inclusion.hpp"
#include "library/dp/longest_increasing_subsequence.hpp"
namespace {
using Ints = std::vector<int>;
template <typename B> Box<B>* boxed(std::unique_ptr<B> p) { auto b = std::make_unique<Box<B>>(); b->p = std::move(p); return b.release(); }

// ---- run-length encoded sequences
using Runs = std::vector<std::pair<int, i64>>;
template <typename C> struct RunLength : Kind<RunLength<C>, suisen::RunLengthEncoder<C>, Runs> {
    using T = suisen::RunLengthEncoder<C>; using Model = Runs; using V = typename C::value_type;
    static V val(int x) { return V(x); }
    static u64 hash(const Runs& m) { u64 h = 1; for (auto [x, n] : m) h = sim::mix64(h * 31 + (u64) x * 1009 + (u64) n); return h; }
    static void push(Runs& m, int x, i64 n) { if (m.empty() || m.back().first != x) m.push_back({ x, 0 }); m.back().second += n; }
    static i64 length(const Runs& m) { i64 n = 0; for (auto& p : m) n += p.second; return n; }
    static Model gen(Rng& r, i64 sc) { Model m; i64 n = (i64) std::min<size_t>(300, size_for(r, sc)); u64 k = 1 + r.below(3); while (length(m) < n) push(m, 'a' + (int) r.below(k + 1), 1 + (i64) r.below(r.chance(1, 20) ? 600 : 4)); return m; }
    static T* build(Rng& r, const Model& m) { if (m.empty() && r.chance(1, 2)) return new T; C d; for (auto [x, n] : m) d.insert(d.end(), (size_t) n, val(x)); return new T(d); }
    static bool change(Ctx& c, Rng& r, T& t, Model& m, Go& go) { switch (r.below(6)) {
        case 0: case 1: { int x = 'a' + (int) r.below(3); i64 k = r.chance(1, 2) ? 1 : 1 + (i64) r.below(r.chance(1, 8) ? 1000000000000ull : 5); if (go(1, [&] { if (k == 1 && r.chance(1, 2)) t.push_back(val(x)); else t.push_back(val(x), k); }, 1)) push(m, x, k); return true; }
        case 2: case 3: { i64 n = length(m), k = r.chance(1, 2) ? 1 : r.chance(1, 3) && m.size() ? m.back().second : (i64) r.below((u64) n + 4), take = std::min(k, n); c.eq((i64) (k == 1 && r.chance(1, 2) ? t.pop_back() : t.pop_back((long long) k)), take, "how many were taken"); for (i64 e = take; e > 0;) { i64 d = std::min(e, m.back().second); e -= d; if (!(m.back().second -= d)) m.pop_back(); } return true; }
        case 4: if (r.chance(1, 4)) { t.clear(); m.clear(); return true; } return false;
        default: { Model n = gen(r, 1); std::unique_ptr<T> q(build(r, n)); if (r.chance(1, 2)) { t.swap(*q); Model old = m; m = n; check(c, r, *q, old, go); } else { t.swap(std::move(*q)); m = n; } return true; } } }
    static void check(Ctx& c, Rng& r, T& t, const Model& m, Go&) { const T& q = t; c.eq((i64) q.length(), length(m), "length"); std::vector<std::pair<V, i64>> w; for (auto [x, n] : m) w.push_back({ val(x), n }); std::vector<std::pair<V, i64>> a(q.begin(), q.end()); c.require(a == w, "the runs"); if (r.chance(1, 3)) { std::vector<std::pair<V, i64>> b(q.crbegin(), q.crend()); std::reverse(b.begin(), b.end()); c.require(b == w, "the runs, backwards"); } if (w.size()) { c.require(q.front().first == w.front().first && q.front().second == w.front().second, "first run"); c.require(q.back().first == w.back().first && q.back().second == w.back().second, "last run"); } }
};
// ---- vectors with a default value
struct DefModel { std::vector<i64> a; i64 d = 0; };
struct DefVec : Kind<DefVec, suisen::default_vector<i64>, DefModel> {
    static DefModel gen(Rng& r, i64 sc) { DefModel m; m.a.resize(std::min<size_t>(200, size_for(r, sc))); for (auto& x : m.a) x = sgn(r, 50); return m; }
    static u64 hash(const DefModel& m) { return hash_seq(m.a) ^ sim::mix64((u64) m.d); }
    static T* build(Rng& r, const DefModel& m) { if (r.chance(1, 2)) return new T(m.a.begin(), m.a.end()); std::unique_ptr<T> t(new T(m.a.size(), 7)); for (size_t i = 0; i < m.a.size(); ++i) (*t)[(int) i] = m.a[i]; return t.release(); }
    static bool change(Ctx& c, Rng& r, T& t, DefModel& m, Go& go) { switch (r.below(4)) {
        case 0: m.d = sgn(r, 1000); t.set_default_value(m.d); return true;
        case 1: { int i = (int) r.below(m.a.size() + 5); i64 v = sgn(r, 99); if (m.a.size() > 400) i = (int) r.below(400); if (!go(1, [&] { (r.chance(1, 2) ? t[i] : t.at(i)) = v; }, 1)) return true; if ((size_t) i >= m.a.size()) m.a.resize((size_t) i + 1, m.d); m.a[(size_t) i] = v; return true; }
        case 2: { int i = (int) r.below(m.a.size() + 5); if (m.a.size() > 400) i = 3; i64 got = 0; if (!go(1, [&] { got = t[i]; }, 1)) return true; if ((size_t) i >= m.a.size()) m.a.resize((size_t) i + 1, m.d); c.eq(got, m.a[(size_t) i], "element"); return true; }
        default: { int n = (int) r.below(40); if (go(1, [&] { t.resize(n); }, 1)) m.a.resize((size_t) n, m.d); return true; } } }
    static void check(Ctx& c, Rng& r, T& t, const DefModel& m, Go&) { const T& q = t; c.eq(t.size(), (int) m.a.size(), "size"); for (int k = 0; k < 8; ++k) { int i = (int) r.below(m.a.size() + 4) - (r.chance(1, 8) ? 3 : 0); i64 w = i >= 0 && (size_t) i < m.a.size() ? m.a[(size_t) i] : m.d; c.eq(q[i], w, "element or default"); c.eq(q.at(i), w, "element or default"); c.eq(t.get_or_default(i), w, "element or default"); i64 d = sgn(r, 9); c.eq(q.get_or_default(i, d), i >= 0 && (size_t) i < m.a.size() ? w : d, "element or the given default"); } }
};
// ---- strided views of a vector that changes under them
struct Strided : Kind<Strided, std::vector<int>, std::vector<int>> {
    static Model gen(Rng& r, i64 sc) { Model m(std::min<size_t>(200, size_for(r, sc))); for (auto& x : m) x = (int) sgn(r, 30); return m; }
    static T* build(Rng&, const Model& m) { return new T(m); }
    static bool change(Ctx& c, Rng& r, T& t, Model& m, Go& go) { if (m.empty()) return false; int n = (int) m.size(), step = 1 + (int) r.below(5), st = (int) r.below((u64) n), k = (n - 1 - st) / step + 1; suisen::StepView<T> v(t, st, step, k); c.eq(v.size(), (size_t) k, "size of the view");
        if (r.chance(1, 2)) { int i = (int) r.below((u64) k); v[(size_t) i] = 77; m[(size_t) (st + i * step)] = 77; return true; }
        suisen::StepIterator<T::iterator> b(t.begin() + st, step), e = b + k; // the end is only compared and subtracted
        if (st + k * step > n) { e = b + (k - 1); --k; } c.eq((i64) (e - b), (i64) k, "distance"); std::vector<int> w; for (int i = 0; i < k; ++i) w.push_back(m[(size_t) (st + i * step)]);
        std::vector<int> old = m; if (!go(2, [&] { std::sort(b, e, [](int x, int y) { return x < y; }); }, 20)) {} std::sort(w.begin(), w.end()); for (int i = 0; i < k; ++i) m[(size_t) (st + i * step)] = w[(size_t) i]; return true; }
    static void check(Ctx& c, Rng& r, T& t, const Model& m, Go&) { c.require(t == m, "elements"); if (m.empty()) return; int n = (int) m.size(), step = 1 + (int) r.below(5), st = (int) r.below((u64) n), k = (n - 1 - st) / step + 1; using It = suisen::StepIterator<T::iterator>; It it(t.begin() + st, step), first = it; int i = 0; for (int z = 0; z < 8; ++z) { int j = (int) r.below((u64) k), d = j - i; switch (r.below(5)) { case 0: it += d; break; case 1: it -= -d; break; case 2: it = it + d; break; case 3: it = d + it; break; default: for (; i < j; ++i) r.chance(1, 2) ? (void) ++it : (void) it++; for (; i > j; --i) r.chance(1, 2) ? (void) --it : (void) it--; } i = j; c.eq(*it, m[(size_t) (st + i * step)], "element of the view"); c.eq((i64) (it - first), (i64) i, "distance"); c.eq(it[-i], m[(size_t) st], "element of the view"); c.eq(it == first, i == 0, "equal"); c.eq(first < it, i > 0, "less"); c.eq(it <= first, i == 0, "less or equal"); } }
};
// ---- solutions of a x + b y = z, restricted step by step
struct BezModel { bool big = false; i64 a = 0, b = 0, z = 0; std::optional<i64> xl, xr, yl, yr; };
struct Bezout : Kind<Bezout, suisen::BezoutEquationSolution, BezModel> {
    static BezModel gen(Rng& r, i64) { BezModel m; if (r.chance(1, 4)) { m.big = true; auto co = [&] { i64 v = 100000000 + (i64) r.below(900000000); return r.chance(1, 2) ? -v : v; }; m.a = co(); m.b = r.chance(1, 8) ? m.a / 6 * 5 : co(); if (r.chance(1, 2)) { i64 k = 2 + (i64) r.below(5); m.a -= m.a % k; m.b -= m.b % k; } m.z = r.chance(1, 2) ? m.a * sgn(r, 100000000) + m.b * sgn(r, 100000000) : sgn(r, 100000000000000000); return m; } m.a = r.chance(1, 6) ? 0 : sgn(r, 12); m.b = r.chance(1, 6) ? 0 : sgn(r, 12); m.z = r.chance(1, 5) ? 0 : r.chance(1, 2) ? m.a * sgn(r, 5) + m.b * sgn(r, 5) : sgn(r, 60); return m; }
    static u64 hash(const BezModel& m) { u64 h = sim::mix64((u64) (m.a * 1000003 + m.b * 1009 + m.z)); for (auto* o : { &m.xl, &m.xr, &m.yl, &m.yr }) h = sim::mix64(h * 31 + (u64) (o->has_value() ? **o : 777)); return h; }
    static T* build(Rng&, const BezModel& m) { suisen::BezoutEquation e(m.a, m.b); return new T(e.solve(m.z)); }
    static bool change(Ctx&, Rng& r, T& t, BezModel& m, Go&) { if (r.chance(1, 4)) return false; i64 v = sgn(r, m.big ? 100000000000 : 40), w = v + (i64) r.below(m.big ? 10000000000 : 30); auto lo = [](auto& o, i64 x) { o = o ? std::max(*o, x) : x; }; auto hi = [](auto& o, i64 x) { o = o ? std::min(*o, x) : x; };
        switch (r.below(6)) { case 0: t.set_min_x(v); lo(m.xl, v); break; case 1: t.set_max_x(v); hi(m.xr, v); break; case 2: t.set_min_y(v); lo(m.yl, v); break; case 3: t.set_max_y(v); hi(m.yr, v); break; case 4: if (t.set_x_range(v, w)) {} lo(m.xl, v); hi(m.xr, w); break; default: if (t.set_y_range(v, w)) {} lo(m.yl, v); hi(m.yr, w); } return true; }
    static void check(Ctx& c, Rng&, T& t, const BezModel& m, Go&) { const T& q = t; bool arb = m.a == 0 && m.b == 0; if (arb && m.z != 0) { c.eq(q.has_solution(), false, "whether there is a solution"); c.eq(q.count().value_or(-1), 0ll, "number of solutions"); return; }
        if (m.big) { using L = __int128; L a = m.a, b = m.b, z = m.z, g = std::__gcd(std::abs(m.a), std::abs(m.b)); if (z % g) { c.eq(q.has_solution(), false, "whether there is a solution"); c.eq(q.count().value_or(-1), 0ll, "number of solutions"); return; } a /= g; b /= g; z /= g; // x = z / a modulo |b| by the extended algorithm
            L mb = b < 0 ? -b : b, u = ((a % mb) + mb) % mb, v = mb, p = 1, o = 0; while (v) { L k = u / v; u -= k * v; std::swap(u, v); p -= k * o; std::swap(p, o); } L x0 = mb == 1 ? 0 : ((p % mb + mb) % mb) * (((z % mb) + mb) % mb) % mb, y0 = (z - a * x0) / b, dx = mb, dy = b < 0 ? a : -a; const L inf = (L) 1 << 100; L kl = -inf, kr = inf; auto fl = [](L n, L d) { if (d < 0) n = -n, d = -d; L f = n / d; return f * d > n ? f - 1 : f; }; auto least = [&](L s, L d, i64 w) { if (d > 0) kl = std::max(kl, -fl(-((L) w - s), d)); else kr = std::min(kr, fl((L) w - s, d)); }; auto most = [&](L s, L d, i64 w) { if (d > 0) kr = std::min(kr, fl((L) w - s, d)); else kl = std::max(kl, -fl(-((L) w - s), d)); };
            if (m.xl) least(x0, dx, *m.xl); if (m.xr) most(x0, dx, *m.xr); if (m.yl) least(y0, dy, *m.yl); if (m.yr) most(y0, dy, *m.yr); c.eq(q.has_solution(), kl <= kr, "whether there is a solution"); if (kl > kr) { c.eq(q.count().value_or(-1), 0ll, "number of solutions"); return; } if (kl == -inf || kr == inf) { c.eq(q.count().has_value(), false, "number of solutions"); return; } c.eq(q.count().value_or(-1), (long long) (kr - kl + 1), "number of solutions"); std::pair<long long, long long> A{ (long long) (x0 + kl * dx), (long long) (y0 + kl * dy) }, B{ (long long) (x0 + kr * dx), (long long) (y0 + kr * dy) }; c.require(q.xmin_solution() == A, "solution with least x"); c.require(q.xmax_solution() == B, "solution with largest x"); c.require(q.ymin_solution() == (dy > 0 ? A : B), "solution with least y"); c.require(q.ymax_solution() == (dy > 0 ? B : A), "solution with largest y"); return; }
        constexpr i64 W = 1500; auto in = [&](i64 x, i64 y) { return (!m.xl || *m.xl <= x) && (!m.xr || x <= *m.xr) && (!m.yl || *m.yl <= y) && (!m.yr || y <= *m.yr); };
        if (arb) { bool some = !(m.xl && m.xr && *m.xl > *m.xr) && !(m.yl && m.yr && *m.yl > *m.yr); c.eq(q.has_solution(), some, "whether there is a solution"); if (!some) c.eq(q.count().value_or(-1), 0ll, "number of solutions"); else if (m.xl && m.xr && m.yl && m.yr) c.eq(q.count().value_or(-1), (*m.xr - *m.xl + 1) * (*m.yr - *m.yl + 1), "number of solutions"); if (some && m.xl && m.xr && m.yl && m.yr) { auto p = q.xmin_solution(); c.require(p.first == *m.xl && in(p.first, p.second), "least x"); p = q.xmax_solution(); c.require(p.first == *m.xr && in(p.first, p.second), "largest x"); p = q.ymin_solution(); c.require(p.second == *m.yl && in(p.first, p.second), "least y"); p = q.ymax_solution(); c.require(p.second == *m.yr && in(p.first, p.second), "largest y"); } return; }
        std::vector<std::pair<i64, i64>> s; if (m.b != 0) { for (i64 x = -W; x <= W; ++x) if ((m.z - m.a * x) % m.b == 0) { i64 y = (m.z - m.a * x) / m.b; if (in(x, y)) s.push_back({ x, y }); } } else if (m.z % m.a == 0) for (i64 y = -W; y <= W; ++y) if (in(m.z / m.a, y)) s.push_back({ m.z / m.a, y });
        c.eq(q.has_solution(), !s.empty(), "whether there is a solution"); if (s.empty()) { c.eq(q.count().value_or(-1), 0ll, "number of solutions"); return; }
        // the solutions run along a line; an end is open if they reach the border of the window
        bool open = false; for (auto [x, y] : s) if (std::abs(x) > W - 60 || std::abs(y) > W - 60) open = true; auto n = q.count(); if (open) { c.eq(n.has_value(), false, "number of solutions"); return; } c.eq(n.value_or(-1), (long long) s.size(), "number of solutions");
        auto by_y = s; std::sort(s.begin(), s.end()); std::sort(by_y.begin(), by_y.end(), [](auto& p, auto& o) { return p.second < o.second; }); auto lawful = [&](std::pair<long long, long long> p, const char* w) { c.require(m.a * p.first + m.b * p.second == m.z && in(p.first, p.second), w); };
        auto p = q.xmin_solution(); lawful(p, "solution with least x"); c.eq((i64) p.first, s.front().first, "least x"); p = q.xmax_solution(); lawful(p, "solution with largest x"); c.eq((i64) p.first, s.back().first, "largest x"); p = q.ymin_solution(); lawful(p, "solution with least y"); c.eq((i64) p.second, by_y.front().second, "least y"); p = q.ymax_solution(); lawful(p, "solution with largest y"); c.eq((i64) p.second, by_y.back().second, "largest y"); }
};
// ---- tables of sums of multiplicative functions
template <bool PHI> struct MultSum : Kind<MultSum<PHI>, std::conditional_t<PHI, suisen::SumOfTotientFunction<i64>, suisen::SumOfMobiusFunction<i64>>, u64> {
    using T = std::conditional_t<PHI, suisen::SumOfTotientFunction<i64>, suisen::SumOfMobiusFunction<i64>>;
    static u64 gen(Rng& r, i64 sc) { return sc == 0 ? 1 + r.below(4) : sc == 1 ? 1 + r.below(60) : r.chance(1, 12) ? 100000 + r.below(900000) * (1 + r.below(99)) : r.chance(1, 3) ? (1 + r.below(50)) * (1 + r.below(50)) : 1 + r.below(3000); }
    static u64 hash(const u64& m) { return sim::mix64(m); }
    static T* build(Rng& r, const u64& m) { return m == 1 && r.chance(1, 2) ? new T : new T(m); }
    static i64 sum(u64 n) { static std::array<i64, 3100> a = [] { std::array<i64, 3100> b{}; for (u64 k = 1; k < 3100; ++k) { i64 v; if (PHI) { v = 0; u64 x = k, res = k; for (u64 p = 2; p * p <= x; ++p) if (x % p == 0) { res = res / p * (p - 1); while (x % p == 0) x /= p; } if (x > 1) res = res / x * (x - 1); v = (i64) res; } else { v = 1; u64 x = k; for (u64 p = 2; p * p <= x; ++p) if (x % p == 0) { x /= p; v = -v; if (x % p == 0) { v = 0; x = 1; break; } } if (x > 1) v = -v; } b[k] = b[k - 1] + v; } return b; }(); return a[n]; }
    static void check(Ctx& c, Rng& r, T& t, const u64& m, Go&) { const T& q = t; if (m < 3100) c.eq(q(), sum(m), "sum up to n"); for (int k = 0; k < 4; ++k) { u64 d = r.chance(1, 2) ? 1 + r.below(m + 2) : 1 + r.below(12); if (m / d < 3100) c.eq(q(d), sum(m / d), "sum up to n/d");
            else if (m >= 3100) { u64 n = m / d; i64 s = 0; for (u64 l = 1; l <= n;) { u64 v = n / l, e = n / v; s += (v < 3100 ? sum(v) : (i64) q(d * l)) * (i64) (e - l + 1); l = e + 1; } c.eq(s, PHI ? (i64) (n * (n + 1) / 2) : (i64) 1, "sum over all quotients"); } } }
};
struct MobiusTab : Kind<MobiusTab, Box<suisen::MobiusFunction<300>>, int> {
    static int gen(Rng&, i64) { return 0; } static u64 hash(const int&) { return 1; }
    static T* build(Rng&, const int&) { return boxed(std::make_unique<suisen::MobiusFunction<300>>()); }
    static void check(Ctx& c, Rng& r, T& t, const int&, Go& go) { const auto& q = *t.p; unsigned n = 1 + (unsigned) r.below(300); c.eq((i64) q(n), MultSum<false>::sum(n) - MultSum<false>::sum(n - 1), "the function"); c.eq(q[n], q.mobius(n), "the function"); std::vector<std::pair<int, int>> f, w; unsigned x = n; for (int p = 2; x > 1; ++p) if (x % (unsigned) p == 0) { w.push_back({ p, 0 }); while (x % (unsigned) p == 0) x /= (unsigned) p, ++w.back().second; } if (!go(1, [&] { f = q.factorize(n); }, 3)) return; c.require(f == w, "prime powers"); c.eq(q.is_prime(n), w.size() == 1 && w[0].second == 1, "prime"); if (n > 1) c.eq(q.min_prime_factor(n), w[0].first, "least prime factor"); }
};
// ---- matcher for one pattern
template <typename C> struct Matcher : Kind<Matcher<C>, suisen::morris_pratt::MatcherMP<C>, std::vector<int>> {
    using T = suisen::morris_pratt::MatcherMP<C>; using Model = std::vector<int>; using V = typename C::value_type;
    static C conv(const Model& m) { C d; for (int x : m) d.push_back(V(x)); return d; }
    static Model gen(Rng& r, i64 sc) { Model m(1 + std::min<size_t>(60, size_for(r, sc))); u64 k = 1 + r.below(3); size_t p = 1 + r.below(5); for (size_t i = 0; i < m.size(); ++i) m[i] = i >= p && !r.chance(1, 12) ? m[i - p] : (int) r.below(k + 1); return m; }
    static T* build(Rng&, const Model& m) { return new T(conv(m)); }
    static void check(Ctx& c, Rng& r, T& t, const Model& m, Go& go) { Model x; size_t n = r.below(80); while (x.size() < n) { if (r.chance(1, 2)) x.insert(x.end(), m.begin(), m.begin() + (std::ptrdiff_t) (r.chance(1, 2) ? m.size() : r.below(m.size() + 1))); else x.push_back((int) r.below(3)); } C y = conv(x); Ints got; const T& q = t; if (!go(1, [&] { got = r.chance(1, 2) ? q(y) : q.enumerate_occurences(y); }, 4)) return; Ints w; for (size_t i = 0; i + m.size() <= x.size(); ++i) if (std::equal(m.begin(), m.end(), x.begin() + (std::ptrdiff_t) i)) w.push_back((int) i); c.require(got == w, "occurrences");
        C z = conv(m); Ints per; bool frag = r.chance(1, 2); if (!go(1, [&] { per = suisen::morris_pratt::all_periods(z.begin(), z.end(), frag); }, 4)) return; Ints pw; for (size_t p = 1; p <= m.size(); ++p) { bool ok = frag || m.size() % p == 0; for (size_t i = p; i < m.size(); ++i) ok &= m[i] == m[i - p]; if (ok) pw.push_back((int) p); } c.require(per == pw, "the periods"); C one; if (!go(1, [&] { one = suisen::morris_pratt::min_period(z, frag); }, 6)) return; c.require(one == C(z.begin(), z.begin() + pw[0]), "the least period"); }
};
// ---- point in convex polygon
using Pt = std::pair<int, int>; using Poly = std::vector<Pt>;
i64 crs(Pt a, Pt b, Pt o) { return ((i64) a.first - o.first) * ((i64) b.second - o.second) - ((i64) a.second - o.second) * ((i64) b.first - o.first); }
struct Inside : Kind<Inside, suisen::integral_geometry::ConvexHullInclusion<Pt>, Poly> {
    static u64 hash(const Poly& m) { u64 h = 1; for (auto [x, y] : m) h = sim::mix64(h * 31 + (u64) (x * 1009 + y)); return h; }
    static Poly gen(Rng& r, i64 sc) { size_t n = 1 + std::min<size_t>(60, size_for(r, sc)); i64 span = r.chance(1, 6) ? 1000000000 : r.chance(1, 2) ? 3 : 20; Poly p; for (size_t i = 0; i < n; ++i) p.push_back({ (int) sgn(r, span), (int) sgn(r, r.chance(1, 9) ? 0 : span) }); std::sort(p.begin(), p.end()); p.erase(std::unique(p.begin(), p.end()), p.end()); if (p.size() <= 2) return p; bool keep = r.chance(1, 3); Poly h(2 * p.size()); size_t k = 0; bool flat = true; for (auto& q : p) if (crs(p[0], p.back(), q) != 0) flat = false; if (flat) return { p.front(), p.back() };
        auto bad = [&](Pt a, Pt b, Pt q) { i64 z = crs(b, q, a); return keep ? z < 0 : z <= 0; }; for (size_t i = 0; i < p.size(); ++i) { while (k >= 2 && bad(h[k - 2], h[k - 1], p[i])) --k; h[k++] = p[i]; } for (size_t i = p.size() - 1, t = k + 1; i-- > 0;) { while (k >= t && bad(h[k - 2], h[k - 1], p[i])) --k; h[k++] = p[i]; } h.resize(k - 1); std::rotate(h.begin(), h.begin() + (std::ptrdiff_t) r.below(h.size()), h.end()); return h; }
    static T* build(Rng& r, const Poly& m) { Poly q = m; if (r.chance(1, 6)) q.push_back(q.front()); return new T(q); }
    static void check(Ctx& c, Rng& r, T& t, const Poly& m, Go&) { const T& q = t; for (int it = 0; it < 6; ++it) { Pt p = m[r.below(m.size())]; if (r.chance(2, 3)) { Pt o = m[r.below(m.size())]; p = { (int) (((i64) p.first + o.first) / 2), (int) (((i64) p.second + o.second) / 2) }; } p.first += (int) r.below(3) - 1; p.second += (int) r.below(3) - 1; bool on = false, out = false; size_t n = m.size(); if (n == 1) on = p == m[0], out = !on; for (size_t i = 0; n > 1 && i < n; ++i) { Pt a = m[i], b = m[(i + 1) % n]; i64 z = crs(b, p, a); if (z == 0 && std::min(a.first, b.first) <= p.first && p.first <= std::max(a.first, b.first) && std::min(a.second, b.second) <= p.second && p.second <= std::max(a.second, b.second)) on = true; if (z < 0) out = true; } if (n == 2 && !on) out = true; using I = suisen::integral_geometry::Inclusion; I w = on ? I::ON : out ? I::OUT : I::IN; c.require((r.chance(1, 2) ? q(p) : q(p.first, p.second)) == w, "inside, outside or on the border"); } }
};
// ---- tree decompositions and dynamic programs over them
struct TwModel { int n = 0; std::vector<std::pair<int, int>> e; };
struct Tw { suisen::TreeDecompositionTW2 d; std::optional<suisen::NiceDecompTree> nice; };
struct Decomp : Kind<Decomp, Tw, std::pair<TwModel, TwModel>> { // second: the graph of the nice decomposition, n = 0 if there is none
    static TwModel graph(Rng& r, i64 sc) { TwModel m; m.n = (int) std::min<size_t>(40, size_for(r, sc)); if (m.n < 2) return m; std::set<std::pair<int, int>> s; u64 md = r.below(4); Ints id((size_t) m.n); std::iota(id.begin(), id.end(), 0); for (size_t i = id.size(); i-- > 1;) std::swap(id[i], id[r.below(i + 1)]); auto add = [&](int a, int b) { if (a != b) s.insert(std::minmax(id[(size_t) a], id[(size_t) b])); };
        if (md == 0) for (u64 k = r.below(2 * (u64) m.n + 1); k-- > 0;) add((int) r.below((u64) m.n), (int) r.below((u64) m.n)); else { std::vector<std::pair<int, int>> ed{ { 0, 1 } }; if (md != 3) add(0, 1); for (int v = 2; v < m.n; ++v) { auto [a, b] = ed[r.chance(1, 3) ? ed.size() - 1 : r.below(ed.size())]; if (!r.chance(1, 9)) add(v, a); if (md == 1 || !r.chance(1, 3)) add(v, b); ed.push_back({ v, a }); ed.push_back({ v, b }); } if (r.chance(1, 6)) add((int) r.below((u64) m.n), (int) r.below((u64) m.n)); }
        m.e.assign(s.begin(), s.end()); for (size_t i = m.e.size(); i-- > 1;) std::swap(m.e[i], m.e[r.below(i + 1)]); for (auto& x : m.e) if (r.chance(1, 2)) std::swap(x.first, x.second); if (r.chance(1, 6)) { int v = (int) r.below((u64) m.n); m.e.push_back({ v, v }); } return m; }
    static Model gen(Rng& r, i64 sc) { return { graph(r, sc), {} }; }
    static u64 hash(const Model& m) { u64 h = (u64) m.first.n; for (auto [u, v] : m.first.e) h = sim::mix64(h * 31 + (u64) (u * 101 + v)); return h * 3 + (u64) m.second.e.size(); }
    static T* build(Rng& r, const Model& k) { const TwModel& m = k.first; if (r.chance(1, 3)) { std::vector<Ints> g((size_t) m.n); for (auto [u, v] : m.e) if (u != v) g[(size_t) u].push_back(v), g[(size_t) v].push_back(u); return new Tw{ suisen::TreeDecompositionTW2(g), {} }; } if (r.chance(1, 2)) return new Tw{ suisen::TreeDecompositionTW2(m.n, m.e), {} }; std::unique_ptr<Tw> t(new Tw{ suisen::TreeDecompositionTW2(m.n), {} }); for (auto [u, v] : m.e) t->d.add_edge(u, v); return t.release(); }
    static bool width2(const TwModel& m) { std::vector<std::set<int>> g((size_t) m.n); for (auto [u, v] : m.e) if (u != v) g[(size_t) u].insert(v), g[(size_t) v].insert(u); std::vector<char> gone((size_t) m.n); for (int left = m.n; left > 0;) { int u = -1; for (int v = 0; v < m.n; ++v) if (!gone[(size_t) v] && g[(size_t) v].size() <= 2) { u = v; break; } if (u < 0) return false; gone[(size_t) u] = 1; --left; Ints nb(g[(size_t) u].begin(), g[(size_t) u].end()); for (int v : nb) g[(size_t) v].erase(u); if (nb.size() == 2) g[(size_t) nb[0]].insert(nb[1]), g[(size_t) nb[1]].insert(nb[0]); } return true; }
    static void valid(Ctx& c, const TwModel& m, const std::vector<Ints>& bag, const std::vector<Ints>& adj, int root) { size_t n = bag.size(); std::vector<char> seen(n); Ints q{ root }; seen[(size_t) root] = 1; size_t half = 0; for (size_t i = 0; i < q.size(); ++i) for (int v : adj[(size_t) q[i]]) { ++half; if (!seen[(size_t) v]) seen[(size_t) v] = 1, q.push_back(v); } c.require(q.size() == n && half == 2 * (n - 1), "the bags form a tree");
        std::vector<int> comp((size_t) m.n), cnt((size_t) m.n); for (size_t i = 0; i < n; ++i) { c.require(bag[i].size() <= 3, "a bag has at most three vertices"); for (int v : bag[i]) ++cnt[(size_t) v]; for (int j : adj[i]) if (i < (size_t) j) for (int v : bag[i]) if (std::count(bag[(size_t) j].begin(), bag[(size_t) j].end(), v)) ++comp[(size_t) v]; } for (int v = 0; v < m.n; ++v) { c.require(cnt[(size_t) v] > 0, "every vertex is in a bag"); c.eq(cnt[(size_t) v] - comp[(size_t) v], 1, "the bags of a vertex are connected"); }
        for (auto [u, v] : m.e) { bool ok = false; for (auto& b : bag) ok |= std::count(b.begin(), b.end(), u) && std::count(b.begin(), b.end(), v); c.require(ok, "every edge is in a bag"); } }
    static bool change(Ctx& c, Rng& r, T& t, Model& m, Go& go) { if (m.first.n == 0) return false; if (r.chance(1, 3)) { int u = (int) r.below((u64) m.first.n), v = (int) r.below((u64) m.first.n); bool dup = false; for (auto [a, b] : m.first.e) dup |= std::minmax(a, b) == std::minmax(u, v); if (dup) return false; t.d.add_edge(u, v); m.first.e.push_back({ u, v }); return true; } // (memory never fails here)
        std::optional<std::vector<suisen::DecompNodeRooted>> q; if (!go(1, [&] { q = t.d.nice_decomp(); }, 80)) return true; c.eq(q.has_value(), width2(m.first), "whether the treewidth is at most two"); if (!q) return true; if (go(1, [&] { suisen::NiceDecompTree z(*q); t.nice = std::move(z); }, 8)) m.second = m.first; else { t.nice.reset(); m.second = {}; } return true; }
    using Tab = std::map<Ints, u64>;
    static u64 independent(const TwModel& m) { std::vector<u64> g((size_t) m.n); for (auto [u, v] : m.e) if (u != v) g[(size_t) u] |= 1ull << v, g[(size_t) v] |= 1ull << u; std::map<u64, u64> memo; auto rec = [&](auto& f, u64 s) -> u64 { if (!s) return 1; auto [it, fresh] = memo.emplace(s, 0); if (!fresh) return it->second; int v = __builtin_ctzll(s); u64 a = f(f, s & ~(1ull << v)) + f(f, s & ~(1ull << v) & ~g[(size_t) v]); return memo[s] = a; }; return rec(rec, m.n >= 64 ? ~0ull : (1ull << m.n) - 1); }
    static void check(Ctx& c, Rng& r, T& t, const Model& k, Go& go) { const TwModel& m = k.first; if (m.n == 0) return; if (!k.second.n || r.chance(1, 2)) { std::optional<std::vector<suisen::DecompNode>> q; if (!go(1, [&] { q = t.d.decomp(); }, 60)) return; c.eq(q.has_value(), width2(m), "whether the treewidth is at most two"); if (!q) return; std::vector<Ints> b, a; for (auto& x : *q) b.push_back(x.bag), a.push_back(x.adj); c.eq(b.size(), m.n ? (size_t) m.n : 0, "number of bags"); if (m.n) valid(c, m, b, a, 0); return; }
        const TwModel& g = k.second; const auto& z = *t.nice; std::vector<Ints> b, a((size_t) z.size()); for (int i = 0; i < z.size(); ++i) { b.push_back(z[i].bag); for (int j : z[i].ch) a[(size_t) i].push_back(j), a[(size_t) j].push_back(i), c.eq(z[j].par, i, "parent"); } valid(c, g, b, a, 0);
        auto types = z.get_node_types(); for (int i = 0; i < z.size(); ++i) { auto ty = types[(size_t) i]; Ints d; using N = suisen::NodeType; if (ty == N::LEAF) c.eq(z[i].bag.size(), (size_t) 1, "a leaf has one vertex"); else if (ty == N::JOIN) c.require(z[i].bag == z[z[i].ch[0]].bag && z[i].bag == z[z[i].ch[1]].bag, "a join joins equal bags"); else { auto& x = z[i].bag; auto& y = z[z[i].ch[0]].bag; std::set_symmetric_difference(x.begin(), x.end(), y.begin(), y.end(), std::back_inserter(d)); c.eq(d.size(), (size_t) 1, "one vertex enters or leaves"); } }
        if (g.n > 40) return; std::set<std::pair<int, int>> es; for (auto [u, v] : g.e) es.insert(std::minmax(u, v)); auto joinable = [&](const Ints& s, int v) { for (int u : s) if (u != v && es.count(std::minmax(u, v))) return false; return true; }; using Nd = suisen::DecompNodeRooted; u64 got = 0;
        if (!go(3, [&] { Tab root = z.run_dp<Tab>(
            [](const Nd&, int v) { sim::callback(); Tab s; s[{}] = 1; s[{ v }] = 1; return s; },
            [&](const Nd&, const Nd&, const Tab& x, int v) { sim::callback(); Tab s; for (auto& [k2, n] : x) { s[k2] += n; if (joinable(k2, v)) { Ints y = k2; y.push_back(v); std::sort(y.begin(), y.end()); s[y] += n; } } return s; },
            [](const Nd&, const Nd&, const Tab& x, int v) { sim::callback(); Tab s; for (auto& [k2, n] : x) { Ints y = k2; y.erase(std::remove(y.begin(), y.end(), v), y.end()); s[y] += n; } return s; },
            [](const Nd&, const Nd&, const Tab& x, const Nd&, const Tab& y) { sim::callback(); Tab s; for (auto& [k2, n] : x) if (auto it = y.find(k2); it != y.end()) s[k2] = n * it->second; return s; });
            for (auto& [k2, n] : root) got += n; }, 200)) return; c.eq(got, independent(g), "number of independent sets"); }
};
// ---- algorithms that call user functions, over the data of an object
struct Data { std::vector<i64> a; size_t n = 0, m = 0; u64 key = 0; };
struct Driven : Kind<Driven, Data, Data> {
    static Data gen(Rng& r, i64 sc) { Data d; d.n = std::min<size_t>(14, size_for(r, sc)); d.m = 1 + r.below(14); d.key = r.next(); d.a.resize(std::min<size_t>(60, size_for(r, sc))); u64 w = 1 + r.below(20); for (auto& x : d.a) x = (i64) r.below(w); return d; }
    static u64 hash(const Data& d) { return hash_seq(d.a) ^ d.key; }
    static T* build(Rng&, const Data& d) { return new Data(d); }
    static void check(Ctx& c, Rng& r, Data& t, const Data& m, Go& go) {
        c.require(t.a == m.a, "the data"); switch (r.below(9)) {
        case 0: { // binary search: the predicate is asked within the bounds, logarithmically often
            i64 span = r.chance(1, 2) ? 20 : r.chance(1, 2) ? 1 << 20 : (i64) 1 << 61, lo = sgn(r, span), w = 1 + (i64) r.below((u64) span), x = lo + 1 + (i64) r.below((u64) w), hi = lo + w, asked = 0; bool expo = r.chance(1, 3); auto f = [&](i64 v) { sim::callback(); ++asked; c.require(v >= lo && (expo || v <= hi), "asked within the bounds"); return v >= x; }; i64 got = 0; if (!go(2, [&] { got = expo ? suisen::binary_search_exponential<i64>(lo, f) : suisen::binary_search<i64>(lo, hi, f); }, 60)) return; c.eq(got, x, "first argument that holds"); i64 lg = 1; while ((i64) 1 << lg < w && lg < 62) ++lg; c.require(asked <= 6 * lg + 20, "logarithmically many questions"); return; }
        case 1: { i64 lo = sgn(r, 500), hi = lo + (i64) r.below(r.chance(1, 2) ? 6 : 1000), v = lo + sgn(r, 1200), k = 1 + (i64) r.below(9), fl = (i64) r.below(4), asked = 0; bool conc = r.chance(1, 2); auto f0 = [&](i64 x) { i64 d = std::abs(x - v); i64 y = d <= fl ? 0 : (d - fl) * (d - fl) * k; return conc ? -y : y; }; auto f = [&](i64 x) { sim::callback(); ++asked; c.require(x >= lo && x <= hi, "asked within the bounds"); return f0(x); }; i64 key = 0, val = 0; if (!go(2, [&] { if (conc) key = suisen::ternary_search_key<suisen::ternary_search_tag::Concave>(lo, hi, f), val = suisen::ternary_search_value<suisen::ternary_search_tag::Concave>(lo, hi, f); else key = suisen::ternary_search_key<suisen::ternary_search_tag::Convex>(lo, hi, f), val = suisen::ternary_search_value<suisen::ternary_search_tag::Convex>(lo, hi, f); }, 40)) return; i64 best = f0(lo); for (i64 x = lo; x <= hi; ++x) best = conc ? std::max(best, f0(x)) : std::min(best, f0(x)); c.require(key >= lo && key <= hi, "argument within the bounds"); c.eq(f0(key), best, "extreme value"); c.eq(val, best, "extreme value"); c.require(asked <= 400, "logarithmically many questions");
            double fl_ = (double) lo, fh = (double) hi, at = std::min(std::max((double) v + 0.25, fl_), fh), kd = 0; auto g0 = [&](double x) { double y = std::abs(x - (double) v - 0.25); return conc ? -y : y; }; auto g = [&](double x) { sim::callback(); c.require(x >= fl_ && x <= fh, "asked within the bounds"); return g0(x); }; double vd = 0; if (!go(2, [&] { if (conc) kd = suisen::ternary_search_key<suisen::ternary_search_tag::Concave>(fl_, fh, (std::size_t) 90, g), vd = suisen::ternary_search_value<suisen::ternary_search_tag::Concave>(fl_, fh, (std::size_t) 90, g); else kd = suisen::ternary_search_key<suisen::ternary_search_tag::Convex>(fl_, fh, (std::size_t) 90, g), vd = suisen::ternary_search_value<suisen::ternary_search_tag::Convex>(fl_, fh, (std::size_t) 90, g); }, 100)) return; c.require(std::abs(kd - at) < 1e-6, "extreme argument"); c.require(std::abs(vd - g0(at)) < 1e-6, "extreme value"); return; }
        case 2: { // a totally monotone matrix: convex costs of the distance between two increasing sequences
            size_t n = m.n, k = m.m; std::vector<i64> x(n), y(k); Rng z(m.key); i64 s = 0; for (auto& v : x) v = s += (i64) z.below(5); s = 0; for (auto& v : y) v = s += (i64) z.below(5); u64 calls = 0; auto A = [&](size_t i, size_t j) { return (x[i] - y[j]) * (x[i] - y[j]) + y[j] % 2 * 0; }; Ints got; bool cmp = r.chance(1, 2); if (!go(3, [&] { if (cmp) got = suisen::monotone_minima(n, k, [&](size_t i, size_t p, size_t q) { sim::callback(); ++calls; c.require(i < n && p < q && q < k, "asked within the matrix"); return A(i, p) <= A(i, q); }); else got = suisen::monotone_minima(n, k, [&](size_t i, size_t j) { sim::callback(); ++calls; c.require(i < n && j < k, "asked within the matrix"); return A(i, j); }); }, 30)) return; c.eq(got.size(), n, "rows"); for (size_t i = 0; i < n; ++i) { size_t b = 0; for (size_t j = 1; j < k; ++j) if (A(i, j) < A(i, b)) b = j; c.eq(got[i], (int) b, "column of the row minimum"); } c.require(calls <= 8 * (k + n + 1) * 5, "few questions"); return; }
        case 3: { // slopes: f convex (or concave) on 0..n
            Rng z(m.key); size_t n = 1 + m.n; std::vector<i64> sl(n); for (auto& v : sl) v = sgn(z, 12); std::sort(sl.begin(), sl.end()); bool conc = r.chance(1, 2); if (conc) std::reverse(sl.begin(), sl.end()); std::vector<i64> f{ sgn(z, 50) }; for (i64 v : sl) f.push_back(f.back() + v); i64 lo = *std::min_element(sl.begin(), sl.end()) - (i64) r.below(3), hi = *std::max_element(sl.begin(), sl.end()) + (i64) r.below(3); int x = (int) r.below(n + 1); bool pr = r.chance(1, 2); i64 got = 0;
            auto best = [&](i64 p) { sim::callback(); size_t b = 0; for (size_t i = 1; i <= n; ++i) { i64 u = f[i] - p * (i64) i, w = f[b] - p * (i64) b; if (conc ? u >= w : u < w) b = i; } return std::make_pair(f[b] - p * (i64) b, (int) b); }; auto g1 = [&](i64 p) { return best(p).first; }; if (!go(2, [&] { got = conc ? (pr ? suisen::alien_concave<i64>(x, lo, hi, best) : suisen::alien_concave<i64>(x, lo, hi, g1)) : pr ? suisen::alien_convex<i64>(x, lo, hi, best) : suisen::alien_convex<i64>(x, lo, hi, g1); }, 20)) return; c.eq(got, f[(size_t) x], "value of the function"); return; }
        case 4: { i64 n = r.chance(1, 3) ? (i64) r.below(5000) : (i64) r.below(60); std::set<i64> w; for (i64 d = 1; d <= n; ++d) w.insert(n / d); std::vector<i64> ws(w.begin(), w.end()), got; if (!go(3, [&] { got.clear(); suisen::foreach_quotients<i64>(n, [&](i64 q) { sim::callback(); got.push_back(q); }); }, 30)) return; c.require(got == ws, "quotients"); c.eq((size_t) suisen::quotient_num<i64>(n), ws.size(), "number of quotients"); if (!go(1, [&] { got = suisen::enumerate_quotients<i64>(n); }, 3)) return; c.require(got == ws, "quotients"); std::vector<std::tuple<i64, i64, i64>> rg; if (!go(1, [&] { rg = suisen::quotient_ranges<i64>(n); }, 3)) return; i64 at = 1; for (auto [l, h, q] : rg) { c.eq(l, at, "ranges follow each other"); c.require(l <= h && n / l == q && n / h == q && n / (h + 1) < q, "range of a quotient"); at = h + 1; } c.eq(at, n + 1, "ranges cover everything");
            std::vector<i64> vs{ n }; while (vs.size() < 3 && r.chance(1, 2)) vs.push_back((i64) r.below(200)); i64 mx = *std::max_element(vs.begin(), vs.end()); std::vector<std::tuple<i64, i64, std::vector<i64>>> mr; if (!go(1, [&] { mr = suisen::multiple_quotients_ranges(vs); }, 40)) return; at = 1; std::vector<i64> prev; for (auto& [l, h, q] : mr) { c.eq(l, at, "ranges follow each other"); c.require(l <= h && l <= mx && q != prev, "range of quotients"); for (size_t i = 0; i < vs.size(); ++i) c.require(vs[i] / l == q[i] && vs[i] / h == q[i], "range of quotients"); prev = q; at = h + 1; } c.eq(at, mx + 1, "ranges cover everything"); return; }
        case 5: { size_t n = m.a.size(), wd = std::max<size_t>(1, std::min<size_t>(n, 1 + m.key % 8)), hg = n / wd; std::vector<Ints> g(hg, Ints(wd)); for (size_t i = 0; i < hg; ++i) for (size_t j = 0; j < wd; ++j) g[i][j] = m.a[i * wd + j] % 3 != 0; std::set<std::array<int, 4>> all, max, seen; auto full = [&](int u, int d, int l, int q) { if (u < 0 || l < 0 || d > (int) hg || q > (int) wd) return false; for (int i = u; i < d; ++i) for (int j = l; j < q; ++j) if (!g[(size_t) i][(size_t) j]) return false; return true; }; int area = 0; for (int u = 0; u < (int) hg; ++u) for (int d = u + 1; d <= (int) hg; ++d) for (int l = 0; l < (int) wd; ++l) for (int q = l + 1; q <= (int) wd && full(u, d, l, q); ++q) { area = std::max(area, (d - u) * (q - l)); if (!full(u - 1, d, l, q) && !full(u, d + 1, l, q) && !full(u, d, l - 1, q) && !full(u, d, l, q + 1)) max.insert({ u, d, l, q }); }
            if (!go(3, [&] { seen.clear(); suisen::maximal_rectangles(g, [&](int u, int d, int l, int q) { sim::callback(); if (u < d && l < q) { c.require(full(u, d, l, q), "a rectangle of ones"); seen.insert({ u, d, l, q }); } }); }, 30)) return; for (auto& x : max) c.require(seen.count(x) == 1, "every maximal rectangle"); std::pair<int, std::tuple<int, int, int, int>> best; if (!go(1, [&] { best = suisen::maximum_rectngle(g); }, 4)) return; c.eq(best.first, area, "largest area"); if (area) { auto [u, d, l, q] = best.second; c.require(full(u, d, l, q) && (d - u) * (q - l) == area, "largest rectangle"); } return; }
        case 6: case 7: { size_t n = std::min<size_t>(m.n, 11); std::vector<Ints> g(n); std::vector<u64> b(n); Rng z(m.key); u64 p = z.below(5); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) if (z.below(4) < p) g[i].push_back((int) j), g[j].push_back((int) i), b[i] |= 1ull << j, b[j] |= 1ull << i; for (auto& v : g) for (size_t i = v.size(); i-- > 1;) std::swap(v[i], v[z.below(i + 1)]); std::multiset<u64> got, w; bool tri = r.chance(1, 2); for (u64 s = 1; s < 1ull << n; ++s) { if (tri && __builtin_popcountll(s) != 3) continue; bool ok = true; for (size_t i = 0; i < n; ++i) if (s >> i & 1) ok &= ((b[i] | 1ull << i) & s) == s; if (ok) w.insert(s); }
            if (!go(3, [&] { got.clear(); if (tri) suisen::enumerate_triangles(g, [&](int x, int y, int q) { sim::callback(); got.insert(1ull << x | 1ull << y | 1ull << q); }); else suisen::enumerate_cliques(g, [&](const Ints& q) { sim::callback(); u64 s = 0; for (int v : q) { c.require(!(s >> v & 1), "each vertex once"); s |= 1ull << v; } got.insert(s); }); }, 60)) return; c.require(got == w, tri ? "each triangle once" : "each clique once"); return; }
        default: { Ints got; int kind = (int) r.below(4); const auto& a = m.a; if (!go(1, [&] { got = kind == 0 ? suisen::longest_increasing_subsequence(a) : kind == 1 ? suisen::longest_nondecreasing_subsequence(a) : kind == 2 ? suisen::longest_nonincreasing_subsequence(a) : suisen::longest_decreasing_subsequence(a); }, 5)) return; auto ok = [&](i64 x, i64 y) { return kind == 0 ? x < y : kind == 1 ? x <= y : kind == 2 ? x >= y : x > y; }; size_t best = 0; std::vector<size_t> d(a.size(), 1); for (size_t i = 0; i < a.size(); ++i) { for (size_t j = 0; j < i; ++j) if (ok(a[j], a[i])) d[i] = std::max(d[i], d[j] + 1); best = std::max(best, d[i]); } c.eq(got.size(), best, "length of the subsequence"); for (size_t i = 1; i < got.size(); ++i) c.require(got[i - 1] < got[i] && ok(a[(size_t) got[i - 1]], a[(size_t) got[i]]), "a subsequence in order"); return; }
        } }
};
sim::RegisterWorld w1(multi::def<RunLength<std::string>>("C30", "run_length_text", "RunLengthEncoder"));
sim::RegisterWorld w2(multi::def<RunLength<std::vector<int>>>("C30", "run_length_ints", "RunLengthEncoder"));
sim::RegisterWorld w3(multi::def<DefVec>("C30", "default_vector", "default_vector"));
sim::RegisterWorld w4(multi::def<Strided>("C30", "step_view", "StepIterator, StepView"));
sim::RegisterWorld w5(multi::def<Bezout>("C30", "bezout", "BezoutEquation, BezoutEquationSolution"));
sim::RegisterWorld w6(multi::def<MultSum<false>>("C30", "mobius_sums", "SumOfMobiusFunction"));
sim::RegisterWorld w7(multi::def<MultSum<true>>("C30", "totient_sums", "SumOfTotientFunction"));
sim::RegisterWorld w8(multi::def<MobiusTab>("C30", "mobius", "MobiusFunction"));
sim::RegisterWorld w9(multi::def<Matcher<std::string>>("C30", "matcher_text", "MatcherMP, all_periods"));
sim::RegisterWorld wa(multi::def<Matcher<std::vector<int>>>("C30", "matcher_ints", "MatcherMP, all_periods"));
sim::RegisterWorld wb(multi::def<Inside>("C30", "convex_inclusion", "ConvexHullInclusion"));
sim::RegisterWorld wc(multi::def<Decomp>("C30", "tree_decomposition", "TreeDecompositionTW2, NiceDecompTree"));
sim::RegisterWorld wd(multi::def<Driven>("C30", "driven", "searches, monotone_minima, alien_dp, quotients, maximal rectangles, cliques, triangles, subsequences"));
}
