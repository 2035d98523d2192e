// Contour queries on trees: the build draws a random start vertex, so the decomposition is decided by
// entropy; answers must not be.  Oracle: all-pairs distances and a plain array.
#include "library/tree/contour_sum.hpp"
#include "library/tree/point_add_range_contour_sum.hpp"
#include "library/tree/point_add_range_contour_sum_invertible.hpp"
#include "library/tree/range_contour_sum_invertible.hpp"
#include "library/tree/point_get_range_contour_add_invertible.hpp"
#include "library/tree/point_get_range_contour_operate.hpp"
#include "library/tree/point_set_range_contour_sum.hpp"
using i64 = long long; using u64 = unsigned long long;
struct S { u64 s; int n; int mx; bool operator==(const S& o) const { return s == o.s && n == o.n && mx == o.mx; } };
static S op(S a, S b) { sim::callback(); return { a.s + b.s, a.n + b.n, std::max(a.mx, b.mx) }; }
static S e() { return { 0, 0, -1 }; }
static S elem(sim::Rng& r) { return { r.next(), 1, (int) r.below(1000) }; }
static u64 addu(u64 a, u64 b) { return a + b; } static u64 zu() { return 0; } static u64 ng(u64 a) { return -a; }
namespace sim { template <> inline std::string show<S>(const S& s) { return "{" + std::to_string(s.s) + "," + std::to_string(s.n) + "," + std::to_string(s.mx) + "}"; } template <> inline uint64_t hash_of<S>(const S& s) { return mix64(s.s + (uint64_t) s.n * 77 + (uint64_t) s.mx); } }
static S mp(u64 f, S x) { x.s += f; return x; } static u64 cmp(u64 f, u64 g) { return f + g; } static u64 idu() { return 0; } static u64 inv(u64 f) { return -f; }
static int mxf(int f, int x) { return std::max(f, x); } static int mxc(int f, int g) { return std::max(f, g); } static int mxi() { return INT_MIN; }
struct Tree { int n; std::vector<std::pair<int, int>> es; std::vector<std::vector<int>> g; std::vector<int> dist(int s) const { std::vector<int> d((size_t) n, -1), q{ s }; d[(size_t) s] = 0; for (size_t i = 0; i < q.size(); ++i) for (int v : g[(size_t) q[i]]) if (d[(size_t) v] < 0) d[(size_t) v] = d[(size_t) q[i]] + 1, q.push_back(v); return d; } };
static Tree tree(sim::Rng r, int n) {
    Tree t{ n, {}, std::vector<std::vector<int>>((size_t) n) }; int kind = (int) r.below(8); std::vector<int> p((size_t) n); std::iota(p.begin(), p.end(), 0); for (int i = n; i > 1; --i) std::swap(p[(size_t) (i - 1)], p[r.below((u64) i)]); if (r.chance(1, 4)) std::iota(p.begin(), p.end(), 0);
    auto& g = t.g;
    for (int i = 1; i < n; ++i) { int q = kind == 0 ? i - 1 : kind == 1 ? 0 : kind == 2 ? (i - 1) / 2 : kind == 3 ? std::max(0, i - 1 - (int) r.below(4)) : kind == 4 ? (i - 1) / 5 : kind == 5 ? (i % 2 ? i - 1 : std::max(0, i - 2)) : kind == 6 ? (i < n / 2 ? i - 1 : n / 2 > 0 ? (int) r.below((u64) std::max(1, n / 2)) : 0) : (int) r.below((u64) i); if (q < 0) q = 0;
        int a = p[(size_t) q], b = p[(size_t) i]; if (r.chance(1, 2)) std::swap(a, b); t.es.push_back({ a, b }); g[(size_t) a].push_back(b); g[(size_t) b].push_back(a); }
    for (size_t i = t.es.size(); i > 1; --i) std::swap(t.es[i - 1], t.es[r.below(i)]);
    return t;
}
enum { SUM, RSUM, ADD, SETV, APPLY, GET, ALL, COPY, MOVE };
struct All {                                  // one instance of every structure over the same tree
    Tree t; std::vector<S> a; std::vector<u64> w, fx; std::vector<S> ga; std::vector<int> gm;
    suisen::ContourSumOnTree<S, op, e> cs; suisen::PointAddRangeContourSum<S, op, e> pa; suisen::PointAddRangeContourSumOnTree<u64, addu, zu, ng> pi; suisen::RangeContourSumOnTree<u64, addu, zu, ng> rs;
    suisen::PointGetRangeContourAddOnTree<S, u64, mp, cmp, idu, inv> pg; suisen::PointGetRangeContourOperate<int, int, mxf, mxc, mxi> po; suisen::PointSetRangeContourSum<S, op, e> ps;
    std::vector<S> a0; std::vector<u64> w0;
    All(const Tree& t_, const std::vector<S>& v, const std::vector<u64>& w_, int order) : t(t_), a(v), w(w_), ga(v), cs(order & 8 ? decltype(cs)(t_.n, v[0]) : decltype(cs)(v)), pa(order & 8 ? decltype(pa)(t_.n, v[0]) : decltype(pa)(v)), pi(order & 8 ? decltype(pi)(t_.n, w_[0]) : decltype(pi)(w_)), rs(order & 8 ? decltype(rs)(t_.n, w_[0]) : decltype(rs)(w_)), pg(t_.n), po(t_.n), ps(order & 8 ? decltype(ps)(t_.n, v[0]) : decltype(ps)(v)), a0(v), w0(w_) {
        for (auto& x : v) gm.push_back(x.mx);
        for (auto [x, y] : t.es) { cs.add_edge(x, y); pa.add_edge(x, y); pi.add_edge(x, y); rs.add_edge(x, y); pg.add_edge(x, y); po.add_edge(x, y); ps.add_edge(x, y); }
        for (int k = 0; k < 7; ++k) switch ((k + (order & 7)) % 7) { case 0: cs.build(); break; case 1: pa.build(); break; case 2: pi.build(); break; case 3: rs.build(); break; case 4: pg.build(v); break; case 5: po.build(gm); break; case 6: ps.build(); break; }
    }
};
static void run(sim::Ctx& c) {
    std::vector<std::unique_ptr<All>> ts; int big = (int) c.cfg(0, 60), maxn = big % 5 ? (int) c.cfg(1, 14) : big ? (int) c.cfg(1, 70) : (int) c.cfg(70, 2500), cnt = (int) c.cfg(1, 2);
    for (int i = 0; i < cnt; ++i) { sim::Rng r((u64) c.cfg(0, 1ll << 40)); int n = i == 0 ? maxn : 1 + (int) r.below((u64) maxn); std::vector<S> v; std::vector<u64> w; for (int k = 0; k < n; ++k) v.push_back(elem(r)), w.push_back(r.next()); int order = (int) r.below(7); if (r.chance(1, 6)) { order |= 8; std::fill(v.begin(), v.end(), v[0]); std::fill(w.begin(), w.end(), w[0]); } ts.push_back(std::make_unique<All>(tree(r, n), v, w, order)); }
    while (c.next()) {
        if (c.cur->code >= COPY) { size_t i = (size_t) c.arg(0, 0, (i64) ts.size() - 1); auto y = c.cur->code == COPY ? std::make_unique<All>(*ts[i]) : std::make_unique<All>(std::move(*ts[i])); if (c.cur->code == MOVE) ts[i] = std::move(y); else if (ts.size() < 3) ts.push_back(std::move(y)); else { size_t j = (size_t) c.arg(1, 0, 2); if (c.raw(2) & 1) ts[j] = std::move(y); else { *ts[j] = *ts[i]; } } continue; }
        All& x = *ts[(size_t) c.arg(0, 0, (i64) ts.size() - 1)]; int n = x.t.n; int u = (int) c.arg(1, 0, n - 1); sim::Rng r = c.rng(5); auto D = x.t.dist(u); int far = *std::max_element(D.begin(), D.end());
        int dl = (int) c.arg(2, 0, far + 2), dr = (int) c.arg(3, 0, far + 3); if (r.chance(3, 4) && dl > dr) std::swap(dl, dr); if (r.chance(1, 12)) dl = r.chance(1, 2) ? -1 - (int) r.below(3) : -1000000000; if (r.chance(1, 12)) dr = r.chance(1, 2) ? INT_MAX : 1000000000;
        auto in = [&](int v) { return dl <= D[(size_t) v] && D[(size_t) v] < dr; };
        switch (c.cur->code) {
        case SUM: { S s = e(); for (int v = 0; v < n; ++v) if (D[(size_t) v] == dl) s = { s.s + x.a0[(size_t) v].s, s.n + 1, std::max(s.mx, x.a0[(size_t) v].mx) }; c.eq(x.cs.sum(u, dl), s, "contour_sum"); break; }
        case RSUM: { S s = e(), s0 = e(); u64 t = 0, t0 = 0; for (int v = 0; v < n; ++v) if (in(v)) { s = op(s, x.a[(size_t) v]); t += x.w[(size_t) v]; t0 += x.w0[(size_t) v]; } c.eq(x.pa.sum(u, dl, dr), s, "point_add_range_sum"); c.eq(x.pi.sum(u, dl, dr), t, "point_add_range_sum_invertible"); c.eq(x.rs.sum(u, dl, dr), t0, "range_contour_sum"); S q = e(); for (int v = 0; v < n; ++v) if (in(v)) q = op(q, x.ga[(size_t) v]); (void) q; (void) s0; c.state(sim::hash_of(x.w) + (u64) (u * 100 + dl * 10 + dr)); break; }
        case ADD: { S d = elem(r); u64 dw = r.next(); x.pa.add(u, d); x.a[(size_t) u] = op(x.a[(size_t) u], d); x.pi.add(u, dw); x.w[(size_t) u] += dw; x.ps.set(u, x.a[(size_t) u]); break; }
        case SETV: { u64 nw = r.next(); x.pi.set(u, nw); x.w[(size_t) u] = nw; c.eq(x.pi.get(u), nw, "get"); S s = e(); for (int v = 0; v < n; ++v) if (in(v)) s = op(s, x.a[(size_t) v]); c.eq(x.ps.sum(u, dl, dr), s, "point_set_range_sum"); break; }
        case APPLY: { u64 f = r.next(); x.pg.apply(u, dl, dr, f); int m = (int) r.below(1200); x.po.apply(u, dl, dr, m); for (int v = 0; v < n; ++v) if (in(v)) x.ga[(size_t) v].s += f, x.gm[(size_t) v] = std::max(x.gm[(size_t) v], m); if (r.chance(1, 3)) { u64 f2 = r.next(); x.pg.add(u, f2); x.ga[(size_t) u].s += f2; x.po.apply(u, 5); x.gm[(size_t) u] = std::max(x.gm[(size_t) u], 5); } break; }
        case GET: { c.eq(x.pg.get(u), x.ga[(size_t) u], "point_get"); c.eq(x.po.get(u), x.gm[(size_t) u], "point_get_operate"); c.eq(x.pa.get(u), x.a[(size_t) u], "pa.get"); c.eq(x.pi.get(u), x.w[(size_t) u], "pi.get"); c.eq(x.ps.get(u), x.a[(size_t) u], "ps.get"); break; }
        case ALL: { for (int d = 0; d <= far + 1; d += far > 200 ? 1 + (int) r.below(60) : 1) { S s = e(); for (int v = 0; v < n; ++v) if (D[(size_t) v] == d) s = op(s, x.a0[(size_t) v]); c.eq(x.cs.sum(u, d), s, "contour_sum"); u64 t = 0, t0 = 0; S p = e(); for (int v = 0; v < n; ++v) if (D[(size_t) v] <= d) t += x.w[(size_t) v], t0 += x.w0[(size_t) v], p = op(p, x.a[(size_t) v]); c.eq(x.pi.sum(u, 0, d + 1), t, "point_add_range_sum_invertible"); c.eq(x.rs.sum(u, 0, d + 1), t0, "range_contour_sum"); c.eq(x.pa.sum(u, 0, d + 1), p, "point_add_range_sum"); } for (int v = 0; v < n; ++v) c.eq(x.pg.get(v), x.ga[(size_t) v], "point_get"); break; }
        }
    }
}
static sim::WorldDef def() { sim::WorldDef d; d.prop = "C06"; d.name = "contour"; d.run = run; d.max_ops = 40; d.ncfg = 6; d.real = "contour_sum, point_add_range_contour_sum(_invertible), range_contour_sum_invertible, point_get_range_contour_add_invertible, point_get_range_contour_operate, point_set_range_contour_sum"; d.stub = "AtCoder Library segtree (point_set only)";
    d.ops = { {"sum", 5, 6}, {"range_sum", 8, 6}, {"add", 5, 6}, {"set", 3, 6}, {"apply", 6, 6}, {"get", 4, 6}, {"profile", 2, 6}, {"copy", 2, 3}, {"move", 1, 1} }; return d; }
static sim::RegisterWorld w(def());
