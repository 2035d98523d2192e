// Polynomials, power series and set power series as values.
#include <atcoder/modint>
#include <atcoder/convolution>
#include <cassert>
#include <deque>
#include "library/polynomial/fps_naive.hpp"
#include "library/polynomial/fps.hpp"
#include "library/polynomial/formal_power_series.hpp"
#include "library/polynomial/array_fps_naive.hpp"
#include "library/math/set_power_series.hpp"
#include "library/math/array_set_power_series.hpp"
#include "values.hpp"
using mint = atcoder::modint998244353; using values::tried; using V = std::vector<u64>;
namespace sim { template <> inline std::string show<mint>(const mint& m) { return std::to_string(m.val()); } template <> inline uint64_t hash_of<mint>(const mint& m) { return mix64(m.val()); } }
namespace {
const u64 P = 998244353;
u64 pw(u64 a, u64 e) { u64 r = 1; for (a %= P; e; e >>= 1, a = a * a % P) if (e & 1) r = r * a % P; return r; }
u64 at(const V& v, size_t i) { return i < v.size() ? v[i] : 0; }
void trim(V& v) { while (!v.empty() && !v.back()) v.pop_back(); }
V cut(const V& v, size_t n) { V z(v.begin(), v.begin() + (i64) std::min(n, v.size())); trim(z); return z; }
V add(const V& a, const V& b, u64 k = 1) { V z(std::max(a.size(), b.size())); for (size_t i = 0; i < z.size(); ++i) z[i] = (at(a, i) + k * at(b, i)) % P; trim(z); return z; }
V mul(const V& a, const V& b, size_t n = 1000000) { if (a.empty() || b.empty()) return {}; V z(std::min(n, a.size() + b.size() - 1)); for (size_t i = 0; i < a.size(); ++i) if (a[i]) for (size_t j = 0; j < b.size() && i + j < z.size(); ++j) z[i + j] = (z[i + j] + a[i] * b[j]) % P; trim(z); return z; }
V diff(const V& a) { V z; for (size_t i = 1; i < a.size(); ++i) z.push_back(a[i] * i % P); trim(z); return z; }
V scaled(V a, u64 k) { for (auto& x : a) x = x * (k % P) % P; trim(a); return a; }
V shifted(const V& a, i64 k) { V z; if (k >= 0) { if (!a.empty()) { z.assign((size_t) k, 0); z.insert(z.end(), a.begin(), a.end()); } } else if ((size_t) -k < a.size()) z.assign(a.begin() - k, a.end()); return z; }
V rnd(Rng& r, size_t n) { V z(n); int mode = (int) r.below(4); for (auto& x : z) x = mode == 0 ? r.below(P) : mode == 1 ? r.below(3) : mode == 2 ? (r.chance(1, 6) ? r.below(P) : 0) : (r.chance(1, 2) ? P - 1 : r.below(P)); if (mode == 2 && n > 30 && r.chance(1, 2)) { std::fill(z.begin(), z.end(), 0); for (u64 k = r.below(14); k--;) z[r.below(n)] = 1 + r.below(P - 1); } if (n && r.chance(1, 3)) for (u64 k = r.below(std::min<u64>(n, 7) + 1); k--;) z[k] = 0; trim(z); return z; }
size_t len(Rng& r, i64 sc) { switch (sc) { case 0: return r.below(5); case 1: return r.below(20); case 2: return r.chance(1, 2) ? 55 + r.below(12) : r.below(70); default: return r.chance(1, 3) ? 64 + r.below(11) : r.chance(1, 2) ? 58 + r.below(75) : r.below(20); } }
// checks of transcendental operations by what defines them
void is_inv(Ctx& c, const V& f, const V& g, size_t n) { V one = n ? V{ 1 } : V{}; c.require(mul(f, g, n) == one && g.size() <= n, "the inverse times the series is 1"); }
void is_log(Ctx& c, const V& f, const V& g, size_t n) { c.require(at(g, 0) == 0 && g.size() <= n && (n < 2 || mul(f, diff(g), n - 1) == cut(diff(f), n - 1)), "logarithm: f g' = f'"); }
void is_exp(Ctx& c, const V& f, const V& g, size_t n) { c.require((!n || at(g, 0) == 1) && g.size() <= n && (n < 2 || cut(diff(g), n - 1) == mul(diff(f), g, n - 1)), "exponential: g' = f' g"); }
void is_pow(Ctx& c, const V& f, const V& g, u64 k, size_t n) {
    c.require(g.size() <= n, "length of the power"); if (!k) { c.require(g == V{ 1 }, "power 0"); return; } size_t t = 0; while (t < f.size() && !f[t]) ++t;
    if (t == f.size() || (t && (k >= n || t * k >= n))) { c.require(g.empty(), "power of high order vanishes"); return; }
    size_t lz = t * (size_t) k; for (size_t i = 0; i < lz; ++i) c.require(at(g, i) == 0, "order of the power"); V u = shifted(f, -(i64) t), h = shifted(g, -(i64) lz); size_t m = n - lz; u = cut(u, m);
    c.require(at(h, 0) == pw(u[0], k) && (m < 2 || mul(u, diff(h), m - 1) == scaled(mul(diff(u), h, m - 1), k % P)), "power: f g' = k f' g");
}
bool has_sqrt(const V& f, bool& known) { size_t t = 0; known = true; while (t < f.size() && !f[t]) ++t; if (t == f.size()) return true; if (t & 1) return false; return pw(f[t], (P - 1) / 2) == 1; }
template <typename T> V value(const T& t) { V z; for (const auto& e : t) z.push_back(e.val()); trim(z); return z; }
template <typename T> T to(const V& v) { std::vector<mint> a(v.begin(), v.end()); return T(a); }
enum { NAIVE, GENERAL, NTT };
template <typename S, int kind> struct Poly {
    using T = S; using Model = V;
    static void warm() { suisen::inv_mods<mint>::ensure(1200); if constexpr (kind == GENERAL) T::set_multiplication([](const std::vector<mint>& a, const std::vector<mint>& b) { return atcoder::convolution(a, b); }); }
    static void make(Ctx&, Rng& r, i64 sc, T*& t, Model& m) { m = rnd(r, len(r, sc)); if (r.chance(1, 8)) { t = new T(); m.clear(); return; } t = new T(to<T>(m)); if (r.chance(1, 3)) t->resize((size_t) t->size() + r.below(5)); }
    static void verify(Ctx& c, T& t, const Model& m) { V z = value(t); c.require(z.size() <= (size_t) t.size() && t.deg() == t.size() - 1, "size"); c.eq(z.size(), m.size(), "degree"); for (size_t i = 0; i < m.size(); ++i) c.eq(z[i], m[i], "a coefficient"); if (t.size()) c.eq((u64) ((const T&) t)[t.size() - 1].val(), at(m, (size_t) t.size() - 1), "last coefficient"); }
    static void act(Ctx& c, Rng& r, i64 sc, T& x, Model& m, const T& y, const Model& n, Go& go) {
        bool put = r.chance(1, 2), same = &x == &y; size_t cap = sc < 2 ? 60 : 300;
        auto both = [&](auto in, auto out, const Model& want) { if (put) { if (go(1, [&] { in(); }, 8)) m = want; } else if (auto q = tried<T>(go, out, 8)) { verify(c, *q, want); if (r.chance(1, 2)) { x = *q; m = want; } } };
        auto keep = [&](const T& q, u64 k = 4) { if (r.chance(1, k)) { x = q; m = value(q); } };
        u64 sv = r.chance(1, 6) ? 0 : r.below(P); mint own = sv; bool in = x.size() && r.chance(1, 2); size_t ix = in ? r.below((u64) x.size()) : 0; if (in) sv = at(m, ix); const mint& s = in ? ((std::vector<mint>&) x)[ix] : own;
        size_t sz = (size_t) x.size(); if (sz > cap) { x.resize(cap / 2); m = cut(m, cap / 2); return; }
        int nn = r.chance(1, 2) ? -1 : 1 + (int) len(r, sc); size_t N = nn < 0 ? sz : (size_t) nn;
        switch (r.below(24)) {
        case 0: both([&] { x += y; }, [&] { return x + y; }, add(m, n)); break;
        case 1: both([&] { x -= y; }, [&] { return x - y; }, add(m, n, P - 1)); break;
        case 2: case 3: both([&] { x *= y; }, [&] { return x * y; }, mul(m, n)); break;
        case 4: both([&] { x += s; }, [&] { return x + s; }, add(m, { sv })); break;
        case 5: both([&] { x -= s; }, [&] { return x - s; }, add(m, { sv }, P - 1)); break;
        case 6: both([&] { x *= s; }, [&] { return r.chance(1, 2) ? x * s : s * x; }, scaled(m, sv)); break;
        case 7: if constexpr (kind != NAIVE) { T q = s + x; verify(c, q, add(m, { sv })); T w = s - x; verify(c, w, add({ sv }, m, P - 1)); if (sv) both([&] { x /= s; }, [&] { return x / s; }, scaled(m, pw(sv, P - 2))); } break;
        case 8: if (put) { if (go(1, [&] { ++x; }, 2)) m = add(m, { 1 }); } else if (go(1, [&] { --x; }, 2)) m = add(m, { P - 1 }); break;
        case 9: case 10: case 11: { // division, also close to a multiple
            V dm = n; if (!same && r.chance(1, 2)) dm = rnd(r, len(r, sc)); if (dm.empty()) dm = { 1 + r.below(P - 1) }; T d = to<T>(dm); if (r.chance(1, 3)) d.resize((size_t) d.size() + r.below(3)); const T& dv = dm == n ? y : d; T a = x; V am = m; if (r.chance(1, 3)) { am = add(mul(rnd(r, len(r, sc)), dm), rnd(r, r.below(dm.size()))); a = to<T>(am); if (r.chance(1, 2)) a.resize((size_t) a.size() + r.below(3)); }
            auto qr = tried<std::pair<T, T>>(go, [&] { return a.div_mod(dv); }, 16); if (!qr) break; V q = value(qr->first), rem = value(qr->second); c.require(add(mul(q, dm), rem) == am, "quotient * divisor + remainder"); c.require(rem.size() < dm.size(), "degree of the remainder"); T u = a / dv, w = a % dv; verify(c, u, q); verify(c, w, rem);
            if (r.chance(1, 2)) { if (dm == n && same) { if (put) { x /= x; m = m.empty() ? m : V{ 1 }; } else { x %= x; m.clear(); } } else { x = a; m = am; if (put) { x /= dv; m = q; } else { x %= dv; m = rem; } } } break; }
        case 12: { int k = (int) r.below(8); both([&] { x <<= k; }, [&] { return x << k; }, shifted(m, k)); break; }
        case 13: { int k = (int) r.below(r.chance(1, 3) ? sz + 3 : 6); both([&] { x >>= k; }, [&] { return x >> k; }, shifted(m, -k)); break; }
        case 14: { auto q = tried<T>(go, [&] { return x.diff(); }, 3); if (q) { verify(c, *q, diff(m)); if constexpr (kind != NAIVE) { if (put) { x.diff_inplace(); m = diff(m); } } else keep(*q); } break; }
        case 15: { V w(m.size() + 1); for (size_t i = 0; i < m.size(); ++i) w[i + 1] = m[i] * pw(i + 1, P - 2) % P; trim(w); auto q = tried<T>(go, [&] { return x.intg(); }, 3); if (q) { verify(c, *q, w); if constexpr (kind != NAIVE) { if (put && go(1, [&] { x.intg_inplace(); }, 3)) m = w; } else keep(*q); } break; }
        case 16: if (!at(m, 0)) break; else if (auto q = tried<T>(go, [&] { return x.inv(nn); }, 16)) { c.eq((size_t) q->size(), N, "length of the inverse"); is_inv(c, m, value(*q), N); if constexpr (kind != NAIVE) { if (put && r.chance(1, 2)) { if (go(1, [&] { x.inv_inplace(nn); }, 16)) m = value(*q); break; } } keep(*q); } break;
        case 17: { T f = x; V fm = m; if (!f.size()) f.resize(1); ((std::vector<mint>&) f)[0] = 1; fm = value(f); size_t M = nn < 0 ? (size_t) f.size() : N; if (auto q = tried<T>(go, [&] { return f.log(nn); }, 16)) { c.eq((size_t) q->size(), M, "length of the logarithm"); is_log(c, fm, value(*q), M); if constexpr (kind != NAIVE) { if (put && go(1, [&] { f.log_inplace(nn); }, 16)) verify(c, f, value(*q)); } keep(*q); } break; }
        case 18: { T f = x; V fm = m; if (!f.size()) f.resize(1); ((std::vector<mint>&) f)[0] = 0; fm = value(f); size_t M = nn < 0 ? (size_t) f.size() : N; if (auto q = tried<T>(go, [&] { return f.exp(nn); }, 16)) { c.eq((size_t) q->size(), M, "length of the exponential"); is_exp(c, fm, value(*q), M); verify(c, f, fm); if constexpr (kind != NAIVE) { if (put && go(1, [&] { f.exp_inplace(nn); }, 16)) verify(c, f, value(*q)); } keep(*q); } break; }
        case 19: if (N) { u64 k = r.chance(1, 2) ? r.below(7) : r.chance(1, 2) ? r.next() >> (1 + r.below(62)) : P * (1 + r.below(3)); if (auto q = tried<T>(go, [&] { return x.pow((long long) k, nn); }, 16)) { c.eq((size_t) q->size(), N, "length of the power"); is_pow(c, cut(m, N), value(*q), k, N); if constexpr (kind != NAIVE) { T f = x; if (put && go(1, [&] { f.pow_inplace((long long) k, nn); }, 16)) verify(c, f, value(*q)); } keep(*q); } } break;
        case 20: { T f = x; V fm = m; if (r.chance(2, 3)) { fm = mul(m, m); f = to<T>(fm); } if (!f.size()) break; int n2 = r.chance(1, 3) ? -1 : r.chance(1, 2) ? f.size() + (int) r.below(4) : 1 + (int) r.below((u64) f.size()); size_t M = (size_t) (n2 < 0 ? f.size() : n2); bool known; bool can = has_sqrt(fm, known); std::optional<T> q; if (!go(1, [&] { auto z = f.safe_sqrt(n2); if (z) q.emplace(*z); }, 16)) break; size_t tz = 0; while (tz < fm.size() && !fm[tz]) ++tz; if (!(tz < fm.size() && tz % 2 == 0 && tz / 2 >= M)) c.eq(q.has_value(), can, "a square root exists"); else c.require(q.has_value(), "a root without terms"); if (q) { c.eq((size_t) q->size(), M, "length of the square root"); V g = value(*q); size_t K = M + tz / 2; if (tz == fm.size() || tz / 2 >= M) c.require(g.empty(), "the root has no term below its lowest"); else c.require(mul(g, g, K) == cut(fm, K), "the square of the root"); T z = f.sqrt(n2); verify(c, z, g); keep(*q); } break; }
        case 21: { u64 p = r.below(P), v = 0; for (size_t i = m.size(); i--;) v = (v * p + m[i]) % P; c.eq((u64) x.eval(mint(p)).val(), v, "value at a point"); T q = -x; verify(c, q, scaled(m, P - 1)); T z = +x; verify(c, z, m); break; }
        case 22: c.eq(x == y, m == n, "equality"); c.eq(x != y, m != n, "inequality"); if constexpr (kind != NAIVE) { for (int k = 0; k < 3; ++k) { int d = (int) r.below(sz + 4); c.eq((u64) ((const T&) x).safe_get(d).val(), at(m, (size_t) d), "safe_get"); } auto [a, b] = range(r, sz + 3); T q = x.cut_copy(b); verify(c, q, cut(m, (size_t) b)); c.eq(q.size(), b, "length of a prefix"); T z = x.cut_copy(a, b); verify(c, z, cut(shifted(m, -a), (size_t) (b - a))); c.eq(z.size(), b - a, "length of a slice"); if (put) { T o = x++; verify(c, o, m); m = add(m, { 1 }); } } else { int k = (int) r.below(sz + 3); T q = x.cut(k); verify(c, q, cut(m, (size_t) k)); if (put) { int d = (int) r.below(sz + 3); if (go(1, [&] { x[d] = mint(sv); }, 1)) { if (m.size() <= (size_t) d) m.resize((size_t) d + 1); m[(size_t) d] = sv; trim(m); } } } break;
        default: if constexpr (kind != NAIVE) { std::vector<T> fs; V w{ 1 }; for (u64 k = (kind == GENERAL ? 1 : 0) + r.below(5); k--;) { V f = rnd(r, r.below(sc < 2 ? 5 : 40)); fs.push_back(to<T>(f)); w = mul(w, f); } auto q = tried<T>(go, [&] { return T::prod(fs); }, 16); if (q) { verify(c, *q, w); keep(*q); } if (put) { x.cut_trailing_zeros(); c.eq((size_t) x.size(), m.size(), "size without trailing zeros"); } else { int k = (int) r.below(sz + 2); x.cut(k); m = cut(m, (size_t) k); } } else { V w = mul(m, n, N); auto q = tried<T>(go, [&] { return x.mul(y, nn); }, 3); if (q) { verify(c, *q, w); } if (put) { c.eq(x.normalize(), (int) m.size() - 1, "normalised degree"); } }
        }
    }
    static u64 hash(const Model& m) { return hash_seq(m); }
};
// truncated series of a fixed length
template <size_t N> struct ArrP {
    using T = suisen::ArrayFPSNaive<mint, N>; using Model = V;
    static void warm() { suisen::inv_mods<mint>::ensure(200); }
    static T mk(const V& m) { T t; for (size_t i = 0; i < m.size(); ++i) t[i] = m[i]; return t; }
    static void make(Ctx&, Rng& r, i64, T*& t, Model& m) { m = rnd(r, r.below(N + 1)); if (r.chance(1, 5)) { m = cut({ 1, 2 }, N); t = new T{ 1, 2 }; return; } t = new T(mk(m)); }
    static void verify(Ctx& c, T& t, const Model& m) { for (size_t i = 0; i < N; ++i) c.eq((u64) t[i].val(), at(m, i), "a coefficient"); }
    static void act(Ctx& c, Rng& r, i64, T& x, Model& m, const T& y, const Model& n, Go&) {
        bool put = r.chance(1, 2), same = &x == &y; auto both = [&](auto in, auto out, const Model& w0) { V want = cut(w0, N); if (put) { in(); m = want; } else { T q = out(); verify(c, q, want); if (r.chance(1, 2)) { x = q; m = want; } } };
        auto keep = [&](const T& q) { if (r.chance(1, 3)) { x = q; m = value(q); } };
        size_t ix = r.below(N); u64 sv = r.chance(1, 2) ? at(m, ix) : r.below(P); mint own = sv; const mint& s = sv == at(m, ix) ? x[ix] : own;
        switch (r.below(15)) {
        case 0: both([&] { x += y; }, [&] { return x + y; }, add(m, n)); break;
        case 1: both([&] { x -= y; }, [&] { return x - y; }, add(m, n, P - 1)); break;
        case 2: both([&] { x *= y; }, [&] { return r.chance(1, 2) ? x * y : x.mul(y); }, mul(m, n, N)); break;
        case 3: both([&] { x += s; }, [&] { return x + s; }, add(m, { sv })); break;
        case 4: both([&] { x -= s; }, [&] { return x - s; }, add(m, { sv }, P - 1)); break;
        case 5: both([&] { x *= s; }, [&] { return r.chance(1, 2) ? x * s : s * x; }, scaled(m, sv)); break;
        case 6: { int k = (int) r.below(N + 3); if (r.chance(1, 2)) both([&] { x <<= k; }, [&] { return x << k; }, shifted(m, k)); else both([&] { x >>= k; }, [&] { return x >> k; }, shifted(m, -k)); break; }
        case 7: { if (n.empty()) break; T q = x / y, w = x % y; V qm = value(q), rm = value(w); c.require(add(mul(qm, n), rm) == m, "quotient * divisor + remainder"); c.require(rm.size() < n.size(), "degree of the remainder"); if (r.chance(1, 3)) { if (same) { x /= x; m = m.empty() ? m : V{ 1 }; } else if (put) { x /= y; m = qm; } else { x %= y; m = rm; } } break; }
        case 8: { T q = x.diff(); verify(c, q, diff(m)); V w(N); for (size_t i = 0; i + 1 < N; ++i) w[i + 1] = at(m, i) * pw(i + 1, P - 2) % P; T z = x.intg(); verify(c, z, w); keep(put ? q : z); break; }
        case 9: if (at(m, 0)) { T q = x.inv(); is_inv(c, m, value(q), N); keep(q); } break;
        case 10: { T f = x; f[0] = 1; T q = f.log(); is_log(c, value(f), value(q), N); keep(q); break; }
        case 11: { T f = x; f[0] = 0; T q = f.exp(); is_exp(c, value(f), value(q), N); keep(q); break; }
        case 12: { u64 k = r.chance(1, 2) ? r.below(7) : r.next() >> (1 + r.below(62)); T q = x.pow((long long) k); is_pow(c, m, value(q), k, N); keep(q); break; }
        case 13: { V fm = mul(m, m, N); T f = mk(fm); bool known; if (!has_sqrt(fm, known)) break; T q = f.sqrt(); V g = value(q); c.require(mul(g, g, N) == fm, "the square of the root"); auto h = std::make_unique<T>(f); T q2 = h->sqrt(); verify(c, q2, g); keep(q); break; }
        default: { u64 p = r.below(P), v = 0; for (size_t i = N; i--;) v = (v * p + at(m, i)) % P; c.eq((u64) x.eval(mint(p)).val(), v, "value at a point"); T q = -x; verify(c, q, scaled(m, P - 1)); T z = +x; verify(c, z, m); if (put) { ++x; m = add(m, { 1 }); } else { --x; m = add(m, { P - 1 }); } }
        }
    }
    static u64 hash(const Model& m) { return hash_seq(m); }
};
// ---- set power series: index = subset
namespace sps {
V mul(const V& a, const V& b) { V z(a.size()); for (size_t s = 0; s < a.size(); ++s) { u64 v = a[s] * b[0] % P; for (size_t t = s; t; t = (t - 1) & s) v = (v + a[s ^ t] * b[t]) % P; z[s] = v; } return z; }
V exp(const V& f) { V g(f.size()); g[0] = 1; for (size_t s = 1; s < f.size(); ++s) { size_t low = s & (~s + 1), rest = s ^ low; u64 v = f[low] * g[rest] % P; for (size_t t = rest; t; t = (t - 1) & rest) v = (v + f[low | t] * g[rest ^ t]) % P; g[s] = v; } return g; }
V log(const V& f) { V g(f.size()); for (size_t s = 1; s < f.size(); ++s) { size_t low = s & (~s + 1), rest = s ^ low; u64 v = f[s]; if (rest) { for (size_t t = (rest - 1) & rest;; t = (t - 1) & rest) { v = (v + (P - g[low | t]) * f[rest ^ t]) % P; if (!t) break; } } g[s] = v; } return g; }
V inv(const V& f) { V g(f.size()); u64 i0 = pw(f[0], P - 2); g[0] = i0; for (size_t s = 1; s < f.size(); ++s) { u64 v = 0; for (size_t t = s; t; t = (t - 1) & s) v = (v + f[t] * g[s ^ t]) % P; g[s] = (P - v) % P * i0 % P; } return g; }
V power(V f, u64 e) { V z(f.size()); z[0] = 1; for (; e; e >>= 1) { if (e & 1) z = mul(z, f); f = mul(f, f); } return z; }
}
template <typename S, bool dynamic, size_t top> struct Sps {
    using T = S; using Model = V;
    static void warm() { suisen::inv_mods<mint>::ensure(200); }
    static V rv(Rng& r, size_t d) { V v = rnd(r, 1u << d); v.resize(1u << d); return v; }
    static void make(Ctx&, Rng& r, i64 sc, T*& t, Model& m) { size_t d = r.below(sc == 0 ? 3 : sc == 3 ? top + 1 : std::min<size_t>(top, 4) + 1); switch (r.below(5)) { case 0: t = new T(); m = { 0 }; break; case 1: { u64 v = r.below(P); t = new T(d, mint(v)); m.assign(1u << d, v); break; } case 2: t = new T(T::one((int) d)); m.assign(1u << d, 0); m[0] = 1; break; default: m = rv(r, d); t = new T(to<T>(m)); } }
    static void verify(Ctx& c, T& t, const Model& m) { c.eq(t.size(), m.size(), "size"); c.eq(1 << t.cardinality(), (int) m.size(), "cardinality"); for (size_t i = 0; i < m.size(); ++i) c.eq((u64) t[i].val(), m[i], "a coefficient"); }
    static void act(Ctx& c, Rng& r, i64, T& x, Model& m, const T& y0, const Model& n0, Go& go) {
        bool put = r.chance(1, 2), same = &x == &y0; size_t k = m.size(), d = (size_t) __builtin_ctzll(k); V nm = n0; std::optional<T> ny; if (nm.size() != k) { nm = rv(r, d); ny.emplace(to<T>(nm)); } const T& y = ny ? *ny : y0; V z = m;
        auto both = [&](auto in, auto out, const Model& want) { if (put) { if (go(1, [&] { in(); }, 8)) m = want; } else if (auto q = tried<T>(go, out, 8)) { verify(c, *q, want); if (r.chance(1, 2)) { x = *q; m = want; } } };
        auto keep = [&](const T& q) { if (r.chance(1, 3)) { x = q; m.clear(); for (auto e : q) m.push_back(e.val()); } };
        size_t ix = r.below(k); u64 sv = r.chance(1, 2) ? m[ix] : r.below(P); mint own = sv; const mint& s = sv == m[ix] ? x[ix] : own;
        auto sc = [&](V v, u64 q) { for (auto& e : v) e = e * q % P; return v; };
        switch (r.below(14)) {
        case 0: for (size_t i = 0; i < k; ++i) z[i] = (m[i] + nm[i]) % P; both([&] { x += y; }, [&] { return x + y; }, z); break;
        case 1: for (size_t i = 0; i < k; ++i) z[i] = (m[i] + P - nm[i]) % P; both([&] { x -= y; }, [&] { return x - y; }, z); break;
        case 2: case 3: both([&] { x *= y; }, [&] { return x * y; }, sps::mul(m, nm)); break;
        case 4: both([&] { x *= s; }, [&] { return r.chance(1, 2) ? x * s : s * x; }, sc(m, sv)); break;
        case 5: if (sv) both([&] { x /= s; }, [&] { return x / s; }, sc(m, pw(sv, P - 2))); break;
        case 6: if (m[0]) { auto q = tried<T>(go, [&] { return x.inv(); }, 16); if (q) { verify(c, *q, sps::inv(m)); keep(*q); } } break;
        case 7: { T f = x; f[0] = 0; z[0] = 0; auto q = tried<T>(go, [&] { return f.exp(); }, 16); if (q) { verify(c, *q, sps::exp(z)); keep(*q); } break; }
        case 8: { T f = x; f[0] = 1; z[0] = 1; auto q = tried<T>(go, [&] { return f.log(); }, 16); if (q) { verify(c, *q, sps::log(z)); keep(*q); } break; }
        case 9: { u64 e = r.chance(1, 2) ? r.below(8) : r.next() >> (1 + r.below(62)); auto q = tried<T>(go, [&] { return x.pow((long long) e); }, 16); if (q) { verify(c, *q, sps::power(m, e)); keep(*q); } break; }
        case 10: if (m[0]) { V sqm = sps::mul(m, m); T f = to<T>(sqm); auto q = tried<T>(go, [&] { return f.sqrt(); }, 16); if (q) { V g; for (auto e : *q) g.push_back(e.val()); c.require(sps::mul(g, g) == sqm, "the square of the root"); } } break;
        case 11: if (k > 1 && put) { size_t p = k / 2; T lo = x.cut_lower(p), hi = x.cut_upper(p); verify(c, lo, V(m.begin(), m.begin() + (i64) p)); verify(c, hi, V(m.begin() + (i64) p, m.end())); keep(r.chance(1, 2) ? lo : hi); } else if (d < top) { V w = m; w.insert(w.end(), nm.begin(), nm.end()); if (go(1, [&] { if (same) x.concat(x); else x.concat(y); }, 2)) m = w; } break;
        case 12: { int e = (int) r.below(top + 1); if (go(1, [&] { x.set_cardinality(e); }, 1)) m.resize(1u << e); break; }
        default: { for (auto& e : z) e = (P - e) % P; T q = -x; verify(c, q, z); T p = +x; verify(c, p, m); c.eq(x == y, m == nm, "equality"); auto w = tried<T>(go, [&] { auto a = x.zeta(); a *= y.zeta(); a += x.zeta(); return T(a.mobius()); }, 16); V want = sps::mul(m, nm); for (size_t i = 0; i < k; ++i) want[i] = (want[i] + m[i]) % P; if (w) verify(c, *w, want);
            if constexpr (dynamic) { V f = rnd(r, r.below(8)); auto u = tried<T>(go, [&] { return T::polynomial_composite(std::vector<mint>(f.begin(), f.end()), x); }, 16); V o(k); for (size_t i = f.size(); i--;) { o = sps::mul(o, m); o[0] = (o[0] + f[i]) % P; } if (u) verify(c, *u, o); } }
        }
    }
    static u64 hash(const Model& m) { return hash_seq(m); }
};
sim::RegisterWorld w1(values::def<Poly<suisen::FPSNaive<mint>, NAIVE>>("fps_naive", "polynomial/fps_naive.hpp")), w2(values::def<Poly<suisen::FPS<mint>, GENERAL>>("fps", "polynomial/fps.hpp")), w3(values::def<Poly<suisen::FormalPowerSeries<mint>, NTT>>("formal_power_series", "polynomial/formal_power_series.hpp")), w4(values::def<ArrP<12>>("array_fps_naive", "polynomial/array_fps_naive.hpp")), w5(values::def<Sps<suisen::SetPowerSeries<mint>, true, 6>>("set_power_series", "math/set_power_series.hpp")), w6(values::def<Sps<suisen::ArraySetPowerSeries<mint, 6>, false, 5>>("array_set_power_series", "math/array_set_power_series.hpp"));
}
