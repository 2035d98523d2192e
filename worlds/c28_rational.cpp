// Quotients of polynomials, and polynomials stored as runs of terms, as values.
#include <atcoder/modint>
#include <atcoder/convolution>
#include <cassert>
#include <deque>
#include <map>
#include "library/polynomial/fps.hpp"
#include "library/polynomial/formal_power_series.hpp"
#include "library/polynomial/rational_fps.hpp"
#include "library/polynomial/vec_sparse_fps.hpp"
#include "values.hpp"
using mint = atcoder::modint998244353; using values::tried; using V = std::vector<u64>;
namespace sim { template <> inline std::string show<mint>(const mint& m) { return std::to_string(m.val()); } template <> inline uint64_t hash_of<mint>(const mint& m) { return mix64(m.val()); } }
namespace {
const u64 P = 998244353;
void trim(V& v) { while (!v.empty() && !v.back()) v.pop_back(); }
u64 at(const V& v, size_t i) { return i < v.size() ? v[i] : 0; }
V add(const V& a, const V& b, u64 k = 1) { V z(std::max(a.size(), b.size())); for (size_t i = 0; i < z.size(); ++i) z[i] = (at(a, i) + k * at(b, i)) % P; trim(z); return z; }
V mul(const V& a, const V& b) { if (a.empty() || b.empty()) return {}; V z(a.size() + b.size() - 1); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) z[i + j] = (z[i + j] + a[i] * b[j]) % P; trim(z); return z; }
V scaled(V a, u64 k) { for (auto& x : a) x = x * (k % P) % P; trim(a); return a; }
template <typename T> V value(const T& t) { V z; for (const auto& e : t) z.push_back(e.val()); trim(z); return z; }
template <typename T> T to(const V& v) { std::vector<mint> a(v.begin(), v.end()); return T(a); }
V rnd(Rng& r, size_t n, bool first) { V z(n); int mode = (int) r.below(3); for (auto& x : z) x = mode == 0 ? r.below(P) : mode == 1 ? r.below(3) : (r.chance(1, 3) ? P - 1 : 0); if (first) { if (z.empty()) z.push_back(0); if (!z[0]) z[0] = 1 + r.below(P - 1); } trim(z); return z; }
std::vector<mint> conv(const std::vector<mint>& a, const std::vector<mint>& b) { return atcoder::convolution(a, b); }
// ---- a quotient: judged as a fraction, whatever common factor it is stored with
template <typename S, bool general> struct Rat {
    using T = suisen::RationalFPS<S>; struct Model { V n, d; };
    static void warm() { suisen::inv_mods<mint>::ensure(1200); if constexpr (general) S::set_multiplication(conv); }
    static Model frac(Rng& r, i64 sc) { size_t k = sc < 2 ? 5 : 20; Model m{ rnd(r, r.below(k), false), rnd(r, 1 + r.below(k), true) }; return m; }
    static T of(const Model& m) { return T(to<S>(m.n), to<S>(m.d)); }
    static void make(Ctx&, Rng& r, i64 sc, T*& t, Model& m) { m = frac(r, sc); switch (r.below(6)) { case 0: t = new T(); m = { {}, { 1 } }; break; case 1: { u64 v = r.below(P); t = new T(mint(v)); m = { { v }, { 1 } }; trim(m.n); break; } case 2: t = new T(to<S>(m.n)); m.d = { 1 }; break; case 3: t = new T(std::make_pair(to<S>(m.n), to<S>(m.d))); break; default: t = new T(of(m)); } }
    static void same(Ctx& c, const T& t, const Model& m, const char* what = "value of the quotient") { V n = value(t.num), d = value(t.den); c.require(!d.empty(), "the denominator is not 0"); c.require(mul(n, m.d) == mul(m.n, d), what); }
    static void verify(Ctx& c, T& t, const Model& m) { same(c, t, m); }
    static void act(Ctx& c, Rng& r, i64 sc, T& x, Model& m, const T& y, const Model& n, Go& go) {
        bool put = r.chance(1, 2); if (x.num.size() + x.den.size() > (sc < 2 ? 60 : 200)) { Model k = frac(r, sc); x = of(k); m = k; return; } if (y.num.size() + y.den.size() > 400) return;
        auto both = [&](auto in, auto out, const Model& want) { if (put) { if (go(1, [&] { in(); }, 8)) m = want; } else if (auto q = tried<T>(go, out, 8)) { same(c, *q, want); if (r.chance(1, 2)) { x = *q; m = want; } } };
        u64 sv = 1 + r.below(P - 1); mint s = sv;
        switch (r.below(13)) {
        case 0: case 1: both([&] { x += y; }, [&] { return x + y; }, { add(mul(m.n, n.d), mul(m.d, n.n)), mul(m.d, n.d) }); break;
        case 2: both([&] { x -= y; }, [&] { return x - y; }, { add(mul(m.n, n.d), mul(m.d, n.n), P - 1), mul(m.d, n.d) }); break;
        case 3: both([&] { x *= y; }, [&] { return x * y; }, { mul(m.n, n.n), mul(m.d, n.d) }); break;
        case 4: both([&] { x *= s; }, [&] { return r.chance(1, 2) ? x * s : s * x; }, { scaled(m.n, sv), m.d }); break;
        case 5: both([&] { x /= s; }, [&] { return x / s; }, { m.n, scaled(m.d, sv) }); break;
        case 6: if (!m.n.empty()) both([&] { x.inv_inplace(); }, [&] { return x.inv(); }, { m.d, m.n }); break;
        case 7: if (!m.n.empty()) { auto q = tried<T>(go, [&] { return s / x; }, 8); if (q) same(c, *q, { scaled(m.d, sv), m.n }); } break;
        case 8: { V nn = value(x.num), dd = value(x.den); size_t a = 0, b = 0; while (a < nn.size() && !nn[a]) ++a; while (b < dd.size() && !dd[b]) ++b; if (a < nn.size() && b > a) break; size_t k = 1 + r.below(sc < 2 ? 12 : 90); auto f = tried<S>(go, [&] { return x.to_fps((int) k); }, 12); if (!f) break; V g = value(*f); c.require(g.size() <= k, "length of the expansion"); V z = mul(g, dd); for (size_t i = 0; i < k + b; ++i) if (i < k + b && i >= 0) c.eq(at(z, i), at(nn, i), "expansion * denominator"); break; }
        case 9: { Model before = m; auto q = tried<S>(go, [&] { return x.normalize(); }, 12); if (!q) break; V qq = value(*q), dd = value(x.den), nn = value(x.num); c.require(nn.size() < dd.size() || nn.empty(), "degree after taking the whole part away"); T w = x; m = { nn, dd }; c.require(mul(add(mul(qq, dd), nn), before.d) == mul(before.n, dd), "whole part + rest"); break; }
        case 10: { size_t k = r.below(5); std::vector<T> fs; Model z{ {}, { 1 } }, w{ { 1 }, { 1 } }; for (size_t i = 0; i < k; ++i) { Model f = r.chance(1, 4) ? Model{ value(x.num), value(x.den) } : frac(r, 0); fs.push_back(of(f)); z = { add(mul(z.n, f.d), mul(z.d, f.n)), mul(z.d, f.d) }; w = { mul(w.n, f.n), mul(w.d, f.d) }; } bool pr = r.chance(1, 2); auto q = tried<T>(go, [&] { return pr ? T::prod(fs) : T::sum(fs); }, 20); if (q) same(c, *q, pr ? w : z, pr ? "product of quotients" : "sum of quotients"); break; }
        case 11: { T q = -x; same(c, q, { scaled(m.n, P - 1), m.d }); T z = +x; same(c, z, m); break; }
        default: { T q = x; size_t k = 1 + r.below(10); V nn = value(x.num), dd = value(x.den); q.cut((int) k); V a(nn.begin(), nn.begin() + (i64) std::min(k, nn.size())), b(dd.begin(), dd.begin() + (i64) std::min(k, dd.size())); trim(a), trim(b); c.require(value(q.num) == a && value(q.den) == b, "both parts cut"); }
        }
    }
    static u64 hash(const Model& m) { return hash_seq(m.n) * 31 + hash_seq(m.d); }
};
// ---- sparse polynomials stored as runs
template <typename I> struct Sparse {
    using T = suisen::VecSparseFPS<I, mint>; using Model = std::map<i64, u64>; using D = std::vector<std::pair<I, mint>>;
    static void warm() { T::set_multiplication(conv); }
    static void clean(Model& m) { for (auto it = m.begin(); it != m.end();) it = it->second ? std::next(it) : m.erase(it); }
    static D rdat(Rng& r, i64 sc, Model& m, bool sorted) { D d; i64 top = sc == 0 ? 6 : sc == 1 ? 40 : sc == 2 ? 100000 : sizeof(I) == 8 ? 100000000000000ll : 100000000; size_t runs = r.below(5); m.clear(); for (size_t k = 0; k < runs; ++k) { i64 s = (i64) r.below((u64) top); for (u64 l = 1 + r.below(sc < 2 ? 4 : 12); l--; ++s) d.emplace_back((I) s, mint(r.chance(1, 6) ? 0 : r.below(P))); } if (!sorted) for (size_t i = d.size(); i > 1; --i) std::swap(d[i - 1], d[r.below(i)]); else std::stable_sort(d.begin(), d.end(), [](auto& a, auto& b) { return a.first < b.first; }); for (auto& [i, v] : d) m[(i64) i] = (m[(i64) i] + v.val()) % P; clean(m); return d; }
    static void make(Ctx&, Rng& r, i64 sc, T*& t, Model& m) { bool s = r.chance(1, 2); D d = rdat(r, sc, m, s); if (d.empty() && r.chance(1, 2)) t = new T(); else if (!s && r.chance(1, 2)) t = new T(d); else t = new T(d, s); }
    static Model all(Ctx& c, T& t) { Model m; i64 last = -1; for (auto& [i, f] : t) { c.require((i64) i >= last, "runs in order"); last = (i64) i; for (size_t k = 0; k < f.size(); ++k) m[(i64) i + (i64) k] = (m[(i64) i + (i64) k] + f[k].val()) % P; } clean(m); return m; }
    static void verify(Ctx& c, T& t, const Model& m) { c.require(all(c, t) == m, "terms"); size_t k = 0; for (auto& [i, v] : m) { if (++k > 12) break; c.eq((u64) t[(I) i].val(), v, "a coefficient"); if (!m.count(i + 1)) c.eq((u64) t[(I) (i + 1)].val(), 0ull, "a coefficient that is not there"); if (i && !m.count(i - 1)) c.eq((u64) t[(I) (i - 1)].val(), 0ull, "a coefficient that is not there"); } }
    static Model madd(const Model& a, const Model& b, u64 k) { Model z = a; for (auto& [i, v] : b) z[i] = (z[i] + k * v) % P; clean(z); return z; }
    static Model mmul(const Model& a, const Model& b) { Model z; for (auto& [i, v] : a) for (auto& [j, w] : b) z[i + j] = (z[i + j] + v * w) % P; clean(z); return z; }
    static void act(Ctx& c, Rng& r, i64 sc, T& x, Model& m, const T& y, const Model& n, Go& go) {
        auto out = [&](auto f, const Model& want) { auto q = tried<T>(go, f, 10); if (q) { verify(c, *q, want); if (r.chance(1, 2)) { x = *q; m = want; } } };
        const i64 lim = sizeof(I) == 8 ? 1ll << 60 : 1000000000; auto stored = [](T t) { std::pair<i64, size_t> z(0, 0); for (auto& [i, f] : t) z.first = std::max(z.first, (i64) i + (i64) f.size()), z.second += f.size() + 1; return z; }; auto [hx, sx] = stored(x); auto [hy, sy] = stored(y);
        if (sx > 250) { x.clear(); m.clear(); return; } if (sy > 500) return;
        switch (r.below(8)) {
        case 0: case 1: out([&] { return x + y; }, madd(m, n, 1)); break;
        case 2: out([&] { return x - y; }, madd(m, n, P - 1)); break;
        case 3: if (hx + hy < lim) { out([&] { return x * y; }, mmul(m, n)); } break;
        case 4: { std::vector<mint> g; Model gm; for (u64 k = 1 + r.below(6), i = 0; i < k; ++i) { u64 v = r.below(P); g.push_back(v); gm[(i64) i] = v; } clean(gm); if (hx + 10 < lim) out([&] { return r.chance(1, 2) ? x * g : g * x; }, mmul(m, gm)); break; }
        case 5: { T q = -x; verify(c, q, madd({}, m, P - 1)); break; }
        case 6: { i64 i = 0; for (auto& [j, f] : x) i = (i64) j + (i64) f.size() - (f.empty() ? 0 : (i64) r.below(2)); i += r.chance(1, 2) ? 0 : (i64) r.below(9); if (i >= lim) break; u64 v = r.below(P); if (r.chance(1, 2)) { if (go(1, [&] { x.add_to_last((I) i, mint(v)); }, 3)) { m[i] = (m[i] + v) % P; clean(m); } } else { std::vector<mint> g; Model gm = m; for (u64 k = 1 + r.below(4), p = 0; p < k; ++p) { u64 w = r.below(P); g.push_back(w); gm[i + (i64) p] = (gm[i + (i64) p] + w) % P; } std::pair<I, std::vector<mint>> ig((I) i, g); if (go(1, [&] { x.add_to_last(ig); }, 3)) { m = gm; clean(m); } } break; }
        default: { // the m-th coefficient of x / Q
            std::vector<mint> q{ 1 }; V qm{ 1 }; for (u64 k = r.below(3); k--;) { u64 v = r.below(P); q.push_back(v); qm.push_back(v); } i64 top = (i64) r.below(300); auto w = tried<mint>(go, [&] { return T::bostan_mori(x, q, top); }, 30); if (!w) break; V s((size_t) top + 1); for (i64 i = 0; i <= top; ++i) { auto it = m.find(i); u64 v = it == m.end() ? 0 : it->second; for (size_t k = 1; k < qm.size() && (i64) k <= i; ++k) v = (v + (P - qm[k]) * s[(size_t) i - k]) % P; s[(size_t) i] = v; } c.eq((u64) w->val(), s[(size_t) top], "coefficient of a quotient"); }
        }
        (void) sc;
    }
    static u64 hash(const Model& m) { u64 h = 7; for (auto& [i, v] : m) h = sim::mix64(h * 31 + (u64) i * 1000003 + v); return h; }
};
sim::RegisterWorld w1(values::def<Rat<suisen::FPS<mint>, true>>("rational_fps", "polynomial/rational_fps.hpp over polynomial/fps.hpp")), w2(values::def<Rat<suisen::FormalPowerSeries<mint>, false>>("rational_formal_power_series", "polynomial/rational_fps.hpp over polynomial/formal_power_series.hpp")), w3(values::def<Sparse<int>>("sparse_runs_32", "polynomial/vec_sparse_fps.hpp")), w4(values::def<Sparse<long long>>("sparse_runs_64", "polynomial/vec_sparse_fps.hpp"));
}
