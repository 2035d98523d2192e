// Counting sequences and sums that all draw on the shared factorial / inverse / power tables, in every order of calls.
#include <atcoder/modint>
#include <atcoder/convolution>
#include <cassert>
#include <deque>
#include "library/math/factorial.hpp"
#include "library/math/inv_mods.hpp"
#include "library/polynomial/formal_power_series.hpp"
#include "library/sequence/bell_number.hpp"
#include "library/sequence/bernoulli_number.hpp"
#include "library/sequence/eulerian_number.hpp"
#include "library/sequence/montmort_number.hpp"
#include "library/sequence/partition_number.hpp"
#include "library/sequence/powers.hpp"
#include "library/sequence/stirling_number1.hpp"
#include "library/sequence/stirling_number2.hpp"
#include "library/sequence/sum_of_powers.hpp"
#include "library/math/binomial_coefficient_sum.hpp"
#include "library/math/sum_i^d_r^i.hpp"
#include "library/polynomial/polynomial_taylor_shift.hpp"
#include "library/polynomial/shift_of_sampling_points.hpp"
#include "library/polynomial/formal_power_series_relaxed.hpp"
#include "library/polynomial/fps_naive.hpp"
#include "library/polynomial/subset_sum.hpp"
#include "library/math/factorial_large.hpp"
using u64 = uint64_t; using i64 = int64_t; using mint = atcoder::modint998244353; using fps = suisen::FormalPowerSeries<mint>; using V = std::vector<mint>;
namespace sim { template <> inline std::string show<mint>(const mint& m) { return std::to_string(m.val()); } template <> inline uint64_t hash_of<mint>(const mint& m) { return mix64(m.val()); } }
static V naive_mul(const V& a, const V& b, size_t n) { V r(n); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size() && i + j < n; ++j) r[i + j] += a[i] * b[j]; return r; }
static V naive_inv(const V& f, size_t n) { V g(n); mint i0 = f[0].inv(); for (size_t i = 0; i < n; ++i) { mint s = i == 0 ? 1 : 0; for (size_t j = 1; j <= i && j < f.size(); ++j) s -= f[j] * g[i - j]; g[i] = s * i0; } return g; }
static V naive_exp(const V& f, size_t n) { V g(n); if (n) g[0] = 1; for (size_t i = 1; i < n; ++i) { mint s = 0; for (size_t j = 1; j <= i && j < f.size(); ++j) s += f[j] * (int) j * g[i - j]; g[i] = s * mint(i).inv(); } return g; }
static V naive_log(const V& f, size_t n) { V g(n); for (size_t i = 1; i < n; ++i) { mint s = i < f.size() ? f[i] * (int) i : mint(0); for (size_t j = 1; j < i; ++j) if (i - j < f.size()) s -= g[j] * (int) j * f[i - j]; g[i] = s * mint(i).inv(); } return g; }
static V naive_pow(const V& f, i64 k, size_t n) { V r(n); if (n) r[0] = 1; for (i64 i = 0; i < k; ++i) r = naive_mul(r, f, n); return r; }
static mint fct(int n) { mint r = 1; for (int i = 2; i <= n; ++i) r *= i; return r; }
static mint bin(int n, int k) { if (k < 0 || k > n || n < 0) return 0; mint r = 1; for (int i = 0; i < k; ++i) r = r * (n - i) / (i + 1); return r; }
enum { BELL, BERN, EULER, EULERT, MONT, PART, POW, S1, S1R, S1K, S1T, S2, S2T, SUMP, BSUM, BSUMR, SIDR, TSHIFT, SSHIFT, RNEW, RSTEP, FINV, FEXP, FLOG, FPOW, NFPS, SUBSET, LARGE, GROW };
struct Rel { int kind; i64 k; size_t pos = 0; V f; V want; suisen::RelaxedInv<mint> inv; suisen::RelaxedExp<mint> exp; suisen::RelaxedLog<mint> log; suisen::RelaxedPow<mint> pow; suisen::RelaxedSqrt<mint> sq; };
static void run(sim::Ctx& c) {
    using namespace suisen; std::vector<std::unique_ptr<Rel>> rs; using lm = atcoder::static_modint<40009>; using lm2 = atcoder::static_modint<12239>; factorial_large<lm>::threshold = factorial_large<lm2>::threshold = (int) c.cfg(0, 3) ? 700 : 20; bool faults = c.faults_on();
    while (c.next()) {
        sim::Rng r = c.rng(2); int n = (int) c.arg(0, 0, r.chance(1, 6) ? 150 : 30), k = (int) c.arg(1, 0, 20); V got, want; mint g1, w1; const char* what = "sequence value";
        auto rnd = [&](int m, bool nz) { V v((size_t) m); bool sparse = r.chance(1, 3); for (auto& x : v) x = sparse && r.chance(3, 4) ? 0 : r.below(998244353); if (nz && m) v[0] = 1 + r.below(998244352); return v; };
        bool arm = faults && r.chance(1, 3), failed = false; u64 kth = r.below(12);
        auto go = [&](auto&& fn) { if (!arm) { fn(); return; } sim::arm_alloc_failure((i64) kth); try { sim::Armed a; fn(); } catch (const std::bad_alloc&) { failed = true; } sim::disarm_alloc_failure(); };
        switch (c.cur->code) {
        case BELL: go([&] { got = bell_number<fps>(n); }); if (!failed) { auto t = std::vector<V>((size_t) n + 1, V((size_t) n + 2)); t[0][0] = 1; for (int i = 0; i <= n; ++i) { if (i) for (int j = 1; j <= i; ++j) t[i][j] = t[i - 1][j - 1] + j * t[i - 1][j]; mint s = 0; for (int j = 0; j <= i; ++j) s += t[i][j]; want.push_back(s); } got.resize(want.size()); what = "bell"; } break;
        case BERN: go([&] { got = bernoulli_number<fps>(n); }); if (!failed) { want.resize((size_t) n + 1); for (int m = 0; m <= n; ++m) { mint s = m == 0; for (int j = 0; j < m; ++j) s -= bin(m, j) * want[j] / (m - j + 1); want[m] = s; } what = "bernoulli"; } break;
        case EULER: go([&] { got = eulerian_number<fps>((uint32_t) n); }); if (!failed) { if (n) { V a{ 1 }; for (int i = 2; i <= n; ++i) { V b((size_t) i); for (int j = 0; j < i; ++j) b[j] = (j ? (i - j) * a[j - 1] : mint(0)) + (j < i - 1 ? (j + 1) * a[j] : mint(0)); a = b; } want = a; } what = "eulerian"; } break;
        case EULERT: { if (n > 30) n = 30; auto t = eulerian_number_table<mint>((uint32_t) n); if (n) { c.eq((int) t.size(), n + 1, "eulerian table size"); V a{ 1 }; for (int i = 2; i <= n; ++i) { V b((size_t) i); for (int j = 0; j < i; ++j) b[j] = (j ? (i - j) * a[j - 1] : mint(0)) + (j < i - 1 ? (j + 1) * a[j] : mint(0)); a = b; } got = t[n]; want = a; what = "eulerian table"; } break; }
        case MONT: go([&] { got = montmort_number<mint>(n); }); if (!failed) { for (int i = 0; i <= n; ++i) { mint s = 0; for (int j = 0; j <= i; ++j) s += (j & 1 ? -1 : 1) * fct(i) / fct(j); want.push_back(s); } what = "montmort"; } break;
        case PART: go([&] { got = partition_number<fps>(n); }); if (!failed) { want.assign((size_t) n + 1, 0); want[0] = 1; for (int i = 1; i <= n; ++i) for (int j = i; j <= n; ++j) want[j] += want[j - i]; what = "partition"; } break;
        case POW: go([&] { got = powers<mint>((uint32_t) n, (u64) k); }); if (!failed) { for (int i = 0; i <= n; ++i) want.push_back(mint(i).pow(k)); what = "powers"; } break;
        case S1: case S1R: case S1T: case S1K: { if (n > 60) n = 60; V row{ 1 }; for (int i = 1; i <= n; ++i) { V b((size_t) i + 1); for (int j = 0; j <= i; ++j) b[j] = (j ? row[j - 1] : mint(0)) + (j < i ? (i - 1) * row[j] : mint(0)); row = b; } V rev(row.rbegin(), row.rend());
            if (c.cur->code == S1) { go([&] { got = stirling_number1<fps>(n); }); want = row; } else if (c.cur->code == S1R) { go([&] { got = stirling_number1_reversed<fps>(n); }); want = rev; } else if (c.cur->code == S1T) { auto t = stirling_number1_table<mint>(n); got = t[n]; want = row; if (n == 0) want = { 1 }; } else { go([&] { got = stirling_number1_reversed<mint>((long long) n, k); }); rev.resize((size_t) k + 1); want = rev; } what = "stirling1"; break; }
        case S2: case S2T: { if (n > 60) n = 60; V row{ 1 }; for (int i = 1; i <= n; ++i) { V b((size_t) i + 1); for (int j = 0; j <= i; ++j) b[j] = (j ? row[j - 1] : mint(0)) + (j < i ? j * row[j] : mint(0)); row = b; } if (c.cur->code == S2) go([&] { got = stirling_number2<fps>(n); }); else got = stirling_number2_table<mint>(n)[n]; want = row; what = "stirling2"; break; }
        case SUMP: go([&] { got = sum_of_powers<fps>(n, k); }); if (!failed) { for (int p = 0; p <= k; ++p) { mint s = 0; for (int i = 1; i <= n; ++i) s += mint(i).pow(p); want.push_back(s); } what = "sum of powers"; } break;
        case BSUM: case BSUMR: { mint x = r.chance(1, 4) ? mint(-1) : r.chance(1, 3) ? mint(1) : mint(r.below(998244352)); std::vector<std::tuple<int, int, int>> q; std::vector<std::pair<int, int>> q2; int m = (int) r.below(6); for (int i = 0; i < m; ++i) { int M = (int) r.below(40), a = (int) r.below(45), b = a + (int) r.below(10); q.push_back({ a, b, M }); q2.push_back({ (int) r.below(45) - 2, M }); }
            if (c.cur->code == BSUM) { go([&] { got = binom_sum<mint>(q, x); }); for (auto [a, b, M] : q) { mint s = 0; for (int i = a; i <= b; ++i) s += x.pow(i) * bin(M, i); want.push_back(s); } } else { go([&] { got = binom_sum_prefix<mint>(q2, x); }); for (auto [a, M] : q2) { mint s = 0; for (int i = 0; i <= a; ++i) s += x.pow(i) * bin(M, i); want.push_back(s); } } what = "binomial sum"; break; }
        case SIDR: { int d = k; mint x = r.chance(1, 4) ? mint(1) : r.chance(1, 4) ? mint(0) : mint(r.below(1000)); int t = (int) r.below(40), m = 1 + (int) r.below(20); bool many = r.chance(1, 2), inf = r.chance(1, 6) && x != mint(1); if (inf) { go([&] { sum_i_i_pow_d_r_pow_i<mint> s(d, x); got = { s.sum() }; }); mint w = 0; for (int j = 0; j <= d; ++j) { mint s2 = 0; for (int i = 0; i <= j; ++i) { mint t2 = mint(i).pow(d) * bin(d + 1, j - i); s2 += (j - i) % 2 ? -t2 : t2; } w += s2 * x.pow(j); } want = { w / (mint(1) - x).pow(d + 1) }; what = "infinite sum i^d r^i"; break; } go([&] { sum_i_i_pow_d_r_pow_i<mint> s(d, x); got = many ? s.sum((i64) t, m) : V{ s.sum((i64) t) }; }); if (!many) m = 1; for (int z = t; z < t + m; ++z) { mint s = 0; for (int i = 0; i < z; ++i) s += mint(i).pow(d) * x.pow(i); want.push_back(s); } what = "sum i^d r^i"; break; }
        case TSHIFT: { V f = rnd(1 + n % 40, false); mint x = r.below(998244353); fps g; go([&] { g = translate<fps, mint>(fps(f), x); }); got = g; want.assign(f.size(), 0); for (size_t i = 0; i < f.size(); ++i) for (size_t j = 0; j <= i; ++j) want[j] += f[i] * bin((int) i, (int) j) * x.pow((i64) (i - j)); what = "taylor shift"; break; }
        case SSHIFT: { V f = rnd(1 + n % 12, false); mint t = r.below(998244353); int m = 1 + (int) r.below(20); V ys; for (size_t i = 0; i < f.size(); ++i) { mint s = 0; for (size_t j = f.size(); j-- > 0;) s = s * (int) i + f[j]; ys.push_back(s); } go([&] { got = shift_of_sampling_points<mint>(ys, t, m); }); for (int i = 0; i < m; ++i) { mint s = 0; for (size_t j = f.size(); j-- > 0;) s = s * (t + i) + f[j]; want.push_back(s); } what = "sampling points"; break; }
        case RNEW: { auto p = std::make_unique<Rel>(); p->kind = (int) r.below(5); p->k = (i64) r.below(5); p->pow = RelaxedPow<mint>(p->k); size_t L = 12 + r.below(r.chance(1, 8) ? 200 : 30); p->f = rnd((int) L, true); if (p->kind == 1) p->f[0] = 0; if (p->kind == 2) p->f[0] = 1; if (p->kind == 3 && r.chance(1, 2)) for (size_t z = r.below(4); z-- > 0;) p->f[z] = 0; if (p->kind == 4) { mint x = 1 + r.below(998244352); p->f[0] = x * x; } p->want = p->kind == 0 ? naive_inv(p->f, L) : p->kind == 1 ? naive_exp(p->f, L) : p->kind == 2 ? naive_log(p->f, L) : p->kind == 3 ? naive_pow(p->f, p->k, L) : V{}; p->want.reserve(L); p->f.shrink_to_fit(); if (rs.size() < 5) rs.push_back(std::move(p)); else rs[r.below(5)] = std::move(p); break; }
        case RSTEP: if (rs.size()) { Rel& q = *rs[r.below(rs.size())]; for (int z = 1 + (int) r.below(12); z-- > 0 && q.pos < q.f.size(); ++q.pos) { mint x = q.f[q.pos], y = q.kind == 0 ? q.inv.append(x) : q.kind == 1 ? q.exp.append(x) : q.kind == 2 ? q.log.append(x) : q.kind == 3 ? q.pow.append(x) : *q.sq.append(x);
            if (q.kind < 4) c.eq(y, q.want[q.pos], "online series"); else { q.want.push_back(y); mint s = 0; for (size_t i = 0; i <= q.pos; ++i) s += q.want[i] * q.want[q.pos - i]; c.eq(s, x, "online square root"); } mint back = q.kind == 0 ? q.inv[(int) q.pos] : q.kind == 1 ? q.exp[(int) q.pos] : q.kind == 2 ? q.log[(int) q.pos] : q.kind == 3 ? q.pow[(int) q.pos] : q.sq[(int) q.pos]; c.eq(back, y, "online read back"); } } break;
        case FINV: { V f = rnd(1 + n, true); fps h; go([&] { h = fps(f).inv(n + 5); }); got = h; want = naive_inv(f, (size_t) n + 5); what = "fps inverse"; break; }
        case FEXP: { V f = rnd(1 + n, false); f[0] = 0; fps h; go([&] { h = fps(f).exp(n + 3); }); got = h; want = naive_exp(f, (size_t) n + 3); what = "fps exp"; break; }
        case FLOG: { V f = rnd(1 + n, false); f[0] = 1; fps h; go([&] { h = fps(f).log(n + 3); }); got = h; want = naive_log(f, (size_t) n + 3); what = "fps log"; break; }
        case FPOW: { V f = rnd(1 + n % 30, r.chance(1, 2)); int z = k % 6; fps h; go([&] { h = fps(f).pow(z, n % 40 + 1); }); got = h; want = naive_pow(f, z, (size_t) (n % 40) + 1); what = "fps pow"; break; }
        case NFPS: { using N = FPSNaive<mint>; V f = rnd(1 + n % 25, true); int kind = (int) r.below(4); size_t m = (size_t) (n % 25) + 3; if (kind == 1) f[0] = 0; if (kind == 2) f[0] = 1; N h; go([&] { N a(f); h = kind == 0 ? a.inv((int) m) : kind == 1 ? a.exp((int) m) : kind == 2 ? a.log((int) m) : a.pow(k % 5, (int) m); }); got = V(h.begin(), h.end()); want = kind == 0 ? naive_inv(f, m) : kind == 1 ? naive_exp(f, m) : kind == 2 ? naive_log(f, m) : naive_pow(f, k % 5, m); got.resize(m); what = "naive fps"; break; }
        case SUBSET: { int m = (int) r.below(12); std::vector<int> it; for (int i = 0; i < m; ++i) it.push_back((int) r.below((u64) n + 3) / (r.chance(1, 2) ? 4 : 1)); go([&] { got = subset_sum<fps>(n, it); }); want.assign((size_t) n + 1, 0); want[0] = 1; for (int e : it) for (int j = n; j >= e; --j) { if (e == 0) want[j] *= 2; else want[j] += want[j - e]; } what = "subset sum"; break; }
        case LARGE: { auto large = [&](auto tag) { using lm = decltype(tag); const u64 P = (u64) lm::mod(); i64 x = (i64) (r.chance(1, 4) ? P - 1 - r.below(600) : r.below(r.chance(1, 2) ? P : 1500)); int which = (int) r.below(6); i64 y = (i64) r.below((u64) x + 1); lm gg, ww; auto F = [](i64 q) { lm z = 1; for (i64 i = 2; i <= q; ++i) z *= i; return z; }; go([&] { gg = which == 0 ? factorial_large<lm>::fac(x) : which == 1 ? factorial_large<lm>::fac_inv(x) : which == 2 ? factorial_large<lm>::binom((int) x, (int) y) : which == 3 ? factorial_large<lm>::perm((int) x, (int) y) : which == 4 ? factorial_large<lm>::polynom((int) x, (int) y, (int) ((x - y) / 2)) : factorial_large<lm>::fac((i64) P + x); }); ww = which == 0 ? F(x) : which == 1 ? F(x).inv() : which == 2 ? F(x) / F(y) / F(x - y) : which == 3 ? F(x) / F(x - y) : which == 4 ? F(x) / F(y) / F((x - y) / 2) / F(x - y - (x - y) / 2) : lm(0); if (!failed) c.eq((int) gg.val(), (int) ww.val(), "large factorial"); }; if (r.chance(1, 2)) large(lm()); else large(lm2()); break; }
        case GROW: { factorial<mint>::ensure((int) r.below(400)); if (r.chance(1, 2)) inv_mods<mint>::ensure((int) r.below(400)); break; }
        }
        if (failed) { sim::probe("request_failed_by_allocation"); continue; }
        if (!(got == want)) c.fail(what, "got " + sim::show(got) + " want " + sim::show(want)); c.obs(sim::hash_of(got)); c.state((u64) c.cur->code * 1009 + (u64) n * 31 + (u64) k);
    }
}
static sim::RegisterWorld w([] { sim::WorldDef d; d.prop = "C12"; d.name = "sequences"; d.run = run; d.max_ops = 40; d.ncfg = 2; d.share = 3; d.faults = true; d.real = "sequence/*.hpp, math/binomial_coefficient_sum.hpp, sum_i^d_r^i.hpp, factorial_large.hpp, polynomial/formal_power_series*.hpp, fps_naive.hpp, polynomial_taylor_shift.hpp, shift_of_sampling_points.hpp, subset_sum.hpp"; d.stub = "ac-library stand-in";
    d.ops = { {"bell", 2, 3}, {"bernoulli", 2, 3}, {"eulerian", 2, 3}, {"eulerian_table", 1, 3}, {"montmort", 1, 3}, {"partition", 2, 3}, {"powers", 1, 3}, {"stirling1", 2, 3}, {"stirling1_rev", 1, 3}, {"stirling1_k", 2, 3}, {"stirling1_table", 1, 3}, {"stirling2", 2, 3}, {"stirling2_table", 1, 3}, {"sum_of_powers", 2, 3}, {"binom_sum", 2, 3}, {"binom_prefix", 2, 3}, {"sum_idri", 3, 3}, {"taylor", 2, 3}, {"sampling", 2, 3}, {"relaxed_new", 3, 3}, {"relaxed_step", 12, 3}, {"fps_inv", 2, 3}, {"fps_exp", 2, 3}, {"fps_log", 2, 3}, {"fps_pow", 2, 3}, {"naive_fps", 3, 3}, {"subset", 2, 3}, {"large", 3, 3}, {"grow", 2, 3} }; return d; }());
