// C12: binomial coefficients for composite and changing moduli: several tables alive, copied and swapped, while memory fails.
#include "sim.hpp"
#include <map>
#include <memory>
#include <atcoder/modint>
#include "library/sequence/binomial_coefficient.hpp"
#include "library/sequence/binomial_coefficitnt_enumeration.hpp"
#include "library/sequence/binomial_coefficient_small_r_offline.hpp"
#include "multi.hpp"
using u64 = uint64_t; using i64 = int64_t; using u128 = unsigned __int128;
namespace {
u64 pw(u64 a, u64 k, u64 p) { u64 r = 1 % p; a %= p; for (; k; k >>= 1) { if (k & 1) r = (u128) r * a % p; a = (u128) a * a % p; } return r; }
// n! without its factors p, modulo pq; the number of factors p is added to e
u64 units(u64 n, u64 p, u64 pq, u64& e) { u64 res = 1 % pq; while (n) { u64 cyc = 1, part = 1; for (u64 i = 1; i < pq; ++i) if (i % p) { cyc = cyc * i % pq; if (i <= n % pq) part = part * i % pq; } res = (u128) res * pw(cyc, n / pq, pq) % pq * part % pq; n /= p; e += n; } return res; }
u64 binom_ref(i64 n, i64 k, u64 m) { if (k < 0 || k > n) return 0; u64 res = 0, mod = 1; u64 rest = m;
    for (u64 p = 2; p <= rest; ++p) if (rest % p == 0) { u64 pq = 1, q = 0; while (rest % p == 0) rest /= p, pq *= p, ++q; u64 a = 0, b = 0; u64 num = units((u64) n, p, pq, a), den = units((u64) k, p, pq, b); den = (u128) den * units((u64) (n - k), p, pq, b) % pq; u64 phi = pq / p * (p - 1); u64 v = a - b >= q ? 0 : (u128) num * pw(den, phi - 1, pq) % pq * pw(p, a - b, pq) % pq;
        while (res % pq != v % pq) res += mod; mod *= pq; }
    return res; }
struct Small {
    using T = suisen::binom_small_mod; struct Model { u64 m = 1; }; 
    static void make(sim::Ctx&, sim::Rng& r, i64, T*& t, Model& m) { static const int ms[] = { 1, 2, 4, 8, 16, 32, 3, 9, 27, 6, 12, 24, 72, 1000, 30, 210, 2310, 625, 49, 97, 1009, 2048, 2187, 720, 5040, 999, 1024 }; m.m = (u64) (r.chance(1, 2) ? ms[r.below(27)] : 1 + (int) r.below(3000)); if (m.m == 1 && r.chance(1, 2)) t = new T(); else t = new T((int) m.m); }
    static void one(sim::Ctx& c, T& t, Model& m, i64 n, i64 k) { c.eq((u64) t(n, k), binom_ref(n, k, m.m), "binomial modulo a small number"); }
    static void step(sim::Ctx& c, sim::Rng& r, T& t, Model& m, bool upd, multi::Go& go) {
        i64 n = (i64) (upd ? r.below(400) : r.chance(1, 3) ? r.next() >> 1 : r.next() >> (1 + r.below(50))), k = r.chance(1, 6) ? n - (i64) r.below(8) : r.chance(1, 4) ? (i64) r.below(30) : (i64) r.below((u64) n + 1); if (r.chance(1, 12)) k = -1 - k; if (r.chance(1, 12)) n = -n;
        u64 want = binom_ref(n, k, m.m), got = 0; if (go(1, [&] { got = (u64) t(n, k); }, 2)) c.eq(got, want, "binomial modulo a small number"); if (go.failed) one(c, t, m, n, k); }
    static void verify(sim::Ctx& c, T& t, Model& m) { one(c, t, m, 137, 59); one(c, t, m, 1000000007, 31); }
    static u64 hash(const Model& m) { return m.m; }
};
sim::RegisterWorld w1(multi::def<Small>("C12", "binomial_small_mod", "library/sequence/binomial_coefficient.hpp"));
using dm = atcoder::modint;
void run(sim::Ctx& c) { struct Old { std::unique_ptr<suisen::ArbitraryModBinomialCoefficients<dm>> t; std::vector<u64> want; }; std::vector<Old> os; u64 m = 1000; dm::set_mod(1000);
    auto row = [](int n, u64 m) { std::vector<u64> v(1, 1 % m); for (int i = 1; i <= n; ++i) { v.push_back(0); for (int j = i; j > 0; --j) v[(size_t) j] = (v[(size_t) j] + v[(size_t) j - 1]) % m; } return v; };
    while (c.next()) { sim::Rng r = c.rng(2);
        switch (c.cur->code) {
        case 0: m = r.chance(1, 3) ? 2 + r.below(60) : r.chance(1, 2) ? 2 + r.below(100000) : 1000000000 + r.below(1000); dm::set_mod((int) m); break;
        case 1: { int n = (int) c.arg(0, 0, 120); Old o; bool failed = false; o.want = row(n, m); if (c.faults_on() && r.chance(1, 3)) sim::arm_alloc_failure((i64) r.below(10)); try { sim::Armed a; o.t.reset(new suisen::ArbitraryModBinomialCoefficients<dm>((unsigned) n)); } catch (const std::bad_alloc&) { failed = true; sim::probe("request_failed"); } sim::disarm_alloc_failure(); if (failed) o.t.reset(new suisen::ArbitraryModBinomialCoefficients<dm>((unsigned) n)); if (os.size() < 4) os.push_back(std::move(o)); else os[r.below(4)] = std::move(o); break; }
        case 2: { int n = (int) c.arg(0, 0, 60); auto t = suisen::binom_table<dm>(n); auto f = suisen::binom_table<u64>(std::min(n, 60)); for (int i = 0; i <= n; ++i) { auto v = row(i, m); for (int j = 0; j <= n; ++j) c.eq((u64) t[(size_t) i][(size_t) j].val(), j <= i ? v[(size_t) j] : 0, "table of binomials"); } auto v = row(n, 1ull << 62); for (int j = 0; j <= n; ++j) c.eq(f[(size_t) n][(size_t) j], v[(size_t) j], "exact table of binomials"); break; }
        case 3: { using mint = atcoder::modint998244353; const u64 P = 998244353; std::vector<std::pair<long long, int>> q; std::vector<u64> want; int k = (int) c.arg(0, 0, 12), R = (int) c.arg(1, 0, 200); if (r.chance(1, 8)) R = 0; for (int i = 0; i < k; ++i) { long long n = r.chance(1, 2) ? (long long) r.below(300) : (long long) (r.next() >> 4); int s = (int) r.below((u64) R + 1); q.push_back({ n, s }); u64 a = 1, b = 1; for (int j = 0; j < s; ++j) { a = (u128) a * (u64) (((n - j) % (i64) P + (i64) P) % (i64) P) % P; b = (u128) b * (u64) (j + 1) % P; } want.push_back((u128) a * pw(b, P - 2, P) % P); }
            std::vector<mint> got; bool failed = false; if (c.faults_on() && r.chance(1, 3)) sim::arm_alloc_failure((i64) r.below(40)); try { sim::Armed a; got = suisen::binomial_coefficient_small_r_offline<mint>(q); } catch (const std::bad_alloc&) { failed = true; sim::probe("request_failed"); } sim::disarm_alloc_failure(); if (failed) got = suisen::binomial_coefficient_small_r_offline<mint>(q); c.eq(got.size(), want.size(), "number of answers"); for (size_t i = 0; i < want.size(); ++i) c.eq((u64) got[i].val(), want[i], "binomial with a small lower index"); break; }
        }
        for (auto& o : os) { auto& v = o.t->get_coeffs(); c.eq(v.size(), o.want.size(), "row length"); for (size_t i = 0; i < v.size(); ++i) { c.eq((u64) v[i].val(), o.want[i], "row of binomials"); c.eq((u64) (*o.t)[(unsigned) i].val(), o.want[i], "row of binomials"); } }
        c.state(m * 1009 + (u64) c.cur->code * 31 + os.size()); } }
sim::RegisterWorld w2([] { sim::WorldDef d; d.prop = "C12"; d.name = "binomial_rows"; d.run = run; d.max_ops = 25; d.ncfg = 0; d.faults = true; d.real = "library/sequence/binomial_coefficitnt_enumeration.hpp, binomial_coefficient_small_r_offline.hpp, binomial_coefficient.hpp"; d.stub = "ac-library stand-in, memory"; d.ops = { {"set_mod", 3, 3}, {"row", 5, 3}, {"table", 2, 3}, {"small_r", 5, 3} }; return d; }());
}
