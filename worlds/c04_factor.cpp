#include "numref.hpp"
#include "library/number/fast_factorize.hpp"
#include "library/number/tetration_mod.hpp"
using namespace nr;
// a composite with known factorisation, at most lim; every prime but the largest is below 2^small_bits
static Fac make(sim::Rng r, u64 lim, int small_bits) {
    Fac f; auto rp = [&](int bits) { u64 lo = bits <= 1 ? 2 : 1ull << (bits - 1); u64 x = lo + r.below(lo); return r.chance(1, 2) ? prime_at_least(x) : prime_at_most(x); };
    auto add = [&](u64 p, int q) { while (q-- > 0) { Fac g = f; g[p]++; if (!fits(g, lim)) return false; f = g; } return true; };
    int lb = 63 - __builtin_clzll(lim) + 1;
    switch (r.below(11)) {
    case 0: { u64 p = rp(1 + (int) r.below((u64) lb)); add(p, 1); break; }                                         // prime
    case 1: { u64 p = rp(2 + (int) r.below((u64) std::min(lb / 2, small_bits))); add(p, 2); break; }             // square of a prime
    case 2: { u64 p = rp(7 + (int) r.below((u64) std::max(1, std::min(lb / 3, small_bits) - 6))); add(p, 3); break; }          // cube
    case 3: { int b = 2 + (int) r.below((u64) std::min(lb / 2, small_bits) - 1); add(rp(b), 1); add(rp(std::max(2, std::min(lb - b, small_bits + 14))), 1); break; } // semiprime
    case 4: { int b = 7 + (int) r.below(8); for (int i = 0; i < 8; ++i) if (!add(rp(std::min(b, small_bits)), 1)) break; break; }     // many medium primes
    case 5: { for (int i = 0; i < 40; ++i) if (!add(rp(1 + (int) r.below(7)), 1)) break; break; }                // smooth
    case 6: { int b = 8 + (int) r.below(8); u64 p = rp(b); add(p, 2); add(prime_at_least(p + 1), 1 + (int) r.below(2)); if (r.chance(1, 2)) add(2, (int) r.below(6)); if (r.chance(1, 2)) add(3 + 2 * r.below(2), 1); break; }
    case 7: { static const u64 around[] = { 999983, 1000003, 1048573, 1048583, 101, 103, 997, 1009, 10007 }; for (int i = 0; i < 3; ++i) add(around[r.below(9)], 1); break; }
    case 9: { int b = 5 + (int) r.below((u64) std::max(1, std::min(lb / 2 - 1, small_bits) - 4)); for (int k = 2 + (int) r.below(5), t = 0; t < 4000; ++t) { u64 p = rp(b), q = (p - 1) * (u64) k + 1; if (!prime(q)) continue; Fac g; g[p] = 1; g[q] = 1; if (fits(g, lim)) { f = g; break; } } break; }   // the shape of strong pseudoprimes
    case 10: { u64 h = 1ull << std::max(1, std::min({ lb / 3 - 5, small_bits - 4, 14 })); for (int t = 0; t < 4000; ++t) { u64 k = 1 + r.below(h), p = 6 * k + 1, q = 12 * k + 1, s = 18 * k + 1; if (!prime(p) || !prime(q) || !prime(s)) continue; Fac g; g[p] = g[q] = g[s] = 1; if (fits(g, lim)) { f = g; break; } } break; }   // Carmichael numbers
    case 8: { int b = std::min(lb / 2, small_bits); u64 p = rp(b); add(p, 1); add(prime_at_least(p + 2), 1); break; }   // close primes
    }
    return f;
}
static bool adversarial(sim::Ctx& c) { int64_t m = c.s.env[sim::E_ENTROPY_MODE]; return m != 0 && m != 2; }
template <typename T> static void check(sim::Ctx& c, const Fac& f) {
    T n = (T) value(f); auto got = suisen::fast_factorize::factorize<T>(n); Fac g; u64 prod = 1;
    for (auto [p, q] : got) { c.require(g.count((u64) p) == 0, "factor-repeated"); c.require(q >= 1, "exponent"); g[(u64) p] = q; for (int i = 0; i < q; ++i) prod *= (u64) p; }
    for (auto [p, q] : g) c.require(prime(p), "factor-not-prime", std::to_string(p) + " of " + std::to_string(value(f)));
    c.require(prod == value(f), "product", std::to_string(value(f)));
    c.require(g == f, "factorisation", std::to_string(value(f))); c.obs(value(f)); c.state(value(f) * 5 + sizeof(T));
}
// value of the tower, exact below m and congruent mod m with at least m otherwise (Euler lifting)
static u64 tower(u64 a, u64 b, u64 m) {
    auto lift = [](u128 x, u64 m) -> u64 { return x < m ? (u64) x : (u64) (x % m) + m; };
    if (a == 0) return lift(1 ^ (b & 1), m); if (a == 1 || b == 0) return lift(1, m); if (m == 1) return 1;
    u64 phi = m, t = m; for (u64 p = 2; p * p <= t; ++p) if (t % p == 0) { phi -= phi / p; while (t % p == 0) t /= p; } if (t > 1) phi -= phi / t;
    u64 e = tower(a, b - 1, phi); u128 res = 1, x = lift(a, m);
    for (; e; e >>= 1) { if (e & 1) res = lift(res * x, m); x = lift(x * x, m); }
    return (u64) res;
}
enum { I32, U32, I64, U64, PRIME, TET, BLOCK };
static void run(sim::Ctx& c) {
    while (c.next()) {
        bool adv = adversarial(c); sim::Rng r = c.rng(0);
        switch (c.cur->code) {
        case I32: check<int>(c, make(r, 0x7fffffff, 16)); break;
        case U32: check<unsigned>(c, make(r, 0xffffffff, 16)); break;
        case I64: check<long long>(c, make(r, 0x7fffffffffffffffull, adv ? 17 : c.arg(1, 0, 9) == 9 ? 31 : 22)); break;
        case U64: check<unsigned long long>(c, make(r, ~0ull, adv ? 17 : c.arg(1, 0, 9) == 9 ? 32 : 22)); break;
        case BLOCK: { u64 b = r.chance(1, 8) ? 999700 : r.below(1000200); for (u64 n = b; n < b + 600; ++n) if (n) { auto got = suisen::fast_factorize::factorize<int>((int) n); u64 rest = n; bool ok = true; for (auto [p, q] : got) { ok = ok && p > 1 && q >= 1; for (int i = 0; ok && i < q; ++i) { ok = rest % (u64) p == 0; rest /= (u64) p; } for (u64 d = 2; ok && d * d <= (u64) p; ++d) ok = (u64) p % d != 0; } c.require(ok && rest == 1, "factorisation of a small number", std::to_string(n)); for (size_t i = 0; i + 1 < got.size(); ++i) for (size_t j = i + 1; j < got.size(); ++j) c.require(got[i].first != got[j].first, "factor-repeated"); c.eq(suisen::miller_rabin::is_prime<int>((int) n), got.size() == 1 && got[0].second == 1, "is_prime of a small number"); } c.state(b); break; }
        case PRIME: { u64 n; if (r.chance(1, 2)) n = value(make(r, r.chance(1, 2) ? ~0ull : 0xffffffffull, 32)); else { int b = 1 + (int) r.below(64); n = r.next() >> (64 - b); if (r.chance(1, 2)) n = prime_at_most(n); }
            if (r.chance(1, 8)) { static const u64 pseudo[] = { 341531, 1050535501, 350269456337, 55245642489451, 7999252175582851, 585226005592931977, 3215031751, 2152302898747, 3474749660383, 341550071728321, 3825123056546413051, 2047, 1373653, 25326001, 4759123141, 1122004669633 }; n = pseudo[r.below(16)] + (r.chance(1, 2) ? 0 : r.below(5) - 2); }
            bool want = prime(n); c.eq(suisen::miller_rabin::is_prime<unsigned long long>(n), want, "is_prime"); if (n <= 0x7fffffffffffffffull) c.eq(suisen::miller_rabin::is_prime<long long>((long long) n), want, "is_prime of long long"); if (n <= 0xffffffffull) c.eq(suisen::miller_rabin::is_prime<unsigned>((unsigned) n), want, "is_prime of unsigned"); if (n <= 0x7fffffffull) c.eq(suisen::miller_rabin::is_prime<int>((int) n), want, "is_prime of int"); break; }
        case TET: { // a^a^...^a mod m, moduli whose totients are factorised internally
            int a = (int) (r.chance(2, 3) ? r.below(13) : r.chance(1, 2) ? r.below(70) : r.below(0x7fffffff)), b = (int) (r.chance(3, 4) ? r.below(7) : r.below(1000000000)), m = 1 + (int) (r.chance(1, 2) ? r.below(50) : r.chance(1, 2) ? r.below(4000) : r.below(0x7fffffff));
            if (r.chance(1, 4)) { m = 1; for (int q = (int) r.below(30); q-- > 0; ) { int p = r.chance(3, 4) ? 2 : 3; if ((u64) m * (unsigned) p > 0x7fffffff) break; m *= p; } if (m > 1 && r.chance(1, 2)) a = (int) (2 + 2 * r.below(6)); }
            c.eq((u64) suisen::tetration_mod(a, b, m), tower((u64) a, (u64) b, (u64) m) % (u64) m, "tetration_mod"); c.state(sim::mix64((u64) a * 1000003 + (u64) b) + (u64) m); break; }
        }
    }
}
static int warm = (suisen::fast_factorize::factorize<int>(4), suisen::fast_factorize::factorize<unsigned>(4), suisen::fast_factorize::factorize<long long>(4), suisen::fast_factorize::factorize<unsigned long long>(4), 0);
static sim::WorldDef def() {
    sim::WorldDef d; d.prop = "C04"; d.name = "factorize"; d.run = run; d.max_ops = 10; d.ncfg = 1; d.share = 3; d.real = "fast_factorize (Pollard rho), Miller-Rabin, Montgomery, sieve, tetration_mod";
    d.ops = { {"factorize_i32", 3, 2}, {"factorize_u32", 2, 2}, {"factorize_i64", 4, 2}, {"factorize_u64", 3, 2}, {"is_prime", 3, 1}, {"tetration", 2, 1}, {"small_numbers", 2, 1} }; return d;
}
static sim::RegisterWorld w(def());
