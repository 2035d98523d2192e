#include "numref.hpp"
#include "library/number/primitive_root.hpp"
using namespace nr;
// prime with known p-1 = 2 * product of known primes
static std::pair<u64, Fac> special_prime(sim::Rng& r, int bits) {
    for (;;) {
        Fac f; f[2] = 1; u64 v = 2; int guard = 0;
        while (guard++ < 40) { u64 q = prime_at_least(2 + r.below(r.chance(1, 3) ? 1u << std::min(17, std::max(2, bits / 2)) : 20)); if ((u128) v * q >> bits) break; v *= q; f[q]++; }
        if (prime(v + 1)) return { v + 1, f };
    }
}
template <typename T> static void with_mod(sim::Ctx& c, const Fac& f, const std::map<u64, Fac>& pm1, int k0) {
    Grp g = group(f, pm1); T m = (T) g.m; if (g.m < 2) return;
    suisen::OrderMod<T> ord(m); c.eq((u64) ord.totient(), g.phi, "totient"); c.eq((u64) ord.carmichael(), g.lam, "carmichael"); c.eq((u64) ord.mod(), g.m, "mod");
    c.eq(ord.is_prime(), prime(g.m), "is_prime");
    { auto pf = ord.carmichael_prime_factors(); std::set<u64> s(pf.begin(), pf.end()); std::set<u64> t; for (auto [p, q] : g.flam) t.insert(p); c.require(s == t, "carmichael_prime_factors"); }
    sim::Rng r = c.rng(k0);
    bool cyclic = g.lam == g.phi;
    if (cyclic) { u64 x = (u64) ord.primitive_root(); c.obs(x); c.require(x < g.m && gcd(x, g.m) == 1 && order(x, g) == g.phi, "primitive_root", std::to_string(x) + " is not a primitive root of " + std::to_string(g.m));
        u64 y = (u64) suisen::primitive_root<T>(m); c.require(y < g.m && gcd(y, g.m) == 1 && order(y, g) == g.phi, "primitive_root()", std::to_string(y) + " mod " + std::to_string(g.m)); }
    for (int i = 0; i < 4; ++i) {
        u64 a = 1 + r.below(g.m - 1 ? g.m - 1 : 1); bool co = gcd(a, g.m) == 1;
        { bool want = co && cyclic && order(a, g) == g.phi; c.eq(ord.is_primitive_root((std::make_unsigned_t<T>) a), want, "is_primitive_root"); }
        if (co) c.eq((u64) ord((std::make_unsigned_t<T>) a), order(a, g), "order");
    }
    c.state(g.m);
}
enum { SMALL32, PRIME32, POW32, TOP32, PRIME64, POW64, COMP64 };
static void run(sim::Ctx& c) {
    while (c.next()) {
        sim::Rng r = c.rng(0); std::map<u64, Fac> pm1;
        auto odd_prime = [&](u64 lim) { return prime_at_least(3 + r.below(lim)); };
        switch (c.cur->code) {
        case SMALL32: { u64 m = 2 + r.below(r.chance(1, 2) ? 60 : 5000); with_mod<int>(c, trial(m), {}, 1); break; }
        case PRIME32: { u64 p = prime_at_most(r.chance(1, 3) ? 0x7fffffffull - r.below(3000) : 2 + r.below(0x7ffffffd)); Fac f; f[p] = 1; if (r.chance(1, 2)) with_mod<int>(c, f, {}, 1); else with_mod<long long>(c, f, {}, 1); break; }
        case POW32: { Fac f; u64 p = odd_prime(r.chance(1, 2) ? 20 : 30000); f[p] = 1; while (r.chance(2, 3)) { f[p]++; if (!fits(f, 0x3fffffff)) { f[p]--; break; } } if (r.chance(1, 2)) { f[2] = 1; if (!fits(f, 0x7fffffff)) f.erase(2); } with_mod<int>(c, f, {}, 1); break; }
        case TOP32: { u64 p = prime_at_most(0x80000000ull + r.below(0x7fffffff)); Fac f; f[p] = 1; with_mod<long long>(c, f, {}, 1); break; }     // between 2^31 and 2^32
        case PRIME64: { auto [p, fm] = special_prime(r, 30 + (int) r.below(32)); pm1[p] = fm; Fac f; f[p] = 1; with_mod<long long>(c, f, pm1, 1); break; }
        case POW64: { Fac f; u64 p = odd_prime(r.chance(1, 2) ? 30 : 100000); f[p] = 2; while (r.chance(3, 4)) { f[p]++; if (!fits(f, 1ull << 61)) { f[p]--; break; } } if (r.chance(1, 2)) f[2] = 1; if (!fits(f, 1ull << 62)) break; with_mod<long long>(c, f, pm1, 1); break; }
        case COMP64: { Fac f; for (int i = 0; i < 5; ++i) { u64 p = prime_at_least(2 + r.below(i & 1 ? 3000 : 12)); f[p]++; if (!fits(f, 1ull << 60)) { f.erase(p); break; } } with_mod<long long>(c, f, pm1, 1); break; }
        }
    }
}
static int warm = (suisen::fast_factorize::factorize<int>(4), suisen::fast_factorize::factorize<long long>(4), 0);
static sim::WorldDef def() {
    sim::WorldDef d; d.prop = "C04"; d.name = "order_mod"; d.run = run; d.max_ops = 10; d.ncfg = 1; d.share = 3; d.real = "OrderMod, primitive_root, fast_factorize"; d.stub = "AtCoder Library modint";
    d.ops = { {"small", 3, 2}, {"prime32", 2, 2}, {"prime_power32", 3, 2}, {"prime_2^31_2^32", 2, 2}, {"prime64", 2, 2}, {"prime_power64", 2, 2}, {"composite64", 2, 2} }; return d;
}
static sim::RegisterWorld w(def());
