#include "numref.hpp"
#include "library/number/fast_discrete_logarithm.hpp"
using namespace nr; namespace fd = suisen::fast_discrete_logarithm;
static int brute(u64 a, u64 b, u64 m) { u64 x = 1 % m; std::unordered_set<u64> seen; for (int i = 0;; ++i) { if (x == b % m) return i; if (!seen.insert(x).second) return -1; x = x * a % m; } }
enum { SMALL, KNOWN, IDX_NEW, IDX_SAME_A, IDX_STATIC, PRIME_NONE, BSGS };
static void run(sim::Ctx& c) {
    fd::IndexCalculus ic; u64 p = 0, a = 0; std::vector<u64> bases, mods; auto base = [&](sim::Rng& r, u64 p) { u64 x = 1 + r.below(p - 1); if (!bases.empty() && r.chance(1, 2)) { u64 y = bases[r.below(bases.size())] % p; if (y) x = y; } bases.push_back(x); return x; };            // long-lived calculator: reuses relations across calls
    auto prime_case = [&](u64 p, u64 a, u64 b, int got, bool minimal) {
        Fac f; f[p] = 1; Grp g = group(f); bool inside = powm(b, order(a, g), p) == 1;
        c.obs((u64) got);
        if (!inside) { c.require(got == -1, "dlog-should-be-absent", std::to_string(a) + "^x=" + std::to_string(b) + " mod " + std::to_string(p) + " got " + std::to_string(got)); sim::probe("no_logarithm"); }
        else { c.require(got >= 0 && powm(a, (u64) got, p) == b, "dlog-wrong", std::to_string(a) + "^x=" + std::to_string(b) + " mod " + std::to_string(p) + " got " + std::to_string(got)); if (minimal) c.require((u64) got < order(a, g), "dlog-not-minimal"); }
        c.state(sim::mix64(p) + a * 7 + b);
    };
    while (c.next()) {
        sim::Rng r = c.rng(0);
        switch (c.cur->code) {
        case SMALL: { int m = 1 + (int) r.below(r.chance(1, 2) ? 40 : 3000), x = (int) r.below((u64) m * 2), y = (int) r.below((u64) m);
            if (r.chance(1, 4)) { static const int pw[] = { 64, 128, 1024, 2048, 729, 625, 2187, 2401, 1331, 243 * 8, 81 * 25, 49 * 27 }; m = pw[r.below(12)]; x = (int) r.below((u64) m); y = (int) powm((u64) x, r.below(200), (u64) m); }
            if (m == 1) { c.eq(fd::discrete_logarithm(x, y, m), 0, "dlog mod 1"); break; } c.eq(fd::discrete_logarithm(x, y, m), brute((u64) x % (u64) m, (u64) y, (u64) m), "discrete_logarithm"); c.state((u64) m * 1000003 + (u64) x * 3001 + (u64) y); break; }
        case KNOWN: { int m = 2 + (int) r.below(0x7ffffffd); if (r.chance(1, 2)) { m = 1; while (true) { u64 q = prime_at_least(2 + r.below(r.chance(1, 2) ? 10 : 1000)); if ((u64) m * q > 0x7fffffff) break; m *= (int) q; if (r.chance(1, 6)) break; } if (m < 2) m = 6; }
            u64 x = r.below((u64) m), e = r.below(r.chance(1, 3) ? 40 : 2000000000), y = powm(x, e, (u64) m); int got = fd::discrete_logarithm((int) x, (int) y, m); c.obs((u64) got);
            c.require(got >= 0 && powm(x, (u64) got, (u64) m) == y && (u64) got <= e, "dlog-known", std::to_string(x) + "^" + std::to_string(e) + "=" + std::to_string(y) + " mod " + std::to_string(m) + " got " + std::to_string(got)); break; }
        case IDX_NEW: { p = prime_at_most(r.chance(1, 3) ? 3 + r.below(200) : r.chance(1, 2) ? 0x7fffffffull - r.below(5000) : 3 + r.below(0x7ffffffb)); if (!mods.empty() && r.chance(1, 4)) p = mods[r.below(mods.size())]; mods.push_back(p); a = base(r, p); u64 b = r.chance(2, 3) ? powm(a, r.below(p), p) : 1 + r.below(p - 1);
            if (a == 1 && b != 1) break; prime_case(p, a, b, ic((int) a, (int) b, (int) p), true); break; }
        case IDX_SAME_A: { if (!p) break; if (r.chance(1, 3)) a = base(r, p); u64 b = r.chance(2, 3) ? powm(a, r.below(p), p) : 1 + r.below(p - 1); if (a == 1 && b != 1) break; sim::probe("relations_reused"); prime_case(p, a, b, ic((int) a, (int) b, (int) p), true); break; }
        case IDX_STATIC: { u64 q = prime_at_most(70 + r.below(2000000000)), x = 1 + r.below(q - 1), b = powm(x, r.below(q), q); if (x == 1) break; prime_case(q, x, b, fd::IndexCalculus::discrete_logarithm((int) x, (int) b, (int) q), true); break; }
        case PRIME_NONE: { u64 q = prime_at_most(70 + r.below(2000000000)), x = powm(2 + r.below(q - 2), 2, q), b = 1 + r.below(q - 1); if (x == 1) break; prime_case(q, x, b, fd::discrete_logarithm((int) x, (int) b, (int) q), true); break; }
        case BSGS: { using mint = atcoder::dynamic_modint<777>; if (r.chance(1, 3)) { int m = 2 + (int) r.below(r.chance(1, 2) ? 0x7ffffffd : 3000000); mint::set_mod(m); u64 x = r.below((u64) m), e = r.below(r.chance(1, 2) ? 50 : 2000000000), y = powm(x, e, (u64) m); int got = suisen::discrete_logarithm(mint(x), mint(y)); c.require(got >= 0 && (u64) got <= e && powm(x, (u64) got, (u64) m) == y, "bsgs-known", std::to_string(x) + "^" + std::to_string(e) + " mod " + std::to_string(m) + " got " + std::to_string(got)); c.eq(mint::mod(), m, "modulus restored"); break; } int m = 2 + (int) r.below(3000); mint::set_mod(m); u64 x = r.below((u64) m), y = r.below((u64) m); if (r.chance(1, 2)) y = powm(x, r.below(100), (u64) m); c.eq(suisen::discrete_logarithm(mint(x), mint(y)), brute(x, y, (u64) m), "bsgs"); c.eq(mint::mod(), m, "modulus restored"); break; }
        }
        c.eq(atcoder::dynamic_modint<73495793>::mod(), 998244353, "shared modulus restored");
    }
}
static int warm = (suisen::fast_factorize::factorize<int>(4), 0);
static sim::WorldDef def() {
    sim::WorldDef d; d.prop = "C04"; d.name = "discrete_log"; d.run = run; d.max_ops = 10; d.ncfg = 1; d.share = 2; d.real = "fast_discrete_logarithm (index calculus, Pohlig-Hellman), discrete_logarithm"; d.stub = "AtCoder Library modint and crt";
    d.ops = { {"small", 4, 1}, {"known_exponent", 3, 1}, {"index_calculus", 3, 1}, {"index_calculus_again", 4, 1}, {"index_calculus_static", 1, 1}, {"maybe_absent", 1, 1}, {"bsgs", 1, 1} }; return d;
}
static sim::RegisterWorld w(def());
