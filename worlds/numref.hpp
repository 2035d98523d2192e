// Reference number theory (slow, independent of the library).
#pragma once
namespace nr {
using u64 = uint64_t; using u128 = unsigned __int128;
inline u64 mulm(u64 a, u64 b, u64 m) { return (u64) ((u128) a * b % m); }
inline u64 powm(u64 a, u64 e, u64 m) { u64 r = 1 % m; a %= m; for (; e; e >>= 1) { if (e & 1) r = mulm(r, a, m); a = mulm(a, a, m); } return r; }
inline bool prime(u64 n) {
    if (n < 2) return false;
    for (u64 p : { 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37 }) { if (n % p == 0) return n == p; }
    u64 d = n - 1; int s = 0; while (!(d & 1)) d >>= 1, ++s;
    for (u64 a : { 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37 }) { u64 x = powm(a, d, n); if (x == 1 || x == n - 1) continue; bool ok = false; for (int i = 1; i < s && !ok; ++i) { x = mulm(x, x, n); ok = x == n - 1; } if (!ok) return false; }
    return true;
}
inline u64 prime_at_most(u64 n) { if (n < 2) return 2; while (!prime(n)) --n; return n; }
inline u64 prime_at_least(u64 n) { if (n < 2) n = 2; while (!prime(n)) ++n; return n; }
using Fac = std::map<u64, int>;
inline Fac trial(u64 n) { Fac f; for (u64 p = 2; p * p <= n && p < (1u << 17); ++p) while (n % p == 0) n /= p, ++f[p]; if (n > 1) f[n]++; return f; }   // n < 2^34
inline u64 value(const Fac& f) { u64 v = 1; for (auto [p, q] : f) for (int i = 0; i < q; ++i) v *= p; return v; }
inline bool fits(const Fac& f, u64 lim) { u128 v = 1; for (auto [p, q] : f) for (int i = 0; i < q; ++i) { v *= p; if (v > lim) return false; } return true; }
inline u64 gcd(u64 a, u64 b) { while (b) { u64 t = a % b; a = b; b = t; } return a; }
// (phi, carmichael) and the factorisation of carmichael, from the factorisation of m (prime - 1 must be trial-factorable)
struct Grp { u64 m, phi, lam; Fac flam; };
inline Grp group(const Fac& f, const std::map<u64, Fac>& pm1 = {}) {
    Grp g{ value(f), 1, 1, {} };
    for (auto [p, q] : f) {
        Fac h = pm1.count(p) ? pm1.at(p) : trial(p - 1); u64 ph = p - 1; for (int i = 1; i < q; ++i) ph *= p; g.phi *= ph;
        if (q > 1) h[p] += q - 1;
        if (p == 2 && q >= 3) h[2] = q - 2;
        for (auto [r, c] : h) if (c > g.flam[r]) g.flam[r] = c;
    }
    for (auto it = g.flam.begin(); it != g.flam.end();) it = it->second ? std::next(it) : g.flam.erase(it);
    g.lam = value(g.flam); return g;
}
inline u64 order(u64 a, const Grp& g) { u64 o = g.lam; for (auto [p, q] : g.flam) for (int i = 0; i < q; ++i) { if (powm(a, o / p, g.m) == 1 % g.m) o /= p; else break; } return o; }
}
