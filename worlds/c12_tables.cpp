// Lazily grown tables shared by every user of a type: any order of requests, several users, failing allocations.
#include <atcoder/modint>
#include "library/number/modint.hpp"
#include "library/math/factorial.hpp"
#include "library/math/inv_mods.hpp"
#include "library/math/pow_mods.hpp"
#include "library/math/util.hpp"
#include "library/math/modint_extension.hpp"
#include "library/sequence/binomial_coefficient_small_prime_mod.hpp"
#include "library/sequence/stirling_number1_small_prime_mod.hpp"
#include "library/sequence/stirling_number2_small_prime_mod.hpp"
using u64 = uint64_t; using i64 = int64_t; using u128 = unsigned __int128;
static u64 pw(u64 a, u64 k, u64 p) { u64 r = 1 % p; a %= p; for (; k; k >>= 1) { if (k & 1) r = (u128) r * a % p; a = (u128) a * a % p; } return r; }
static u64 inv(u64 a, u64 p) { return pw(a, p - 2, p); }
static u64 facm(u64 n, u64 p) { u64 r = 1 % p; for (u64 i = 2; i <= n; ++i) r = (u128) r * i % p; return r; }
static u64 binm(i64 n, i64 k, u64 p) { if (n < 0 || k < 0 || k > n) return 0; u64 a = facm((u64) n, p), b = (u128) facm((u64) k, p) * facm((u64) (n - k), p) % p; return (u128) a * inv(b, p) % p; }
static u64 lucas(i64 n, i64 k, u64 p) { if (k < 0 || k > n) return 0; u64 r = 1; while (n || k) { i64 a = n % (i64) p, b = k % (i64) p; if (b > a) return 0; r = r * binm(a, b, p) % p; n /= (i64) p; k /= (i64) p; } return r % p; }
enum { FAC, FACINV, BINOM, POLY, PERM, ENSURE, INV1, INV2, INVENS, GETINVS, SPOW, SPOW2, PNEW, PGET, PGET2, PCOPY, WALK, LUCAS, ST1, ST2, SQRT };
template <typename mint> struct Users { std::vector<std::pair<suisen::pow_mods<mint>, u64>> p; };
template <typename mint, bool SMALL, bool STATIC> static void body(sim::Ctx& c, u64 p, int lim) {
    using namespace suisen; std::vector<std::unique_ptr<factorial<mint>>> fs; fs.emplace_back(new factorial<mint>()); struct None {}; std::vector<std::vector<u64>> s1, s2;
    std::conditional_t<STATIC, Users<mint>, None> us; bool faults = c.faults_on(); const int N = (int) std::min<u64>((u64) lim, p - 1);
    auto V = [](const mint& x) { return (u64) x.val(); };
    if (SMALL) { int n = 60; s1.assign((size_t) n + 1, std::vector<u64>((size_t) n + 2)); s2 = s1; s1[0][0] = s2[0][0] = 1 % p; for (int i = 1; i <= n; ++i) for (int j = 1; j <= i; ++j) { s1[i][j] = (s1[i - 1][j - 1] + (u64) (i - 1) % p * s1[i - 1][j]) % p; s2[i][j] = (s2[i - 1][j - 1] + (u64) j % p * s2[i - 1][j]) % p; } }
    while (c.next()) {
        sim::Rng r = c.rng(2); int n = (int) c.arg(0, 0, N), k = (int) c.arg(1, 0, N); if (r.chance(1, 2)) k = n ? (int) r.below((u64) n + 1) : 0; factorial<mint>& f = *fs[r.below(fs.size())]; std::string what; u64 got = 0, want = 0; bool cmp = false, failed = false;
        bool arm = faults && r.chance(1, 3); if (arm) sim::arm_alloc_failure((i64) r.below(3));
        try { sim::Armed ar; switch (c.cur->code) {
            case FAC: got = V(r.chance(1, 2) ? f.fac(n) : f(n)); sim::disarm_alloc_failure(); want = facm((u64) n, p); cmp = true; break;
            case FACINV: got = V(f.fac_inv(n)); want = inv(facm((u64) n, p), p); if (p == 2) want = 1; cmp = true; break;
            case BINOM: { int a = n + (r.chance(1, 12) ? -n - 2 : 0), b = k + (r.chance(1, 8) ? (int) r.below(5) - 3 : 0); got = V(f.binom(a, b)); want = p == 2 ? lucas(a, b, p) : binm(a, b, p); cmp = true; break; }
            case POLY: { int a = k, b = (int) r.below((u64) (n - std::min(n, k)) + 2) - (int) r.below(8) / 7; bool three = r.chance(1, 2); got = V(three ? f.polynom(n, a, b) : f.polynom(n, b)); auto B = [&](i64 x, i64 y) { return p == 2 ? lucas(x, y, p) : binm(x, y, p); }; want = three ? (u64) ((u128) B(n, a) * B(n - a, b) % p) : B(n, b); cmp = true; break; }
            case PERM: { int b = k + (r.chance(1, 8) ? (int) r.below(5) - 3 : 0); got = V(f.perm(n, b)); want = b < 0 || b > n ? 0 : (u128) facm((u64) n, p) * inv(facm((u64) (n - b), p), p) % p; if (p == 2) want = b < 0 || b > n ? 0 : 1; cmp = true; break; }
            case ENSURE: if (r.chance(1, 2)) factorial<mint>::ensure(n); else { auto* q = new factorial<mint>(n); if (fs.size() < 4) fs.emplace_back(q); else fs[r.below(4)].reset(q); } break;
            case WALK: { int x = (int) r.below(2 * (u64) n + 3) - n - 1, y = (int) r.below(5) - 2; if (r.chance(1, 2)) { got = V(random_walk_1d<mint>(n, x)); want = (n + x) & 1 ? 0 : lucas(n, (n + x) / 2, p); } else { got = V(random_walk_2d<mint>(n, x, y)); auto w = [&](int z) { z = std::abs(z); return (n + z) & 1 ? 0 : lucas(n, (n + z) / 2, p); }; want = (u128) w(x + y) * w(x - y) % p; } cmp = true; break; }
            case SQRT: if (p < (1ull << 30)) { u64 a = r.chance(1, 2) ? r.below(p) : pw(r.below(p), 2, p); auto s = safe_sqrt(mint(a)); bool ex = p == 2 || a == 0 || pw(a, (p - 1) / 2, p) == 1; got = s.has_value(); want = ex; cmp = true; if (s && ex) { got = V(*s * *s); want = a; } } break;
            default:
            if constexpr (STATIC) { inv_mods<mint> iv; static_pow_mods<3, mint> p3; static_pow_mods<10, mint> p10; auto& P = us.p;
                switch (c.cur->code) {
                case INV1: if (n) { got = V(iv[n]); want = inv((u64) n, p); if (p == 2) want = 1; cmp = true; } break;
                case INV2: if (n && k) { got = V(iv[n] * iv[k]); want = (u128) inv((u64) n, p) * inv((u64) k, p) % p; if (p == 2) want = 1; cmp = true; } break;
                case INVENS: if (r.chance(1, 2)) inv_mods<mint>::ensure(n); else inv_mods<mint>{ n }; break;
                case GETINVS: { std::vector<mint> v; int m = (int) r.below(r.chance(1, 3) ? 90 : 6); for (int i = 0; i < m; ++i) v.push_back(mint(1 + r.below(p - 1))); auto w = get_invs(v); got = w.size() == v.size(); for (size_t i = 0; i < w.size(); ++i) got &= V(w[i] * v[i]) == 1 % p; want = 1; cmp = true; break; }
                case SPOW: { bool t = r.chance(1, 2); got = V(t ? p3[n] : p10[n]); want = pw(t ? 3 : 10, (u64) n, p); cmp = true; break; }
                case SPOW2: got = V(p3[n] * p3[k] + p10[k] * p3[n]); want = ((u128) pw(3, (u64) n + (u64) k, p) + (u128) pw(10, (u64) k, p) * pw(3, (u64) n, p)) % p; cmp = true; break;
                case PNEW: { u64 b = r.chance(1, 4) ? r.below(3) : r.below(p); if (P.size() < 5) P.emplace_back(pow_mods<mint>(mint(b), k), b); else P[r.below(5)] = { pow_mods<mint>(mint(b), k), b }; break; }
                case PGET: if (P.size()) { auto& q = P[r.below(P.size())]; got = V(q.first[n]); want = pw(q.second, (u64) n, p); cmp = true; } break;
                case PGET2: if (P.size()) { auto &q = P[r.below(P.size())], &t = P[r.below(P.size())]; got = V(q.first[k] * t.first[n]); want = (u128) pw(q.second, (u64) k, p) * pw(t.second, (u64) n, p) % p; cmp = true; } break;
                case PCOPY: if (P.size()) { auto q = P[r.below(P.size())]; P[r.below(P.size())] = q; } break;
                case LUCAS: if constexpr (SMALL) { i64 a = (i64) (r.chance(1, 2) ? r.below(200) : r.next() >> 2), b = (i64) (r.chance(1, 2) ? r.below(60) : r.below((u64) a + 1)); got = V(BinomialCoefficientSmallPrimeMod<mint>{}(a, b)); want = lucas(a, b, p); cmp = true; } break;
                case ST1: if constexpr (SMALL) if (p > 2) { i64 a = (i64) r.below(61), b = (i64) r.below(61); got = V(StirlingNumber1SmallPrimeMod<mint>{}(a, b)); want = b > a ? 0 : s1[a][b]; cmp = true; } break;
                case ST2: if constexpr (SMALL) if (p > 2) { i64 a = (i64) r.below(61), b = (i64) r.below(61); got = V(StirlingNumber2SmallPrimeMod<mint>{}(a, b)); want = b > a ? 0 : s2[a][b]; cmp = true; } break;
                } } break;
        } } catch (const std::bad_alloc&) { failed = true; }
        sim::disarm_alloc_failure(); if (failed) { sim::probe("request_failed_by_allocation"); continue; }
        if (cmp) c.eq(got, want, c.cur->code <= PERM ? "factorial table" : c.cur->code <= GETINVS ? "inverse table" : c.cur->code <= PCOPY ? "power table" : "derived value");
        c.state((u64) c.cur->code * 1000003 + (u64) n * 1009 + (u64) k);
    }
}
template <typename mint, bool SMALL, int LIM> static void run(sim::Ctx& c) { body<mint, SMALL, true>(c, (u64) mint::mod(), LIM); }
template <typename mint> static void rund(sim::Ctx& c) { static const int ps[] = { 2, 3, 5, 7, 11, 31, 67, 101, 257, 1009, 65537, 998244353, 1000000007, 2147483647, 754974721, 200003 }; int p = ps[c.cfg(0, 15)]; mint::set_mod(p); body<mint, false, false>(c, (u64) p, 400); }
// the modulus of a dynamic type changes between calls
static void runm(sim::Ctx& c) { static const int ps[] = { 2, 3, 5, 7, 11, 13, 17, 31, 67, 97, 101, 193, 257, 1009, 7681, 12289, 65537, 786433, 998244353, 1000000007 };
    u64 p = 998244353; atcoder::modint::set_mod((int) p); suisen::modint::set_mod((int) p);
    while (c.next()) { sim::Rng r = c.rng(2); if (c.cur->code == 0) { p = (u64) ps[c.arg(0, 0, 19)]; atcoder::modint::set_mod((int) p); suisen::modint::set_mod((int) p); continue; }
        u64 a = r.chance(1, 2) ? r.below(p) : pw(r.below(p), 2, p), b = r.below(p), k = r.below(1000); bool ex = p == 2 || a == 0 || pw(a, (p - 1) / 2, p) == 1;
        auto one = [&](auto m) { using mint = decltype(m); c.eq((u64) mint::mod(), p, "mod"); c.eq((u64) (mint(a) * mint(b)).val(), (u64) ((u128) a * b % p), "product"); c.eq((u64) (mint(a) - mint(b)).val(), (a + p - b) % p, "difference"); c.eq((u64) mint(a).pow((i64) k).val(), pw(a, k, p), "power"); if (b) c.eq((u64) ((mint(a) / mint(b)) * mint(b)).val(), a, "quotient");
            if (p < (1u << 30)) { auto s = safe_sqrt(mint(a)); c.eq(s.has_value(), ex, "square root exists"); if (s && ex) c.eq((u64) (*s * *s).val(), a, "square root"); } };
        if (c.cur->code == 1) one(atcoder::modint()); else one(suisen::modint()); c.state(p * 31 + a); } }
static std::vector<sim::OpDef> ops(bool small, bool st) { int s = st, z = small; return { {"fac", 4, 3}, {"fac_inv", 5, 3}, {"binom", 5, 3}, {"polynom", 3, 3}, {"perm", 3, 3}, {"ensure", 3, 3}, {"inv", 4 * s, 3}, {"inv_pair", 4 * s, 3}, {"inv_ensure", 2 * s, 3}, {"get_invs", s, 3}, {"static_pow", 3 * s, 3}, {"static_pow_pair", 4 * s, 3}, {"pow_new", 3 * s, 3}, {"pow_get", 3 * s, 3}, {"pow_pair", 4 * s, 3}, {"pow_copy", 2 * s, 3}, {"walk", 2, 3}, {"lucas", 4 * z, 3}, {"stirling1", 3 * z, 3}, {"stirling2", 3 * z, 3}, {"sqrt", 1, 3} }; }
static sim::WorldDef def(const char* name, void (*f)(sim::Ctx&), bool small, bool st) { sim::WorldDef d; d.prop = "C12"; d.name = name; d.run = f; d.max_ops = 60; d.ncfg = 1; d.faults = true; d.real = "math/factorial.hpp, inv_mods.hpp, pow_mods.hpp, modint_extension.hpp, util.hpp, sequence/*small_prime_mod.hpp, number/modint.hpp"; d.stub = "ac-library (absent from the checkout): minimal stand-in"; d.ops = ops(small, st); return d; }
static sim::RegisterWorld w1(def("tab_acl998", run<atcoder::modint998244353, false, 3000>, false, true)), w2(def("tab_su1e9", run<suisen::modint1000000007, false, 3000>, false, true)), w3(def("tab_p7", run<atcoder::static_modint<7>, true, 100>, true, true)), w4(def("tab_p101", run<suisen::static_modint<101>, true, 1000>, true, true)), w5(def("tab_p13", run<suisen::static_modint<13>, true, 100>, true, true)), w6(def("tab_p1009", run<atcoder::static_modint<1009>, false, 3000>, false, true)), w7(def("tab_dyn_su", rund<suisen::modint>, false, false)), w8(def("tab_dyn_acl", rund<atcoder::modint>, false, false)), w10(def("tab_p5", run<suisen::static_modint<5>, true, 100>, true, true));
static sim::RegisterWorld w9([] { sim::WorldDef d; d.prop = "C12"; d.name = "modulus_change"; d.run = runm; d.max_ops = 40; d.ncfg = 1; d.real = "math/modint_extension.hpp, number/modint.hpp"; d.stub = "ac-library stand-in"; d.ops = { {"set_mod", 3, 3}, {"acl", 5, 3}, {"own", 5, 3} }; return d; }());
