// Numbers and matrices as values.
#include <atcoder/modint>
#include <atcoder/convolution>
#include <cassert>
#include <cstdint>
#include <sstream>
#include "library/math/unsigned_bigint.hpp"
#include "library/linear_algebra/matrix.hpp"
#include "library/linear_algebra/array_matrix.hpp"
#include "library/linear_algebra/matrix_f2.hpp"
#include "library/linear_algebra/circulant_matrix.hpp"
#include "library/util/permutation.hpp"
#include "library/number/factorial_number.hpp"
#include "library/number/rational.hpp"
#include "values.hpp"
using mint = atcoder::modint998244353; using u32 = uint32_t; using u128 = unsigned __int128; using values::tried;
namespace sim { template <> inline std::string show<mint>(const mint& m) { return std::to_string(m.val()); } template <> inline uint64_t hash_of<mint>(const mint& m) { return mix64(m.val()); } }
namespace {
const u64 P = 998244353;
u64 pw(u64 a, u64 e) { u64 r = 1; for (a %= P; e; e >>= 1, a = a * a % P) if (e & 1) r = r * a % P; return r; }
// ---- unsigned_bigint
struct Big {
    using T = suisen::unsigned_bigint; using Model = std::vector<u32>; static const u64 D = 1000000000;
    static void warm() {}
    static void trim(Model& a) { while (!a.empty() && !a.back()) a.pop_back(); }
    static int cmp(const Model& a, const Model& b) { if (a.size() != b.size()) return a.size() < b.size() ? -1 : 1; for (size_t i = a.size(); i--;) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
    static Model add(const Model& a, const Model& b) { Model z; u64 cy = 0; for (size_t i = 0; i < std::max(a.size(), b.size()) || cy; ++i) { cy += (i < a.size() ? a[i] : 0) + (u64) (i < b.size() ? b[i] : 0); z.push_back((u32) (cy % D)); cy /= D; } trim(z); return z; }
    static Model sub(const Model& a, const Model& b) { Model z = a; i64 bo = 0; for (size_t i = 0; i < a.size(); ++i) { i64 v = (i64) a[i] - (i < b.size() ? b[i] : 0) - bo; bo = v < 0; z[i] = (u32) (v + (bo ? (i64) D : 0)); } trim(z); return z; }
    static Model mul(const Model& a, const Model& b) { std::vector<u64> z(a.size() + b.size() + 1); for (size_t i = 0; i < a.size(); ++i) { u64 cy = 0; for (size_t j = 0; j < b.size() || cy; ++j) { u64 v = z[i + j] + (u64) a[i] * (j < b.size() ? b[j] : 0) + cy; z[i + j] = v % D; cy = v / D; } } Model r(z.begin(), z.end()); trim(r); return r; }
    static std::string str(const Model& a) { if (a.empty()) return "0"; std::string s = std::to_string(a.back()); for (size_t i = a.size() - 1; i--;) { std::string q = std::to_string(a[i]); s += std::string(9 - q.size(), '0') + q; } return s; }
    static Model parse(const std::string& s) { Model z; for (i64 i = (i64) s.size(); i > 0; i -= 9) { i64 l = std::max<i64>(0, i - 9); z.push_back((u32) std::stoul(s.substr((size_t) l, (size_t) (i - l)))); } trim(z); return z; }
    static Model value(const T& t) { return parse((std::string) t); }
    static Model random(Rng& r, i64 sc) {
        size_t n; switch (sc) { case 0: n = r.below(4); break; case 1: n = r.below(12); break; case 2: n = r.chance(1, 4) ? 195 + r.below(12) : r.chance(1, 2) ? 60 + r.below(10) : r.below(20); break; default: n = r.chance(1, 3) ? 120 + r.below(160) : r.below(80); }
        Model z(n); int mode = (int) r.below(4); for (auto& x : z) switch (mode == 3 ? r.below(3) : mode) { case 0: x = (u32) r.below(D); break; case 1: x = r.chance(1, 2) ? 0 : (u32) (D - 1); break; default: x = r.chance(2, 3) ? 0 : (u32) r.below(3); } if (n && r.chance(1, 4)) z.back() = (u32) (r.chance(1, 2) ? 1 : D - 1); trim(z); if (n && r.chance(1, 6)) { z.assign(n, 0); static const u32 p[] = { 500000000, 250000000, 125000000, 800000000, 781250000, 1, 2, 5, 1000, 512000000 }; z.back() = p[r.below(10)]; } return z; // divisors of a power of ten
    }
    static void make(Ctx&, Rng& r, i64 sc, T*& t, Model& m) {
        m = random(r, sc); switch (r.below(4)) {
        case 0: { u64 v = r.chance(1, 3) ? ~0ull - r.below(3) : r.next() >> r.below(64); m = parse(std::to_string(v)); t = new T(v); break; }
        case 1: { std::string s = std::string(r.below(12), '0') + str(m); if (m.empty() && r.chance(1, 2)) s = ""; t = new T(s.c_str()); break; }
        case 2: { int v = (int) (r.next() >> 33); m = parse(std::to_string(v)); t = r.chance(1, 2) ? new T(v) : new T{ (int) v }; if (r.chance(1, 4)) { m.clear(); *t = T{ 0 }; } break; }
        default: t = new T(str(m)); } }
    static void verify(Ctx& c, T& t, const Model& m) {
        c.eq((std::string) t, str(m), "the value"); c.eq((bool) t, !m.empty(), "non-zero");
        u128 v = 0; for (size_t i = m.size(); i--;) v = v * D + m[i]; c.require((__uint128_t) t == v && (__int128_t) t == (__int128_t) v, "value as a 128-bit integer"); c.eq((unsigned long long) t, (unsigned long long) v, "value as a 64-bit integer"); c.eq((unsigned) t, (unsigned) v, "value as a 32-bit integer"); c.eq((int) t, (int) (unsigned) v, "value as int"); c.eq((long long) t, (long long) (u64) v, "value as long long");
        std::ostringstream o; o << t; c.eq(o.str(), str(m), "printed value");
    }
    static void act(Ctx& c, Rng& r, i64 sc, T& x, Model& m, const T& y, const Model& n, Go& go) {
        auto z = std::optional<T>(); Model w; bool same = &x == &y; bool put = r.chance(1, 2);
        // an operation is tried either as  x op= y  or as  z = x op y; x = z
        auto both = [&](auto in, auto out, const Model& want) { if (put) { if (go(1, [&] { in(); }, 8)) m = want; } else if (auto q = tried<T>(go, out)) { verify(c, *q, want); x = *q; m = want; } };
        switch (r.below(15)) {
        case 0: case 1: both([&] { x += y; }, [&] { return x + y; }, add(m, n)); break;
        case 2: case 3: { bool ge = cmp(m, n) >= 0; if (ge) both([&] { x -= y; }, [&] { return x - y; }, sub(m, n)); else { T q = y - x; verify(c, q, sub(n, m)); } break; }
        case 4: case 5: if (m.size() + n.size() < (sc < 2 ? 40u : 700u)) both([&] { x *= y; }, [&] { return x * y; }, mul(m, n)); break;
        case 6: case 7: case 8: { // division, also by values built to be close to a multiple
            std::optional<T> d; Model dm = n; if (!same && r.chance(1, 3)) { dm = random(r, sc); } if (dm.empty()) dm = { 1 + (u32) r.below(D - 1) }; d.emplace(str(dm)); const T& dv = dm == n ? y : *d;
            T a = x; Model am = m; if (r.chance(1, 2)) { Model q = random(r, sc); if (q.size() + dm.size() < 600) { am = mul(q, dm); Model e = r.chance(1, 2) ? Model{ (u32) r.below(3) } : random(r, 0); trim(e); if (r.chance(1, 2)) am = add(am, e); else if (cmp(am, e) >= 0) am = sub(am, e); a = T(str(am)); } }
            auto qr = tried<std::pair<T, T>>(go, [&] { return T::divmod(a, dv); }, 16); if (!qr) break;
            Model q = value(qr->first), rem = value(qr->second); c.require(cmp(add(mul(q, dm), rem), am) == 0, "quotient * divisor + remainder"); c.require(cmp(rem, dm) < 0, "remainder is less than the divisor");
            T u = a / dv, v = a % dv; verify(c, u, q); verify(c, v, rem);
            if (r.chance(1, 2)) { x = a; m = am; if (dm == n && same) { if (!m.empty()) { x /= x; m = { 1 }; } } else if (r.chance(1, 2)) { x /= dv; m = q; } else { x %= dv; m = rem; } } break; }
        case 9: { int k = (int) r.below(sc < 2 ? 5 : 70); Model w2; if (r.chance(1, 2)) { if (!m.empty() && m.size() + (size_t) k < 700) { w2.assign((size_t) k, 0); w2.insert(w2.end(), m.begin(), m.end()); both([&] { x <<= k; }, [&] { return x << k; }, w2); } } else { if ((size_t) k < m.size()) w2.assign(m.begin() + k, m.end()); both([&] { x >>= k; }, [&] { return x >> k; }, w2); } break; }
        case 10: { Model w2 = add(m, { 1 }); if (r.chance(1, 2)) { if (go(1, [&] { ++x; }, 2)) m = w2; } else { auto q = tried<T>(go, [&] { return x++; }, 3); if (q) { verify(c, *q, m); m = w2; } } break; }
        case 11: if (!m.empty()) { Model w2 = sub(m, { 1 }); if (r.chance(1, 2)) { --x; m = w2; } else { auto q = tried<T>(go, [&] { return x--; }, 3); if (q) { verify(c, *q, m); m = w2; } } } break;
        case 12: { int k = cmp(m, n); c.require((x < y) == (k < 0) && (x <= y) == (k <= 0) && (x > y) == (k > 0) && (x >= y) == (k >= 0) && (x == y) == !k && (x != y) == !!k, "comparison"); break; }
        case 13: { Model w2 = random(r, sc); std::istringstream in((r.chance(1, 2) ? "  " : "") + str(w2) + " rest"); in >> x; m = w2; std::string rest; in >> rest; c.eq(rest, std::string("rest"), "the rest of the stream"); break; }
        default: { Model w2 = m; if (r.chance(1, 2)) w2.clear(); T e = T::ZERO; T o = T::ONE; verify(c, e, {}); verify(c, o, { 1 }); if (w2.empty()) { x = T{}; m.clear(); } }
        }
    }
    static u64 hash(const Model& m) { return hash_seq(m); }
};
// ---- matrices
using M2 = std::vector<std::vector<u64>>;
M2 rnd(Rng& r, size_t n, size_t m) { M2 a(n, std::vector<u64>(m)); int mode = (int) r.below(3); for (auto& w : a) for (auto& x : w) x = mode == 0 ? r.below(P) : mode == 1 ? (r.chance(1, 3) ? 1 + r.below(3) : 0) : (r.chance(1, 2) ? P - 1 : r.below(2)); return a; }
M2 mulm(const M2& a, const M2& b, size_t l) { M2 z(a.size(), std::vector<u64>(l)); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) if (a[i][j]) for (size_t k = 0; k < l; ++k) z[i][k] = (z[i][k] + a[i][j] * b[j][k]) % P; return z; }
M2 ident(size_t n) { M2 z(n, std::vector<u64>(n)); for (size_t i = 0; i < n; ++i) z[i][i] = 1; return z; }
// determinant by elimination with row pivots; inverse when it is not zero
u64 elim(M2 a, M2* inv) { size_t n = a.size(); u64 det = 1; M2 b = ident(n); for (size_t i = 0; i < n; ++i) { size_t p = i; while (p < n && !a[p][i]) ++p; if (p == n) return 0; if (p != i) { std::swap(a[p], a[i]); std::swap(b[p], b[i]); det = (P - det) % P; } det = det * a[i][i] % P; u64 q = pw(a[i][i], P - 2); for (size_t k = 0; k < n; ++k) { a[i][k] = a[i][k] * q % P; b[i][k] = b[i][k] * q % P; } for (size_t j = 0; j < n; ++j) if (j != i && a[j][i]) { u64 f = P - a[j][i]; for (size_t k = 0; k < n; ++k) { a[j][k] = (a[j][k] + f * a[i][k]) % P; b[j][k] = (b[j][k] + f * b[i][k]) % P; } } } if (inv) *inv = b; return det; }
M2 each(const M2& a, const M2& b, int s) { M2 z = a; for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a[i].size(); ++j) z[i][j] = (a[i][j] + (s > 0 ? b[i][j] : P - b[i][j])) % P; return z; }
M2 scaled(M2 a, u64 k) { for (auto& w : a) for (auto& x : w) x = x * k % P; return a; }
M2 powm(M2 a, u64 e) { M2 z = ident(a.size()); for (; e; e >>= 1) { if (e & 1) z = mulm(z, a, a.size()); a = mulm(a, a, a.size()); } return z; }
u64 hash2(const M2& m) { u64 h = m.size(); for (auto& w : m) h = sim::mix64(h * 31 + hash_seq(w)); return h; }
struct Mat {
    using T = suisen::Matrix<mint>; using Model = M2;
    static void warm() {}
    static T to(const Model& m) { std::vector<std::vector<mint>> d(m.size()); for (size_t i = 0; i < m.size(); ++i) d[i].assign(m[i].begin(), m[i].end()); return T(d); }
    static size_t dim(Rng& r, i64 sc) { return sc == 3 && r.chance(1, 3) ? 69 + r.below(7) : r.below(sc == 0 ? 3 : 7); }
    static void make(Ctx& c, Rng& r, i64 sc, T*& t, Model& m) { if (sc == 3 && r.chance(1, 12)) { m = rnd(r, 141 + r.below(4), 70 + r.below(4)); t = new T(to(m)); return; } size_t n = dim(r, sc), k = r.chance(2, 3) ? n : dim(r, sc); switch (r.below(6)) { case 0: t = new T(); m.clear(); break; case 1: t = new T((int) n); m.assign(n, std::vector<u64>(n)); break; case 2: { u64 v = r.below(P); t = new T((int) n, (int) k, mint(v)); m.assign(n, std::vector<u64>(k, v)); break; } case 3: if (r.chance(1, 2)) { t = new T(T::e1((int) n)); m = ident(n); } else { t = new T(T::e0((int) n)); m.assign(n, std::vector<u64>(n)); } break; default: m = rnd(r, n, k); t = new T(to(m)); } (void) c; }
    static void verify(Ctx& c, T& t, const Model& m) { c.eq(t.row_size(), (int) m.size(), "rows"); c.eq(t.col_size(), m.empty() ? 0 : (int) m[0].size(), "columns"); c.require(t.shape() == std::make_pair((int) m.size(), m.empty() ? 0 : (int) m[0].size()), "shape"); for (size_t i = 0; i < m.size(); ++i) { c.eq(((const T&) t)[(int) i].size(), m[i].size(), "row length"); for (size_t j = 0; j < m[i].size(); ++j) c.eq((u64) t[(int) i][j].val(), m[i][j], "an entry"); } }
    static void act(Ctx& c, Rng& r, i64 sc, T& x, Model& m, const T& y0, const Model& n0, Go& go) {
        size_t h = m.size(), w = h ? m[0].size() : 0; bool sq = h == w, put = r.chance(1, 2), same = &x == &y0;
        auto both = [&](auto in, auto out, const Model& want) { if (put) { if (go(1, [&] { in(); }, 16)) m = want; } else if (auto q = tried<T>(go, out, 16)) { verify(c, *q, want); if (r.chance(1, 2)) { x = *q; m = want; } } };
        // the other operand: the given one if its shape fits, else a new one
        auto with = [&](size_t a, size_t b, auto f) { if (n0.size() == a && (a ? n0[0].size() : 0) == (a ? b : 0)) f(y0, n0); else { Model nm = rnd(r, a, b); T ny = to(nm); f(ny, nm); verify(c, ny, nm); } };
        switch (r.below(14)) {
        case 0: with(h, w, [&](const T& y, const Model& n) { both([&] { x += y; }, [&] { return x + y; }, each(m, n, 1)); }); break;
        case 1: with(h, w, [&](const T& y, const Model& n) { both([&] { x -= y; }, [&] { return x - y; }, each(m, n, -1)); }); break;
        case 2: case 3: { size_t l = sq || same ? w : dim(r, sc); if (same && !sq) break; with(w, l, [&](const T& y, const Model& n) { both([&] { x *= y; }, [&] { return x * y; }, mulm(m, n, w ? l : 0)); }); break; }
        case 4: { if (h && w && r.chance(1, 2)) { size_t i = r.below(h), j = r.below(w); u64 v = m[i][j]; both([&] { x *= x[(int) i][j]; }, [&] { return r.chance(1, 2) ? x * x[(int) i][j] : x[(int) i][j] * x; }, scaled(m, v)); } else { u64 v = r.below(P); both([&] { x *= mint(v); }, [&] { return x * mint(v); }, scaled(m, v)); } break; }
        case 5: { if (h && w && r.chance(1, 2)) { size_t i = r.below(h), j = r.below(w); u64 v = m[i][j]; if (v) both([&] { x /= x[(int) i][j]; }, [&] { return x / x[(int) i][j]; }, scaled(m, pw(v, P - 2))); } else { u64 v = 1 + r.below(P - 1); both([&] { x /= mint(v); }, [&] { return x / mint(v); }, scaled(m, pw(v, P - 2))); } break; }
        case 6: if (sq) { Model iv; u64 d = elim(m, &iv); c.eq((u64) x.det().val(), d, "determinant"); if (h < 8) c.eq((u64) x.det_arbitrary_mod().val(), d, "determinant by Euclid's method"); std::optional<T> q; if (!go(1, [&] { q = x.safe_inv(); }, 16)) break; c.eq(q.has_value(), d != 0, "invertible"); if (q) { verify(c, *q, iv); T z = x.inv(); verify(c, z, iv); if (h < 20) { u64 k = r.below(P); T s = mint(k) / x; verify(c, s, scaled(iv, k)); } if (r.chance(1, 3)) { x = *q; m = iv; } } } break;
        case 7: if (sq) with(h, h, [&](const T& y, const Model& n) { Model iv; if (elim(n, &iv)) both([&] { x /= y; }, [&] { return x / y; }, mulm(m, iv, h)); }); break;
        case 8: if (sq && h < 20) { u64 e = r.chance(1, 2) ? r.below(6) : r.next() >> (1 + r.below(60)); auto q = tried<T>(go, [&] { return x.pow((long long) e); }, 16); if (q) { Model want = powm(m, e); verify(c, *q, want); if (r.chance(1, 3)) { x = *q; m = want; } } } break;
        case 9: { auto [a, b] = range(r, h); auto [d, e] = range(r, w); auto q = tried<T>(go, [&] { return x.submatrix(a, b, d, e); }, 4); if (!q) break; Model want((size_t) (b - a)); for (int i = a; i < b; ++i) want[(size_t) (i - a)].assign(m[(size_t) i].begin() + d, m[(size_t) i].begin() + e); verify(c, *q, want); if (r.chance(1, 4)) { x = *q; m = want; } break; }
        case 10: { auto [a, b] = range(r, h); auto [d, e] = range(r, w); if (a == b || d == e) break; if (r.chance(1, 3) && same) { a = d = 0; x.assign_submatrix(0, 0, x); } else { Model s = rnd(r, (size_t) (b - a), (size_t) (e - d)); x.assign_submatrix(a, d, to(s)); for (int i = a; i < b; ++i) for (int j = d; j < e; ++j) m[(size_t) i][(size_t) j] = s[(size_t) (i - a)][(size_t) (j - d)]; } break; }
        case 11: { std::vector<mint> v(w); std::vector<u64> vm(w); for (size_t i = 0; i < w; ++i) v[i] = vm[i] = r.below(P); if (!h) break; auto b = x * v; c.eq(b.size(), h, "length of the product with a vector"); for (size_t i = 0; i < h; ++i) { u64 s = 0; for (size_t j = 0; j < w; ++j) s = (s + m[i][j] * vm[j]) % P; c.eq((u64) b[i].val(), s, "product with a vector"); } break; }
        case 12: if (h && w) { size_t i = r.below(h), j = r.below(w); u64 v = r.below(3); x[(int) i][j] = mint(v); m[i][j] = v; } break;
        default: c.eq(x == y0, m == n0, "equality"); c.eq(x != y0, m != n0, "inequality"); { std::vector<std::vector<mint>> d = x; c.eq(d.size(), h, "rows as vectors"); }
        }
    }
    static u64 hash(const Model& m) { return hash2(m); }
};
// fixed-size matrices
template <size_t N, size_t W> struct Arr {
    using T = suisen::ArrayMatrix<mint, N, W>; using Model = M2; static constexpr bool sq = N == W;
    static void warm() {}
    static T to(const Model& m) { std::array<std::array<mint, W>, N> a; for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < W; ++j) a[i][j] = m[i][j]; return T(a); }
    static void make(Ctx&, Rng& r, i64, T*& t, Model& m) { switch (r.below(4)) { case 0: t = new T(); m.assign(N, std::vector<u64>(W)); break; case 1: { u64 v = r.below(P); t = new T(mint(v)); m.assign(N, std::vector<u64>(W)); for (size_t i = 0; i < std::min(N, W); ++i) m[i][i] = v; break; } default: m = rnd(r, N, W); t = new T(to(m)); } }
    static void verify(Ctx& c, T& t, const Model& m) { c.require(t.shape() == std::make_pair((int) N, (int) W) && t.row_size() == (int) N && t.col_size() == (int) W, "shape"); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < W; ++j) c.eq((u64) t[i][j].val(), m[i][j], "an entry"); }
    static void act(Ctx& c, Rng& r, i64, T& x, Model& m, const T& y, const Model& n, Go&) {
        bool put = r.chance(1, 2); auto both = [&](auto in, auto out, const Model& want) { if (put) { in(); m = want; } else { T q = out(); verify(c, q, want); if (r.chance(1, 2)) { x = q; m = want; } } };
        size_t i = r.below(N), j = r.below(W); u64 v = r.chance(1, 2) ? m[i][j] : r.below(P); bool in = v == m[i][j]; mint sv = v; const mint& s = in ? x[i][j] : sv;
        switch (r.below(11)) {
        case 0: both([&] { x += y; }, [&] { return x + y; }, each(m, n, 1)); break;
        case 1: both([&] { x -= y; }, [&] { return x - y; }, each(m, n, -1)); break;
        case 2: both([&] { x *= s; }, [&] { return r.chance(1, 2) ? x * s : s * x; }, scaled(m, v)); break;
        case 3: if (v) both([&] { x /= s; }, [&] { return x / s; }, scaled(m, pw(v, P - 2))); break;
        case 4: { T q = -x; verify(c, q, scaled(m, P - 1)); T p = +x; verify(c, p, m); T z = T::e0(); verify(c, z, M2(N, std::vector<u64>(W))); break; }
        case 5: { std::array<mint, W> a; std::vector<u64> am(W); for (size_t k = 0; k < W; ++k) a[k] = am[k] = r.below(P); auto b = x * a; for (size_t k = 0; k < N; ++k) { u64 sum = 0; for (size_t l = 0; l < W; ++l) sum = (sum + m[k][l] * am[l]) % P; c.eq((u64) b[k].val(), sum, "product with a vector"); } break; }
        case 6: { M2 om = rnd(r, W, 2); suisen::ArrayMatrix<mint, W, 2> o; for (size_t k = 0; k < W; ++k) for (size_t l = 0; l < 2; ++l) o[k][l] = om[k][l]; auto q = x * o; M2 want = mulm(m, om, 2); for (size_t k = 0; k < N; ++k) for (size_t l = 0; l < 2; ++l) c.eq((u64) q[k][l].val(), want[k][l], "rectangular product"); break; }
        case 7: x[i][j] = mint(v % 3); m[i][j] = v % 3; break;
        case 8: c.eq(x == y, m == n, "equality"); break;
        default: if constexpr (sq) {
            Model iv; u64 d; switch (r.below(5)) {
            case 0: case 1: both([&] { x *= y; }, [&] { return x * y; }, mulm(m, n, N)); break;
            case 2: d = elim(m, &iv); c.eq((u64) x.det().val(), d, "determinant"); c.eq((u64) x.det_arbitrary_mod().val(), d, "determinant by Euclid's method"); { auto q = x.safe_inv(); c.eq(q.has_value(), d != 0, "invertible"); if (q) { verify(c, *q, iv); T z = s / x; verify(c, z, scaled(iv, v)); if (r.chance(1, 2)) { x = x.inv(); m = iv; } } } break;
            case 3: if (elim(n, &iv)) both([&] { x /= y; }, [&] { return x / y; }, mulm(m, iv, N)); break;
            default: { u64 e = r.chance(1, 2) ? r.below(6) : r.next() >> (1 + r.below(60)); T q = x.pow((long long) e); Model want = powm(m, e); verify(c, q, want); if (r.chance(1, 2)) { x = q; m = want; } c.eq(x.size(), (int) N, "size"); } }
        } }
    }
    static u64 hash(const Model& m) { return hash2(m); }
};
// matrices over GF(2)
struct MF2 {
    using T = suisen::MatrixF2; using Model = M2;
    static void warm() {}
    static M2 rb(Rng& r, size_t n, size_t w) { M2 a(n, std::vector<u64>(w)); int den = 1 + (int) r.below(4); for (auto& q : a) for (auto& x : q) x = r.chance(1, (u64) den + 1); if (n == w && r.chance(1, 2)) { for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) a[i][j] = i == j; for (size_t k = 0; k < 3 * n; ++k) { size_t i = r.below(n), j = r.below(n); if (i != j) { if (r.chance(1, 3)) std::swap(a[i], a[j]); else for (size_t l = 0; l < n; ++l) a[i][l] ^= a[j][l]; } } } return a; }
    static T to(const Model& m, size_t w) { T t((int) m.size(), (int) w); for (size_t i = 0; i < m.size(); ++i) for (size_t j = 0; j < w; ++j) t[i][j] = m[i][j]; return t; }
    static size_t dim(Rng& r, i64 sc) { return sc == 3 && r.chance(1, 2) ? 62 + r.below(5) : sc == 2 ? r.below(14) : r.below(4); }
    static void make(Ctx&, Rng& r, i64 sc, T*& t, Model& m) { size_t n = dim(r, sc), w = r.chance(2, 3) ? n : dim(r, sc); if (!n) w = 0; switch (r.below(5)) { case 0: t = new T(); m.clear(); break; case 1: { bool v = r.chance(1, 2); t = new T((int) n, (int) w, v); m.assign(n, std::vector<u64>(w, v)); break; } case 2: t = new T(T::e1(n)); m = ident(n); break; default: m = rb(r, n, w); t = new T(to(m, w)); } }
    static void verify(Ctx& c, T& t, const Model& m) { size_t w = m.empty() ? 0 : m[0].size(); c.require(t.row_size() == (int) m.size() && t.shape().first == (int) m.size(), "rows"); if (!m.empty()) c.require(t.col_size() == (int) w && t.shape().second == (int) w, "columns"); for (size_t i = 0; i < m.size(); ++i) for (size_t j = 0; j < w; ++j) c.eq((u64) (bool) ((const T&) t)[i][j], m[i][j], "an entry"); }
    static M2 mul(const M2& a, const M2& b, size_t l) { M2 z(a.size(), std::vector<u64>(l)); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) if (a[i][j]) for (size_t k = 0; k < l; ++k) z[i][k] ^= b[j][k]; return z; }
    static size_t elim2(M2 a, size_t w, M2* inv) { size_t n = a.size(), rk = 0; M2 b = ident(n); for (size_t j = 0; j < w && rk < n; ++j) { size_t p = rk; while (p < n && !a[p][j]) ++p; if (p == n) continue; std::swap(a[p], a[rk]); std::swap(b[p], b[rk]); for (size_t i = 0; i < n; ++i) if (i != rk && a[i][j]) { for (size_t k = 0; k < w; ++k) a[i][k] ^= a[rk][k]; for (size_t k = 0; k < n; ++k) b[i][k] ^= b[rk][k]; } ++rk; } if (inv) *inv = b; return rk; }
    static M2 pw2(M2 a, u64 e) { M2 z = ident(a.size()); for (; e; e >>= 1) { if (e & 1) z = mul(z, a, a.size()); a = mul(a, a, a.size()); } return z; }
    static void act(Ctx& c, Rng& r, i64 sc, T& x, Model& m, const T& y0, const Model& n0, Go& go) {
        size_t h = m.size(), w = h ? m[0].size() : (size_t) x.col_size(); bool sq = h == w, put = r.chance(1, 2), same = &x == &y0;
        auto both = [&](auto in, auto out, const Model& want) { if (put) { if (go(1, [&] { in(); }, 16)) m = want; } else if (auto q = tried<T>(go, out, 16)) { verify(c, *q, want); if (r.chance(1, 2)) { x = *q; m = want; } } };
        auto with = [&](size_t a, size_t b, auto f) { if (n0.size() == a && (size_t) y0.col_size() == b) f(y0, n0); else { Model nm = rb(r, a, b); T ny = to(nm, b); f(ny, nm); verify(c, ny, nm); } };
        switch (r.below(11)) {
        case 0: case 1: with(h, w, [&](const T& y, const Model& n) { Model z = m; for (size_t i = 0; i < h; ++i) for (size_t j = 0; j < w; ++j) z[i][j] ^= n[i][j]; if (r.chance(1, 2)) both([&] { x += y; }, [&] { return x + y; }, z); else both([&] { x -= y; }, [&] { return x - y; }, z); }); break;
        case 2: case 3: { size_t l = sq || same ? w : dim(r, sc); if (same && !sq) break; with(w, l, [&](const T& y, const Model& n) { both([&] { x *= y; }, [&] { return x * y; }, mul(m, n, l)); }); break; }
        case 4: { bool v = r.chance(2, 3); Model z = m; if (!v) for (auto& q : z) for (auto& e : q) e = 0; both([&] { x *= v; }, [&] { return r.chance(1, 2) ? x * v : v * x; }, z); if (r.chance(1, 2)) x /= true; break; }
        case 5: { Model iv; size_t rk = elim2(m, h ? w : 0, &iv); c.eq((size_t) x.rank(), rk, "rank"); if (sq) { c.eq(x.det(), rk == h, "determinant"); std::optional<T> q; if (!go(1, [&] { q = x.inv(); }, 16)) break; c.eq(q.has_value(), rk == h, "invertible"); if (q) { verify(c, *q, iv); if (r.chance(1, 2)) { x = *q; m = iv; } } } break; }
        case 6: if (sq) with(h, h, [&](const T& y, const Model& n) { Model iv; if (elim2(n, h, &iv) == h) both([&] { x /= y; }, [&] { return x / y; }, mul(m, iv, h)); }); break;
        case 7: if (sq) { u64 e = r.chance(1, 2) ? r.below(6) : r.next() >> (1 + r.below(60)); if (h > 20) e %= 40; auto q = tried<T>(go, [&] { return x.pow((long long) e); }, 16); if (q) { Model want = pw2(m, e); verify(c, *q, want); if (r.chance(1, 3)) { x = *q; m = want; } } } break;
        case 8: { auto q = tried<T>(go, [&] { return x.transposed(); }, 4); if (!q) break; M2 z(h ? w : 0, std::vector<u64>(h)); for (size_t i = 0; i < h; ++i) for (size_t j = 0; j < w; ++j) z[j][i] = m[i][j]; if (!h) { c.eq(q->row_size(), (int) w, "rows of the transposed matrix"); break; } verify(c, *q, z); if (r.chance(1, 2) && w) { x = *q; m = z; } break; }
        case 9: if (h && w) { size_t i = r.below(h), j = r.below(w); bool v = r.chance(1, 2); x[i][j] = v; m[i][j] = v; suisen::DynamicBitSet b((int) w); for (size_t k = 0; k < w; ++k) if (r.chance(1, 2)) b[k] = 1; suisen::DynamicBitSet q = x * b; for (size_t k = 0; k < h; ++k) { u64 s = 0; for (size_t l = 0; l < w; ++l) s ^= m[k][l] & (u64) (bool) b[l]; c.eq((u64) (bool) q[k], s, "product with a vector"); } } break;
        default: if (h && !n0.empty()) { c.eq(x == y0, m == n0, "equality"); c.eq(x != y0, m != n0, "inequality"); }
        }
    }
    static u64 hash(const Model& m) { return hash2(m); }
};
// circulant matrices; the multiplication is the user's
std::vector<mint> user_conv(const std::vector<mint>& a, const std::vector<mint>& b) { sim::callback(); if (a.empty() || b.empty()) return {}; std::vector<mint> z(a.size() + b.size() - 1); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) z[i + j] += a[i] * b[j]; return z; }
struct Circ {
    using T = suisen::CirculantMatrix<mint>; using Model = std::vector<u64>;
    static void warm() { T::set_multiplication(user_conv); }
    static T to(const Model& m) { return T(std::vector<mint>(m.begin(), m.end())); }
    static void make(Ctx&, Rng& r, i64 sc, T*& t, Model& m) { size_t n = 1 + r.below(sc < 2 ? 4 : 12); if (r.chance(1, 10)) { t = new T(); m.clear(); return; } if (r.chance(1, 4)) { m.assign(n, 0); if (r.chance(1, 2)) { t = new T(T::e0((int) n)); } else { t = new T(T::e1((int) n)); m[0] = 1; } return; } m.resize(n); for (auto& x : m) x = r.below(r.chance(1, 2) ? P : 3); t = new T(to(m)); }
    static void verify(Ctx& c, T& t, const Model& m) { int n = (int) m.size(); c.eq(t.size(), n, "size"); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { u64 w = m[(size_t) ((i - j + n) % n)]; c.eq((u64) t.get(i, j).val(), w, "an entry"); if (i == 0) c.eq((u64) ((const T&) t)[std::make_pair(i, j)].val(), w, "an entry by pair"); } }
    static Model mul(const Model& a, const Model& b) { size_t n = a.size(); Model z(n); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) z[(i + j) % n] = (z[(i + j) % n] + a[i] * b[j]) % P; return z; }
    static void act(Ctx& c, Rng& r, i64, T& x, Model& m, const T& y0, const Model& n0, Go& go) {
        bool put = r.chance(1, 2); size_t k = m.size();
        auto both = [&](auto in, auto out, const Model& want) { std::optional<T> z; if (put) { if (go(3, [&] { in(); }, 4)) m = want; } else if (go(3, [&] { z.emplace(out()); }, 4)) { verify(c, *z, want); if (r.chance(1, 2)) { x = *z; m = want; } } };
        Model nm = n0; std::optional<T> ny; if (nm.size() != k) { nm.resize(k); for (auto& e : nm) e = r.below(P); ny.emplace(to(nm)); } const T& y = ny ? *ny : y0; Model z = m;
        switch (r.below(7)) {
        case 0: for (size_t i = 0; i < k; ++i) z[i] = (m[i] + nm[i]) % P; both([&] { x += y; }, [&] { return x + y; }, z); break;
        case 1: for (size_t i = 0; i < k; ++i) z[i] = (m[i] + P - nm[i]) % P; both([&] { x -= y; }, [&] { return x - y; }, z); break;
        case 2: case 3: both([&] { x *= y; }, [&] { return x * y; }, mul(m, nm)); break;
        case 4: { u64 v = r.below(P); mint s = v; for (auto& e : z) e = e * v % P; both([&] { x *= s; }, [&] { return r.chance(1, 2) ? x * s : s * x; }, z); break; }
        case 5: { if (!k) break; u64 e = r.chance(1, 2) ? r.below(6) : r.next() >> (1 + r.below(60)); std::optional<T> q; if (go(3, [&] { q.emplace(x.pow((long long) e)); }, 8)) { Model w(k); w[0] = 1; for (u64 f = e; f; f >>= 1) { if (f & 1) w = mul(w, z); z = mul(z, z); } verify(c, *q, w); } break; }
        default: { for (auto& e : z) e = (P - e) % P; T q = -x; verify(c, q, z); T p = +x; verify(c, p, m); std::vector<mint> v(nm.begin(), nm.end()); auto b = x * v; Model w = mul(m, nm); c.eq(b.size(), k, "length of the product with a vector"); for (size_t i = 0; i < k; ++i) c.eq((u64) b[i].val(), w[i], "product with a vector"); }
        }
    }
    static u64 hash(const Model& m) { return hash_seq(m); }
};
// permutations
struct Perm {
    using T = suisen::Permutation; using Model = std::vector<int>; using H = suisen::PermutationHash<u64>;
    static void warm() {}
    static Model rp(Rng& r, size_t n) { Model m(n); for (size_t i = 0; i < n; ++i) m[i] = (int) i; for (size_t i = n; i > 1; --i) std::swap(m[i - 1], m[r.below(i)]); return m; }
    static void make(Ctx&, Rng& r, i64 sc, T*& t, Model& m) { size_t n = sc == 3 ? r.below(80) : r.below(sc == 0 ? 4 : 13); m = rp(r, n); switch (r.below(4)) { case 0: t = new T((int) n); for (size_t i = 0; i < n; ++i) m[i] = (int) i; break; case 1: t = new T(); m.clear(); break; case 2: t = new T(Model(m)); break; default: t = new T(m); } }
    static void verify(Ctx& c, T& t, const Model& m) { c.eq(t.size(), m.size(), "size"); for (size_t i = 0; i < m.size(); ++i) c.eq(t[i], m[i], "an entry"); }
    static void act(Ctx& c, Rng& r, i64, T& x, Model& m, const T& y0, const Model& n0, Go& go) {
        size_t n = m.size(); Model nm = n0; std::optional<T> ny; if (nm.size() != n) { nm = rp(r, n); ny.emplace(nm); } const T& y = ny ? *ny : y0; Model z(n);
        auto res = [&](auto f, bool keep) { if (auto q = tried<T>(go, f, 4)) { verify(c, *q, z); if (keep) { x = *q; m = z; } } };
        switch (r.below(6)) {
        case 0: for (size_t i = 0; i < n; ++i) z[i] = m[(size_t) nm[i]]; if (r.chance(1, 2)) { if (go(1, [&] { x *= y; }, 4)) m = z; } else res([&] { return x * y; }, r.chance(1, 2)); break;
        case 1: for (size_t i = 0; i < n; ++i) z[(size_t) m[i]] = (int) i; res([&] { return x.inv(); }, r.chance(1, 2)); break;
        case 2: { u64 e = r.chance(1, 2) ? r.below(8) : r.next() >> (1 + r.below(62)); if (r.chance(1, 8)) e = (u64) INT64_MAX - r.below(2); Model p = m; for (size_t i = 0; i < n; ++i) z[i] = (int) i; auto mul = [&](const Model& a, const Model& b) { Model q(n); for (size_t i = 0; i < n; ++i) q[i] = a[(size_t) b[i]]; return q; }; if (e > (u64) INT64_MAX - 100) e -= 100; for (u64 f = e; f; f >>= 1) { if (f & 1) z = mul(z, p); p = mul(p, p); } res([&] { return x.pow((long long) e); }, r.chance(1, 3)); break; }
        case 3: { std::vector<std::string> a(n); for (auto& s : a) s = std::string(1 + r.below(30), (char) ('a' + r.below(26))); auto b = x.permute(a), d = x.inv_permute(a); for (size_t i = 0; i < n; ++i) { c.eq(b[i], a[(size_t) m[i]], "permute"); c.eq(d[(size_t) m[i]], a[i], "inv_permute"); } std::vector<int> v(n), w; for (auto& e : v) e = (int) r.below(r.chance(1, 2) ? 5 : 1000); bool gt = r.chance(1, 2); T q = gt ? T::index_sort(v, std::greater<int>()) : T::index_sort(v); w = q; std::sort(w.begin(), w.end()); for (size_t i = 0; i < n; ++i) c.eq(w[i], (int) i, "index_sort is a permutation"); for (size_t i = 1; i < n; ++i) c.require(gt ? v[(size_t) q[i - 1]] >= v[(size_t) q[i]] : v[(size_t) q[i - 1]] <= v[(size_t) q[i]], "index_sort sorts"); break; }
        case 4: if (n <= 20) { u64 f = 1; for (size_t i = 2; i <= n; ++i) f *= i; u64 h = 0; if (!go(1, [&] { h = H::hash(x); }, 4)) break; c.require(h < f, "hash is below n!"); T q = H::unhash((int) n, h); verify(c, q, m); u64 g = r.below(f); T p = H::unhash((int) n, g); c.eq(H()(p), g, "hash of the permutation with a given hash"); } break;
        default: c.eq(x == y, m == nm, "equality"); if (n > 1) { size_t i = r.below(n), j = r.below(n); std::swap(x[i], x[j]); std::swap(m[i], m[j]); }
        }
    }
    static u64 hash(const Model& m) { return hash_seq(m); }
};
// numbers modulo n! in the factorial number system
struct FactM { int n = 1; u128 v = 0; };
struct Fact {
    using T = suisen::factorial_number; using Model = FactM;
    static void warm() {}
    static u128 f(int n) { u128 z = 1; for (int i = 2; i <= n; ++i) z *= (u128) i; return z; }
    static u128 red(i64 v, u128 md) { u128 a = v < 0 ? (u128) (-(__int128) v) % md : (u128) v % md; return v < 0 && a ? md - a : a; }
    static u128 mulm(u128 a, u64 b, u128 md) { u128 z = 0; for (; b; b >>= 1) { if (b & 1) z = (z + a) % md; a = (a + a) % md; } return z; }
    static i64 val(Rng& r) { switch (r.below(6)) { case 0: return sgn(r, 5); case 1: return INT64_MAX - (i64) r.below(3); case 2: return INT64_MIN + (i64) r.below(3); default: { i64 v = (i64) (r.next() >> (1 + r.below(62))); return r.chance(1, 2) ? v : -v; } } }
    static std::vector<int> perm(const Model& m) { std::vector<int> d((size_t) m.n), pool, p; u128 v = m.v; for (int i = 1; i < m.n; ++i) { d[(size_t) i] = (int) (v % (u128) (i + 1)); v /= (u128) (i + 1); } for (int i = 0; i < m.n; ++i) pool.push_back(i); for (int i = 0; i < m.n; ++i) { size_t k = (size_t) d[(size_t) (m.n - 1 - i)]; p.push_back(pool[k]); pool.erase(pool.begin() + (i64) k); } return p; }
    static void make(Ctx&, Rng& r, i64 sc, T*& t, Model& m) { int n = 1 + (int) r.below(sc == 0 ? 4 : sc == 1 ? 21 : 33); m.n = n; u128 md = f(n); switch (r.below(4)) { case 0: t = new T(); m = Model{}; break; case 1: t = new T(n); m.v = 0; break; case 2: { i64 v = val(r); t = new T(n, v); m.v = red(v, md); break; } default: m.v = (((u128) r.next() << 64) | r.next()) % md; t = new T(perm(m)); } }
    static void verify(Ctx& c, T& t, const Model& m) { c.eq(t.size(), m.n, "size"); c.eq((u64) t.to_ull(), (u64) m.v, "value modulo 2^64"); auto p = t.to_permutation(), q = perm(m); c.eq(p.size(), q.size(), "length of the permutation"); for (size_t i = 0; i < q.size(); ++i) c.eq(p[i], q[i], "permutation of that rank"); }
    static void act(Ctx& c, Rng& r, i64, T& x, Model& m, const T& y0, const Model& n0, Go& go) {
        Model nm = n0; std::optional<T> ny; u128 md = f(m.n); if (nm.n != m.n) { nm.n = m.n; nm.v = (((u128) r.next() << 64) | r.next()) % md; ny.emplace(perm(nm)); } const T& y = ny ? *ny : y0; i64 v = val(r); Model z = m; bool put = r.chance(1, 2);
        auto both = [&](auto in, auto out, u128 want) { z.v = want; if (put) { if (go(1, [&] { in(); }, 3)) m = z; } else if (auto q = tried<T>(go, out, 3)) { verify(c, *q, z); if (r.chance(1, 2)) { x = *q; m = z; } } };
        switch (r.below(10)) {
        case 0: both([&] { x += y; }, [&] { return x + y; }, (m.v + nm.v) % md); break;
        case 1: both([&] { x -= y; }, [&] { return x - y; }, (m.v + md - nm.v) % md); break;
        case 2: both([&] { x += v; }, [&] { return r.chance(1, 2) ? x + v : v + x; }, (m.v + red(v, md)) % md); break;
        case 3: both([&] { x -= v; }, [&] { return x - v; }, (m.v + md - red(v, md)) % md); break;
        case 4: { T q = v - x; z.v = (red(v, md) + md - m.v) % md; verify(c, q, z); T p = -x; z.v = (md - m.v) % md; verify(c, p, z); break; }
        case 5: case 6: { u128 a = mulm(m.v, v < 0 ? 0 - (u64) v : (u64) v, md); if (v < 0 && a) a = md - a; both([&] { x *= v; }, [&] { return r.chance(1, 2) ? x * v : v * x; }, a); break; }
        case 7: if (put) { ++x; m.v = (m.v + 1) % md; } else { auto q = tried<T>(go, [&] { return x++; }, 2); if (q) { verify(c, *q, m); m.v = (m.v + 1) % md; } } break;
        case 8: if (put) { --x; m.v = (m.v + md - 1) % md; } else { auto q = tried<T>(go, [&] { return x--; }, 2); if (q) { verify(c, *q, m); m.v = (m.v + md - 1) % md; } } break;
        default: c.require((x == y) == (m.v == nm.v) && (x != y) == (m.v != nm.v) && (x < y) == (m.v < nm.v) && (x <= y) == (m.v <= nm.v) && (x > y) == (m.v > nm.v) && (x >= y) == (m.v >= nm.v), "comparison"); if (r.chance(1, 3)) { int k = 1 + (int) r.below(33); if (go(1, [&] { x.resize(k); }, 1)) { m.n = k; m.v %= f(k); } }
        }
    }
    static u64 hash(const Model& m) { return sim::mix64((u64) m.v * 64 + (u64) m.n); }
};
// rationals
struct Rat {
    using T = suisen::Rational<long long>; struct Model { __int128 p = 0, q = 1; };
    static void warm() {}
    static __int128 gcd(__int128 a, __int128 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { auto t = a % b; a = b; b = t; } return a; }
    static Model norm(__int128 p, __int128 q) { if (q < 0) p = -p, q = -q; auto g = gcd(p, q); return { p / g, q / g }; }
    static bool small(__int128 v) { __int128 l = (__int128) 1 << 62; return v < l && -v < l; }
    static bool fits(const Model& m) { return small(m.p) && small(m.q); }
    static bool sums(const Model& a, const Model& b) { __int128 l = a.q / gcd(a.q, b.q) * b.q; if (!small(l)) return false; __int128 u = a.p * (l / a.q), v = b.p * (l / b.q); return small(u) && small(v); } // the sum over the common denominator
    static void make(Ctx&, Rng& r, i64 sc, T*& t, Model& m) { i64 span = sc == 0 ? 4 : sc == 1 ? 30 : r.chance(1, 2) ? 1 << 29 : (i64) 1 << (30 + r.below(32)); i64 p = sgn(r, span), q = sgn(r, span); if (!q) q = 1; switch (r.below(3)) { case 0: t = new T(); m = Model{}; break; case 1: t = new T(p); m = { p, 1 }; break; default: t = new T(p, q); m = norm(p, q); } }
    static void verify(Ctx& c, T& t, const Model& m) { c.require(t.num == m.p && t.den == m.q, "the value in lowest terms", std::to_string(t.num) + "/" + std::to_string(t.den) + " instead of " + std::to_string((i64) m.p) + "/" + std::to_string((i64) m.q)); c.eq(t.signum(), m.p > 0 ? 1 : m.p < 0 ? -1 : 0, "sign"); __int128 fl = m.p / m.q; if (m.p % m.q < 0) --fl; c.eq((i64) t.floor(), (i64) fl, "floor"); c.eq((i64) t.ceil(), (i64) (fl + (m.p % m.q != 0)), "ceil"); c.eq((i64) (long long) t, (i64) (m.p / m.q), "truncation"); c.eq((double) t, (double) m.p / (double) m.q, "as a floating-point number"); T a = t.abs(); c.require(a.num == (m.p < 0 ? -m.p : m.p) && a.den == m.q, "absolute value"); std::ostringstream o; o << t; c.eq(o.str(), std::to_string((i64) m.p) + "/" + std::to_string((i64) m.q), "printed value"); }
    static void act(Ctx& c, Rng& r, i64, T& x, Model& m, const T& y, const Model& n, Go& go) {
        bool put = r.chance(1, 2); auto both = [&](auto in, auto out, Model w) { if (!fits(w)) { x = T((long long) r.below(100), 1 + (long long) r.below(50)); m = { x.num, x.den }; return; } if (put) in(); else x = out(); m = w; };
        auto many = [&](Model w) { return sums(m, n) ? w : Model{ (__int128) 1 << 100, 1 }; };
        switch (r.below(10)) {
        case 0: both([&] { x += y; }, [&] { return x + y; }, many(norm(m.p * n.q + n.p * m.q, m.q * n.q))); break;
        case 1: both([&] { x -= y; }, [&] { return x - y; }, many(norm(m.p * n.q - n.p * m.q, m.q * n.q))); break;
        case 2: both([&] { x *= y; }, [&] { return x * y; }, norm(m.p * n.p, m.q * n.q)); break;
        case 3: if (n.p) both([&] { x /= y; }, [&] { return x / y; }, norm(m.p * n.q, m.q * n.p)); break;
        case 4: { T z = -x; verify(c, z, { -m.p, m.q }); T w = +x; verify(c, w, m); if (m.p) { T v = x.inv(); verify(c, v, norm(m.q, m.p)); } break; }
        case 5: { i64 k = 1 + (i64) r.below(1000); Model w = r.chance(1, 2) || !m.p ? norm(m.q, k) : norm(k, m.p); T z((long long) w.p, (long long) w.q); bool by = r.chance(1, 2) && w.p; if (by) z = z.inv(); both([&] { by ? x /= z : x *= z; }, [&] { return by ? x / z : x * z; }, norm(m.p * w.p, m.q * w.q)); break; } // factors that cancel
        case 6: { int d = (int) r.below(6); std::vector<T> v; if (go(1, [&] { v = T::stern_brocot(d); }, 4)) { c.eq(v.size(), (size_t) 2 << d, "size of the tree"); for (int i = 1; i < (2 << d); ++i) { i64 a = 0, b = 1, e = 1, f = 0, k = 31 - __builtin_clz((unsigned) i); for (; k--;) { if (i >> k & 1) a += e, b += f; else e += a, f += b; } c.require(v[(size_t) i].num == a + e && v[(size_t) i].den == b + f, "node of the Stern-Brocot tree"); } } break; }
        case 7: { int d = (int) r.below(6); std::vector<T> v; if (go(1, [&] { v = T::farey_sequence(d); }, 4)) { std::vector<std::pair<i64, i64>> w{ { 0, 1 }, { 1, 1 } }; for (int k = 0; k <= d; ++k) { std::vector<std::pair<i64, i64>> u; for (size_t i = 0; i + 1 < w.size(); ++i) u.push_back(w[i]), u.push_back({ w[i].first + w[i + 1].first, w[i].second + w[i + 1].second }); u.push_back(w.back()); w.swap(u); } c.eq(v.size(), w.size(), "length of the sequence"); for (size_t i = 0; i < w.size(); ++i) c.require(v[i].num == w[i].first && v[i].den == w[i].second, "element of the sequence"); } break; }
        case 8: { i64 q = (i64) 1 << r.below(8), p = sgn(r, 300), mn = 1 + (i64) r.below(r.chance(1, 2) ? 8 : 60), md = 1 + (i64) r.below(r.chance(1, 2) ? 8 : 60); auto [lo, hi] = T::approximate((long double) p / (long double) q, mn, md); i64 s = p < 0 ? -p : p; i64 ln = 0, ld = 1, hn = 1, hd = 0; // best bounds from below and from above with bounded terms
            for (i64 b = 1; b <= md; ++b) for (i64 a = 0; a <= mn; ++a) { if (a * q < s * b && a * ld > ln * b) ln = a, ld = b; if (a && a * q >= s * b && (!hd || a * hd < hn * b)) hn = a, hd = b; }
            T el(p < 0 ? -hn : ln, p < 0 ? hd : ld), eh(p < 0 ? -ln : hn, p < 0 ? ld : hd); c.require(lo.num == el.num && lo.den == el.den && hi.num == eh.num && hi.den == eh.den, "approximation from both sides", std::to_string(lo.num) + "/" + std::to_string(lo.den) + " " + std::to_string(hi.num) + "/" + std::to_string(hi.den) + " for " + std::to_string(p) + "/" + std::to_string(q)); break; }
        default: { __int128 d = m.p * n.q - n.p * m.q; int k = d < 0 ? -1 : d > 0; c.eq(T::compare(x, y), k, "comparison"); c.require((x < y) == (k < 0) && (x <= y) == (k <= 0) && (x > y) == (k > 0) && (x >= y) == (k >= 0) && (x == y) == !k && (x != y) == !!k, "comparison operators"); T a = max(x, y), b = min(x, y); verify(c, a, k < 0 ? n : m); verify(c, b, k > 0 ? n : m); }
        }
    }
    static u64 hash(const Model& m) { return sim::mix64((u64) m.p * 31 + (u64) m.q); }
};
sim::RegisterWorld w1(values::def<Big>("bigint", "math/unsigned_bigint.hpp")), w2(values::def<Mat>("matrix", "linear_algebra/matrix.hpp")), w3(values::def<Arr<3, 3>>("array_matrix", "linear_algebra/array_matrix.hpp")), w4(values::def<Arr<2, 4>>("array_matrix_rect", "linear_algebra/array_matrix.hpp")), w5(values::def<MF2>("matrix_f2", "linear_algebra/matrix_f2.hpp")), w6(values::def<Circ>("circulant", "linear_algebra/circulant_matrix.hpp")), w7(values::def<Perm>("permutation", "util/permutation.hpp")), w8(values::def<Fact>("factorial_number", "number/factorial_number.hpp")), w9(values::def<Rat>("rational", "number/rational.hpp"));
}
