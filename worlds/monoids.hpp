// Non-commutative test algebra used by the worlds.  Every operation is reported to the simulator.
#pragma once
namespace algebra {
constexpr uint64_t P = (1ull << 61) - 1;
inline uint64_t mulm(uint64_t a, uint64_t b) { return (uint64_t) ((unsigned __int128) a * b % P); }
inline uint64_t addm(uint64_t a, uint64_t b) { uint64_t c = a + b; return c >= P ? c - P : c; }
constexpr uint64_t B = 1000000007ull * 998244353ull % P;

// A word over integers: forward hash, backward hash, length weight.
struct M {
    uint64_t h = 0, r = 0, p = 1, s = 0; int64_t w = 0; int64_t n = 0;
    friend bool operator==(const M& a, const M& b) { return a.h == b.h && a.r == b.r && a.p == b.p && a.s == b.s && a.w == b.w && a.n == b.n; }
    friend bool operator!=(const M& a, const M& b) { return !(a == b); }
    friend bool operator<(const M& a, const M& b) { return std::tie(a.h, a.r, a.p, a.w, a.n) < std::tie(b.h, b.r, b.p, b.w, b.n); }
};
inline M elem(uint64_t v, int64_t w = 1) { M m; m.h = m.r = v % P; m.p = B; m.s = 1; m.w = w; m.n = 1; return m; }
inline M op_raw(const M& a, const M& b) {
    M c; c.h = addm(mulm(a.h, b.p), b.h); c.r = addm(a.r, mulm(b.r, a.p)); c.p = mulm(a.p, b.p);
    c.s = addm(mulm(a.s, b.p), b.s); c.w = a.w + b.w; c.n = a.n + b.n; return c;
}
inline M op(M a, M b) { sim::callback(); return op_raw(a, b); }
inline M e() { return M{}; }
inline M toggle(M a) { std::swap(a.h, a.r); return a; }
// affine maps on the letters
struct F { uint64_t a = 1, b = 0; friend bool operator==(const F& x, const F& y) { return x.a == y.a && x.b == y.b; } friend bool operator!=(const F& x, const F& y) { return !(x == y); } };
inline M map_raw(const F& f, const M& m) { M c = m; c.h = addm(mulm(f.a, m.h), mulm(f.b, m.s)); c.r = addm(mulm(f.a, m.r), mulm(f.b, m.s)); return c; }
inline M mapping_sz(F f, M m, int sz) {
    sim::callback();
    if (sim::g_ctx && (int64_t) sz != m.n) sim::g_ctx->fail("mapping-size", "mapping called with size " + std::to_string(sz) + " on a product of " + std::to_string(m.n) + " elements");
    return map_raw(f, m);
}
inline M mapping(F f, M m) { sim::callback(); return map_raw(f, m); }
inline F comp_raw(const F& f, const F& g) { return F{ mulm(f.a, g.a), addm(mulm(f.a, g.b), f.b) }; }
inline F composition(F f, F g) { sim::callback(); return comp_raw(f, g); }
inline F id() { return F{}; }
// same maps without operator== (takes the generic code path where there is one)
struct G { uint64_t a = 1, b = 0; };
inline M mapping_sz_g(G f, M m, int sz) { return mapping_sz(F{ f.a, f.b }, m, sz); }
inline M mapping_g(G f, M m) { return mapping(F{ f.a, f.b }, m); }
inline G composition_g(G f, G g) { F x = composition(F{ f.a, f.b }, F{ g.a, g.b }); return G{ x.a, x.b }; }
inline G id_g() { return G{}; }

inline M fold(const std::vector<M>& v, size_t l, size_t r) { M x; for (size_t i = l; i < r; ++i) x = op_raw(x, v[i]); return x; }
inline std::string show_m(const M& m) { return "{h=" + std::to_string(m.h) + " r=" + std::to_string(m.r) + " n=" + std::to_string(m.n) + " w=" + std::to_string(m.w) + "}"; }
}
namespace sim {
template <> inline std::string show<algebra::M>(const algebra::M& m) { return algebra::show_m(m); }
template <> inline uint64_t hash_of<algebra::M>(const algebra::M& m) { return mix64(m.h * 3 + m.r * 5 + m.p * 7 + (uint64_t) m.w * 11 + (uint64_t) m.n); }
}
