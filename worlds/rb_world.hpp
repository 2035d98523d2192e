// Red-black sequence trees (ephemeral and persistent) over one shared, recycled node pool.
#pragma once
#include "monoids.hpp"
namespace rbw {
using namespace algebra; using i64 = int64_t; using u64 = uint64_t;
template <typename T> u64 hv(const std::vector<T>& v) { u64 h = v.size(); for (auto& x : v) h = sim::mix64(h * 31 + sim::hash_of(x)); return h; }
// commutative algebra for the reversible variant: sums modulo 2^64 under affine maps
struct CF { u64 a = 1, b = 0; bool operator==(const CF& o) const { return a == o.a && b == o.b; } bool operator!=(const CF& o) const { return !(*this == o); } };
inline u64 cop(u64 x, u64 y) { sim::callback(); return x + y; } inline u64 ce() { return 0; } inline u64 cmap(CF f, u64 x, int n) { return f.a * x + f.b * (u64) n; } inline CF ccomp(CF f, CF g) { return { f.a * g.a, f.a * g.b + f.b }; } inline CF cid() { return {}; }
enum { BUILD, INSERT, PUSH, ERASE, POP, SET, UPD, GET, SPLIT, MERGE, SPLIT3, PROD, PRODALL, APPLY, APPLYALL, REVERSE, REVALL, DUMP, FREE, SWAP, CUT, REPLACE, REBUILD, SELF };
template <typename Tr> struct World {
    using N = typename Tr::N; using T = typename Tr::T; using t = typename N::tree_type; static constexpr bool PROD = Tr::PROD, LAZY = Tr::LAZY, REV = Tr::REV, PERS = Tr::PERS;
    struct H { t a; std::vector<T> m; };
    static void verify(sim::Ctx& c, const H& h, const char* when) {
        std::vector<T> d; N::dump(h.a, std::back_inserter(d)); if (!(d == h.m)) c.fail(PERS ? "version-changed" : "contents", std::string(when) + ": got " + sim::show(d) + " want " + sim::show(h.m));
        c.eq((int) N::size(h.a), (int) h.m.size(), "size"); c.eq((bool) N::empty(h.a), h.m.empty(), "empty");
        if constexpr (PROD) { if (!(N::prod_all(h.a) == Tr::fold(h.m, 0, h.m.size()))) c.fail("prod_all", when); }
        if constexpr (!PERS) { if (h.a) N::check_rbtree_properties(h.a); }
        c.obs(hv(d));
    }
    static void run(sim::Ctx& c) {
        const int mode = (int) c.cfg(0, 79); const bool big = mode == 79; const int LIM = big ? 3000 : PERS ? 150 : 220; int cap = big ? 60000 : PERS ? 12000 : 6000; N::init_pool(cap); std::vector<H> hs; int maxn = mode % 4 ? (int) c.cfg(0, 16) : (int) c.cfg(0, 120); if (big) maxn = 1400;
        auto live = [&] { size_t s = 0; for (auto& h : hs) s += h.m.size(); return (int) s; };
        auto gen = [&](sim::Rng r, int n) { std::vector<T> v; for (int i = 0; i < n; ++i) v.push_back(Tr::val(r)); return v; };
        hs.push_back(H{ N::empty_tree(), {} });
        while (c.next()) {
            int code = c.cur->code; sim::Rng r = c.rng(4); size_t k = (size_t) (PERS && r.chance(1, 2) ? (i64) hs.size() - 1 : c.arg(0, 0, (i64) hs.size() - 1)), k2 = (size_t) c.arg(5, 0, (i64) hs.size() - 1);
            if (PERS && N::node_num() > cap - (big ? 12000 : 2500)) code = REBUILD;
            H h = hs[k]; int n = (int) h.m.size(); int l = (int) c.arg(1, 0, n), q = (int) c.arg(2, 0, n); if (l > q) std::swap(l, q); int i = n ? (int) c.arg(1, 0, n - 1) : 0; T x = Tr::val(r);
            auto put = [&](const H& nh) { if constexpr (PERS) { hs.push_back(nh); verify(c, hs.back(), "new version"); verify(c, h, "parent version"); } else { hs[k] = nh; verify(c, hs[k], "after update"); } c.state(hv(nh.m)); };
            uint64_t calls = sim::callbacks();
            auto cost = [&](int n) { int lg = 1; while (n >> lg) ++lg; uint64_t k = sim::callbacks() - calls; if constexpr (!PERS) c.require(k <= 40u * (unsigned) lg + 40u, "logarithmic", std::to_string(k) + " calls for " + std::to_string(n) + " elements"); };
            switch (code) {
            case BUILD: if (hs.size() < (PERS ? 300u : 8u) && (PERS ? true : live() < (big ? 9000 : 1500))) { auto v = gen(r, (int) c.arg(1, 0, maxn)); hs.push_back(H{ N::build(v), v }); verify(c, hs.back(), "after build"); } break;
            case INSERT: if (n < LIM) { h.a = N::insert(h.a, l, x); cost(n); h.m.insert(h.m.begin() + l, x); put(h); } break;
            case PUSH: if (n < LIM) { bool f = r.chance(1, 2); h.a = f ? N::push_front(h.a, x) : N::push_back(h.a, x); h.m.insert(f ? h.m.begin() : h.m.end(), x); put(h); } break;
            case ERASE: if (n) { auto [a, v] = N::erase(h.a, i); cost(n); c.require(v == h.m[(size_t) i], "erased value"); h.a = a; h.m.erase(h.m.begin() + i); put(h); } break;
            case POP: if (n) { bool f = r.chance(1, 2); auto [a, v] = f ? N::pop_front(h.a) : N::pop_back(h.a); c.require(v == (f ? h.m.front() : h.m.back()), "popped value"); h.a = a; h.m.erase(f ? h.m.begin() : h.m.end() - 1); put(h); } break;
            case SET: if (n) { h.a = N::set(h.a, i, x); cost(n); h.m[(size_t) i] = x; put(h); } break;
            case UPD: if (n) { h.a = N::update_value(h.a, i, [&](const T& y) { return Tr::bump(y); }); h.m[(size_t) i] = Tr::bump(h.m[(size_t) i]); put(h); } break;
            case GET: if (n) { auto [a, v] = N::get(h.a, i); cost(n); c.require(v == h.m[(size_t) i], "get"); h.a = a; put(h); } break;
            case SPLIT: { auto [a, b] = N::split(h.a, l); H x1{ a, std::vector<T>(h.m.begin(), h.m.begin() + l) }, x2{ b, std::vector<T>(h.m.begin() + l, h.m.end()) }; if (PERS) { put(x1); put(x2); } else { hs[k] = x1; hs.push_back(x2); verify(c, hs[k], "split left"); verify(c, hs.back(), "split right"); } break; }
            case MERGE: if (k != k2 && n + (int) hs[k2].m.size() <= LIM) { H g = hs[k2]; H s{ N::merge(h.a, g.a), h.m }; s.m.insert(s.m.end(), g.m.begin(), g.m.end()); if (PERS) { put(s); verify(c, g, "right operand"); } else { hs[k] = s; hs[k2] = hs.back(); hs.pop_back(); verify(c, k < hs.size() ? hs[k] : hs[k2], "after merge"); } } break;
            case SELF: if constexpr (PERS) { if (2 * n <= LIM) { H s{ N::merge(h.a, h.a), h.m }; s.m.insert(s.m.end(), h.m.begin(), h.m.end()); put(s); sim::probe("concat_with_itself"); } } break;
            case SPLIT3: { auto [a, b, d] = N::split_range(h.a, l, q); H x1{ a, std::vector<T>(h.m.begin(), h.m.begin() + l) }, x2{ b, std::vector<T>(h.m.begin() + l, h.m.begin() + q) }, x3{ d, std::vector<T>(h.m.begin() + q, h.m.end()) }; if (PERS) { put(x1); put(x2); put(x3); H y{ N::merge(N::merge(b, a), d), x2.m }; y.m.insert(y.m.end(), x1.m.begin(), x1.m.end()); y.m.insert(y.m.end(), x3.m.begin(), x3.m.end()); put(y); } else { H y{ N::merge(b, N::merge(d, a)), x2.m }; y.m.insert(y.m.end(), x3.m.begin(), x3.m.end()); y.m.insert(y.m.end(), x1.m.begin(), x1.m.end()); put(y); } break; }
            case rbw::PROD: if constexpr (World::PROD) { auto [a, v] = N::prod(h.a, l, q); c.eq(v, Tr::fold(h.m, (size_t) l, (size_t) q), "prod"); h.a = a; put(h); } break;
            case PRODALL: if constexpr (World::PROD) c.eq(N::prod_all(h.a), Tr::fold(h.m, 0, (size_t) n), "prod_all"); break;
            case APPLY: case APPLYALL: if constexpr (LAZY) { auto f = Tr::act(r); if (code == APPLY) h.a = N::apply(h.a, l, q, f); else { h.a = N::apply_all(h.a, f); l = 0; q = n; } for (int z = l; z < q; ++z) h.m[(size_t) z] = Tr::ap(f, h.m[(size_t) z]); put(h); } break;
            case REVERSE: case REVALL: if constexpr (REV) { if (code == REVERSE) h.a = N::reverse(h.a, l, q); else { h.a = N::reverse_all(h.a); l = 0; q = n; } std::reverse(h.m.begin() + l, h.m.begin() + q); put(h); } break;
            case DUMP: verify(c, hs[k2], "read"); { std::string s = N::to_string(hs[k2].a, [](const T& y) { return Tr::str(y); }); std::string w = "["; for (size_t z = 0; z < hs[k2].m.size(); ++z) { if (z) w += ", "; w += Tr::str(hs[k2].m[z]); } c.eq(s, w + "]", "to_string"); } break;
            case FREE: if constexpr (!PERS) { if (hs.size() > 1) { N::free(h.a); hs[k] = hs.back(); hs.pop_back(); } } else if (hs.size() > 1) { hs[k] = hs.back(); hs.pop_back(); } break;
            case SWAP: if constexpr (PERS) { H g = hs[k2]; int m = (int) g.m.size(); int a = (int) r.below((u64) m + 1), b = (int) r.below((u64) m + 1); if (a > b) std::swap(a, b); if (n - (q - l) + (b - a) > LIM || m - (b - a) + (q - l) > LIM) break; auto [p1, p2] = N::swap(h.a, l, q, g.a, a, b); std::vector<T> m1(h.m.begin(), h.m.begin() + l), m2(g.m.begin(), g.m.begin() + a); m1.insert(m1.end(), g.m.begin() + a, g.m.begin() + b); m1.insert(m1.end(), h.m.begin() + q, h.m.end()); m2.insert(m2.end(), h.m.begin() + l, h.m.begin() + q); m2.insert(m2.end(), g.m.begin() + b, g.m.end()); put(H{ p1, m1 }); put(H{ p2, m2 }); } break;
            case CUT: if constexpr (PERS) put(H{ N::cut(h.a, l, q), std::vector<T>(h.m.begin() + l, h.m.begin() + q) }); break;
            case REPLACE: if constexpr (PERS) { H g = hs[k2]; if (r.chance(1, 2)) { if (n - (q - l) + (int) g.m.size() > LIM) break; std::vector<T> m(h.m.begin(), h.m.begin() + l); m.insert(m.end(), g.m.begin(), g.m.end()); m.insert(m.end(), h.m.begin() + q, h.m.end()); put(H{ N::replace(g.a, h.a, l, q), m }); } else if ((int) g.m.size() <= n) { int p = (int) r.below((u64) (n - (int) g.m.size() + 1)); std::vector<T> m = h.m; std::copy(g.m.begin(), g.m.end(), m.begin() + p); put(H{ N::replace(g.a, h.a, p), m }); } verify(c, g, "replacement source"); } break;
            case REBUILD: if constexpr (PERS) { for (auto& v : hs) verify(c, v, "before rebuild"); H y{ N::rebuild(h.a), h.m }; hs.clear(); hs.push_back(y); verify(c, y, "after rebuild"); sim::probe("pool_rebuilt"); } break;
            }
            if constexpr (!PERS) c.require(N::node_num() <= 2 * live(), "pool-leak", "slots in use " + std::to_string(N::node_num()) + " for " + std::to_string(live()) + " elements");
            else if (c.raw(3) % 3 == 0) { verify(c, hs[c.raw(3) / 5 % hs.size()], "old version"); }
        }
        for (auto& h : hs) verify(c, h, "at the end");
        if constexpr (!PERS) { for (auto& h : hs) N::free(h.a); c.eq(N::node_num(), 0, "pool empty after freeing everything"); }
    }
    static sim::WorldDef def(const char* prop, const char* name, const char* real, int share = 1) {
        sim::WorldDef d; d.prop = prop; d.name = name; d.run = run; d.max_ops = 70; d.ncfg = 3; d.share = share; d.real = real; int p = PROD, z = LAZY, v = REV, s = PERS;
        d.ops = { {"build", 3, 6}, {"insert", 8, 6}, {"push", 4, 6}, {"erase", 6, 6}, {"pop", 3, 6}, {"set", 4, 6}, {"update", 3, 6}, {"get", 3, 6}, {"split", 3, 6}, {"merge", 5, 6}, {"split_range", 2, 6}, {"prod", p * 5, 6}, {"prod_all", p, 6}, {"apply", z * 6, 6}, {"apply_all", z * 2, 6}, {"reverse", v * 6, 6}, {"reverse_all", v * 2, 6}, {"dump", 2, 6}, {"free", 2, 6}, {"swap", s * 3, 6}, {"cut", s * 2, 6}, {"replace", s * 3, 6}, {"rebuild", s, 6}, {"self_concat", s * 2, 6} }; return d; }
};
struct Base { static constexpr bool PROD = false, LAZY = false, REV = false, PERS = false; };
struct MBase : Base { using T = M; static T val(sim::Rng& r) { return elem(r.below(1000), 1); } static T bump(const T& x) { T y = x; y.h = y.r = addm(y.h, 7); return y; } static std::string str(const T& x) { return std::to_string(x.h); } static M fold(const std::vector<M>& v, size_t l, size_t r) { return algebra::fold(v, l, r); } };
struct UBase : Base { using T = u64; static T val(sim::Rng& r) { return r.below(1000); } static T bump(const T& x) { return x * 3 + 1; } static std::string str(const T& x) { return std::to_string(x); } static u64 fold(const std::vector<u64>& v, size_t l, size_t r) { u64 s = 0; for (; l < r; ++l) s += v[l]; return s; } };
struct SBase : Base { using T = std::string; static T val(sim::Rng& r) { return std::string(r.below(25), 'q') + std::to_string(r.below(100)); } static T bump(const T& x) { return x.size() > 60 ? T("s") : x + "!"; } static std::string str(const T& x) { return x; } static T fold(const std::vector<T>&, size_t, size_t) { return {}; } };
}
