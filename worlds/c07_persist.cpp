// Versions of persistent structures: every version ever created keeps its contents, whatever later
// operations on any version (and on the shared node pool) do.  Oracle: one plain vector per version.
#include "monoids.hpp"
#include "library/datastructure/segment_tree/persistent_segment_tree.hpp"
#include "library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp"
#include "library/datastructure/segment_tree/persistent_dual_segment_tree.hpp"
#include "library/datastructure/segment_tree/persistent_commutative_dual_segment_tree.hpp"
#include "library/datastructure/fenwick_tree/persistent_fenwick_tree.hpp"
#include "library/datastructure/persistent_array.hpp"
#include "library/datastructure/union_find/persistent_union_find.hpp"
using namespace algebra; using i64 = int64_t; using u64 = uint64_t;
template <typename T> static u64 hv(const std::vector<T>& v) { u64 h = v.size(); for (auto& x : v) h = sim::mix64(h * 31 + sim::hash_of(x)); return h; }
static M rnd(sim::Rng& r) { return elem(r.below(1000000), (i64) r.below(4)); }
// weight-threshold predicate, monotone in the fold
static i64 g_lim; static bool under(M m) { return m.w <= g_lim; }
static int ref_mr(const std::vector<M>& v, int l, i64 lim) { i64 s = 0; int i = l; while (i < (int) v.size() && s + v[(size_t) i].w <= lim) s += v[(size_t) i++].w; return i; }
static int ref_ml(const std::vector<M>& v, int r, i64 lim) { i64 s = 0; int i = r; while (i > 0 && s + v[(size_t) (i - 1)].w <= lim) s += v[(size_t) --i].w; return i; }

// generic driver: Tr::A is the persistent type, Tr::E its element; versions form a tree
template <typename Tr> static void run(sim::Ctx& c) {
    using A = typename Tr::A; using E = typename Tr::E; struct Ver { A a; std::vector<E> m; };
    int mode = (int) c.cfg(0, 79), maxn = mode % 4 ? (int) c.cfg(0, 20) : (int) c.cfg(0, 90); if (mode == 79) maxn = 300 + maxn * 20; int cap = (int) c.s.ops.size() * (maxn > 90 ? 400 : 130) + 8 * 200 + 64 + (maxn > 90 ? maxn * 40 : 0); A::init_pool(cap);
    std::vector<Ver> vs; int built = 0;
    auto build = [&](sim::Rng r, int n) { std::vector<E> m; bool deflt = r.chance(1, 5); for (int i = 0; i < n; ++i) m.push_back(deflt ? Tr::dflt() : Tr::val(r)); if (!Tr::INIT) m.assign((size_t) n, Tr::dflt()); vs.push_back(Ver{ Tr::make(m, deflt || !Tr::INIT), m }); ++built; };
    auto full = [&](Ver& v, const char* when) { Tr::verify(c, v.a, v.m, when); c.obs(hv(v.m)); };
    build(sim::Rng((u64) c.cfg(0, 1ll << 40)), maxn);
    while (c.next()) {
        Ver v = vs[(size_t) (c.raw(0) % 3 == 0 ? (i64) vs.size() - 1 : c.arg(0, 0, (i64) vs.size() - 1))];
        int code = c.cur->code;
        if (code == 0) { // new lineage sharing the pool
            if (built < 6) build(c.rng(1), (int) c.arg(2, 0, maxn)); }
        else if (code == 1) { if (Tr::CLEAR) { for (auto& x : vs) full(x, "before clear_pool"); vs.clear(); Tr::clear(); built = 0; build(c.rng(1), (int) c.arg(2, 0, maxn)); sim::probe("pool_cleared"); } }
        else if (code == 2) { full(vs[(size_t) c.arg(1, 0, (i64) vs.size() - 1)], "read"); if (vs.size() < 200) { vs.push_back(Ver{ v.a, v.m }); } }   // branch: a copied handle is the same version
        else if (code == 3) { size_t k = (size_t) c.arg(1, 0, (i64) vs.size() - 1); if (vs.size() > 1 && c.raw(2) % 4 == 0) { vs[k] = vs.back(); vs.pop_back(); } else full(vs[k], "read"); }   // forget a version
        else if (Tr::query(c, code - 4, v.a, v.m)) {}
        else { std::vector<E> m = v.m; A a = v.a; if (Tr::update(c, code - 4, a, m)) { vs.push_back(Ver{ a, m }); full(vs.back(), "new version"); full(v, "parent"); c.state(hv(m)); } }
        if (c.raw(5) % 4 == 0) { Ver& o = vs[c.raw(5) / 7 % vs.size()]; full(o, "old version"); sim::probe("old_version_read"); }
    }
    for (auto& v : vs) full(v, "at the end");
}

struct TSeg {
    using A = suisen::PersistentSegmentTree<M, op, e>; using E = M; static constexpr bool INIT = true, CLEAR = true;
    static E dflt() { return e(); } static E val(sim::Rng& r) { return rnd(r); } static A make(const std::vector<E>& m, bool d) { return d ? m.empty() ? A() : A((int) m.size()) : A(m); } static void clear() { A::clear_pool(); }
    static void verify(sim::Ctx& c, A& a, const std::vector<E>& m, const char* w) { auto d = a.dump(); if (!(d == m)) c.fail("version-changed", w); if (!(a.prod_all() == fold(m, 0, m.size()))) c.fail("version-product", w); }
    static bool query(sim::Ctx& c, int k, A& a, const std::vector<E>& m) {
        int n = (int) m.size(); int l = (int) c.arg(1, 0, n), r = (int) c.arg(2, 0, n); if (l > r) std::swap(l, r);
        switch (k) { case 0: c.eq(a.prod(l, r), fold(m, (size_t) l, (size_t) r), "prod"); c.eq(a(l, r), fold(m, (size_t) l, (size_t) r), "()"); return true; case 1: if (n) { int i = (int) c.arg(1, 0, n - 1); c.eq(a.get(i), m[(size_t) i], "get"); c.eq(a[i], m[(size_t) i], "[]"); } { std::vector<M> d; a.dump(std::back_inserter(d)); c.require(d == m, "dump(iterator)"); } return true;
        case 2: g_lim = c.arg(3, 0, n + 2); c.eq(a.max_right(l, under), ref_mr(m, l, g_lim), "max_right"); c.eq(a.template max_right<under>(l), ref_mr(m, l, g_lim), "max_right<>"); return true;
        case 3: g_lim = c.arg(3, 0, n + 2); c.eq(a.min_left(r, under), ref_ml(m, r, g_lim), "min_left"); c.eq(a.template min_left<under>(r), ref_ml(m, r, g_lim), "min_left<>"); return true; }
        return false; }
    static bool update(sim::Ctx& c, int k, A& a, std::vector<E>& m) { int n = (int) m.size(); if (!n) return false; int i = (int) c.arg(1, 0, n - 1); sim::Rng r = c.rng(2); if (k == 4) { E x = rnd(r); A b = a.set(i, x); a = b; m[(size_t) i] = x; return true; } if (k == 5) { E x = rnd(r); a = a.apply(i, [&](M y) { return op_raw(y, x); }); m[(size_t) i] = op_raw(m[(size_t) i], x); return true; } return false; }
};
struct TLazy {
    using A = suisen::PersistentLazySegmentTree<M, op, e, F, mapping, composition, id>; using E = M; static constexpr bool INIT = true, CLEAR = true;
    static E dflt() { return e(); } static E val(sim::Rng& r) { return rnd(r); } static A make(const std::vector<E>& m, bool d) { return d ? m.empty() ? A() : A((int) m.size()) : A(m); } static void clear() { A::clear_pool(); }
    static void verify(sim::Ctx& c, A& a, const std::vector<E>& m, const char* w) { TSegLike(c, a, m, w); }
    template <typename B> static void TSegLike(sim::Ctx& c, B& a, const std::vector<E>& m, const char* w) { auto d = a.dump(); if (!(d == m)) c.fail("version-changed", w); if (!(a.prod_all() == fold(m, 0, m.size()))) c.fail("version-product", w); for (size_t i = 0; i < m.size(); ++i) if (!(a.get((int) i) == m[i])) c.fail("version-get", w); }
    static bool query(sim::Ctx& c, int k, A& a, const std::vector<E>& m) {
        int n = (int) m.size(); int l = (int) c.arg(1, 0, n), r = (int) c.arg(2, 0, n); if (l > r) std::swap(l, r);
        switch (k) { case 0: c.eq(a.prod(l, r), fold(m, (size_t) l, (size_t) r), "prod"); c.eq(a(l, r), fold(m, (size_t) l, (size_t) r), "()"); return true; case 1: if (n) { int i = (int) c.arg(1, 0, n - 1); c.eq(a.get(i), m[(size_t) i], "get"); c.eq(a[i], m[(size_t) i], "[]"); } { std::vector<M> d; a.dump(std::back_inserter(d)); c.require(d == m, "dump(iterator)"); } return true;
        case 2: g_lim = c.arg(3, 0, n + 2); c.eq(a.max_right(l, under), ref_mr(m, l, g_lim), "max_right"); c.eq(a.template max_right<under>(l), ref_mr(m, l, g_lim), "max_right<>"); return true;
        case 3: g_lim = c.arg(3, 0, n + 2); c.eq(a.min_left(r, under), ref_ml(m, r, g_lim), "min_left"); c.eq(a.template min_left<under>(r), ref_ml(m, r, g_lim), "min_left<>"); return true; }
        return false; }
    static bool update(sim::Ctx& c, int k, A& a, std::vector<E>& m) { int n = (int) m.size(); sim::Rng r = c.rng(3); F f{ 1 + r.below(50), r.below(50) };
        if (k == 7) { a = a.apply_all(f); for (auto& x : m) x = map_raw(f, x); return true; }
        if (k == 6) { int l = (int) c.arg(1, 0, n), q = (int) c.arg(2, 0, n); if (l > q) std::swap(l, q); a = a.apply(l, q, f); for (int i = l; i < q; ++i) m[(size_t) i] = map_raw(f, m[(size_t) i]); return true; }
        if (!n) return false; int i = (int) c.arg(1, 0, n - 1); if (k == 4) { E x = rnd(r); a = a.set(i, x); m[(size_t) i] = x; return true; } if (k == 5) { E x = rnd(r); a = a.apply(i, [&](M y) { return op_raw(y, x); }); m[(size_t) i] = op_raw(m[(size_t) i], x); return true; } return false; }
};
template <typename A_, bool COMM> struct TDual {
    using A = A_; using E = F; static constexpr bool INIT = false, CLEAR = true; static E dflt() { return F{}; } static E val(sim::Rng&) { return F{}; } static A make(const std::vector<E>& m, bool) { return m.empty() ? A() : A((int) m.size()); } static void clear() { A::clear_pool(); }
    static void verify(sim::Ctx& c, A& a, const std::vector<E>& m, const char* w) { for (size_t i = 0; i < m.size(); ++i) if (!(a.get((int) i) == m[i])) c.fail("version-changed", w); }
    static bool query(sim::Ctx& c, int k, A& a, const std::vector<E>& m) { int n = (int) m.size(); if (k <= 3) { if (n) { int i = (int) c.arg(1, 0, n - 1); c.require(a[i] == m[(size_t) i], "get"); } return true; } return false; }
    static bool update(sim::Ctx& c, int k, A& a, std::vector<E>& m) { int n = (int) m.size(); sim::Rng r = c.rng(3); F f{ COMM ? 1 : 1 + r.below(50), r.below(50) }; int l = 0, q = n; if (k != 7) { l = (int) c.arg(1, 0, n), q = (int) c.arg(2, 0, n); if (l > q) std::swap(l, q); a = a.apply(l, q, f); } else a = a.apply_all(f); for (int i = l; i < q; ++i) m[(size_t) i] = comp_raw(f, m[(size_t) i]); return true; }
};
namespace sim { template <> inline uint64_t hash_of<F>(const F& f) { return mix64(f.a * 3 + f.b); } }
struct TFen {
    using A = suisen::PersistentFenwickTree<u64>; using E = u64; static constexpr bool INIT = true, CLEAR = true; static E dflt() { return 0; } static E val(sim::Rng& r) { return r.next(); } static A make(const std::vector<E>& m, bool d) { return d ? (m.empty() ? A() : A((int) m.size())) : A(m); } static void clear() { A::clear_pool(); }
    static u64 s(const std::vector<E>& m, int l, int r) { u64 t = 0; for (int i = l; i < r; ++i) t += m[(size_t) i]; return t; }
    static void verify(sim::Ctx& c, A& a, const std::vector<E>& m, const char* w) { for (size_t i = 0; i < m.size(); ++i) if (a.sum((int) i, (int) i + 1) != m[i]) c.fail("version-changed", w); }
    static bool query(sim::Ctx& c, int k, A& a, const std::vector<E>& m) { int n = (int) m.size(); if (k <= 3) { int l = (int) c.arg(1, 0, n), r = (int) c.arg(2, 0, n); if (l > r) std::swap(l, r); c.eq(a.sum(l, r), s(m, l, r), "sum"); return true; } return false; }
    static bool update(sim::Ctx& c, int, A& a, std::vector<E>& m) { int n = (int) m.size(); if (!n) return false; int i = (int) c.arg(1, 0, n - 1); u64 x = c.raw(3); a = a.add(i, x); m[(size_t) i] += x; return true; }
};
template <typename T, int LG> struct TArr {
    using A = suisen::PersistentArray<T, LG>; using E = T; static constexpr bool INIT = true, CLEAR = true; static E dflt() { return E{}; } static E val(sim::Rng& r) { if constexpr (std::is_same_v<T, std::string>) return std::string(r.below(30), 'a') + std::to_string(r.below(100)); else return (E) r.next(); } static A make(const std::vector<E>& m, bool d) { if (d) return A((int) m.size()); size_t n = m.size(), k = n * 7 / 13; if (!n || (n & 1)) return A(m); auto x = m; std::swap(x[k], x[n - 1]); A a(x); E was = a.mut_set((int) k, m[k]); a.mut_set((int) n - 1, was); return a; } static void clear() { A::init_pool(130 * 200 + 2000); }
    static void verify(sim::Ctx& c, A& a, const std::vector<E>& m, const char* w) { c.eq(a.size(), (int) m.size(), "size"); for (size_t i = 0; i < m.size(); ++i) if (!(a.get((int) i) == m[i])) c.fail("version-changed", w); if (!(a.dump() == m)) c.fail("version-dump", w); }
    static bool query(sim::Ctx& c, int k, A& a, const std::vector<E>& m) { int n = (int) m.size(); if (k <= 3) { if (n) { int i = (int) c.arg(1, 0, n - 1); c.eq(a.get(i), m[(size_t) i], "get"); } return true; } return false; }
    static bool update(sim::Ctx& c, int k, A& a, std::vector<E>& m) { int n = (int) m.size(); if (k == 7) { a = a.clone(); if (n && (c.raw(3) & 1)) { sim::Rng r = c.rng(3); E x = val(r); c.eq(a.mut_set(0, x), m[0], "value replaced in place"); m[0] = x; } return true; } /* the root of a clone is its own */ if (!n) return false; int i = (int) c.arg(1, 0, n - 1); sim::Rng r = c.rng(3); E x = val(r); a = a.set(i, x); m[(size_t) i] = x; if (r.chance(1, 4)) { /* the slot just set belongs to the new version only */ E y = val(r); c.eq(a.mut_set(i, y), x, "value replaced in place"); m[(size_t) i] = y; } return true; }
};
struct TUf { // model: component label of every vertex
    using A = suisen::PersistentUnionFind; using E = int; static constexpr bool INIT = true, CLEAR = false; static E dflt() { return 0; } static E val(sim::Rng&) { return 0; } static A make(const std::vector<E>& m, bool) { for (size_t i = 0; i < m.size(); ++i) const_cast<int&>(m[i]) = (int) i; return A((int) m.size()); } static void clear() {}
    static void verify(sim::Ctx& c, A& a, const std::vector<E>& m, const char* w) { std::map<int, int> root; for (size_t i = 0; i < m.size(); ++i) { int r = a.root((int) i); if (r < 0 || r >= (int) m.size() || m[(size_t) r] != m[i]) c.fail("version-changed", std::string(w) + ": root in another component"); auto [it, ins] = root.emplace(m[i], r); if (!ins && it->second != r) c.fail("version-changed", std::string(w) + ": two roots in one component"); } }
    static bool query(sim::Ctx& c, int k, A& a, const std::vector<E>& m) { int n = (int) m.size(); if (k > 3) return false; if (!n) return true; int i = (int) c.arg(1, 0, n - 1), j = (int) c.arg(2, 0, n - 1); if (k == 0) c.eq(a.same(i, j), m[(size_t) i] == m[(size_t) j], "same"); else if (k == 1) c.eq(a.size(i), (int) std::count(m.begin(), m.end(), m[(size_t) i]), "size"); else if (k == 2) { auto g = a.groups(); std::set<std::vector<int>> s; for (auto& x : g) { std::sort(x.begin(), x.end()); s.insert(x); } std::map<int, std::vector<int>> t; for (int v = 0; v < n; ++v) t[m[(size_t) v]].push_back(v); std::set<std::vector<int>> q; for (auto& [l, x] : t) q.insert(x); c.require(s == q && s.size() == g.size(), "groups"); } else { int r = a[i]; c.require(m[(size_t) r] == m[(size_t) i], "root"); } return true; }
    static bool update(sim::Ctx& c, int, A& a, std::vector<E>& m) { int n = (int) m.size(); if (!n) return false; int i = (int) c.arg(1, 0, n - 1), j = (int) c.arg(2, 0, n - 1); auto [b, merged] = a.merge(i, j); c.eq(merged, m[(size_t) i] != m[(size_t) j], "merge-result"); a = b; int x = m[(size_t) i], y = m[(size_t) j]; if (c.raw(3) & 1) std::swap(x, y); for (auto& l : m) if (l == y) l = x; return true; }
};
template <typename Tr> static sim::WorldDef def(const char* name, const char* real, int share = 1) { sim::WorldDef d; d.prop = "C07"; d.name = name; d.run = run<Tr>; d.max_ops = 70; d.ncfg = 4; d.share = share; d.real = real;
    d.ops = { {"build", 1, 6}, {"clear_pool", 1, 6}, {"branch", 2, 6}, {"drop_or_read", 2, 6}, {"query0", 3, 6}, {"query1", 3, 6}, {"query2", 3, 6}, {"query3", 3, 6}, {"set", 5, 6}, {"modify", 5, 6}, {"range_apply", 8, 6}, {"apply_all", 2, 6} }; return d; }
static sim::RegisterWorld w1(def<TSeg>("segtree", "PersistentSegmentTree, ObjectPool", 2)), w2(def<TLazy>("lazy_segtree", "PersistentLazySegmentTree, ObjectPool", 3)),
    w3(def<TDual<suisen::PersistentDualSegmentTree<F, composition, id>, false>>("dual_segtree", "PersistentDualSegmentTree, ObjectPool", 2)), w4(def<TDual<suisen::PersistentCommutativeDualSegmentTree<F, composition, id>, true>>("commutative_dual_segtree", "PersistentCommutativeDualSegmentTree, ObjectPool")),
    w5(def<TFen>("fenwick", "PersistentFenwickTree, ObjectPool")), w6(def<TArr<u64, 4>>("array_16ary", "PersistentArray, ObjectPool")), w7(def<TArr<std::string, 1>>("array_binary_strings", "PersistentArray, ObjectPool")), w8(def<TUf>("union_find", "PersistentUnionFind, PersistentArray, ObjectPool", 3));
