// Sparse (lazy) segment trees over huge index ranges: every tree of a type draws its nodes from one growing static pool.
#include "monoids.hpp"
#include "library/datastructure/segment_tree/sparse_segment_tree.hpp"
#include "library/datastructure/segment_tree/sparse_lazy_segment_tree.hpp"
using namespace algebra;
using u64 = uint64_t; using i64 = int64_t;
static i64 g_T = 0;                       // initial contents: letter 3 below g_T, letter 5 from there on
static const u64 C0 = 3, C1 = 5;
static i64 isum(i64 l, i64 r) { unsigned __int128 n = (unsigned __int128) (r - l); unsigned __int128 s = n * (u64) l + (n ? n * (n - 1) / 2 : 0); return (i64) (u64) s; }
static M mpow(u64 letter, i64 l, i64 r) { M x, b = elem(letter, 0); for (i64 k = r - l; k; k >>= 1) { if (k & 1) x = op_raw(x, b); b = op_raw(b, b); } x.w = isum(l, r); x.n = r - l; return x; }
static M init_m(i64 l, i64 r) { if (r <= l) return M{}; i64 m = std::min(std::max(l, g_T), r); M a = l < m ? mpow(C0, l, m) : M{}; M b = m < r ? mpow(C1, m, r) : M{}; return op_raw(a, b); }
template <typename I> static M init_f(I l, I r) { sim::callback(); return init_m((i64) l, (i64) r); }
template <typename I> static M map_f(F f, M m, I l, I r) { sim::callback(); if (sim::g_ctx && (m.n != (i64) (r - l) || m.w != isum((i64) l, (i64) r))) sim::g_ctx->fail("mapping-range", "mapping called for [" + std::to_string((i64) l) + "," + std::to_string((i64) r) + ") with the product of another range"); return map_raw(f, m); }
struct Model { i64 n; std::map<i64, u64> seg;     // start -> letter, up to the next start
    explicit Model(i64 n_ = 0) : n(n_) { if (n > 0) { seg[0] = g_T > 0 ? C0 : C1; if (g_T > 0 && g_T < n) seg[g_T] = C1; } }
    void cut(i64 i) { if (i <= 0 || i >= n) return; auto it = std::prev(seg.upper_bound(i)); if (it->first != i) seg[i] = it->second; }
    void set(i64 i, u64 v) { cut(i); cut(i + 1); seg[i] = v; }
    void apply(i64 l, i64 r, F f) { if (l >= r) return; cut(l); cut(r); for (auto it = seg.find(l); it != seg.end() && it->first < r; ++it) it->second = addm(mulm(f.a, it->second), f.b); }
    u64 get(i64 i) const { return std::prev(seg.upper_bound(i))->second; }
    M prod(i64 l, i64 r) const { M x; if (l >= r) return x; for (auto it = std::prev(seg.upper_bound(l)); it != seg.end() && it->first < r; ++it) { i64 a = std::max(l, it->first), b = std::next(it) == seg.end() ? n : std::next(it)->first; b = std::min(b, r); x = op_raw(x, mpow(it->second, a, b)); } return x; }
    u64 hash() const { u64 h = (u64) n; for (auto& s : seg) h = sim::mix64(h * 31 + (u64) s.first * 7 + s.second); return h; } };
static M letter(u64 v, i64 i) { M m = elem(v, i); return m; }
enum { NEW, SET, FUN, NEST, GET, PROD, ALL, APPLY1, APPLY, APPLYALL, MOVE, RESERVE, FLOOD };
template <typename I, bool LAZY> struct Tree;
template <typename I> struct Tree<I, false> { using A = suisen::SparseSegmentTree<I, M, op, e, init_f<I>>; };
template <typename I> struct Tree<I, true> { using A = suisen::SparseLazySegmentTree<I, M, op, e, F, map_f<I>, composition, id, init_f<I>>; };
template <typename I, bool LAZY> static void run(sim::Ctx& c) {
    using A = typename Tree<I, LAZY>::A; struct H { A a; Model m; };
    int big = (int) c.cfg(0, 5); const i64 IMAX = (i64) std::min<u64>((u64) std::numeric_limits<I>::max(), (u64) INT64_MAX);
    auto pick_n = [&](u64 x) -> i64 { switch (big) { case 0: return (i64) (x % 5); case 1: return (i64) (x % 40); case 2: return (i64) (x % 3000); case 3: return (i64) 1 << (x % (sizeof(I) == 4 ? 31 : 62)); case 4: return IMAX - (i64) (x % 3); default: return IMAX / 2 + (i64) (x % 1000); } };
    g_T = (int) c.cfg(0, 3) == 0 ? 0 : (i64) (c.cfg(0, 1000000) * (pick_n(7) / 1000000 + 1)) % (pick_n(9) + 1);
    std::vector<std::unique_ptr<H>> hs; std::vector<i64> hot;
    auto add = [&](i64 n) { hs.push_back(std::unique_ptr<H>(new H{ A((I) n), Model(n) })); };
    add(pick_n(c.s.seed)); bool faults = c.faults_on();
    while (c.next()) {
        int code = c.cur->code; size_t k = (size_t) c.arg(0, 0, (i64) hs.size() - 1); sim::Rng r = c.rng(4); H* h = hs[k].get(); i64 n = h->m.n;
        auto pos = [&](int a, i64 hi) -> i64 { if (hi < 0) return 0; u64 x = c.raw(a); i64 p; if (hot.size() && x % 3 == 0) p = hot[x / 7 % hot.size()] + (i64) (x / 91 % 3) - 1; else if (x % 11 == 1 && g_T) p = g_T + (i64) (x / 11 % 3) - 1; else p = c.arg(a, 0, hi); if (p < 0) p = 0; if (p > hi) p = hi; if (hot.size() < 12) hot.push_back(p); else hot[x % 12] = p; return p; };
        i64 i = pos(1, n - 1), l = pos(1, n), q = pos(2, n); if (l > q) std::swap(l, q); u64 x = r.below(1000); F f{ 1 + r.below(50), r.below(1000) };
        // an allocation that fails inside a read or a point update must leave the contents as they were
        bool arm = faults && r.chance(1, 2) && (code == SET || code == FUN || code == GET || code == PROD || code == APPLY1); bool failed = false;
        auto guard = [&](auto&& body) { if (!arm) { body(); return; } sim::arm_alloc_failure((i64) r.below(3)); try { sim::Armed a; body(); } catch (const std::bad_alloc&) { failed = true; } sim::disarm_alloc_failure(); if (failed) sim::probe("op_failed_by_allocation"); };
        switch (code) {
        case NEW: { if (hs.size() < 6) add(pick_n(c.raw(1))); else { hs[k] = std::unique_ptr<H>(new H{ A((I) pick_n(c.raw(1))), Model(pick_n(c.raw(1))) }); } h = hs[k].get(); n = h->m.n; break; }
        case SET: if (n) { M v = letter(x, i); guard([&] { h->a.set((I) i, v); }); if (!failed) h->m.set(i, x); } break;
        case FUN: if (n) { bool boom = r.chance(1, 6) && faults; u64 old = h->m.get(i); try { guard([&] { h->a.apply_fun((I) i, [&](const M& y) { if (!(y == letter(old, i))) c.fail("apply_fun argument", sim::show(y)); if (boom) { sim::fault("callback_throw"); throw sim::InjectedFault(); } return letter(x, i); }); }); if (!failed) h->m.set(i, x); } catch (const sim::InjectedFault&) {} } break;
        case NEST: if (n && hs.size() > 1) { size_t k2 = (k + 1 + (size_t) r.below(hs.size() - 1)) % hs.size(); H* g = hs[k2].get(); i64 gn = g->m.n; if (!gn) break; i64 j = (i64) (r.next() % (u64) gn); sim::fault("nested_client"); sim::probe("nested_update_of_another_tree");
            h->a.apply_fun((I) i, [&](const M&) { g->a.set((I) j, letter(x + 1, j)); return letter(x, i); }); h->m.set(i, x); g->m.set(j, x + 1); c.eq(g->a.get((I) j), letter(g->m.get(j), j), "get after nested update"); } break;
        case GET: if (n) guard([&] { M y = h->a.get((I) i); if (!(y == letter(h->m.get(i), i))) c.fail("get", sim::show(y) + " want " + sim::show(letter(h->m.get(i), i))); }); break;
        case PROD: guard([&] { M y = r.chance(1, 2) ? h->a.prod((I) l, (I) q) : h->a((I) l, (I) q); M w = h->m.prod(l, q); if (!(y == w)) c.fail("prod", "[" + std::to_string(l) + "," + std::to_string(q) + ") of " + std::to_string(n) + ": " + sim::show(y) + " want " + sim::show(w)); }); break;
        case ALL: { M w = h->m.prod(0, n); c.eq(h->a.prod_all(), w, "prod_all"); break; }
        case APPLY1: if constexpr (LAZY) if (n) { guard([&] { h->a.apply((I) i, f); }); if (!failed) h->m.apply(i, i + 1, f); } break;
        case APPLY: if constexpr (LAZY) { h->a.apply((I) l, (I) q, f); h->m.apply(l, q, f); } break;
        case APPLYALL: if constexpr (LAZY) { h->a.apply_all(f); h->m.apply(0, n, f); } break;
        case MOVE: { A t = std::move(h->a); h->a = std::move(t); break; }
        case RESERVE: A::reserve((int) r.below(500)); break;
        case FLOOD: if (r.chance(1, 40)) { // a busy tree fills the pool that all of them share with tens of thousands of nodes
            i64 fn = (i64) 1 << (sizeof(I) == 4 ? 30 : 56); std::unique_ptr<H> b(new H{ A((I) fn), Model(fn) }); sim::probe("pool_of_many_nodes"); std::vector<i64> at; int todo = sizeof(I) == 4 ? 2600 : 1300; for (int z = 0; z < todo; ++z) { i64 p = (i64) (r.next() % (u64) fn); b->a.set((I) p, letter((u64) z, p)); b->m.set(p, (u64) z); if (z % 40 == 0) at.push_back(p); }
            for (int z = 0; z < 4; ++z) { i64 p = at[r.below(at.size())], p2 = at[r.below(at.size())]; if (p > p2) std::swap(p, p2); c.eq(b->a.get((I) p), letter(b->m.get(p), p), "get in a busy pool"); c.eq(b->a.prod((I) p, (I) p2), b->m.prod(p, p2), "prod in a busy pool"); } c.eq(b->a.prod_all(), b->m.prod(0, fn), "prod_all in a busy pool"); for (auto& q : hs) c.eq(q->a.prod_all(), q->m.prod(0, q->m.n), "prod_all of the others"); } break;
        }
        if (failed) { for (i64 p : hot) if (p < n) c.eq(h->a.get((I) p), letter(h->m.get(p), p), "contents after a failed allocation"); c.eq(h->a.prod_all(), h->m.prod(0, n), "prod_all after a failed allocation"); }
        c.state(h->m.hash());
    }
    for (auto& h : hs) { i64 n = h->m.n; c.eq(h->a.prod_all(), h->m.prod(0, n), "prod_all at the end"); for (auto& s : h->m.seg) { c.eq(h->a.get((I) s.first), letter(s.second, s.first), "get at the end"); c.eq(h->a.prod((I) s.first, (I) n), h->m.prod(s.first, n), "suffix product at the end"); } }
}
static sim::WorldDef def(const char* name, void (*f)(sim::Ctx&), int z) { sim::WorldDef d; d.prop = "C10"; d.name = name; d.run = f; d.max_ops = 110; d.ncfg = 4; d.faults = true; d.real = "datastructure/segment_tree/sparse_segment_tree.hpp, sparse_lazy_segment_tree.hpp";
    d.ops = { {"new", 2, 5}, {"set", 8, 5}, {"apply_fun", 4, 5}, {"nested", 3, 5}, {"get", 4, 5}, {"prod", 8, 5}, {"prod_all", 2, 5}, {"apply_point", z * 3, 5}, {"apply_range", z * 8, 5}, {"apply_all", z * 2, 5}, {"move", 1, 5}, {"reserve", 1, 5}, {"flood", 1, 5} }; return d; }
static sim::RegisterWorld r1(def("sparse_int", run<int, false>, 0)), r2(def("sparse_ll", run<long long, false>, 0)), r3(def("sparse_lazy_int", run<int, true>, 1)), r4(def("sparse_lazy_ll", run<long long, true>, 1)), r5(def("sparse_u32", run<unsigned, false>, 0));
