#include "monoids.hpp"
#include "library/tree/link_cut_tree.hpp"
#include "library/tree/link_cut_tree_path_foldable.hpp"
#include "library/tree/link_cut_tree_path_foldable_lazy.hpp"
using namespace algebra;
using u64 = uint64_t; using i64 = int64_t;
enum { MAKE, MAKES, LINK, CUT1, CUT2, EVERT, CONN, LCA, GET, SET, UPD, PATHR, PATH, PROD, PRODR, APPLY, APPLYR, EXPOSE, SWEEP, SHAPE };
struct KPlain { using T = M; using L = suisen::LinkCutTree<M>; static constexpr bool PRODS = false, LAZY = false; static constexpr const char* name = "lct"; };
struct KFold { using T = M; using L = suisen::LinkCutTreePathFoldable<M, op, e, toggle>; static constexpr bool PRODS = true, LAZY = false; static constexpr const char* name = "lct_fold"; };
struct KLazy { using T = M; using L = suisen::LinkCutTreePathFoldableLazy<M, op, e, F, mapping_sz, composition, id, toggle>; static constexpr bool PRODS = true, LAZY = true; static constexpr const char* name = "lct_lazy"; };
// a second family with the same machinery but its own pool, commutative products
inline u64 sop(u64 a, u64 b) { sim::callback(); return a + b; } inline u64 se() { return 0; } inline u64 stg(u64 x) { return x; }
struct SF { u64 a = 1, b = 0; }; inline u64 smap(SF f, u64 x, int n) { return f.a * x + f.b * (u64) n; } inline SF scomp(SF f, SF g) { return { f.a * g.a, f.a * g.b + f.b }; } inline SF sid() { return {}; }
struct KSum { using T = u64; using L = suisen::LinkCutTreePathFoldableLazy<u64, sop, se, SF, smap, scomp, sid, stg>; static constexpr bool PRODS = true, LAZY = true; static constexpr const char* name = "lct_sum"; };
template <typename T> static T val(sim::Rng& r) { if constexpr (std::is_same_v<T, M>) return elem(r.below(1000), (i64) r.below(4)); else return r.next(); }
template <typename T> static T bump(const T& x) { if constexpr (std::is_same_v<T, M>) { M y = x; y.h = y.r = addm(y.h, 7); return y; } else return x * 3 + 1; }
template <typename T> static T mul(const T& x, const T& y) { if constexpr (std::is_same_v<T, M>) return op_raw(x, y); else return x + y; }
template <typename K> struct World {
    using T = typename K::T; using L = typename K::L; using P = typename L::node_pointer_type;
    struct Model {
        std::vector<P> nd; std::vector<T> v; std::vector<std::vector<int>> adj; std::vector<int> root;   // root: the root of each vertex's tree
        std::unordered_map<const void*, int> idx;
        int add(P p, const T& x) { int i = (int) nd.size(); nd.push_back(p); v.push_back(x); adj.emplace_back(); root.push_back(i); idx[p] = i; return i; }
        std::vector<int> comp(int u) const { std::vector<int> q{ u }, seen(nd.size()); seen[u] = 1; for (size_t i = 0; i < q.size(); ++i) for (int w : adj[q[i]]) if (!seen[w]) seen[w] = 1, q.push_back(w); return q; }
        void reroot(int u) { for (int w : comp(u)) root[w] = u; }
        std::vector<int> path(int u, int w) const { std::vector<int> par(nd.size(), -2), q{ w }; par[w] = -1; for (size_t i = 0; i < q.size(); ++i) for (int x : adj[q[i]]) if (par[x] == -2) par[x] = q[i], q.push_back(x); std::vector<int> r; if (par[u] == -2) return r; for (int x = u; x != -1; x = par[x]) r.push_back(x); return r; }
        bool conn(int u, int w) const { return root[u] == root[w]; }
        int lca(int u, int w) const { auto a = path(root[u], u), b = path(root[u], w); int r = -1; for (size_t i = 0; i < a.size() && i < b.size() && a[i] == b[i]; ++i) r = a[i]; return r; }
        T fold(const std::vector<int>& p) const { T x = v[p[0]]; for (size_t i = 1; i < p.size(); ++i) x = mul(x, v[p[i]]); return x; }
        void unlink(int a, int b) { auto f = [&](int x, int y) { adj[x].erase(std::find(adj[x].begin(), adj[x].end(), y)); }; f(a, b); f(b, a); }
    };
    static void run(sim::Ctx& c) {
        int slack = (int) c.cfg(0, 80); const bool big = slack == 80; const int CAP = big ? 900 : 80; slack %= 3; L::init_pool(CAP + (slack == 2 ? 50 : slack)); Model m; std::unordered_set<const void*> live;
        int style = (int) c.cfg(0, 3);
        auto mk = [&](const T& x, P p) { c.require(p != nullptr && live.insert(p).second, "pool-live-slot", "a node in use was handed out again"); m.add(p, x); };
        auto cmp_path = [&](const std::vector<P>& got, const std::vector<int>& want, const char* cls) { std::vector<int> g; for (P p : got) { auto it = m.idx.find(p); g.push_back(it == m.idx.end() ? -1 : it->second); } c.eq(g, want, cls); };
        { sim::Rng r(c.s.seed * 3 + 1); int n0 = (int) c.cfg(1, 24); if (big) n0 *= 35; std::vector<T> vs; for (int i = 0; i < n0; ++i) vs.push_back(val<T>(r)); auto ps = L::make_nodes(vs); c.eq((int) ps.size(), n0, "make_nodes size"); for (int i = 0; i < n0; ++i) mk(vs[i], ps[i]);
          if (style) for (int i = 1; i < n0; ++i) if (r.chance(9, 10)) { int p = style == 1 ? i - 1 : style == 2 ? 0 : (int) r.below((u64) i); L::link(m.nd[i], m.nd[p]); m.adj[i].push_back(p); m.adj[p].push_back(i); m.reroot(m.root[p]); } }
        while (c.next()) {
            int n = (int) m.nd.size(); int u = (int) c.arg(0, 0, n - 1), w = (int) c.arg(1, 0, n - 1); sim::Rng r = c.rng(2); int code = c.cur->code;
            if (r.chance(2, 3) && code != LINK) { auto q = m.comp(u); w = q[r.below(q.size())]; }     // mostly the same tree
            switch (code) {
            case MAKE: if (n < CAP) { T x = val<T>(r); mk(x, L::make_node(x)); } break;
            case MAKES: { std::vector<T> vs; for (int i = (int) r.below(4); i-- > 0 && n + (int) vs.size() < CAP;) vs.push_back(val<T>(r)); auto ps = L::make_nodes(vs); c.eq(ps.size(), vs.size(), "make_nodes size"); for (size_t i = 0; i < ps.size(); ++i) mk(vs[i], ps[i]); break; }
            case LINK: if (!m.conn(u, w)) { L::link(m.nd[u], m.nd[w]); int rt = m.root[w]; m.adj[u].push_back(w); m.adj[w].push_back(u); m.reroot(rt); } break;
            case CUT1: if (m.root[u] != u) { L::cut(m.nd[u]); auto p = m.path(m.root[u], u); int q = p[p.size() - 2], rt = m.root[u]; m.unlink(u, q); m.reroot(u); m.reroot(rt); } break;
            case CUT2: if (m.adj[u].size()) { int q = m.adj[u][r.below(m.adj[u].size())]; L::cut(m.nd[u], m.nd[q]); m.unlink(u, q); m.reroot(u); m.reroot(q); } break;
            case EVERT: L::evert(m.nd[u]); m.reroot(u); break;
            case CONN: c.eq((bool) L::is_connected(m.nd[u], m.nd[w]), m.conn(u, w), "is_connected"); break;
            case LCA: { P p = L::lca(m.nd[u], m.nd[w]); int g = p == nullptr ? -1 : m.idx.count(p) ? m.idx[p] : -2; c.eq(g, m.conn(u, w) ? m.lca(u, w) : -1, "lca"); break; }
            case GET: c.eq(L::get(m.nd[u]), m.v[u], "get"); break;
            case SET: { T x = val<T>(r); L::set(m.nd[u], x); m.v[u] = x; break; }
            case UPD: L::update_value(m.nd[u], [&](const T& x) { c.eq(x, m.v[u], "update_value argument"); return bump(x); }); m.v[u] = bump(m.v[u]); break;
            case PATHR: cmp_path(L::path_from_root(m.nd[u]), m.path(m.root[u], u), "path_from_root"); break;
            case PATH: { auto p = L::path(m.nd[u], m.nd[w]); c.eq(p.has_value(), m.conn(u, w), "path exists"); if (p) cmp_path(*p, m.path(u, w), "path"); m.reroot(u); break; }
            case PROD: if constexpr (K::PRODS) if (m.conn(u, w)) { c.eq(L::prod(m.nd[u], m.nd[w]), m.fold(m.path(u, w)), "prod"); m.reroot(u); } break;
            case PRODR: if constexpr (K::PRODS) c.eq(L::prod_from_root(m.nd[u]), m.fold(m.path(m.root[u], u)), "prod_from_root"); break;
            case APPLY: case APPLYR: if constexpr (K::LAZY) { typename L::operator_type f; f.a = 1 + r.below(50); f.b = r.below(1000); auto p = code == APPLY ? m.path(u, w) : m.path(m.root[u], u); if (p.empty()) break; if (code == APPLY) { L::apply(m.nd[u], m.nd[w], f); m.reroot(u); } else L::apply_from_root(m.nd[u], f);
                for (int x : p) { if constexpr (std::is_same_v<T, M>) m.v[x] = map_raw(f, m.v[x]); else m.v[x] = smap(f, m.v[x], 1); } } break;
            case EXPOSE: L::expose(m.nd[u]); break;
            case SWEEP: for (int i = 0; i < n; ++i) c.eq(L::get(m.nd[i]), m.v[i], "value sweep"); break;
            case SHAPE: for (int i = 0; i < n; i += big ? 1 + (int) r.below(80) : 1) { auto p = L::path_from_root(m.nd[i]); cmp_path(p, m.path(m.root[i], i), "shape sweep"); } break;
            }
            u64 h = 7; for (int i = 0; i < (int) m.nd.size(); ++i) h = sim::mix64(h * 31 + (u64) m.root[i] * 7 + m.adj[i].size()); c.state(h);
        }
        for (int i = 0; i < (int) m.nd.size(); ++i) { c.eq(L::get(m.nd[i]), m.v[i], "value at the end"); cmp_path(L::path_from_root(m.nd[i]), m.path(m.root[i], i), "path at the end"); if constexpr (K::PRODS) c.eq(L::prod_from_root(m.nd[i]), m.fold(m.path(m.root[i], i)), "prod at the end"); }
    }
    static sim::WorldDef def() { sim::WorldDef d; d.prop = "C09"; d.name = K::name; d.run = run; d.max_ops = 140; d.ncfg = 3; d.real = "tree/link_cut_tree*.hpp, util/object_pool.hpp"; int p = K::PRODS, z = K::LAZY;
        d.ops = { {"make", 1, 3}, {"make_nodes", 1, 3}, {"link", 9, 3}, {"cut", 3, 3}, {"cut_edge", 3, 3}, {"evert", 4, 3}, {"connected", 4, 3}, {"lca", 5, 3}, {"get", 3, 3}, {"set", 4, 3}, {"update", 3, 3}, {"path_from_root", 3, 3}, {"path", 3, 3}, {"prod", p * 6, 3}, {"prod_from_root", p * 3, 3}, {"apply", z * 6, 3}, {"apply_from_root", z * 3, 3}, {"expose", 2, 3}, {"sweep", 1, 3}, {"shape", 1, 3} }; return d; }
};
static sim::RegisterWorld r1(World<KPlain>::def()), r2(World<KFold>::def()), r3(World<KLazy>::def()), r4(World<KSum>::def());
