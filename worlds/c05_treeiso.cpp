#include "library/tree/tree_isomorphism_classification.hpp"
using G = std::vector<std::vector<int>>;
static std::string canon(const G& g, int u, int p) { std::vector<std::string> ch; for (int v : g[(size_t) u]) if (v != p) ch.push_back(canon(g, v, u)); std::sort(ch.begin(), ch.end()); std::string s = "("; for (auto& x : ch) s += x; return s + ")"; }
static void add(G& g, int u, int v) { g[(size_t) u].push_back(v); g[(size_t) v].push_back(u); }
static G make(sim::Rng& r, int n) {
    G g((size_t) n); int kind = (int) r.below(6), half = n / 2;
    if (kind == 5 && n % 2 == 0 && n >= 4) { // two equal or nearly equal halves joined by an edge: two centroids
        std::vector<int> p((size_t) half); for (int i = 1; i < half; ++i) { p[(size_t) i] = (int) r.below((uint64_t) i); add(g, p[(size_t) i], i); }
        for (int i = 1; i < half; ++i) { int q = r.chance(1, 10) ? (int) r.below((uint64_t) i) : p[(size_t) i]; add(g, half + q, half + i); } add(g, 0, half); }
    else for (int i = 1; i < n; ++i) add(g, kind == 0 ? i - 1 : kind == 1 ? 0 : kind == 2 ? (i - 1) / 2 : kind == 3 ? std::max(0, i - 1 - (int) r.below(3)) : (int) r.below((uint64_t) i), i);
    return g;
}
static G shuffle(sim::Rng& r, const G& g, std::vector<int>& p) { int n = (int) g.size(); p.resize((size_t) n); std::iota(p.begin(), p.end(), 0); for (int i = n; i > 1; --i) std::swap(p[(size_t) (i - 1)], p[r.below((uint64_t) i)]); G h((size_t) n); std::vector<std::pair<int,int>> es; for (int u = 0; u < n; ++u) for (int v : g[(size_t) u]) if (u < v) es.push_back({ u, v }); for (size_t i = es.size(); i > 1; --i) std::swap(es[i - 1], es[r.below(i)]); for (auto [u, v] : es) { if (r.chance(1, 2)) std::swap(u, v); add(h, p[(size_t) u], p[(size_t) v]); } return h; }
static G mutate(sim::Rng& r, const G& g) { // move one leaf
    int n = (int) g.size(); if (n < 3) return g; std::vector<int> leaves; for (int i = 0; i < n; ++i) if (g[(size_t) i].size() == 1) leaves.push_back(i); int u = leaves[r.below(leaves.size())], w; do w = (int) r.below((uint64_t) n); while (w == u); G h((size_t) n); for (int a = 0; a < n; ++a) for (int b : g[(size_t) a]) if (a < b && a != u && b != u) add(h, a, b); add(h, u, w); return h; }
static bool iso(const G& a, const G& b) { if (a.size() != b.size()) return false; std::string s = canon(a, 0, -1); for (int v = 0; v < (int) b.size(); ++v) if (canon(b, v, -1) == s) return true; return false; }
enum { SUBTREES, REROOT, ISO, ISO_ROOTED, NEWTREE };
template <typename ID, bool EXACT> static void run(sim::Ctx& c) {
    suisen::RootedTreeClassifier<ID> cl; bool trust = EXACT || c.s.env[sim::E_ENTROPY_MODE] == 0; std::vector<G> ts; std::map<std::string, int> byshape; std::map<int, std::string> byid; int maxn = c.cfg(0, 3) ? (int) c.cfg(1, 14) : (int) c.cfg(1, 50);
    auto note = [&](const std::string& s, int id) { c.obs((uint64_t) id); auto [i, a] = byshape.emplace(s, id); if (!a) c.require(i->second == id, "isomorphic-trees-differ", s); auto [j, b] = byid.emplace(id, s); if (!b && trust) c.require(j->second == s, "different-trees-share-id", s + " and " + j->second); };
    while (c.next()) {
        int code = c.cur->code; if (ts.empty()) code = NEWTREE; sim::Rng r = c.rng(0); auto pick = [&](int k) -> const G& { return ts[(size_t) c.arg(k, 0, (int64_t) ts.size() - 1)]; };
        switch (code) {
        case NEWTREE: { if (ts.size() > 5) ts.erase(ts.begin()); G g = make(r, 1 + (int) c.arg(1, 0, maxn - 1)); std::vector<int> p; if (!ts.empty() && r.chance(1, 2)) g = shuffle(r, pick(2), p); if (r.chance(1, 3)) g = mutate(r, g); ts.push_back(g); break; }
        case SUBTREES: { const G& g = pick(1); int root = (int) c.arg(2, 0, (int64_t) g.size() - 1); auto ids = cl.classify_subtrees(g, root); c.eq((int) ids.size(), (int) g.size(), "size"); std::vector<int> par(g.size(), -1), st{ root }; while (!st.empty()) { int u = st.back(); st.pop_back(); note(canon(g, u, par[(size_t) u]), ids[(size_t) u]); for (int v : g[(size_t) u]) if (v != par[(size_t) u]) par[(size_t) v] = u, st.push_back(v); } break; }
        case REROOT: { const G& g = pick(1); auto ids = cl.classify_rerooting(g); for (int v = 0; v < (int) g.size(); ++v) note(canon(g, v, -1), ids[(size_t) v]); break; }
        case ISO: { const G& a = pick(1); G b = pick(2); std::vector<int> p; if (r.chance(1, 2)) b = shuffle(r, a, p); if (r.chance(1, 3)) b = mutate(r, b); auto got = cl.is_isomorphic(a, b); bool want = iso(a, b); if (want) c.require(got.has_value(), "isomorphic-not-found"); if (got && trust) { c.require(want, "false-isomorphism"); c.require(canon(a, got->first, -1) == canon(b, got->second, -1), "wrong-witness"); } c.obs(got ? (uint64_t) got->first * 64 + (uint64_t) got->second : 9999); c.state(sim::hash_of(canon(a, 0, -1)) + (want ? 1 : 0)); break; }
        case ISO_ROOTED: { const G& a = pick(1); const G& b = pick(2); int u = (int) c.arg(3, 0, (int64_t) a.size() - 1), v = (int) c.arg(4, 0, (int64_t) b.size() - 1); bool want = canon(a, u, -1) == canon(b, v, -1), got = cl.is_isomorphic_rooted(a, u, b, v); if (want) c.require(got, "isomorphic-not-found"); else if (trust) c.require(!got, "false-isomorphism"); break; }
        }
    }
}
static sim::WorldDef mk(const char* n, void (*f)(sim::Ctx&)) { sim::WorldDef d; d.prop = "C05"; d.name = n; d.run = f; d.max_ops = 40; d.ncfg = 2; d.share = 2; d.real = "RootedTreeClassifier, find_centroid, MapTrie"; d.ops = { {"subtrees", 4, 3}, {"rerooting", 3, 2}, {"isomorphic", 6, 3}, {"isomorphic_rooted", 3, 5}, {"new_tree", 4, 3} }; return d; }
static sim::RegisterWorld w1(mk("tree_classifier_exact", run<suisen::IDHandlerNaive, true>)), w2(mk("tree_classifier_zobrist", run<suisen::IDHandlerZobrist<2>, false>));
