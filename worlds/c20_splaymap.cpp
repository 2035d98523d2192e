// C20: self-adjusting maps and sets: every read restructures the tree; several are alive, split, merged, swapped and moved while memory fails.
#include "sim.hpp"
#include <algorithm>
#include <map>
#include <memory>
#include <tuple>
#include <string>
#include "monoids.hpp"
#include "small_stack.hpp"
#include "library/datastructure/splay_tree_map.hpp"
#include "library/datastructure/splay_tree_set.hpp"
#include "library/datastructure/range_foldable_map.hpp"
#include "library/datastructure/lazy_eval_map.hpp"
using i64 = int64_t; using u64 = uint64_t; using algebra::M; using algebra::F;
namespace {
using StrMap = suisen::SplayTreeMap<std::string, std::string>; using IntMap = suisen::SplayTreeMap<int, i64>; using Set = suisen::SplayTreeSet<int>; using Fold = suisen::RangeFoldableMap<int, M, algebra::op, algebra::e>; using Lazy = suisen::LazyEvalMap<int, M, algebra::op, algebra::e, F, algebra::mapping, algebra::composition, algebra::id>;
enum { NEW, INSERT, ABSENT, ERASE, ERASEI, CONTAINS, CREATE, BRACKET, DEFAULT, KTH, SPLITI, SPLITK, MERGE, SWAP, MOVE, PRODK, PRODI, APPLYK, APPLYI, APPLYALL, SWEEP, RAMP };
template <typename T> struct Tr;
template <> struct Tr<StrMap> { using K = std::string; using V = std::string; }; template <> struct Tr<IntMap> { using K = int; using V = i64; }; template <> struct Tr<Set> { using K = int; using V = char; }; template <> struct Tr<Fold> { using K = int; using V = M; }; template <> struct Tr<Lazy> { using K = int; using V = M; };
template <typename T> void run(sim::Ctx& c) {
    using K = typename Tr<T>::K; using V = typename Tr<T>::V; constexpr bool ST = std::is_same_v<T, Set>, FD = std::is_same_v<T, Fold> || std::is_same_v<T, Lazy>, LZ = std::is_same_v<T, Lazy>, STR = std::is_same_v<K, std::string>; bool on = c.faults_on();
    const bool L = sim::mix64(c.s.seed ^ 0xb16) % 20 == 0; int span = (int) c.cfg(3, 60) * (L ? 20 : 1); const u64 often = sim::mix64(c.s.seed ^ 0xf1) % 3 ? 8 : 1 /* reading every element settles every pending action and straightens the tree: seldom done in most runs */; u64 base = sim::live_blocks(); {
    struct Obj { std::unique_ptr<T> t = std::make_unique<T>(); std::map<K, V> m; }; std::vector<std::shared_ptr<Obj>> os;
    auto key = [&](sim::Rng& r) { int k = (int) r.below((u64) span) - span / 2; if constexpr (STR) return std::string("a key on the heap ") + std::to_string(k); else return r.chance(1, 30) ? (r.chance(1, 2) ? INT32_MAX : INT32_MIN) : k; };
    auto mk = [](i64 x) { if constexpr (STR) return "a value of some length: " + std::to_string(x); else if constexpr (FD) return algebra::elem((u64) x); else if constexpr (ST) return (char) 0; else return x; };
    auto val = [&](sim::Rng& r) { return mk((i64) r.below(1000)); };
    auto vec = [&](const std::map<K, V>& m) { std::vector<std::pair<K, V>> v(m.begin(), m.end()); return v; };
    auto prod = [&](const std::map<K, V>& m, auto&& pred) { M x; int i = 0; if constexpr (FD) for (auto& [k, v] : m) if (pred(i++, k)) x = algebra::op_raw(x, v); return x; };
    auto verify = [&](Obj& o) { c.eq((int) o.t->size(), (int) o.m.size(), "size"); auto v = vec(o.m); if constexpr (FD) c.eq(o.t->prod_all(), prod(o.m, [](int, const K&) { return true; }), "product of everything"); for (size_t i = 0; i < v.size(); ++i) { if constexpr (ST) c.eq(o.t->kth_element((int) i), v[i].first, "kth element"); else { auto e = o.t->kth_entry((int) i); c.require(e.first == v[i].first && e.second == v[i].second, "kth entry"); } } };
    auto put = [&](sim::Rng& r, std::shared_ptr<Obj> o) { if (os.size() < 5) os.push_back(o); else os[r.below(5)] = o; };
    os.push_back(std::make_shared<Obj>());
    while (c.next()) { sim::Rng r = c.rng(2); auto keep = os[(size_t) c.arg(0, 0, (i64) os.size() - 1)], keep2 = os[r.below(os.size())]; Obj& o = *keep; Obj& p = *keep2; T& t = *o.t; auto& m = o.m; int n = (int) m.size(); bool failed = false; K k = key(r), k2 = key(r); V v = val(r);
        auto go = [&](auto&& f) { if (!on || !r.chance(1, 3)) { f(); return true; } sim::arm_alloc_failure((i64) r.below(r.chance(1, 2) ? 1 : 4)); try { sim::Armed a; f(); } catch (const std::bad_alloc&) { failed = true; sim::probe("request_failed"); } sim::disarm_alloc_failure(); return !failed; };
        switch (c.cur->code) {
        case NEW: put(r, std::make_shared<Obj>()); break;
        case INSERT: if (go([&] { if constexpr (ST) t.insert(k); else t.insert(k, v); })) m[k] = v; break;
        case ABSENT: if (go([&] { if constexpr (ST) t.insert(k); else t.insert_if_absent(k, v); })) m.emplace(k, v); break;
        case ERASE: { bool g = false; if (n && r.chance(1, 2)) k = std::next(m.begin(), (i64) r.below((u64) n))->first; if (go([&] { if constexpr (ST) g = t.erase(k); else g = t.erase_key(k); })) c.eq(g, m.erase(k) > 0, "erase reports whether the key was there"); break; }
        case ERASEI: if constexpr (!ST) if (n) { int i = r.chance(1, 4) ? 0 : r.chance(1, 3) ? n - 1 : (int) r.below((u64) n); if (go([&] { t.erase_index(i); })) m.erase(std::next(m.begin(), i)); } break;
        case CONTAINS: for (int q = 0; q < 3; ++q) { k = key(r); bool g = false; if (go([&] { g = t.contains(k); })) c.eq(g, m.count(k) > 0, "contains"); failed = false; } break;
        case CREATE: if constexpr (!ST) { V* g = nullptr; if (go([&] { g = &t.get_or_create(k, v); })) c.require(*g == m.emplace(k, v).first->second, "get_or_create"); } break;
        case BRACKET: if constexpr (FD) { int how = (int) r.below(3); if (go([&] { if (how == 0) t[k] = v; else if (how == 1) t[k].apply([&](M x) { return algebra::op_raw(x, v); }); else { M got = t[k]; v = got; } })) { auto it = m.emplace(k, M{}).first; if (how == 0) it->second = v; else if (how == 1) it->second = algebra::op_raw(it->second, v); else c.eq(v, it->second, "read through the proxy"); } }
            else if constexpr (!ST) { bool w = r.chance(1, 2); V* g = nullptr; if (go([&] { g = &t[k]; })) { auto& x = m[k]; c.require(*g == x, "operator[]"); if (w) *g = x = v; } } else if (n) { int i = (int) r.below((u64) n); int g = 0; if (go([&] { g = t[i]; })) c.eq(g, std::next(m.begin(), i)->first, "operator[]"); } break;
        case DEFAULT: if constexpr (!ST) { V g{}; if (go([&] { g = t.get_or_default(k, v); })) { auto it = m.find(k); c.require(g == (it == m.end() ? v : it->second), "get_or_default"); } } break;
        case KTH: if (n) { int i = (int) r.below((u64) n); if constexpr (!ST) { std::pair<K, V> g; if (go([&] { g = t.kth_entry(i); })) c.require(g == std::pair<K, V>(*std::next(m.begin(), i)), "kth entry"); } else { int g = 0; if (go([&] { g = t.kth_element(i); })) c.eq(g, std::next(m.begin(), i)->first, "kth element"); } } break;
        case SPLITI: case SPLITK: { int i = (int) c.arg(1, 0, n); auto q = std::shared_ptr<Obj>(new Obj{ nullptr, {} }); if (c.cur->code == SPLITI) { if (go([&] { q->t.reset(new T(t.split_by_index(i))); })) { auto it = std::next(m.begin(), i); q->m.insert(it, m.end()); m.erase(it, m.end()); put(r, q); } } else if (go([&] { q->t.reset(new T(t.split_by_key(k))); })) { auto it = m.lower_bound(k); q->m.insert(it, m.end()); m.erase(it, m.end()); put(r, q); } break; }
        case MERGE: { Obj* l = &o; Obj* rr = &p; if (l == rr) break; if (l->m.size() && rr->m.size()) { if (rr->m.rbegin()->first < l->m.begin()->first) std::swap(l, rr); else if (!(l->m.rbegin()->first < rr->m.begin()->first)) break; } if (go([&] { l->t->merge(std::move(*rr->t)); })) { l->m.insert(rr->m.begin(), rr->m.end()); rr->m.clear(); verify(*rr); } break; }
        case SWAP: if (&o != &p && go([&] { t.swap(*p.t); })) { std::swap(m, p.m); verify(p); } break;
        case MOVE: if (go([&] { t = std::move(*p.t); })) { if (&o != &p) { m = p.m; p.m.clear(); verify(p); } } break;
        case PRODK: if constexpr (FD) { if (k2 < k) std::swap(k, k2); M g; bool call = r.chance(1, 2); if (go([&] { g = call ? t(k, k2) : t.prod_by_key(k, k2); })) c.eq(g, prod(m, [&](int, const K& x) { return !(x < k) && x < k2; }), "product over a key range"); } break;
        case PRODI: if constexpr (FD) { int a = (int) c.arg(1, 0, n), b = a + (int) r.below((u64) (n - a) + 1); M g; if (go([&] { g = t.prod_by_index(a, b); })) c.eq(g, prod(m, [&](int i, const K&) { return a <= i && i < b; }), "product over an index range"); } break;
        case APPLYK: case APPLYI: case APPLYALL: if constexpr (LZ) { F f{ r.below(7), r.below(50) }; int a = (int) c.arg(1, 0, n), b = a + (int) r.below((u64) (n - a) + 1); if (k2 < k) std::swap(k, k2); int cd = c.cur->code; if (go([&] { if (cd == APPLYK) t.apply_by_key(k, k2, f); else if (cd == APPLYI) t.apply_by_index(a, b, f); else t.apply_all(f); })) { int i = 0; for (auto& [x, y] : m) { if (cd == APPLYK ? !(x < k) && x < k2 : cd == APPLYI ? a <= i && i < b : true) y = algebra::map_raw(f, y); ++i; } } } break;
        case SWEEP: { int s = r.chance(1, 2) ? 1 : -1; auto w = vec(m); for (int i = s > 0 ? 0 : n - 1; i >= 0 && i < n; i += s) { bool g = false; if (go([&] { g = t.contains(w[i].first); })) c.eq(g, true, "contains, sweep"); failed = false; } break; }
        case RAMP: { if constexpr (!STR) { if (r.chance(3, 4)) { int len = (int) r.below(L ? 500 : 40), s = r.chance(1, 2) ? 1 : -1, st = (int) r.below((u64) span); for (int i = 0; i < len; ++i) { int kk = st + s * i; V x = mk(i); bool ok = go([&] { if constexpr (ST) t.insert(kk); else t.insert(kk, x); }); if (ok) m[kk] = x; else { failed = false; } } } else { int s = r.chance(1, 2) ? 1 : -1; auto q = new T(); for (int i = 0; i < 3000; ++i) { if constexpr (ST) q->insert(i * s); else q->insert(i * s, mk(i)); } c.eq(q->size(), 3000, "size of a long ramp"); sim::probe("deep_tree"); if (r.chance(1, 2)) { c.require(q->contains(0), "contains after a long ramp"); } sim::on_small_stack(65536, [&] { delete q; }); } } break; }
        }
        if (failed || r.below(often) == 0) verify(o); if (failed || r.chance(1, 6 * often)) for (auto& q : os) verify(*q);
        u64 h = 0; for (auto& q : os) { h = sim::mix64(h + 1); for (auto& [x, y] : q->m) h = sim::mix64(h * 31 ^ sim::hash_of(x) ^ sim::hash_of(y) * 3); } c.state(h); }
    for (auto& q : os) verify(*q); }
    c.eq(sim::live_blocks(), base, "every node is freed when the maps are gone"); sim::check_heap("end");
}
sim::WorldDef def(const char* nm, void (*run)(sim::Ctx&), const char* real) { sim::WorldDef d; d.prop = "C20"; d.name = nm; d.run = run; d.max_ops = 120; d.ncfg = 1; d.faults = true; d.real = real; d.stub = "memory (failures, reuse, poison)"; d.ops = { {"new", 2, 3}, {"insert", 10, 3}, {"insert_if_absent", 4, 3}, {"erase", 6, 3}, {"erase_index", 3, 3}, {"contains", 4, 3}, {"get_or_create", 3, 3}, {"bracket", 4, 3}, {"get_or_default", 3, 3}, {"kth", 4, 3}, {"split_by_index", 3, 3}, {"split_by_key", 3, 3}, {"merge", 6, 3}, {"swap", 1, 3}, {"move_assign", 1, 3}, {"prod_by_key", 4, 3}, {"prod_by_index", 4, 3}, {"apply_by_key", 4, 3}, {"apply_by_index", 4, 3}, {"apply_all", 2, 3}, {"sweep", 2, 3}, {"ramp", 2, 3} }; return d; }
sim::RegisterWorld w1(def("splay_map_strings", run<StrMap>, "library/datastructure/splay_tree_map.hpp")), w2(def("splay_map", run<IntMap>, "library/datastructure/splay_tree_map.hpp")), w3(def("splay_set", run<Set>, "library/datastructure/splay_tree_set.hpp")), w4(def("range_foldable_map", run<Fold>, "library/datastructure/range_foldable_map.hpp, library/util/update_proxy_object.hpp")), w5(def("lazy_eval_map", run<Lazy>, "library/datastructure/lazy_eval_map.hpp, library/util/update_proxy_object.hpp"));
}
