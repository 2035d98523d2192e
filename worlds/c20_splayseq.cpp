// C20: self-adjusting sequences (plain, with products, with lazy maps), split, concatenated, reversed and swapped while memory fails.
#include "sim.hpp"
#include <algorithm>
#include <memory>
#include <tuple>
#include <string>
#include "monoids.hpp"
#include "small_stack.hpp"
#include "library/datastructure/dynamic_sequence.hpp"
#include "library/datastructure/range_foldable_dynamic_sequence.hpp"
#include "library/datastructure/lazy_eval_dynamic_sequence.hpp"
using i64 = int64_t; using u64 = uint64_t; using algebra::M; using algebra::F;
namespace {
// commutative algebra: sum and count, affine maps
struct S { u64 s = 0; i64 n = 0; friend bool operator==(const S& a, const S& b) { return a.s == b.s && a.n == b.n; } };
S sop(S a, S b) { sim::callback(); return { algebra::addm(a.s, b.s), a.n + b.n }; } S se() { return {}; }
S smap(F f, S a) { sim::callback(); return { algebra::addm(algebra::mulm(f.a, a.s), algebra::mulm(f.b, (u64) a.n)), a.n }; }
}
namespace sim { template <> inline std::string show<S>(const S& m) { return "{" + std::to_string(m.s) + "," + std::to_string(m.n) + "}"; } }
namespace {
using Str = suisen::DynamicSequence<std::string>; using FoldN = suisen::RangeFoldableDynamicSequence<M, algebra::op, algebra::e>; using FoldC = suisen::RangeFoldableDynamicSequence<S, sop, se>; using LazyN = suisen::LazyEvalDynamicSequence<M, algebra::op, algebra::e, F, algebra::mapping, algebra::composition, algebra::id>; using LazyC = suisen::LazyEvalDynamicSequence<S, sop, se, F, smap, algebra::composition, algebra::id>;
enum { NEW, INSERT, PUSHB, PUSHF, ERASE, POPB, POPF, GET, SET, REVERSE, REVALL, PROD, APPLY, APPLYALL, SPLIT, CONCAT, CONCATL, SWAP, MOVE, SWEEP, RAMP };
template <typename T> void run(sim::Ctx& c) {
    using V = typename T::value_type; constexpr bool STR = std::is_same_v<V, std::string>, FD = !STR, COM = !std::is_same_v<V, M>, LZ = std::is_same_v<T, LazyN> || std::is_same_v<T, LazyC>; bool on = c.faults_on();
    const bool L = sim::mix64(c.s.seed ^ 0xb16) % 20 == 0; const size_t CAP = L ? 700 : 150; const u64 often = sim::mix64(c.s.seed ^ 0xf1) % 3 ? 8 : 1 /* reading every element settles every pending action and straightens the tree: seldom done in most runs */; u64 base = sim::live_blocks(); {
    struct Obj { std::unique_ptr<T> t = std::make_unique<T>(); std::vector<V> m; }; std::vector<std::shared_ptr<Obj>> os;
    auto mk = [](i64 x) { if constexpr (STR) return "a value of some length: " + std::to_string(x); else if constexpr (COM) return S{ (u64) x, 1 }; else return algebra::elem((u64) x); };
    auto rop = [](const V& a, const V& b) { if constexpr (STR) return a; else if constexpr (COM) return S{ algebra::addm(a.s, b.s), a.n + b.n }; else return algebra::op_raw(a, b); };
    auto rmap = [](F f, const V& a) { if constexpr (STR) return a; else if constexpr (COM) return S{ algebra::addm(algebra::mulm(f.a, a.s), algebra::mulm(f.b, (u64) a.n)), a.n }; else return algebra::map_raw(f, a); };
    auto prod = [&](const std::vector<V>& m, int l, int r) { V x{}; for (int i = l; i < r; ++i) x = rop(x, m[(size_t) i]); return x; };
    auto get = [](T& t, int i) { V v = t[i]; return v; };
    auto verify = [&](Obj& o) { int n = (int) o.m.size(); c.eq((int) o.t->size(), n, "size"); if constexpr (FD) c.eq(o.t->prod_all(), prod(o.m, 0, n), "product of everything"); for (int i = 0; i < n; ++i) c.eq(get(*o.t, i), o.m[(size_t) i], "element"); };
    auto put = [&](sim::Rng& r, std::shared_ptr<Obj> o) { if (os.size() < 5) os.push_back(o); else os[r.below(5)] = o; };
    os.push_back(std::make_shared<Obj>());
    while (c.next()) { sim::Rng r = c.rng(2); auto keep = os[(size_t) c.arg(0, 0, (i64) os.size() - 1)], keep2 = os[r.below(os.size())]; Obj& o = *keep; Obj& p = *keep2; T& t = *o.t; auto& m = o.m; int n = (int) m.size(); bool failed = false; V v = mk((i64) r.below(1000)); int a = (int) c.arg(1, 0, n), b = a + (int) r.below((u64) (n - a) + 1), i = n ? (int) r.below((u64) n) : 0;
        auto go = [&](auto&& f) { if (!on || !r.chance(1, 3)) { f(); return true; } sim::arm_alloc_failure((i64) r.below(r.chance(1, 2) ? 1 : 3)); try { sim::Armed ar; f(); } catch (const std::bad_alloc&) { failed = true; sim::probe("request_failed"); } sim::disarm_alloc_failure(); return !failed; };
        switch (c.cur->code) {
        case NEW: put(r, std::make_shared<Obj>()); break;
        case INSERT: if (n < (int) CAP && go([&] { t.insert(a, v); })) m.insert(m.begin() + a, v); break;
        case PUSHB: if (n < (int) CAP && go([&] { t.push_back(v); })) m.push_back(v); break;
        case PUSHF: if (n < (int) CAP && go([&] { t.push_front(v); })) m.insert(m.begin(), v); break;
        case ERASE: if (n && go([&] { t.erase(i); })) m.erase(m.begin() + i); break;
        case POPB: if (n && go([&] { t.pop_back(); })) m.pop_back(); break;
        case POPF: if (n && go([&] { t.pop_front(); })) m.erase(m.begin()); break;
        case GET: if (n) { if constexpr (STR) { int how = (int) r.below(4); if (how == 1) i = 0; if (how == 2) i = n - 1; const std::string* g = nullptr; if (go([&] { g = how == 0 ? &t[i] : how == 1 ? &std::as_const(t).front() : how == 2 ? &std::as_const(t).back() : &std::as_const(t)[i]; })) c.eq(*g, m[(size_t) i], "element"); } else { V g{}; if (go([&] { V x = t[i]; g = x; })) c.eq(g, m[(size_t) i], "element"); } } break;
        case SET: if (n) { if constexpr (STR) { int how = (int) r.below(3); if (how == 1) i = 0; if (how == 2) i = n - 1; if (go([&] { (how == 0 ? t[i] : how == 1 ? t.front() : t.back()) = v; })) m[(size_t) i] = v; } else { bool ap = r.chance(1, 3); if (go([&] { if (ap) t[i].apply([&](V x) { return rop(x, v); }); else t[i] = v; })) m[(size_t) i] = ap ? rop(m[(size_t) i], v) : v; } } break;
        case REVERSE: if constexpr (COM) { if (go([&] { t.reverse(a, b); })) std::reverse(m.begin() + a, m.begin() + b); } break;
        case REVALL: if constexpr (COM) { if (go([&] { t.reverse_all(); })) std::reverse(m.begin(), m.end()); } break;
        case PROD: if constexpr (FD) { V g{}; bool call = r.chance(1, 2); if (go([&] { g = call ? t(a, b) : t.prod(a, b); })) c.eq(g, prod(m, a, b), "product of a range"); } break;
        case APPLY: if constexpr (LZ) { F f{ r.below(7), r.below(50) }; if (go([&] { t.apply(a, b, f); })) for (int j = a; j < b; ++j) m[(size_t) j] = rmap(f, m[(size_t) j]); } break;
        case APPLYALL: if constexpr (LZ) { F f{ r.below(7), r.below(50) }; if (go([&] { t.apply_all(f); })) for (auto& x : m) x = rmap(f, x); } break;
        case SPLIT: { auto q = std::shared_ptr<Obj>(new Obj{ nullptr, {} }); if (go([&] { q->t.reset(new T(t.split(a))); })) { q->m.assign(m.begin() + a, m.end()); m.resize((size_t) a); put(r, q); } break; }
        case CONCAT: if (&o != &p && n + p.m.size() < CAP + 50) { bool pl = r.chance(1, 2); if (go([&] { if (pl) t += std::move(*p.t); else t.concat(std::move(*p.t)); })) { m.insert(m.end(), p.m.begin(), p.m.end()); p.m.clear(); verify(p); } } break;
        case CONCATL: if (&o != &p && n + p.m.size() < CAP + 50) { if (go([&] { t.concat_left(std::move(*p.t)); })) { m.insert(m.begin(), p.m.begin(), p.m.end()); p.m.clear(); verify(p); } } break;
        case SWAP: if constexpr (FD) if (&o != &p && go([&] { t.swap(*p.t); })) { std::swap(m, p.m); verify(p); } break;
        case MOVE: if (go([&] { t = std::move(*p.t); })) if (&o != &p) { m = p.m; p.m.clear(); verify(p); } break;
        case SWEEP: { int s = r.chance(1, 2) ? 1 : -1; for (int j = s > 0 ? 0 : n - 1; j >= 0 && j < n; j += s) c.eq(get(t, j), m[(size_t) j], "element, sweep"); break; }
        case RAMP: if (r.chance(3, 4)) { for (int len = (int) r.below(L ? 400 : 30); len-- > 0 && m.size() < CAP;) { V x = mk(len); bool back = r.chance(2, 3); bool ok = go([&] { if (back) t.push_back(x); else t.push_front(x); }); if (ok) m.insert(back ? m.end() : m.begin(), x); else failed = false; } } else { bool back = r.chance(1, 2); auto q = new T(); V x = mk(1); for (int j = 0; j < 3000; ++j) { if (back) q->push_back(x); else q->push_front(x); } c.eq(q->size(), 3000, "size of a long ramp"); sim::probe("deep_tree"); if (r.chance(1, 2)) c.eq(get(*q, (int) r.below(3000)), x, "element of a long ramp"); sim::on_small_stack(65536, [&] { delete q; }); } break;
        }
        if (failed || r.below(often) == 0) verify(o); if (failed || r.chance(1, 6 * often)) for (auto& q : os) verify(*q);
        u64 h = 0; for (auto& q : os) { h = sim::mix64(h + 1); for (auto& x : q->m) h = sim::mix64(h * 31 ^ sim::hash_of(x)); } c.state(h); }
    for (auto& q : os) verify(*q); }
    c.eq(sim::live_blocks(), base, "every node is freed when the sequences are gone"); sim::check_heap("end");
}
sim::WorldDef def(const char* nm, void (*run)(sim::Ctx&), const char* real) { sim::WorldDef d; d.prop = "C20"; d.name = nm; d.run = run; d.max_ops = 120; d.ncfg = 0; d.faults = true; d.real = real; d.stub = "memory (failures, reuse, poison)"; d.ops = { {"new", 2, 3}, {"insert", 10, 3}, {"push_back", 4, 3}, {"push_front", 3, 3}, {"erase", 5, 3}, {"pop_back", 2, 3}, {"pop_front", 2, 3}, {"get", 4, 3}, {"set", 4, 3}, {"reverse", 5, 3}, {"reverse_all", 2, 3}, {"prod", 5, 3}, {"apply", 6, 3}, {"apply_all", 2, 3}, {"split", 5, 3}, {"concat", 4, 3}, {"concat_left", 3, 3}, {"swap", 1, 3}, {"move_assign", 1, 3}, {"sweep", 2, 3}, {"ramp", 2, 3} }; return d; }
sim::RegisterWorld w1(def("dynamic_sequence", run<Str>, "library/datastructure/dynamic_sequence.hpp")), w2(def("range_foldable_sequence", run<FoldN>, "library/datastructure/range_foldable_dynamic_sequence.hpp")), w3(def("range_foldable_sequence_reversible", run<FoldC>, "library/datastructure/range_foldable_dynamic_sequence.hpp")), w4(def("lazy_eval_sequence", run<LazyN>, "library/datastructure/lazy_eval_dynamic_sequence.hpp")), w5(def("lazy_eval_sequence_reversible", run<LazyC>, "library/datastructure/lazy_eval_dynamic_sequence.hpp"));
}
