// C23: tries and binary tries, several alive and copied, while memory fails.
#include "sim.hpp"
#include <algorithm>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include "library/string/trie_array.hpp"
#include "library/string/trie_map.hpp"
#include "library/datastructure/binary_trie.hpp"
#include "library/datastructure/binary_trie_patricia.hpp"
using i64 = int64_t; using u64 = uint64_t;
namespace {
struct AN : suisen::ArrayTrieNode<5, 'a'> { int cnt = 0; };
struct AP : suisen::ArrayTrieNodeWithParentLink<5, 'a'> { using base = suisen::ArrayTrieNodeWithParentLink<5, 'a'>; using base::base; AP() : base() {} int cnt = 0; };
struct MN : suisen::MapTrieNode<char, true> { int cnt = 0; };
struct HN : suisen::MapTrieNode<char, false> { int cnt = 0; };
template <typename N> struct Tr;
template <> struct Tr<AN> { using T = suisen::ArrayTrie<AN>; static constexpr int off = 'a'; static constexpr bool par = false; };
template <> struct Tr<AP> { using T = suisen::ArrayTrie<AP>; static constexpr int off = 'a'; static constexpr bool par = true; };
template <> struct Tr<MN> { using T = suisen::MapTrie<MN>; static constexpr int off = 0; static constexpr bool par = false; };
template <> struct Tr<HN> { using T = suisen::MapTrie<HN>; static constexpr int off = 0; static constexpr bool par = false; };
enum { NEW, ADD, FIND, COPY, ASSIGN, MOVE, RESERVE, BURST };
template <typename N> void trun(sim::Ctx& c) { using T = typename Tr<N>::T; constexpr int off = Tr<N>::off; bool on = c.faults_on(); u64 base = sim::live_blocks(); {
    const bool L = sim::mix64(c.s.seed ^ 0xb16) % 12 == 0; int sigma = (int) c.cfg(1, 5), maxlen = (int) c.cfg(1, 9) * (L ? 6 : 1); const size_t LEN = L ? 70 : 14;
    struct Obj { std::unique_ptr<T> t = std::make_unique<T>(); std::map<std::string, int> m; }; std::vector<std::shared_ptr<Obj>> os; os.push_back(std::make_shared<Obj>());
    auto walk = [&](const T& t, const std::string& s) { int cur = 0; for (char ch : s) { cur = t[cur][typename T::key_type(ch - off)]; if (cur == T::none) return -1; c.require(cur > 0 && cur < (int) t.nodes.size(), "an edge leads to a node"); } return cur; };
    auto verify = [&](Obj& o) { const T& t = *o.t; for (auto& [s, k] : o.m) { int v = walk(t, s); c.require(v >= 0, "a word that was added is found", s); c.eq(t[v].cnt, k, "value stored at a word"); }
        // every node is the end of exactly one path
        std::vector<int> in(t.nodes.size()); int edges = 0; for (size_t v = 0; v < t.nodes.size(); ++v) for (int k = 0; k < 5; ++k) { int w = t[(int) v][typename T::key_type('a' + k - off)]; if (w == T::none) continue; ++edges; c.require(w > (int) v && w < (int) t.nodes.size(), "an edge leads to a later node"); ++in[(size_t) w]; if constexpr (Tr<N>::par) { c.eq(t[w].par, (int) v, "parent"); c.eq((int) t[w].key, k, "key of the edge from the parent"); } }
        c.eq(edges, (int) t.nodes.size() - 1, "one edge per node but the root"); for (size_t v = 1; v < in.size(); ++v) c.eq(in[v], 1, "one edge per node but the root"); };
    auto put = [&](sim::Rng& r, std::shared_ptr<Obj> o) { if (os.size() < 4) os.push_back(o); else os[r.below(4)] = o; };
    while (c.next()) { sim::Rng r = c.rng(2); auto keep = os[(size_t) c.arg(0, 0, (i64) os.size() - 1)], keep2 = os[r.below(os.size())]; Obj& o = *keep; Obj& p = *keep2; bool failed = false;
        auto go = [&](auto&& f) { failed = false; if (!on || !r.chance(1, 3)) { f(); return true; } sim::arm_alloc_failure((i64) r.below(6)); try { sim::Armed a; f(); } catch (const std::bad_alloc&) { failed = true; sim::probe("request_failed"); } sim::disarm_alloc_failure(); return !failed; };
        auto word = [&] { std::string s; if (o.m.size() && r.chance(1, 2)) { s = std::next(o.m.begin(), (i64) r.below(o.m.size()))->first; s.resize(r.below(s.size() + 1)); } for (int k = (int) r.below((u64) maxlen + 1); k-- > 0 && s.size() < LEN;) s += (char) ('a' + (int) r.below((u64) sigma)); return s; };
        auto add = [&] { std::string s = word(); if (o.m.size() > (L ? 250u : 40u)) return; std::string pre = s.substr(0, r.below(s.size() + 1)); int st = r.chance(1, 4) ? walk(*o.t, pre) : -1; std::string rest = st >= 0 ? s.substr(pre.size()) : s; if (go([&] { ++(st >= 0 ? o.t->add(rest, st) : o.t->add(s)).cnt; })) ++o.m[s]; };
        switch (c.cur->code) {
        case NEW: put(r, std::make_shared<Obj>()); break;
        case ADD: add(); break;
        case BURST: for (int k = (int) r.below(L ? 90 : 10); k-- > 0;) add(); break;
        case FIND: { std::string s = word(); int v = walk(*o.t, s); auto it = o.m.find(s); c.eq(v < 0 ? 0 : (*o.t)[v].cnt, it == o.m.end() ? 0 : it->second, "value stored at a word"); break; }
        case COPY: { auto q = std::make_shared<Obj>(Obj{ nullptr, o.m }); if (go([&] { q->t.reset(new T(*o.t)); })) put(r, q); break; }
        case ASSIGN: *o.t = *p.t; o.m = p.m; break;
        case MOVE: if (&o != &p) { std::swap(*o.t, *p.t); std::swap(o.m, p.m); } break;
        case RESERVE: go([&] { o.t->reserve((int) r.below(60)); }); break; }
        verify(o); if (failed || r.chance(1, 5)) for (auto& q : os) verify(*q);
        u64 h = 0; for (auto& q : os) { h = sim::mix64(h + q->t->nodes.size()); for (auto& [s, k] : q->m) h = sim::mix64(h * 31 ^ std::hash<std::string>{}(s) ^ (u64) k); } c.state(h); } }
    c.eq(sim::live_blocks(), base, "all memory is returned"); sim::check_heap("end");
}
sim::WorldDef def(const char* nm, void (*run)(sim::Ctx&), const char* real, std::vector<sim::OpDef> ops) { sim::WorldDef d; d.prop = "C23"; d.name = nm; d.run = run; d.max_ops = 60; d.ncfg = 2; d.faults = true; d.real = real; d.stub = "memory (failures, reuse, poison)"; d.ops = ops; return d; }
std::vector<sim::OpDef> to{ {"new", 1, 3}, {"add", 12, 3}, {"find", 5, 3}, {"copy", 2, 3}, {"assign", 1, 3}, {"swap", 1, 3}, {"reserve", 1, 3}, {"burst", 3, 3} };
sim::RegisterWorld t1(def("trie_array", trun<AN>, "library/string/trie_array.hpp", to)), t2(def("trie_array_parents", trun<AP>, "library/string/trie_array.hpp", to)), t3(def("trie_map", trun<MN>, "library/string/trie_map.hpp", to)), t4(def("trie_hash_map", trun<HN>, "library/string/trie_map.hpp", to));

// binary tries: one multiset of integers each
enum { BNEW, INS, INS1, ERASE, EALL, COUNT, XKTH, XCOUNT, XNEAR, KTH, NEAR, BCOPY, BASSIGN, BCLEAR, BBURST };
template <typename T> struct Bits;
template <typename V, int B> struct Bits<suisen::BinaryTrie<V, B>> { using U = std::make_unsigned_t<V>; static constexpr int b = B; static constexpr bool pat = false; };
template <typename V, uint32_t B, typename S> struct Bits<suisen::BinaryTriePatricia<V, B, S, nullptr>> { using U = std::make_unsigned_t<V>; static constexpr int b = B; static constexpr bool pat = true; };
template <typename T> void brun(sim::Ctx& c) { using U = typename Bits<T>::U; constexpr int B = Bits<T>::b; constexpr bool PAT = Bits<T>::pat; constexpr U MASK = B == std::numeric_limits<U>::digits ? U(~U(0)) : U((U(1) << (B % std::numeric_limits<U>::digits)) - 1); bool on = c.faults_on(); u64 base = sim::live_blocks(); {
    const bool L = sim::mix64(c.s.seed ^ 0xb16) % 12 == 0; const int CAP = L ? 500 : 60; int nbase = (int) c.cfg(1, 6), flips = (int) c.cfg(0, 4); std::vector<U> bs; { sim::Rng r(c.s.seed ^ 77); for (int k = 0; k < nbase; ++k) bs.push_back(U(r.next()) & MASK); bs.push_back(0); bs.push_back(MASK); }
    struct Obj { std::unique_ptr<T> t = std::make_unique<T>(); std::map<U, i64> m; i64 n = 0; }; std::vector<std::shared_ptr<Obj>> os; os.push_back(std::make_shared<Obj>());
    auto sorted = [&](Obj& o, U x) { std::vector<U> v; for (auto& [u, k] : o.m) for (i64 j = 0; j < k; ++j) v.push_back(U(u ^ x)); std::sort(v.begin(), v.end()); return v; };
    auto verify = [&](Obj& o) { c.eq((i64) o.t->size(), o.n, "size"); c.eq(o.t->empty(), o.n == 0, "empty"); for (auto& [u, k] : o.m) c.eq((i64) o.t->count(u), k, "multiplicity"); auto v = sorted(o, 0); for (size_t k = 0; k < v.size(); k += 1 + v.size() / 7) c.eq((u64) (U) o.t->kth_min((int) k), (u64) v[k], "k-th element"); };
    auto put = [&](sim::Rng& r, std::shared_ptr<Obj> o) { if (os.size() < 4) os.push_back(o); else os[r.below(4)] = o; };
    while (c.next()) { sim::Rng r = c.rng(2); auto keep = os[(size_t) c.arg(0, 0, (i64) os.size() - 1)], keep2 = os[r.below(os.size())]; Obj& o = *keep; Obj& p = *keep2; bool failed = false;
        auto go = [&](auto&& f) { failed = false; if (!on || !r.chance(1, 3)) { f(); return true; } sim::arm_alloc_failure((i64) (PAT || r.chance(1, 2) ? r.below(3) : r.below((u64) B + 1))); try { sim::Armed a; f(); } catch (const std::bad_alloc&) { failed = true; sim::probe("request_failed"); } sim::disarm_alloc_failure(); return !failed; };
        auto val = [&] { if (o.m.size() && r.chance(1, 3)) return std::next(o.m.begin(), (i64) r.below(o.m.size()))->first; U u = r.chance(1, 12) ? U(r.next()) & MASK : bs[r.below(bs.size())]; for (int k = (int) r.below((u64) flips + 1); k-- > 0;) u ^= U(U(1) << r.below((u64) B)); return u; };
        auto ins = [&] { if (o.n > CAP) return; U u = val(); int k = r.chance(1, 2) ? 1 : (int) r.below(4); i64 ret = 0; if (go([&] { if constexpr (PAT) { if (k == 1) o.t->insert(u); else o.t->insert(u, (unsigned) k); } else { ret = k == 1 ? o.t->insert(u) : o.t->insert(u, k); } })) { if (k) o.m[u] += k; o.n += k; if constexpr (!PAT) c.eq(ret, k ? o.m[u] : 0, "multiplicity after insertion"); } };
        auto era = [&](bool all) { U u = val(); auto it = o.m.find(u); i64 have = it == o.m.end() ? 0 : it->second; i64 k = all ? have : (i64) r.below(4); i64 ret; if constexpr (PAT) ret = all ? (i64) o.t->erase(u, 1000000) : k == 1 ? (i64) o.t->erase(u) : (i64) o.t->erase(u, (unsigned) k); else ret = all ? o.t->erase_all(u) : k == 1 ? o.t->erase(u) : o.t->erase(u, (int) k); i64 e = std::min(have, k); c.eq(ret, e, "number of erased elements"); o.n -= e; if (have) { if ((it->second -= e) == 0) o.m.erase(it); } };
        auto eq = [&](auto got, U want, const char* cls) { c.eq((u64) (U) got, (u64) want, cls); };
        switch (c.cur->code) {
        case BNEW: put(r, std::make_shared<Obj>()); break;
        case INS: ins(); break;
        case INS1: if constexpr (PAT) { U u = val(); if (o.n > CAP) break; bool ret = false; if (go([&] { ret = o.t->insert_if_absent(u); })) { c.eq(ret, o.m.count(u) == 0, "insert_if_absent inserts an absent element"); if (ret) { o.m[u] = 1; ++o.n; } } } else ins(); break;
        case ERASE: era(false); break;
        case EALL: era(true); break;
        case COUNT: { U u = val(); auto it = o.m.find(u); i64 k = it == o.m.end() ? 0 : it->second; c.eq((i64) o.t->count(u), k, "multiplicity"); c.eq(o.t->contains(u), k > 0, "membership"); if constexpr (!PAT) { unsigned l = (unsigned) r.below((u64) B + 1); i64 e = 0; for (auto& [v, q] : o.m) if (l == (unsigned) B || (v >> l) == (u >> l)) e += q; c.eq((i64) o.t->prefix_count(u, l), e, "elements with a prefix");
            if (o.m.size() < 40) { std::string txt; if (r.chance(1, 2)) txt = o.t->to_string(); else { std::ostringstream os2; os2 << *o.t; txt = os2.str(); } std::map<U, i64> got; // the leaves, as "count (value)"
                for (size_t q = txt.find('('); q != txt.npos; q = txt.find('(', q + 1)) { size_t e2 = q - 1, b2 = e2; while (b2 > 0 && isdigit((unsigned char) txt[b2 - 1])) --b2; i64 k2 = std::atoll(txt.substr(b2, e2 - b2).c_str()); if (k2) got[U(std::strtoull(txt.c_str() + q + 1, nullptr, 10))] += k2; }
                c.require(got == o.m, "the printed leaves are the elements", txt); } } break; }
        case XKTH: if (o.n) { U x = val(); auto v = sorted(o, x); size_t k = r.below(v.size()); eq(o.t->xor_kth_min(x, (int) k), v[k], "k-th of the xors"); eq(o.t->xor_kth_max(x, (int) k), v[v.size() - 1 - k], "k-th largest of the xors"); eq(o.t->xor_min(x), v.front(), "least xor"); eq(o.t->xor_max(x), v.back(), "largest xor"); } break;
        case XCOUNT: { U x = val(), u = val(); auto v = sorted(o, x); i64 lt = std::lower_bound(v.begin(), v.end(), u) - v.begin(), le = std::upper_bound(v.begin(), v.end(), u) - v.begin(); c.eq((i64) o.t->xor_count_lt(x, u), lt, "xors below"); c.eq((i64) o.t->xor_count_leq(x, u), le, "xors at most"); c.eq((i64) o.t->xor_count_gt(x, u), o.n - le, "xors above"); c.eq((i64) o.t->xor_count_geq(x, u), o.n - lt, "xors at least"); c.eq((i64) o.t->count_lt(u), [&] { auto w = sorted(o, 0); return (i64) (std::lower_bound(w.begin(), w.end(), u) - w.begin()); }(), "elements below"); break; }
        case XNEAR: case NEAR: { bool xr = c.cur->code == XNEAR; U x = xr ? val() : U(0), u = val(); auto v = sorted(o, x); auto lo = std::lower_bound(v.begin(), v.end(), u), hi = std::upper_bound(v.begin(), v.end(), u);
            auto pr = [&](auto it) -> std::optional<U> { if (it == v.begin()) return {}; return *std::prev(it); }; auto nx = [&](auto it) -> std::optional<U> { if (it == v.end()) return {}; return *it; };
            if constexpr (PAT) { auto same = [&](auto got, std::optional<U> w, const char* cls) { c.eq(got.has_value(), w.has_value(), cls); if (w) eq(*got, *w, cls); }; T& t = *o.t; same(xr ? t.safe_xor_max_lt(x, u) : t.safe_max_lt(u), pr(lo), "largest below"); same(xr ? t.safe_xor_max_leq(x, u) : t.safe_max_leq(u), pr(hi), "largest at most"); same(xr ? t.safe_xor_min_geq(x, u) : t.safe_min_geq(u), nx(lo), "least at least"); same(xr ? t.safe_xor_min_gt(x, u) : t.safe_min_gt(u), nx(hi), "least above"); if (pr(lo)) eq(xr ? t.xor_max_lt(x, u) : t.max_lt(u), *pr(lo), "largest below"); if (nx(hi)) eq(xr ? t.xor_min_gt(x, u) : t.min_gt(u), *nx(hi), "least above"); if (pr(hi)) eq(xr ? t.xor_max_leq(x, u) : t.max_leq(u), *pr(hi), "largest at most"); if (nx(lo)) eq(xr ? t.xor_min_geq(x, u) : t.min_geq(u), *nx(lo), "least at least"); }
            else { U d = r.chance(1, 2) ? U(~U(0)) : U(17); T& t = *o.t; eq(xr ? t.xor_lower(x, u, d) : t.lower(u, d), pr(lo).value_or(d), "largest below"); eq(xr ? t.xor_floor(x, u, d) : t.floor(u, d), pr(hi).value_or(d), "largest at most"); eq(xr ? t.xor_ceil(x, u, d) : t.ceil(u, d), nx(lo).value_or(d), "least at least"); eq(xr ? t.xor_higher(x, u, d) : t.higher(u, d), nx(hi).value_or(d), "least above"); } break; }
        case KTH: { U u = val(); auto v = sorted(o, 0); i64 le = std::upper_bound(v.begin(), v.end(), u) - v.begin(), lt = std::lower_bound(v.begin(), v.end(), u) - v.begin(); c.eq((i64) o.t->count_leq(u), le, "elements at most"); c.eq((i64) o.t->count_gt(u), o.n - le, "elements above"); c.eq((i64) o.t->count_geq(u), o.n - lt, "elements at least"); if (o.n) { size_t k = r.below(v.size()); eq(o.t->kth_min((int) k), v[k], "k-th element"); if constexpr (PAT) eq(o.t->kth_max((int) k), v[v.size() - 1 - k], "k-th largest element"); else { eq(o.t->min(), v.front(), "least element"); eq(o.t->max(), v.back(), "largest element"); } } break; }
        case BCOPY: { auto q = std::make_shared<Obj>(Obj{ nullptr, o.m, o.n }); if (go([&] { q->t.reset(new T(*o.t)); })) put(r, q); break; }
        case BASSIGN: if (r.chance(1, 4)) { if (&o != &p) { std::swap(*o.t, *p.t); std::swap(o.m, p.m); std::swap(o.n, p.n); } } else if (go([&] { *o.t = *p.t; })) { o.m = p.m; o.n = p.n; } break;
        case BCLEAR: if constexpr (PAT) { if (go([&] { o.t->clear(); })) { o.m.clear(); o.n = 0; } } else { while (o.m.size()) { auto it = o.m.begin(); c.eq((i64) o.t->erase_all(it->first), it->second, "number of erased elements"); o.n -= it->second; o.m.erase(it); } } break;
        case BBURST: { int d = 1 + (int) r.below(3); for (int k = (int) r.below(L ? 200 : 16); k-- > 0;) { if (r.chance((unsigned) d, 4)) ins(); else era(r.chance(1, 2)); } break; } }
        verify(o); if (failed || r.chance(1, 5)) for (auto& q : os) verify(*q);
        u64 h = 0; for (auto& q : os) { h = sim::mix64(h + 1); for (auto& [u, k] : q->m) h = sim::mix64(h * 31 ^ (u64) u ^ ((u64) k << 50)); } c.state(h); } }
    c.eq(sim::live_blocks(), base, "all memory is returned"); sim::check_heap("end");
}
std::vector<sim::OpDef> bo{ {"new", 1, 3}, {"insert", 12, 3}, {"insert_if_absent", 3, 3}, {"erase", 8, 3}, {"erase_all", 3, 3}, {"count", 2, 3}, {"xor_kth", 3, 3}, {"xor_count", 3, 3}, {"xor_near", 3, 3}, {"kth", 2, 3}, {"near", 2, 3}, {"copy", 2, 3}, {"assign", 1, 3}, {"clear", 1, 3}, {"burst", 4, 3} };
#define BT "library/datastructure/binary_trie.hpp"
#define BP "library/datastructure/binary_trie_patricia.hpp"
sim::RegisterWorld b1(def("binary_trie_6", brun<suisen::BinaryTrie<int, 6>>, BT, bo)), b2(def("binary_trie_32", brun<suisen::BinaryTrie<unsigned, 32>>, BT, bo)), b3(def("binary_trie_64", brun<suisen::BinaryTrie<long long, 64>>, BT, bo)), p1(def("patricia_6", brun<suisen::BinaryTriePatricia<int, 6>>, BP, bo)), p2(def("patricia_5", brun<suisen::BinaryTriePatricia<unsigned, 5>>, BP, bo)), p3(def("patricia_30", brun<suisen::BinaryTriePatricia<int, 30>>, BP, bo)), p4(def("patricia_32", brun<suisen::BinaryTriePatricia<unsigned, 32>>, BP, bo)), p5(def("patricia_61", brun<suisen::BinaryTriePatricia<long long, 61, long long>>, BP, bo)), p6(def("patricia_64", brun<suisen::BinaryTriePatricia<unsigned long long, 64>>, BP, bo));
}
