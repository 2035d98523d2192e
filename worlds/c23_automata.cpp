// C23: string automata that grow online, several alive and copied, while memory fails.
#include "sim.hpp"
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <string>
#include "library/string/aho_corasick.hpp"
#include "library/string/aho_corasick_array.hpp"
#include "library/string/palindromic_tree.hpp"
#include "library/string/suffix_automaton.hpp"
#include "library/string/substring_set.hpp"
using i64 = int64_t; using u64 = uint64_t; using S = std::string;
namespace {
sim::WorldDef def(const char* nm, void (*run)(sim::Ctx&), const char* real, std::vector<sim::OpDef> ops) { sim::WorldDef d; d.prop = "C23"; d.name = nm; d.run = run; d.max_ops = 50; d.ncfg = 2; d.faults = true; d.real = real; d.stub = "memory (failures, reuse, poison)"; d.ops = ops; return d; }
template <typename F> bool attempt(bool on, sim::Rng& r, u64 k, bool& failed, F&& f) { failed = false; if (!on || !r.chance(1, 3)) { f(); return true; } sim::arm_alloc_failure((i64) r.below(k)); try { sim::Armed a; f(); } catch (const std::bad_alloc&) { failed = true; sim::probe("request_failed"); } sim::disarm_alloc_failure(); return !failed; }
S text(sim::Rng& r, int sigma, int len) { S s; int style = (int) r.below(3); for (int k = 0; k < len; ++k) { if (style == 1 && k > 1 && r.chance(3, 4)) s += s[r.below((u64) k)]; else if (style == 2 && k > 2 && r.chance(4, 5)) s += s[(size_t) (k - 1 - (int) r.below(2))]; else s += (char) ('a' + (int) r.below((u64) sigma)); } return s; }
int occ(const S& t, const S& s, size_t end) { return s.size() <= end && t.compare(end - s.size(), s.size(), s) == 0; }

// ---- Aho-Corasick
enum { NEW, ADD, BUILD, SCAN, COPY, ASSIGN, SWAP, MANY };
template <bool ARR> void arun(sim::Ctx& c) { using T = std::conditional_t<ARR, suisen::AhoCorasickArray<4, 'a'>, suisen::AhoCorasick<char>>; bool on = c.faults_on(); u64 base = sim::live_blocks(); {
    const bool L = sim::mix64(c.s.seed ^ 0xb16) % 12 == 0; int sigma = (int) c.cfg(1, 4), maxlen = (int) c.cfg(1, ARR ? 14 : 7) * (L ? 6 : 1);
    struct Obj { std::unique_ptr<T> t = std::make_unique<T>(); std::vector<S> m; bool built = false; }; std::vector<std::shared_ptr<Obj>> os; os.push_back(std::make_shared<Obj>());
    auto put = [&](sim::Rng& r, std::shared_ptr<Obj> o) { if (os.size() < 3) os.push_back(o); else os[r.below(3)] = o; };
    auto scan = [&](Obj& o, sim::Rng& r) { if (!o.built) return; S t = text(r, sigma, (int) r.below(16)); if (o.m.size()) t += o.m[r.below(o.m.size())] + o.m[r.below(o.m.size())]; int st = o.t->init_state(); for (size_t k = 0; k < t.size(); ++k) { st = o.t->next_state(st, t[k]); i64 w = 0; for (auto& s : o.m) w += s.size() && occ(t, s, k + 1); i64 e = 0; for (auto& s : o.m) e += s.empty(); i64 got = o.t->count_suffix_matching(st); if (e == 0) c.eq(got, w, "patterns that end here"); } };
    while (c.next()) { sim::Rng r = c.rng(2); auto keep = os[(size_t) c.arg(0, 0, (i64) os.size() - 1)], keep2 = os[r.below(os.size())]; Obj& o = *keep; Obj& p = *keep2; bool failed = false;
        auto go = [&](auto&& f) { return attempt(on, r, 10, failed, f); };
        switch (c.cur->code) {
        case NEW: put(r, std::make_shared<Obj>()); break;
        case ADD: { if (o.m.size() > (ARR ? 60 : 12) || (ARR && o.built)) break; S s = text(r, sigma, 1 + (int) r.below((u64) maxlen)); if (o.m.size() && r.chance(1, 2)) { s = o.m[r.below(o.m.size())].substr(0, 1 + r.below(4)) + s; } if (go([&] { o.t->add(s); })) { o.m.push_back(s); } else if (!ARR) o.built = false; if (!failed) o.built = false; break; }
        case MANY: if (!(ARR && o.built)) for (int k = 0; k < (L ? 150 : 25) && o.m.size() < (L ? 300u : 60u); ++k) { S s = text(r, sigma, 1 + (int) r.below((u64) maxlen)); o.t->add(s); o.m.push_back(s); o.built = false; } break;
        case BUILD: if (ARR && o.built) break; if (go([&] { o.t->build(); })) o.built = true; else o.built = false; if constexpr (ARR) { std::set<S> pre{ "" }; for (auto& s : o.m) for (size_t k = 1; k <= s.size(); ++k) pre.insert(s.substr(0, k)); c.require(o.t->state_num() >= (int) pre.size(), "one state per prefix"); } break;
        case SCAN: scan(o, r); break;
        case COPY: { auto q = std::make_shared<Obj>(Obj{ nullptr, o.m, o.built }); if (go([&] { q->t.reset(new T(*o.t)); })) put(r, q); break; }
        case ASSIGN: *o.t = *p.t; o.m = p.m; o.built = p.built; break;
        case SWAP: if (&o != &p) { std::swap(*o.t, *p.t); std::swap(o.m, p.m); std::swap(o.built, p.built); } break; }
        if (failed || r.chance(1, 3)) for (auto& q : os) { sim::Rng r2(r.next()); scan(*q, r2); }
        u64 h = 0; for (auto& q : os) { h = sim::mix64(h + 1 + q->built); for (auto& s : q->m) h = sim::mix64(h * 31 ^ std::hash<S>{}(s)); } c.state(h); }
    for (auto& q : os) { if (!q->built) { q->t->build(); q->built = true; } sim::Rng r(q->m.size()); for (int k = 0; k < 3; ++k) scan(*q, r); } }
    c.eq(sim::live_blocks(), base, "all memory is returned"); sim::check_heap("end");
}
std::vector<sim::OpDef> ao{ {"new", 1, 3}, {"add", 10, 3}, {"build", 4, 3}, {"scan", 4, 3}, {"copy", 2, 3}, {"assign", 1, 3}, {"swap", 1, 3}, {"many", 1, 3} };
sim::RegisterWorld a1(def("aho_corasick", arun<false>, "library/string/aho_corasick.hpp", ao)), a2(def("aho_corasick_array", arun<true>, "library/string/aho_corasick_array.hpp", ao));

// ---- palindromic tree
enum { PNEW, APPEND, EXTEND, CHECK, PCLEAR, SHRINK, PCOPY, PASSIGN, PSWAP };
template <typename T, int OFF> void prun(sim::Ctx& c) { bool on = c.faults_on(); u64 base = sim::live_blocks(); {
    const bool L = sim::mix64(c.s.seed ^ 0xb16) % 25 == 0; const size_t CAP = L ? 110 : 40; int sigma = (int) c.cfg(1, 4); using V = typename T::value_type;
    struct Obj { std::unique_ptr<T> t = std::make_unique<T>(); S s; std::map<S, int> cnt, first; }; std::vector<std::shared_ptr<Obj>> os; os.push_back(std::make_shared<Obj>());
    auto pal = [](const S& s) { return std::equal(s.begin(), s.begin() + (i64) s.size() / 2, s.rbegin()); };
    auto lps = [&](const S& s) { for (size_t l = s.size(); l >= 1; --l) if (pal(s.substr(s.size() - l))) return s.substr(s.size() - l); return S(); };
    auto str = [&](const typename T::container_type& v) { S s; for (auto x : v) s += (char) (x - OFF + 'a'); return s; };
    auto verify = [&](Obj& o) { T& t = *o.t; std::map<S, int> f, first; for (size_t i = 0; i < o.s.size(); ++i) for (size_t l = 1; i + l <= o.s.size(); ++l) { S q = o.s.substr(i, l); if (pal(q)) { ++f[q]; first.emplace(q, (int) i); } } c.eq(t.node_num(), (int) f.size() + 2, "one node per palindrome"); auto tab = t.frequency_table(); auto par = t.parents(); c.eq(t.length(0), -1, "root"); c.eq(t.length(1), 0, "root"); std::set<S> seen; std::vector<S> str_of(tab.size());
        for (int v = 2; v < t.node_num(); ++v) { S q = str(t.get_palindrome(v)); str_of[(size_t) v] = q; c.require(f.count(q) && seen.insert(q).second, "each node is another palindrome of the text", q); c.eq(t.length(v), (int) q.size(), "length"); c.eq(tab[(size_t) v], f[q], "number of occurrences"); c.eq(t.first_occurence(v), first[q], "first occurrence"); S suf = lps(q.substr(1)); int ln = t.suffix_link(v); c.require(ln >= 0 && ln < v, "suffix link leads to an earlier node"); c.eq(suf.empty() ? S() : str_of[(size_t) ln], suf, "suffix link"); if (suf.empty()) c.eq(t.length(ln), 0, "suffix link"); int pp = par[(size_t) v]; c.require(pp >= 0 && pp < v, "parent"); S in = q.size() > 2 ? q.substr(1, q.size() - 2) : S(); c.eq(pp < 2 ? S() : str_of[(size_t) pp], in, "parent is the palindrome without its ends"); c.eq(t.length(pp), (int) q.size() - 2, "parent"); } };
    auto put = [&](sim::Rng& r, std::shared_ptr<Obj> o) { if (os.size() < 3) os.push_back(o); else os[r.below(3)] = o; };
    while (c.next()) { sim::Rng r = c.rng(2); auto keep = os[(size_t) c.arg(0, 0, (i64) os.size() - 1)], keep2 = os[r.below(os.size())]; Obj& o = *keep; Obj& p = *keep2; bool failed = false;
        auto go = [&](auto&& f) { return attempt(on, r, 4, failed, f); };
        auto conv = [&](char ch) { return V(ch - 'a' + OFF); };
        auto add = [&](char ch) { if (o.s.size() >= CAP) return; int v = -1; if (go([&] { v = o.t->add(conv(ch)); })) { o.s += ch; c.eq(str(o.t->get_palindrome(v)), lps(o.s), "longest palindrome that ends here"); } };
        switch (c.cur->code) {
        case PNEW: { auto q = std::make_shared<Obj>(); if (r.chance(1, 3)) { S s = text(r, sigma, (int) r.below(16)); std::vector<V> v; for (char ch : s) v.push_back(conv(ch)); q->t.reset(); if (!attempt(on, r, 12, failed, [&] { q->t.reset(new T(v)); })) break; q->s = s; verify(*q); } put(r, q); break; }
        case APPEND: add(o.s.size() && r.chance(1, 2) ? o.s[r.below(o.s.size())] : (char) ('a' + (int) r.below((u64) sigma))); break;
        case EXTEND: { S s = text(r, sigma, (int) r.below(L ? 50 : 12)); if (r.chance(1, 2)) { for (char ch : s) add(ch); if (r.chance(1, 2)) { S rev(o.s.rbegin(), o.s.rend()); for (char ch : rev) add(ch); } } else if (o.s.size() + s.size() <= CAP) { std::vector<V> v; for (char ch : s) v.push_back(conv(ch)); o.t->add_all(v); o.s += s; } break; }
        case CHECK: break;
        case PCLEAR: o.t->clear(); o.s.clear(); break;
        case SHRINK: go([&] { o.t->shrink_to_fit(); }); break;
        case PCOPY: { auto q = std::make_shared<Obj>(); q->s = o.s; q->t.reset(); if (go([&] { q->t.reset(new T(*o.t)); })) put(r, q); break; }
        case PASSIGN: *o.t = *p.t; o.s = p.s; break;
        case PSWAP: if (&o != &p) { std::swap(*o.t, *p.t); std::swap(o.s, p.s); } break; }
        verify(o); if (failed || r.chance(1, 6)) for (auto& q : os) verify(*q);
        u64 h = 0; for (auto& q : os) h = sim::mix64(h * 31 ^ std::hash<S>{}(q->s)); c.state(h); } }
    c.eq(sim::live_blocks(), base, "all memory is returned"); sim::check_heap("end");
}
#define PT "library/string/palindromic_tree.hpp"
std::vector<sim::OpDef> po{ {"new", 1, 3}, {"append", 10, 3}, {"extend", 3, 3}, {"check", 1, 3}, {"clear", 1, 3}, {"shrink", 1, 3}, {"copy", 2, 3}, {"assign", 1, 3}, {"swap", 1, 3} };
sim::RegisterWorld p1(def("palindromic_tree", prun<suisen::PalindromicTree<char, S>, 'a'>, PT, po)), p2(def("palindromic_tree_vector", prun<suisen::PalindromicTreeVec<int>, 0>, PT, po)), p3(def("palindromic_tree_array", prun<suisen::PalindromicTreeArr<int, 4>, 0>, PT, po));

// ---- suffix automaton
enum { SNEW, SAPPEND, SEXTEND, ACCEPT, COUNTS, OCC, FIRST, LCS, SCOPY, SASSIGN, SSWAP };
template <typename V> void srun(sim::Ctx& c) { using T = suisen::SuffixAutomaton<V>; using Q = typename T::sequence_type; bool on = c.faults_on(); u64 base = sim::live_blocks(); {
    const bool L = sim::mix64(c.s.seed ^ 0xb16) % 30 == 0; const size_t CAP = L ? 70 : 24; int sigma = (int) c.cfg(1, 4); auto conv = [](const S& s) { return Q(s.begin(), s.end()); };
    struct Obj { std::unique_ptr<T> t = std::make_unique<T>(); S s; }; std::vector<std::shared_ptr<Obj>> os; os.push_back(std::make_shared<Obj>());
    auto occs = [](const S& s, const S& q) { std::vector<int> v; for (size_t i = 0; i + q.size() <= s.size(); ++i) if (s.compare(i, q.size(), q) == 0) v.push_back((int) i); return v; };
    auto verify = [&](Obj& o) { // the automaton accepts exactly the substrings: as many paths as distinct substrings, and every substring is one
        T& t = *o.t; std::set<S> subs{ "" }; for (size_t i = 0; i < o.s.size(); ++i) for (size_t l = 1; i + l <= o.s.size(); ++l) subs.insert(o.s.substr(i, l)); auto ord = t.topological_order(true); std::vector<u64> dp(t.nodes.size()); for (int u : ord) { dp[(size_t) u] = 1; for (auto& e : t.nodes[(size_t) u].nxt) dp[(size_t) u] += dp[(size_t) e.second]; } c.eq(dp[0], (u64) subs.size(), "distinct substrings"); for (auto& q : subs) c.require(t.accept(conv(q)), "a substring is accepted", q); c.require(t.nodes.size() <= 2 * std::max<size_t>(1, o.s.size()), "at most 2n states"); };
    auto put = [&](sim::Rng& r, std::shared_ptr<Obj> o) { if (os.size() < 3) os.push_back(o); else os[r.below(3)] = o; };
    auto pat = [&](Obj& o, sim::Rng& r) { S q; if (o.s.size() && r.chance(3, 4)) { size_t i = r.below(o.s.size()); q = o.s.substr(i, 1 + r.below(6)); if (r.chance(1, 4)) q[r.below(q.size())] = (char) ('a' + (int) r.below((u64) sigma + 1)); } else q = text(r, sigma, (int) r.below(5)); return q; };
    while (c.next()) { sim::Rng r = c.rng(2); auto keep = os[(size_t) c.arg(0, 0, (i64) os.size() - 1)], keep2 = os[r.below(os.size())]; Obj& o = *keep; Obj& p = *keep2; bool failed = false;
        auto go = [&](auto&& f) { return attempt(on, r, 8, failed, f); };
        auto add = [&](char ch) { if (o.s.size() >= CAP) return; if (go([&] { if (ch & 1) o.t->append(V(ch)); else *o.t += V(ch); })) o.s += ch; };
        switch (c.cur->code) {
        case SNEW: { auto q = std::make_shared<Obj>(); q->s = text(r, sigma, (int) r.below(L ? 60 : 10)); if (go([&] { q->t.reset(new T(conv(q->s))); })) put(r, q); break; }
        case SAPPEND: add(o.s.size() && r.chance(1, 2) ? o.s[r.below(o.s.size())] : (char) ('a' + (int) r.below((u64) sigma))); break;
        case SEXTEND: for (char ch : text(r, sigma, (int) r.below(L ? 40 : 8))) add(ch); break;
        case ACCEPT: { S q = pat(o, r); bool w = o.s.find(q) != S::npos; c.eq(o.t->accept(conv(q)), w, "a text is accepted exactly if it is a substring"); c.eq(o.t->transition(conv(q), -7) == -7, !w, "transition"); break; }
        case COUNTS: { auto k = o.t->substring_counter(); for (int j = 0; j < 4; ++j) { S q = pat(o, r); if (q.empty()) continue; c.eq((i64) k.count(conv(q)), (i64) occs(o.s, q).size(), "number of occurrences"); } break; }
        case OCC: { auto k = o.t->occurrence_enumerator(); for (int j = 0; j < 4; ++j) { S q = pat(o, r); auto v = k.enumerate_all_occurrence(conv(q)); std::sort(v.begin(), v.end()); c.require(v == occs(o.s, q), "all occurrences", q); } auto tr = o.t->suffix_link_tree(); c.eq(tr.size(), (int) o.t->nodes.size(), "suffix link tree"); int e = 0; for (int v = 0; v < tr.size(); ++v) e += (int) tr[v].size(); c.eq(e, tr.size() - 1, "suffix link tree"); break; }
        case FIRST: { auto k = o.t->first_occurence_searcher(); for (int j = 0; j < 4; ++j) { S q = pat(o, r); size_t w = o.s.find(q); c.eq(k.first_occurrence(conv(q)), w == S::npos ? -1 : (int) w, "first occurrence"); } break; }
        case LCS: { S q = pat(o, r) + pat(o, r); auto [a, b, l] = o.t->longest_common_substring(conv(q)); int best = 0; for (size_t i = 0; i < q.size(); ++i) for (size_t k = 1; i + k <= q.size(); ++k) if (o.s.find(q.substr(i, k)) != S::npos) best = std::max(best, (int) k); c.eq(l, best, "length of the longest common substring"); c.require(a >= 0 && b >= 0 && (size_t) (a + l) <= o.s.size() && (size_t) (b + l) <= q.size(), "longest common substring"); c.eq(o.s.substr((size_t) a, (size_t) l), q.substr((size_t) b, (size_t) l), "longest common substring"); break; }
        case SCOPY: { auto q = std::make_shared<Obj>(Obj{ nullptr, o.s }); if (go([&] { q->t.reset(new T(*o.t)); })) put(r, q); break; }
        case SASSIGN: *o.t = *p.t; o.s = p.s; break;
        case SSWAP: if (&o != &p) { std::swap(*o.t, *p.t); std::swap(o.s, p.s); } break; }
        verify(o); if (failed || r.chance(1, 6)) for (auto& q : os) verify(*q);
        u64 h = 0; for (auto& q : os) h = sim::mix64(h * 31 ^ std::hash<S>{}(q->s)); c.state(h); } }
    c.eq(sim::live_blocks(), base, "all memory is returned"); sim::check_heap("end");
}
#define SA "library/string/suffix_automaton.hpp"
std::vector<sim::OpDef> so{ {"new", 1, 3}, {"append", 12, 3}, {"extend", 3, 3}, {"accept", 3, 3}, {"count", 2, 3}, {"occurrences", 2, 3}, {"first", 2, 3}, {"lcs", 2, 3}, {"copy", 2, 3}, {"assign", 1, 3}, {"swap", 1, 3} };
sim::RegisterWorld s1(def("suffix_automaton", srun<char>, SA, so)), s2(def("suffix_automaton_ints", srun<int>, SA, so));

// ---- set of all substrings
enum { UNEW, REBUILD, RANK, KTHS, NEARS, ITER, UCOPY, UASSIGN, USWAP };
template <typename V> void urun(sim::Ctx& c) { using T = suisen::SubstringSet<V>; using Q = typename T::value_type; bool on = c.faults_on(); u64 base = sim::live_blocks(); {
    const bool L = sim::mix64(c.s.seed ^ 0xb16) % 20 == 0; int sigma = (int) c.cfg(1, 4); auto conv = [](const S& s) { return Q(s.begin(), s.end()); }; auto back = [](const Q& q) { return S(q.begin(), q.end()); };
    struct Obj { std::unique_ptr<T> t = std::make_unique<T>(); std::vector<S> m{ "" }; }; std::vector<std::shared_ptr<Obj>> os; os.push_back(std::make_shared<Obj>());
    auto all = [](const S& s) { std::set<S> subs{ "" }; for (size_t i = 0; i < s.size(); ++i) for (size_t l = 1; i + l <= s.size(); ++l) subs.insert(s.substr(i, l)); return std::vector<S>(subs.begin(), subs.end()); };
    auto verify = [&](Obj& o) { c.eq((i64) o.t->size(), (i64) o.m.size(), "size"); for (size_t k = 0; k < o.m.size(); k += 1 + o.m.size() / 9) { c.eq(back((*o.t)[(i64) k]), o.m[k], "k-th substring"); c.require(o.t->contains(conv(o.m[k])), "a substring is in the set"); } };
    auto put = [&](sim::Rng& r, std::shared_ptr<Obj> o) { if (os.size() < 3) os.push_back(o); else os[r.below(3)] = o; };
    while (c.next()) { sim::Rng r = c.rng(2); auto keep = os[(size_t) c.arg(0, 0, (i64) os.size() - 1)], keep2 = os[r.below(os.size())]; Obj& o = *keep; Obj& p = *keep2; bool failed = false;
        auto go = [&](auto&& f) { return attempt(on, r, 30, failed, f); };
        S q = r.chance(1, 2) ? o.m[r.below(o.m.size())] : text(r, sigma + 1, (int) r.below(6)); if (r.chance(1, 4)) q += (char) ('a' + (int) r.below((u64) sigma + 1)); i64 lt = std::lower_bound(o.m.begin(), o.m.end(), q) - o.m.begin(), le = std::upper_bound(o.m.begin(), o.m.end(), q) - o.m.begin(), n = (i64) o.m.size(); Q cq = conv(q); T& t = *o.t;
        switch (c.cur->code) {
        case UNEW: { S s = text(r, sigma, (int) r.below(L ? 60 : 14)); auto x = std::make_shared<Obj>(Obj{ nullptr, all(s) }); if (go([&] { x->t.reset(new T(conv(s))); })) put(r, x); break; }
        case REBUILD: { S s = text(r, sigma, (int) r.below(L ? 60 : 14)); Q cs = conv(s); if (go([&] { t.build(cs); })) o.m = all(s); break; }
        case RANK: c.eq((i64) t.count_lt(cq), lt, "substrings below"); c.eq((i64) t.count_leq(cq), le, "substrings at most"); c.eq((i64) t.count_gt(cq), n - le, "substrings above"); c.eq((i64) t.count_geq(cq), n - lt, "substrings at least"); c.eq(t.contains(cq), le > lt, "membership"); break;
        case KTHS: { i64 k = (i64) r.below((u64) n); c.eq(back(t.kth_element(k)), o.m[(size_t) k], "k-th substring"); c.eq(back(t[k]), o.m[(size_t) k], "k-th substring"); break; }
        case NEARS: if (lt < n) c.eq(back(t.min_geq(cq)), o.m[(size_t) lt], "least at least"); if (le < n) c.eq(back(t.min_gt(cq)), o.m[(size_t) le], "least above"); if (lt > 0) c.eq(back(t.max_lt(cq)), o.m[(size_t) lt - 1], "largest below"); if (le > 0) c.eq(back(t.max_leq(cq)), o.m[(size_t) le - 1], "largest at most"); break;
        case ITER: { size_t k = 0; for (auto it = t.begin(); it != t.end(); ++it) c.eq(back(*it), o.m[k++], "iteration"); c.eq((i64) k, n, "iteration"); for (auto it = t.rbegin(); it != t.rend(); ++it) c.eq(back(*it), o.m[--k], "backward iteration"); c.eq((i64) (t.lower_bound(cq) - t.begin()), lt, "lower_bound"); c.eq((i64) (t.upper_bound(cq) - t.begin()), le, "upper_bound"); auto f = t.find(cq); c.eq(f == t.end(), le == lt, "find"); if (le > lt) c.eq(back(*f), q, "find");
            i64 x = (i64) r.below((u64) n), y = (i64) r.below((u64) n); auto i = t.cbegin() + x, j = t.cend() - (n - y); c.eq(back(*i), o.m[(size_t) x], "iterator"); c.eq(back(*j), o.m[(size_t) y], "iterator"); c.eq((i64) (j - i), y - x, "distance of iterators"); c.eq(i == j, x == y, "equality of iterators"); c.eq(i != j, x != y, "equality of iterators"); c.eq(i < j, x < y, "order of iterators"); c.eq(i <= j, x <= y, "order of iterators"); c.eq(i > j, x > y, "order of iterators"); c.eq(i >= j, x >= y, "order of iterators");
            if (r.chance(1, 2)) i += y - x; else i -= x - y; c.eq(back(*i), o.m[(size_t) y], "moved iterator"); if (y > 0) { --i; c.eq(back(*i), o.m[(size_t) y - 1], "moved iterator"); } i = j; c.eq(back(*i), o.m[(size_t) y], "assigned iterator"); auto k2 = t.crbegin(); k2 += x; c.eq(back(*k2), o.m[(size_t) (n - 1 - x)], "reverse iterator"); c.require(!(k2 == t.crend()), "reverse iterator");
            S q2 = o.m[(size_t) y]; if (le == lt && q2 < q) c.eq((i64) t.count_range(conv(q2), cq), lt - y, "substrings in a range"); break; }
        case UCOPY: { auto x = std::make_shared<Obj>(Obj{ nullptr, o.m }); if (go([&] { x->t.reset(new T(t)); })) put(r, x); break; }
        case UASSIGN: t = *p.t; o.m = p.m; break;
        case USWAP: if (&o != &p) { std::swap(t, *p.t); std::swap(o.m, p.m); } break; }
        verify(o); if (failed || r.chance(1, 6)) for (auto& x : os) verify(*x);
        u64 h = 0; for (auto& x : os) { h = sim::mix64(h + 1); for (auto& s : x->m) h = sim::mix64(h * 31 ^ std::hash<S>{}(s)); } c.state(h); } }
    c.eq(sim::live_blocks(), base, "all memory is returned"); sim::check_heap("end");
}
#define SS "library/string/substring_set.hpp"
std::vector<sim::OpDef> uo{ {"new", 2, 3}, {"rebuild", 5, 3}, {"rank", 4, 3}, {"kth", 3, 3}, {"near", 3, 3}, {"iterate", 2, 3}, {"copy", 2, 3}, {"assign", 1, 3}, {"swap", 1, 3} };
sim::RegisterWorld u1(def("substring_set", urun<char>, SS, uo)), u2(def("substring_set_ints", urun<int>, SS, uo));
}
