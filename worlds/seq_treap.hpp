// Generic world for the implicit-treap sequences: several clients own several handles, all nodes
// live in one static pool, priorities come from simulated entropy.  Oracle: std::vector per handle.
#pragma once
#include "monoids.hpp"
namespace seqw {
using namespace algebra;
enum Code { BUILD, FILL, FREE, RESERVE, INSERT, PUSHF, PUSHB, ERASE, POPF, POPB, GET, WRITE, SPLIT, MERGE, ROTATE_K, ROTATE_LMR,
    REVERSE, REVERSE_ALL, DUMP, PRODQ, PROD_ALL, APPLY_K, APPLY_LR, APPLY_ALL, MAXR, MINL, ITER_WALK, ITER_EDIT, BSEARCH, BOUND,
    INS_SEARCH, ERASE_SEARCH, SPLIT_SEARCH, LEAK, ALIAS_INS, MEMORY, NCODE };
inline std::vector<sim::OpDef> op_table(bool rev, bool prod, bool lazy, bool iter_edit, bool search_edit) {
    return {
        {"build", 3, 3}, {"fill", 1, 3}, {"free", 2, 2}, {"reserve", 1, 2}, {"insert", 8, 4}, {"push_front", 3, 3}, {"push_back", 3, 3}, {"erase", 6, 3},
        {"pop_front", 2, 2}, {"pop_back", 2, 2}, {"get", 4, 3}, {"write", 4, 4}, {"split", 4, 4}, {"merge", 5, 4}, {"rotate", 2, 3}, {"rotate_lmr", 3, 5},
        {"reverse", rev ? 5 : 0, 4}, {"reverse_all", rev ? 2 : 0, 2}, {"dump", 2, 2}, {"prod", prod ? 5 : 0, 4}, {"prod_all", prod ? 2 : 0, 2}, {"apply_k", prod ? 3 : 0, 4},
        {"apply_range", lazy ? 6 : 0, 5}, {"apply_all", lazy ? 2 : 0, 3}, {"max_right", prod ? 4 : 0, 4}, {"min_left", prod ? 4 : 0, 4}, {"iter_walk", 4, 5},
        {"iter_edit", iter_edit ? 5 : 0, 6}, {"binary_search", 3, 4}, {"bound", 3, 5}, {"insert_search", search_edit ? 4 : 0, 6}, {"erase_search", search_edit ? 4 : 0, 6},
        {"split_search", search_edit ? 3 : 0, 6}, {"abandon", 1, 2}, {"insert_alias", 1, 4}, {"out_of_memory", 4, 6},
    };
}
template <typename A> struct IsIndexedIter { template <typename I> static auto test(int) -> decltype(std::declval<I>().index(), std::true_type{}); template <typename> static std::false_type test(...); };

template <typename Traits> struct World {
    using A = typename Traits::A; using T = typename Traits::T;
    static constexpr bool REV = Traits::REV, PROD = Traits::PROD, LAZY = Traits::LAZY, IE = Traits::ITER_EDIT, SE = Traits::SEARCH_EDIT, MUT = Traits::MUTABLE;
    struct H { int client; A a; std::vector<T> m; };
    static std::vector<T> gen(sim::Ctx& c, int k, int64_t n, uint64_t& uid) { sim::Rng r = c.rng(k); std::vector<T> v; bool dup = r.chance(1, 4); for (int64_t i = 0; i < n; ++i) { uint64_t x = ++uid; if (dup) x = 1 + r.below(4); v.push_back(Traits::val(x, r.next())); } return v; }
    static uint64_t hash(const std::vector<T>& v) { uint64_t h = sim::mix64(v.size()); for (auto& x : v) h = sim::mix64(h * 31 + sim::hash_of(x)); return h; }
    static void verify(sim::Ctx& c, H& h, const char* what) {
        c.eq(h.a.size(), (int) h.m.size(), "size");
        c.eq((bool) h.a.empty(), h.m.empty(), "empty");
        std::vector<T> d = h.a.dump();
        if (!(d == h.m)) c.fail("contents", std::string(what) + ": got " + sim::show(d) + " want " + sim::show(h.m));
        c.obs(hash(d));
        if constexpr (PROD) { if (!(h.a.prod_all() == fold(h.m, 0, h.m.size()))) c.fail("prod_all", std::string(what)); }
    }
    // rank order under which the sequence is sorted; false when equal values are not adjacent
    static bool ranks(const std::vector<T>& m, std::map<T, double>& rk) {
        for (size_t i = 0; i < m.size(); ++i) { if (i && m[i] == m[i - 1]) continue; if (!rk.emplace(m[i], double(i)).second) return false; }
        return true;
    }
    static void run(sim::Ctx& c) {
        int nclients = (int) c.cfg(1, 4); int64_t maxn = c.cfg(0, 3) == 0 ? c.cfg(1, 200) : c.cfg(1, 24); bool deep = c.cfg(0, 1); const bool quiet = sim::mix64(c.s.seed ^ 0xf1) % 2;  // dumping settles every pending reversal and action: seldom done in half of the runs
        // rarely: sequences longer than any 16-bit counter
        const bool big = c.cfg(0, 119) == 119; if (big) { maxn = c.cfg(1000, 70000); if (c.cfg(0, 1)) maxn = 66000; deep = false; sim::probe("long_sequence"); }
        const int64_t lim = big ? 150000 : 400; size_t budget = 3000000;  // elements the intermediate checks may still look at in a run with long sequences
        auto verify = [&](sim::Ctx& c, H& h, const char* what) { if (big) { if (h.m.size() > budget) return; budget -= h.m.size(); } World::verify(c, h, what); };
        bool res0 = c.cfg(0, 1); if (res0) A::reserve((size_t) c.cfg(0, 64));
        std::vector<H> hs; uint64_t uid = 1000; int last_client = -1; int turn = 0;
        std::vector<std::vector<T>> abandoned_models; std::vector<A> abandoned;
        auto pick = [&](int k) -> H& {
            if (hs.empty()) { hs.push_back(H{ turn++ % nclients, A(), {} }); }
            return hs[(size_t) c.arg(k, 0, (int64_t) hs.size() - 1)];
        };
        while (c.next()) {
            int code = c.cur->code;
            if (code == BUILD || code == FILL) {
                if (hs.size() >= 8) { for (auto& h : hs) verify(c, h, "before recycle"); H& h = hs[(size_t) c.arg(0, 0, 7)]; h.a.free(); h.m.clear(); verify(c, h, "after free"); std::swap(h, hs.back()); hs.pop_back(); }
                int64_t n = c.arg(1, 0, maxn);
                H h{ turn++ % nclients, A(), {} };
                if (code == BUILD) { h.m = gen(c, 2, n, uid); h.a = A(h.m); }
                else { T v = Traits::val(++uid, c.raw(2)); h.m.assign((size_t) n, v); h.a = A((size_t) n, v); }
                hs.push_back(h); verify(c, hs.back(), "after build"); if (!big) c.state(hash(hs.back().m)); continue;
            }
            H& h = pick(0); int64_t n = (int64_t) h.m.size();
            if (h.client != last_client) { if (last_client >= 0) sim::probe("client_switch"); last_client = h.client; }
            auto newval = [&](int k) { return Traits::val(++uid, c.raw(k)); };
            bool full = n >= lim;
            switch (code) {
            case FREE: { if (c.raw(1) & 1) h.a.free(); else h.a.clear(); h.m.clear(); break; }
            case RESERVE: { A::reserve((size_t) c.arg(1, 0, 600)); break; }
            case INSERT: { if (full) break; int64_t k = c.arg(1, 0, n); T v = newval(2); h.a.insert((size_t) k, v); h.m.insert(h.m.begin() + k, v); break; }
            case PUSHF: { if (full) break; T v = newval(1); h.a.push_front(v); h.m.insert(h.m.begin(), v); break; }
            case PUSHB: { if (full) break; T v = newval(1); h.a.push_back(v); h.m.push_back(v); break; }
            case ALIAS_INS: { // the argument refers to an element of the container itself
                if (full || !n) break; int64_t j = c.arg(1, 0, n - 1), k = c.arg(2, 0, n); T v = h.m[(size_t) j]; const A& ca = h.a; h.a.insert((size_t) k, ca[(size_t) j]); h.m.insert(h.m.begin() + k, v); break; }
            case MEMORY: { // memory runs out inside one operation: it is done, or every sequence is as before
                if (big || !c.faults_on()) break; sim::Rng r = c.rng(1); int64_t x[3] = { c.arg(2, 0, n), c.arg(3, 0, n), c.arg(4, 0, n) }; std::sort(x, x + 3); T v = newval(5); const uint64_t nth = r.below(r.chance(1, 3) ? 12 : 3); bool failed = false;
                auto tried = [&](auto&& call) { sim::arm_alloc_failure((int64_t) nth, r.chance(1, 4) ? 1000 : 1); try { sim::Armed armed; call(); } catch (const std::bad_alloc&) { failed = true; } sim::disarm_alloc_failure(); return !failed; };
                switch (r.below(10)) {
                case 0: case 1: if (!full && tried([&] { h.a.insert((size_t) x[0], v); })) h.m.insert(h.m.begin() + x[0], v); break;
                case 2: if (!full) { if constexpr (IE) { auto it = h.a.begin(); it += (int) x[0]; if (tried([&] { h.a.insert(it, v); })) h.m.insert(h.m.begin() + x[0], v); } else if (tried([&] { h.a.push_back(v); })) h.m.push_back(v); } break;
                case 3: if (n && x[0] < n) { T got = v; if (tried([&] { got = h.a.erase((size_t) x[0]); })) { c.eq(got, h.m[(size_t) x[0]], "erase"); h.m.erase(h.m.begin() + x[0]); } } break;
                case 4: if (hs.size() < 8) { A part; if (tried([&] { part = h.a.split((size_t) x[0]); })) { H nh{ h.client, part, std::vector<T>(h.m.begin() + x[0], h.m.end()) }; h.m.resize((size_t) x[0]); hs.push_back(nh); } } break;
                case 5: if (tried([&] { h.a.rotate((size_t) x[0], (size_t) x[1], (size_t) x[2]); })) std::rotate(h.m.begin() + x[0], h.m.begin() + x[1], h.m.begin() + x[2]); break;
                case 6: if (hs.size() < 8) { std::vector<T> m = gen(c, 5, (int64_t) r.below(30), uid); A b; if (tried([&] { b = A(m); })) hs.push_back(H{ turn++ % nclients, b, m }); } break;
                case 7: if constexpr (REV) { if (tried([&] { h.a.reverse((size_t) x[0], (size_t) x[2]); })) std::reverse(h.m.begin() + x[0], h.m.begin() + x[2]); } else if (tried([&] { h.a.rotate((size_t) x[1]); })) std::rotate(h.m.begin(), h.m.begin() + x[1], h.m.end()); break;
                case 8: if constexpr (LAZY) { F f = Traits::func(c.raw(5)); if (tried([&] { h.a.apply((size_t) x[0], (size_t) x[2], Traits::lift(f)); })) for (int64_t i = x[0]; i < x[2]; ++i) h.m[(size_t) i] = map_raw(f, h.m[(size_t) i]); } else if constexpr (PROD) { T got = v; if (tried([&] { got = h.a.prod((size_t) x[0], (size_t) x[2]); })) c.eq(got, fold(h.m, (size_t) x[0], (size_t) x[2]), "prod"); } break;
                default: if (tried([&] { h.a.free(); })) h.m.clear(); break;
                }
                for (auto& y : hs) verify(c, y, failed ? "after memory ran out" : "after operation"); if (!hs.empty()) c.state(hash(hs.back().m)); continue; }
            case ERASE: { if (!n) break; int64_t k = c.arg(1, 0, n - 1); T v = h.a.erase((size_t) k); c.eq(v, h.m[(size_t) k], "erase"); h.m.erase(h.m.begin() + k); break; }
            case POPF: { if (!n) break; c.eq(h.a.pop_front(), h.m.front(), "pop_front"); h.m.erase(h.m.begin()); break; }
            case POPB: { if (!n) break; c.eq(h.a.pop_back(), h.m.back(), "pop_back"); h.m.pop_back(); break; }
            case GET: { if (!n) break; int64_t k = c.arg(1, 0, n - 1); const A& ca = h.a; T g = ca[(size_t) k]; c.eq(g, h.m[(size_t) k], "get"); T f = ca.front(), b = ca.back(); c.eq(f, h.m.front(), "front"); c.eq(b, h.m.back(), "back");
                if constexpr (MUT) { T g2 = h.a[(size_t) k]; c.eq(g2, h.m[(size_t) k], "get"); T f2 = h.a.front(), b2 = h.a.back(); c.eq(f2, h.m.front(), "front"); c.eq(b2, h.m.back(), "back"); } break; }
            case WRITE: { if (!n) break; int64_t k = c.arg(1, 0, n - 1); T v = newval(2); if constexpr (MUT) { int w = (int) c.arg(3, 0, 3); if (w == 0) { h.a.front() = v; k = 0; } else if (w == 1) { h.a.back() = v; k = n - 1; } else h.a[(size_t) k] = v; } else h.a.set((size_t) k, v); h.m[(size_t) k] = v; break; }
            case SPLIT: { int64_t k = c.arg(1, 0, n); if (hs.size() >= 8) break; A r = h.a.split((size_t) k); H nh{ (c.raw(2) & 8) ? turn++ % nclients : h.client, r, std::vector<T>(h.m.begin() + k, h.m.end()) }; h.m.resize((size_t) k); verify(c, h, "left part of split"); verify(c, nh, "right part of split"); hs.push_back(nh); continue; }
            case MERGE: { if (hs.size() < 2) break; size_t i = size_t(&h - &hs[0]); size_t j = (size_t) c.arg(1, 0, (int64_t) hs.size() - 2); if (j >= i) ++j; if (n + (int64_t) hs[j].m.size() > lim) break; h.a.merge(hs[j].a); h.m.insert(h.m.end(), hs[j].m.begin(), hs[j].m.end()); verify(c, h, "merge"); if (!big) c.state(hash(h.m)); hs.erase(hs.begin() + (long) j); continue; }
            case ROTATE_K: { int64_t k = c.arg(1, 0, n); h.a.rotate((size_t) k); std::rotate(h.m.begin(), h.m.begin() + k, h.m.end()); break; }
            case ROTATE_LMR: { int64_t x[3] = { c.arg(1, 0, n), c.arg(2, 0, n), c.arg(3, 0, n) }; std::sort(x, x + 3); h.a.rotate((size_t) x[0], (size_t) x[1], (size_t) x[2]); std::rotate(h.m.begin() + x[0], h.m.begin() + x[1], h.m.begin() + x[2]); break; }
            case REVERSE: if constexpr (REV) { int64_t l = c.arg(1, 0, n), r = c.arg(2, 0, n); if (l > r) std::swap(l, r); h.a.reverse((size_t) l, (size_t) r); std::reverse(h.m.begin() + l, h.m.begin() + r); } break;
            case REVERSE_ALL: if constexpr (REV) { h.a.reverse_all(); std::reverse(h.m.begin(), h.m.end()); } break;
            case DUMP: { for (auto& x : hs) verify(c, x, "dump of every handle"); break; }
            case PRODQ: if constexpr (PROD) { int64_t l = c.arg(1, 0, n), r = c.arg(2, 0, n); if (l > r) std::swap(l, r); c.eq(h.a.prod((size_t) l, (size_t) r), fold(h.m, (size_t) l, (size_t) r), "prod"); } break;
            case PROD_ALL: if constexpr (PROD) { c.eq(h.a.prod_all(), fold(h.m, 0, h.m.size()), "prod_all"); } break;
            case APPLY_K: if constexpr (PROD) { if (!n) break; int64_t k = c.arg(1, 0, n - 1); T v = newval(2); T seen = Traits::val(0, 0); h.a.apply((size_t) k, [&](const T& x) { seen = x; return op_raw(v, T{}) ; }); c.eq(seen, h.m[(size_t) k], "apply argument"); h.m[(size_t) k] = v; } break;
            case APPLY_LR: if constexpr (LAZY) { int64_t l = c.arg(1, 0, n), r = c.arg(2, 0, n); if (l > r) std::swap(l, r); F f = Traits::func(c.raw(3)); h.a.apply((size_t) l, (size_t) r, Traits::lift(f)); for (int64_t i = l; i < r; ++i) h.m[(size_t) i] = map_raw(f, h.m[(size_t) i]); } break;
            case APPLY_ALL: if constexpr (LAZY) { F f = Traits::func(c.raw(1)); h.a.apply_all(Traits::lift(f)); for (auto& x : h.m) x = map_raw(f, x); } break;
            case MAXR: if constexpr (PROD) {
                int64_t l = c.arg(1, 0, n); int64_t tot = fold(h.m, (size_t) l, h.m.size()).w; int64_t K = c.arg(2, 0, tot + 1);
                int64_t want = l; int64_t s = 0; while (want < n && s + h.m[(size_t) want].w <= K) s += h.m[(size_t) want++].w;
                // the predicate must be asked only about products of contiguous runs starting at l
                auto pred = [&](const T& x) { sim::callback(); if (x.n + l <= n && !(x == fold(h.m, (size_t) l, (size_t) (l + x.n)))) c.fail("max_right-argument", "predicate evaluated on something that is not a product starting at l"); return x.w <= K; };
                if constexpr (IE) { auto it = h.a.max_right((size_t) l, pred); c.eq((int64_t) it.index(), want, "max_right"); if (want < n) { T v = *it; c.eq(v, h.m[(size_t) want], "max_right iterator"); } }
                else c.eq((int64_t) h.a.max_right((size_t) l, pred), want, "max_right"); } break;
            case MINL: if constexpr (PROD) {
                int64_t r = c.arg(1, 0, n); int64_t tot = fold(h.m, 0, (size_t) r).w; int64_t K = c.arg(2, 0, tot + 1);
                int64_t want = r; int64_t s = 0; while (want > 0 && s + h.m[(size_t) want - 1].w <= K) s += h.m[(size_t) --want].w;
                auto pred = [&](const T& x) { sim::callback(); if (x.n <= r && !(x == fold(h.m, (size_t) (r - x.n), (size_t) r))) c.fail("min_left-argument", "predicate evaluated on something that is not a product ending at r"); return x.w <= K; };
                if constexpr (IE) { auto it = h.a.min_left((size_t) r, pred); c.eq((int64_t) it.index(), want, "min_left"); if (want < n) { T v = *it; c.eq(v, h.m[(size_t) want], "min_left iterator"); } }
                else c.eq((int64_t) h.a.min_left((size_t) r, pred), want, "min_left"); } break;
            case ITER_WALK: {
                sim::Rng r = c.rng(1); int which = (int) c.arg(2, 0, 3); int64_t start = c.arg(3, 0, n);
                auto walk = [&](auto it, auto b, auto e, bool rv) {
                    it = b; it += (int) start; int64_t pos = start;
                    auto at = [&](int64_t i) -> const T& { return rv ? h.m[(size_t) (n - 1 - i)] : h.m[(size_t) i]; };
                    c.eq((int64_t) (e - b), n, "iterator distance");
                    for (int q = 0; q < 24; ++q) {
                        c.eq((int64_t) (it - b), pos, "iterator position"); if (pos < n) { T v = *it; c.eq(v, at(pos), "iterator value"); }
                        c.eq(it == e, pos == n, "iterator end"); c.eq(it < e, pos < n, "iterator order"); c.eq(it != e, pos != n, "iterator end");
                        c.eq(it > b, pos > 0, "iterator order"); c.eq(it >= e, pos >= n, "iterator order"); c.eq(it <= b, pos <= 0, "iterator order");
                        int64_t d;
                        switch (r.below(9)) {
                            case 6: d = r.range(-pos, n - pos); it = it + (int) d; pos += d; break;
                            case 7: d = r.range(-pos, n - pos); it = (int) d + it; pos += d; break;
                            case 8: d = r.range(-pos, n - pos); it = it - (int) -d; pos += d; break;
                            case 0: if (pos < n) { ++it; ++pos; } break; case 1: if (pos > 0) { --it; --pos; } break;
                            case 2: if (pos < n) { auto o = it++; if (!(o - b == pos)) c.fail("iterator postfix", ""); ++pos; } break;
                            case 3: if (pos > 0) { auto o = it--; if (!(o - b == pos)) c.fail("iterator postfix", ""); --pos; } break;
                            case 4: d = r.range(-pos, n - pos); it += (int) d; pos += d; break;
                            case 5: d = r.range(-pos, n - pos); it -= (int) -d; pos += d; break;
                        }
                        if (n) { int64_t t = (int64_t) r.below((uint64_t) n); if (r.chance(1, 3)) { T v = it[(int) (t - pos)]; c.eq(v, at(t), "iterator subscript"); } }
                    }
                };
                A& a = h.a; const A& ca = h.a;
                if (which == 0) walk(a.begin(), a.begin(), a.end(), false); else if (which == 1) walk(a.rbegin(), a.rbegin(), a.rend(), true);
                else if (which == 2) walk(ca.begin(), ca.cbegin(), ca.cend(), false); else walk(ca.rbegin(), ca.crbegin(), ca.crend(), true);
                { size_t i = 0; for (auto it = ca.begin(); it != ca.end(); ++it, ++i) { T v = *it; if (!(v == h.m[i])) c.fail("iteration", "index " + std::to_string(i)); } if (i != h.m.size()) c.fail("iteration", "length"); }
                { size_t i = 0; for (auto it = ca.rbegin(); it != ca.rend(); ++it, ++i) { T v = *it; if (!(v == h.m[h.m.size() - 1 - i])) c.fail("iteration", "reverse index " + std::to_string(i)); } if (i != h.m.size()) c.fail("iteration", "length"); }
                break; }
            case ITER_EDIT: if constexpr (IE) {
                int64_t k = c.arg(1, 0, n); int kind = (int) c.arg(2, 0, 2); bool rv = c.raw(3) & 16; bool touch = c.raw(4) & 16;
                auto go = [&](auto b, bool rv2) {
                    auto it = b; it += (int) k; if (touch && k < n) { T v = *it; (void) v; }
                    int64_t gap = rv2 ? n - k : k, el = rv2 ? n - k - 1 : k;
                    if (kind == 0) { if (full) return; T v = newval(5); h.a.insert(it, v); h.m.insert(h.m.begin() + gap, v); }
                    else if (kind == 1) { if (k >= n) return; T v = h.a.erase(it); c.eq(v, h.m[(size_t) el], "erase(iterator)"); h.m.erase(h.m.begin() + el); }
                    else { if (hs.size() >= 8) return; A r = h.a.split(it); H nh{ h.client, r, std::vector<T>(h.m.begin() + gap, h.m.end()) }; h.m.resize((size_t) gap); verify(c, h, "left of split(it)"); verify(c, nh, "right of split(it)"); hs.push_back(nh); }
                };
                size_t me = size_t(&h - &hs[0]);
                if (rv) go(h.a.rbegin(), true); else go(h.a.begin(), false);
                verify(c, hs[me], "iterator edit"); if (!big) c.state(hash(hs[me].m)); continue;
            } break;
            case BSEARCH: {
                int64_t p = c.arg(1, 0, n); std::set<T> S(h.m.begin() + p, h.m.end()); bool mono = true; for (int64_t i = 0; i < p; ++i) if (S.count(h.m[(size_t) i])) mono = false; if (!mono) break;
                if constexpr (IE) { auto it = h.a.binary_search([&](auto it) { return S.count(*it) > 0; }); c.eq((int64_t) it.index(), p, "binary_search"); if (p < n) { T v = *it; c.eq(v, h.m[(size_t) p], "binary_search value"); } const A& ca = h.a; c.eq((int64_t) ca.binary_search([&](auto it) { return S.count(*it) > 0; }).index(), p, "binary_search"); }
                else { auto [pos, v] = h.a.binary_search([&](const T& x, int) { return S.count(x) > 0; }); c.eq((int64_t) pos, p, "binary_search"); c.eq(bool(v), p < n, "binary_search value"); if (v) c.eq(*v, h.m[(size_t) p], "binary_search value");
                    auto [pos2, v2] = h.a.binary_search([&](const T&, int i) { return i >= p; }); c.eq((int64_t) pos2, p, "binary_search by index"); (void) v2; }
                break; }
            case BOUND: case INS_SEARCH: case ERASE_SEARCH: case SPLIT_SEARCH: {
                std::map<T, double> rk; if (!ranks(h.m, rk)) break; sim::probe("ordered_search");
                T target; bool fresh = !n || (c.raw(1) & 8); double tr;
                if (fresh) { target = newval(2); tr = double(c.arg(3, 0, n)) - 0.5; if (rk.count(target)) tr = rk[target]; }
                else { target = h.m[(size_t) c.arg(3, 0, n - 1)]; tr = rk[target]; }
                rk.emplace(target, tr);
                auto rank = [&](const T& x) { auto it = rk.find(x); if (it == rk.end()) c.fail("search-argument", "comparator called with a value that is not in the sequence"); return it->second; };
                auto comp = [&](const T& a, const T& b) { sim::callback(); return rank(a) < rank(b); };
                int64_t lb = 0, ub = 0; while (lb < n && rank(h.m[(size_t) lb]) < tr) ++lb; while (ub < n && rank(h.m[(size_t) ub]) <= tr) ++ub;
                int kind = (int) c.arg(4, 0, 3);
                if (code == BOUND) {
                    if constexpr (IE) { const A& ca = h.a; c.eq((int64_t) h.a.lower_bound(target, comp).index(), lb, "lower_bound"); c.eq((int64_t) h.a.upper_bound(target, comp).index(), ub, "upper_bound"); c.eq((int64_t) ca.lower_bound(target, comp).index(), lb, "lower_bound"); c.eq((int64_t) ca.upper_bound(target, comp).index(), ub, "upper_bound"); }
                    else { auto [a, va] = h.a.lower_bound(target, comp); auto [b, vb] = h.a.upper_bound(target, comp); c.eq((int64_t) a, lb, "lower_bound"); c.eq((int64_t) b, ub, "upper_bound"); c.eq(bool(va), lb < n, "lower_bound value"); c.eq(bool(vb), ub < n, "upper_bound value"); if (va) c.eq(*va, h.m[(size_t) lb], "lower_bound value"); if (vb) c.eq(*vb, h.m[(size_t) ub], "upper_bound value"); }
                }
                if constexpr (SE) {
                    auto f = [&](const T& x) { sim::callback(); return rank(x) >= tr; };
                    if (code == INS_SEARCH && !full) {
                        int64_t pos, want = kind == 2 ? ub : lb;
                        if (kind == 2) pos = h.a.insert_upper_bound(target, comp); else if (kind == 1) pos = h.a.insert_lower_bound(target, comp); else pos = h.a.insert_binary_search(target, f);
                        c.eq(pos, want, "insert position"); h.m.insert(h.m.begin() + want, target);
                    } else if (code == ERASE_SEARCH) {
                        std::optional<std::pair<int, T>> got; int64_t want = -1;
                        if (kind == 0) { bool g = c.raw(5) & 8; got = h.a.erase_binary_search(f, [&](const T&) { return g; }); if (g && lb < n) want = lb; }
                        else if (kind == 1) { got = Traits::erase_lb(h.a, target, comp, lb < n ? (int) lb : -1); if (lb < n) want = lb; }
                        else if (kind == 2) { got = Traits::erase_ub(h.a, target, comp, ub < n ? (int) ub : -1); if (ub < n) want = ub; }
                        else { got = h.a.erase_if_exists(target, comp); if (lb < ub) want = lb; }
                        c.eq(bool(got), want >= 0, "erase search result");
                        if (want >= 0) { c.eq((int64_t) got->first, want, "erase search position"); c.eq(got->second, h.m[(size_t) want], "erase search value"); h.m.erase(h.m.begin() + want); }
                    } else if (code == SPLIT_SEARCH && hs.size() < 8) {
                        int64_t want = kind == 2 ? ub : lb; A r = kind == 2 ? h.a.split_upper_bound(target, comp) : kind == 1 ? h.a.split_lower_bound(target, comp) : h.a.split_binary_search(f);
                        H nh{ h.client, r, std::vector<T>(h.m.begin() + want, h.m.end()) }; h.m.resize((size_t) want); verify(c, h, "left of search split"); verify(c, nh, "right of search split"); hs.push_back(nh); continue;
                    }
                }
                break; }
            case LEAK: { // a client stops using a handle without freeing it; its nodes stay live
                abandoned.push_back(h.a); abandoned_models.push_back(h.m); sim::fault("client_abandon"); std::swap(h, hs.back()); hs.pop_back(); if (abandoned.size() > 4) { abandoned[0].free(); abandoned.erase(abandoned.begin()); abandoned_models.erase(abandoned_models.begin()); } continue; }
            default: break;
            }
            if (quiet ? (c.raw(0) >> 9) % 10 == 0 : deep || n <= 40 || (big && (c.raw(0) >> 9) % 8 == 0)) verify(c, h, "after operation"); else c.eq(h.a.size(), (int) h.m.size(), "size");
            if (!big) c.state(hash(h.m));
        }
        for (auto& h : hs) World::verify(c, h, "end of run");
        for (size_t i = 0; i < abandoned.size(); ++i) { H h{ 0, abandoned[i], abandoned_models[i] }; verify(c, h, "abandoned handle at end"); }
    }
};
template <typename W> sim::WorldDef def(const char* prop, const char* name, const char* real) {
    sim::WorldDef d; d.prop = prop; d.name = name; d.ops = op_table(W::REV, W::PROD, W::LAZY, W::IE, W::SE); d.run = &W::run; d.max_ops = 110; d.ncfg = 9; d.faults = true; d.real = real; return d;
}
struct BaseTraits {
    static constexpr bool REV = false, PROD = false, LAZY = false, ITER_EDIT = false, SEARCH_EDIT = false, MUTABLE = false;
    static F func(uint64_t raw) { sim::Rng r(raw); switch (r.below(4)) { case 0: return F{ 1, r.below(5) }; case 1: return F{ 0, r.below(1000) }; default: return F{ r.next() % P, r.next() % P }; } }
};
}
