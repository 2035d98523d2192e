#include "monoids.hpp"
#include "library/datastructure/segment_tree/sortable_segment_tree.hpp"
using namespace algebra;
enum { BUILD, DROP, INSERT, PUSHF, PUSHB, ERASE, POPF, POPB, GET, SETV, SETP, SETKV, SPLIT, CONCAT, MOVE, PROD, SORT, MAXR, MINL, FOREACH };
template <typename Key> struct W { using A = suisen::SortableSegmentTree<M, op, e, toggle, Key>; using Ent = std::pair<Key, M>; struct H { int client; A a; std::vector<Ent> m; };
// injective in uid: keys are distinct. Modes: spread over the whole type, consecutive numbers in a scrambled order, the ends of the type
static Key key_of(uint64_t uid, int mode) {
    if constexpr (std::is_same_v<Key, std::string>) return (mode == 1 ? std::string(uid % 3, 'a') : std::string("a key that is longer than a small buffer ")) + std::to_string(mode == 2 ? uid * 7919 % 1000003 : uid); // "a" < "aa": prefixes of each other
    else if (mode == 0) { if constexpr (sizeof(Key) == 4) return (Key) (uint32_t) (uid * 2654435761u); else return (Key) (uid * 0x9e3779b97f4a7c15ull); }
    else { uint64_t k = uid ^ 1 ^ ((uid >> 2 & 1) << 1); return mode == 1 ? (Key) k - 40 : k & 1 ? std::numeric_limits<Key>::max() - (Key) (k >> 1) : std::numeric_limits<Key>::min() + (Key) (k >> 1); }
}
static M foldm(const std::vector<Ent>& v, int64_t l, int64_t r) { M x; for (int64_t i = l; i < r; ++i) x = op_raw(x, v[(size_t) i].second); return x; }
static uint64_t hash(const std::vector<Ent>& v) { uint64_t h = v.size(); for (auto& x : v) h = sim::mix64(h * 31 + sim::hash_of(x.first) * 7 + sim::hash_of(x.second)); return h; }
static void verify(sim::Ctx& c, H& h, const char* what) {
    c.eq(h.a.size(), (int) h.m.size(), "size");
    auto d = h.a.dump_entries(); if (!(d == h.m)) c.fail("contents", what); c.obs(hash(d));
    if (h.m.size()) { if (!(h.a.prod(0, (int) h.m.size()) == foldm(h.m, 0, (int64_t) h.m.size()))) c.fail("prod_all", what); }
}
static void run(sim::Ctx& c) {
    int nclients = (int) c.cfg(1, 4); int64_t maxn = c.cfg(0, 3) == 0 ? c.cfg(1, 120) : c.cfg(1, 20); int mode = (int) c.cfg(0, 2), turn = 0, last = -1; int64_t LIM = 250; if (c.cfg(0, 39) == 39) { maxn = 3000; LIM = 6000; sim::probe("long_sequence"); } uint64_t uid = 0;
    std::vector<std::unique_ptr<H>> hs;
    auto fresh = [&](int k) { ++uid; return Ent{ key_of(uid, mode), elem(uid + 1000, (int64_t) (c.raw(k) >> 3) % 4) }; };
    while (c.next()) {
        int code = c.cur->code;
        if (code == BUILD || hs.empty()) {
            if (hs.size() >= 6) { hs.erase(hs.begin() + c.arg(0, 0, 5)); }
            auto h = std::make_unique<H>(); h->client = turn++ % nclients; int64_t n = code == BUILD ? c.arg(1, 0, maxn) : 0; sim::Rng r = c.rng(2);
            std::vector<uint64_t> ids; for (int64_t i = 0; i < n; ++i) ids.push_back(++uid); for (size_t i = ids.size(); i > 1; --i) std::swap(ids[i - 1], ids[r.below(i)]);
            for (auto id : ids) h->m.push_back({ key_of(id, mode), elem(id + 1000, (int64_t) r.below(4)) });
            h->a = A(h->m); verify(c, *h, "build"); hs.push_back(std::move(h)); if (code == BUILD) continue;
        }
        size_t hi = (size_t) c.arg(0, 0, (int64_t) hs.size() - 1); H& h = *hs[hi]; int64_t n = (int64_t) h.m.size(); bool full = n >= LIM;
        if (h.client != last) { if (last >= 0) sim::probe("client_switch"); last = h.client; }
        switch (code) {
        case DROP: hs.erase(hs.begin() + (long) hi); sim::fault("client_drop"); for (auto& x : hs) verify(c, *x, "another client's tree after a drop"); continue;
        case INSERT: { if (full) break; int64_t i = c.arg(1, 0, n); Ent x = fresh(2); h.a.insert((int) i, x.first, x.second); h.m.insert(h.m.begin() + i, x); break; }
        case PUSHF: { if (full) break; Ent x = fresh(1); h.a.push_front(x.first, x.second); h.m.insert(h.m.begin(), x); break; }
        case PUSHB: { if (full) break; Ent x = fresh(1); h.a.push_back(x.first, x.second); h.m.push_back(x); break; }
        case ERASE: { if (!n) break; int64_t i = c.arg(1, 0, n - 1); Ent x = h.a.erase((int) i); c.require(x == h.m[(size_t) i], "erase"); h.m.erase(h.m.begin() + i); break; }
        case POPF: { if (!n) break; Ent x = h.a.pop_front(); c.require(x == h.m.front(), "pop_front"); h.m.erase(h.m.begin()); break; }
        case POPB: { if (!n) break; Ent x = h.a.pop_back(); c.require(x == h.m.back(), "pop_back"); h.m.pop_back(); break; }
        case GET: { if (!n) break; int64_t i = c.arg(1, 0, n - 1); c.eq(h.a.get((int) i), h.m[(size_t) i].second, "get"); M v = h.a[(int) i]; c.eq(v, h.m[(size_t) i].second, "operator[]"); break; }
        case SETV: { if (!n) break; int64_t i = c.arg(1, 0, n - 1); M v = elem(++uid + 1000, 2); c.eq(h.a.set_value((int) i, v), h.m[(size_t) i].second, "set_value old value"); h.m[(size_t) i].second = v; break; }
        case SETP: { if (!n) break; int64_t i = c.arg(1, 0, n - 1); M v = elem(++uid + 1000, 1); h.a[(int) i] = v; h.m[(size_t) i].second = v; break; }
        case SETKV: { if (!n) break; int64_t i = c.arg(1, 0, n - 1); Ent x = fresh(2); auto old = h.a.set_key_value((int) i, x.first, x.second); c.require(old == h.m[(size_t) i], "set_key_value old entry"); h.m[(size_t) i] = x; break; }
        case SPLIT: { if (hs.size() >= 6) break; int64_t i = c.arg(1, 0, n); auto nh = std::make_unique<H>(); nh->client = turn++ % nclients; nh->a = h.a.split((int) i); nh->m.assign(h.m.begin() + i, h.m.end()); h.m.resize((size_t) i); verify(c, *nh, "right part"); hs.push_back(std::move(nh)); break; }
        case CONCAT: { if (hs.size() < 2) break; size_t j = (size_t) c.arg(1, 0, (int64_t) hs.size() - 2); if (j >= hi) ++j; if (n + (int64_t) hs[j]->m.size() > LIM) break; h.a.concat(std::move(hs[j]->a)); h.m.insert(h.m.end(), hs[j]->m.begin(), hs[j]->m.end()); verify(c, h, "concat"); hs.erase(hs.begin() + (long) j); continue; }
        case MOVE: { if (hs.size() > 1 && (c.raw(0) & 16)) { size_t j = (hi + 1) % hs.size(); std::swap(h.a, hs[j]->a); std::swap(h.m, hs[j]->m); verify(c, *hs[j], "swapped"); break; } A t(std::move(h.a)); c.eq(h.a.size(), 0, "moved-from size"); if (c.raw(0) & 8) h.a.push_back(key_of(0, mode), elem(1)); h.a = std::move(t); A& self = h.a; self = std::move(h.a); break; }
        case PROD: { int64_t l = c.arg(1, 0, n), r = c.arg(2, 0, n); if (l > r) std::swap(l, r); c.eq(h.a.prod((int) l, (int) r), foldm(h.m, l, r), "prod"); break; }
        case SORT: { int64_t l = c.arg(1, 0, n), r = c.arg(2, 0, n); if (l > r) std::swap(l, r); bool desc = c.raw(3) & 8; int how = (int) c.arg(3, 0, 1);
            if (how) { if (desc) h.a.sort_dsc((int) l, (int) r); else h.a.sort_asc((int) l, (int) r); } else h.a.sort((int) l, (int) r, desc ? A::SortingPolicy::descending : A::SortingPolicy::ascending);
            std::sort(h.m.begin() + l, h.m.begin() + r, [&](const Ent& x, const Ent& y) { return desc ? x.first > y.first : x.first < y.first; }); break; }
        case MAXR: { int64_t l = c.arg(1, 0, n); int64_t K = c.arg(2, 0, foldm(h.m, l, n).w + 1); int64_t want = l, s = 0; while (want < n && s + h.m[(size_t) want].second.w <= K) s += h.m[(size_t) want++].second.w;
            auto [r, v] = h.a.max_right((int) l, [&](const M& x) { sim::callback(); return x.w <= K; }); c.eq((int64_t) r, want, "max_right"); c.eq(v, foldm(h.m, l, want), "max_right product"); break; }
        case MINL: { int64_t r = c.arg(1, 0, n); int64_t K = c.arg(2, 0, foldm(h.m, 0, r).w + 1); int64_t want = r, s = 0; while (want > 0 && s + h.m[(size_t) want - 1].second.w <= K) s += h.m[(size_t) --want].second.w;
            auto [l, v] = h.a.min_left((int) r, [&](const M& x) { sim::callback(); return x.w <= K; }); c.eq((int64_t) l, want, "min_left"); c.eq(v, foldm(h.m, want, r), "min_left product"); break; }
        case FOREACH: { std::vector<Ent> d; bool rev = c.raw(1) & 8; h.a.foreach([&](const Key& k, const M& v) { d.push_back({ k, v }); }, rev); if (rev) std::reverse(d.begin(), d.end()); c.require(d == h.m, "foreach");
            auto ks = h.a.dump_keys(); auto vs = h.a.dump_values(); for (int64_t i = 0; i < n; ++i) { c.require(ks[(size_t) i] == h.m[(size_t) i].first, "dump_keys"); c.require(vs[(size_t) i] == h.m[(size_t) i].second, "dump_values"); } break; }
        }
        verify(c, h, "after operation"); c.state(hash(h.m));
    }
    for (auto& h : hs) verify(c, *h, "end of run");
}
};
template <typename Key> static sim::WorldDef def(const char* nm) {
    sim::WorldDef d; d.prop = "C03"; d.name = nm; d.run = W<Key>::run; d.max_ops = 110; d.ncfg = 6; d.real = "SortableSegmentTree, ptr32";
    d.ops = { {"build", 3, 3}, {"drop", 1, 1}, {"insert", 5, 3}, {"push_front", 2, 2}, {"push_back", 2, 2}, {"erase", 4, 2}, {"pop_front", 1, 1}, {"pop_back", 1, 1}, {"get", 3, 2}, {"set_value", 4, 2}, {"proxy_assign", 2, 2}, {"set_key_value", 5, 3}, {"split", 3, 2}, {"concat", 4, 2}, {"move", 1, 1}, {"prod", 5, 3}, {"sort", 9, 4}, {"max_right", 4, 3}, {"min_left", 4, 3}, {"foreach", 2, 2} };
    return d;
}
static sim::RegisterWorld w(def<int>("sortable_segment_tree")), w64(def<int64_t>("sortable_segment_tree_wide_keys")), ws(def<std::string>("sortable_segment_tree_string_keys"));
