// ZDDs of several clients sharing the global node table and the operation caches.
#include "library/datastructure/ZDD.hpp"
using suisen::ZDD; using u64 = uint64_t; using i64 = int64_t; using u128 = unsigned __int128;
using Lev = suisen::internal::zdd::zdd_lev_t;
static const int LV = 7;                       // family over items 1..7 = 128-bit mask of subsets
static u128 bit(unsigned s) { return (u128) 1 << s; }
template <class F> static void each(u128 f, F g) { for (unsigned s = 0; s < 128; ++s) if (f >> s & 1) g(s); }
static u128 mchange(u128 f, int v) { u128 r = 0; each(f, [&](unsigned s) { r |= bit(s ^ (1u << (v - 1))); }); return r; }
static u128 mon(u128 f, int v, bool drop) { u128 r = 0; each(f, [&](unsigned s) { if (s >> (v - 1) & 1) r |= bit(drop ? s ^ (1u << (v - 1)) : s); }); return r; }
static u128 moff(u128 f, int v) { u128 r = 0; each(f, [&](unsigned s) { if (!(s >> (v - 1) & 1)) r |= bit(s); }); return r; }
static u128 mrestrict(u128 f, u128 g) { u128 r = 0; each(f, [&](unsigned s) { bool ok = false; each(g, [&](unsigned t) { ok |= (s & t) == t; }); if (ok) r |= bit(s); }); return r; }
static u128 mpermit(u128 f, u128 g) { u128 r = 0; each(f, [&](unsigned s) { bool ok = false; each(g, [&](unsigned t) { ok |= (s & t) == s; }); if (ok) r |= bit(s); }); return r; }
static int mcard(u128 f) { int n = 0; each(f, [&](unsigned) { ++n; }); return n; }
static int mlen(u128 f) { int n = INT32_MIN; each(f, [&](unsigned s) { n = std::max(n, __builtin_popcount(s)); }); return n; }
static int mtop(u128 f) { int t = 0; each(f, [&](unsigned s) { if (s) t = std::max(t, 32 - __builtin_clz(s)); }); return t; }
static int msize(u128 f) { std::set<std::pair<u64, u64>> seen; std::vector<u128> st{ f }; int n = 0; while (st.size()) { u128 g = st.back(); st.pop_back(); int t = mtop(g); if (!t || !seen.insert({ (u64) g, (u64) (g >> 64) }).second) continue; ++n; st.push_back(moff(g, t)); st.push_back(mon(g, t, true)); } return n; }
struct H { ZDD z; u128 m; };
static u128 read(sim::Ctx& c, ZDD z, int above, std::vector<std::pair<std::pair<Lev, int>, u128>>* = nullptr) {
    if (z.is_terminal0()) { c.require(!z.is_terminal1(), "terminals"); return 0; } if (z.is_terminal1()) return 1;
    int t = (int) z.top(); if (t <= 0 || t >= above) c.fail("level-order", "node of level " + std::to_string(t) + " under level " + std::to_string(above));
    u128 lo = read(c, z[0], t), hi = read(c, z[1], t); if (!hi) c.fail("zero-suppression", "node whose 1-edge is the empty family"); u128 r = lo; each(hi, [&](unsigned s) { r |= bit(s | 1u << (t - 1)); }); return r;
}
static void verify(sim::Ctx& c, const H& h, const char* when) { u128 g = read(c, h.z, LV + 1); if (g != h.m) c.fail("family", when); c.obs((u64) g ^ (u64) (g >> 64) * 3); }
enum { TERM, SINGLE, RANDOM, AND, OR, SUB, XOR, CHANGE, ON0, ON1, OFF, RESTRICT, PERMIT, CARD, LEN, ITEM, SIZE, READ, CREATE, DROP };
static void run(sim::Ctx& c) {
    std::vector<H> hs; int used = 0; int nl = (int) c.cfg(1, LV); bool late = c.cfg(0, 2) == 0;      // levels may be introduced while the run goes on
    auto newlev = [&] { Lev l = ZDD::new_level(); c.eq((int) l, ++used, "new_level"); };
    newlev(); if (!late) while (used < nl) newlev();
    hs.push_back({ ZDD::terminal1(), 1 }); bool faults = c.faults_on();
    auto put = [&](ZDD z, u128 m, const char* w) { H h{ z, m }; verify(c, h, w); if (hs.size() < 14) hs.push_back(h); else hs[c.raw(3) % hs.size()] = h; c.state((u64) m * 3 + (u64) (m >> 64)); };
    while (c.next()) {
        if (late && used < nl && c.raw(4) % 4 == 0) newlev();
        H f = hs[c.arg(0, 0, (i64) hs.size() - 1)], g = hs[c.arg(1, 0, (i64) hs.size() - 1)]; int v = (int) c.arg(2, 1, used); sim::Rng r = c.rng(3); ZDD z; u128 m = 0; bool result = false;
        bool arm = faults && r.chance(1, 2); if (arm) sim::arm_alloc_failure((i64) r.below(r.chance(1, 2) ? 4 : 40));
        std::optional<std::vector<int32_t>> item; i64 num = 0; bool failed = false;
        try { sim::Armed a; switch (c.cur->code) {
            case TERM: z = r.chance(1, 2) ? ZDD::terminal0() : ZDD::terminal1(); m = z.is_terminal1(); result = true; break;
            case SINGLE: z = ZDD::change(ZDD::terminal1(), (Lev) v); m = bit(1u << (v - 1)); result = true; break;
            case RANDOM: { z = ZDD::terminal0(); int n = (int) r.below(r.chance(1, 3) ? 40 : 6); while (n-- > 0) { ZDD s = ZDD::terminal1(); unsigned q = (unsigned) r.below(1u << used); std::vector<int> o; for (int i = 1; i <= used; ++i) if (q >> (i - 1) & 1) o.push_back(i); for (size_t i = o.size(); i > 1; --i) std::swap(o[i - 1], o[r.below(i)]); for (int i : o) s = ZDD::change(s, (Lev) i); z = z + s; m |= bit(q); } result = true; break; }
            case AND: z = f.z & g.z; m = f.m & g.m; result = true; break;
            case OR: z = f.z + g.z; m = f.m | g.m; result = true; break;
            case SUB: z = f.z - g.z; m = f.m & ~g.m; result = true; break;
            case XOR: z = f.z ^ g.z; m = f.m ^ g.m; result = true; break;
            case CHANGE: z = ZDD::change(f.z, (Lev) v); m = mchange(f.m, v); result = true; break;
            case ON0: z = ZDD::onset0(f.z, (Lev) v); m = mon(f.m, v, true); result = true; break;
            case ON1: z = ZDD::onset1(f.z, (Lev) v); m = mon(f.m, v, false); result = true; break;
            case OFF: z = ZDD::offset(f.z, (Lev) v); m = moff(f.m, v); result = true; break;
            case RESTRICT: z = ZDD::restrict(f.z, g.z); m = mrestrict(f.m, g.m); result = true; break;
            case PERMIT: z = ZDD::permit(f.z, g.z); m = mpermit(f.m, g.m); result = true; break;
            case CREATE: { int t = std::max(mtop(f.m), mtop(g.m)); if (t < used) { int l = t + 1 + (int) r.below((u64) (used - t)); z = ZDD::create_zdd(f.z, g.z, (Lev) l); m = f.m | mchange(g.m, l); result = true; } break; }
            case CARD: { int k = (int) r.below(3); num = k == 0 ? ZDD::card<int>(f.z) : k == 1 ? ZDD::card<long long>(f.z) : (i64) ZDD::card<double>(f.z); break; }
            case LEN: num = ZDD::len(f.z); break;
            case ITEM: item = ZDD::max_len_item(f.z); break;
            case SIZE: num = ZDD::size(f.z); break;
            case DROP: if (hs.size() > 1) { hs.erase(hs.begin() + (i64) r.below(hs.size())); } break;
        } } catch (const std::bad_alloc&) { failed = true; }
        sim::disarm_alloc_failure();
        if (failed) { sim::probe("op_failed_by_allocation"); verify(c, f, "operand after a failed allocation"); continue; }
        switch (c.cur->code) {
            case CARD: c.eq((int) num, mcard(f.m), "card"); break;
            case LEN: c.eq((int) num, mlen(f.m), "len"); break;
            case SIZE: c.eq((int) num, msize(f.m), "node count"); break;
            case ITEM: { c.eq(item.has_value(), f.m != 0, "max_len_item exists"); if (item) { unsigned s = 0; for (int x : *item) { if (x < 1 || x > LV || (s >> (x - 1) & 1)) c.fail("max_len_item", "bad item " + std::to_string(x)); s |= 1u << (x - 1); } c.require(f.m >> s & 1, "max_len_item", "not a member of the family: " + sim::show(*item)); c.eq((int) item->size(), mlen(f.m), "max_len_item size"); } break; }
            case READ: verify(c, f, "read"); break;
            default: if (result) { put(z, m, "result"); verify(c, f, "left operand"); verify(c, g, "right operand"); }
        }
    }
    for (auto& h : hs) { verify(c, h, "at the end"); c.eq(ZDD::size(h.z), msize(h.m), "node count at the end"); c.eq(ZDD::card<int>(h.z), mcard(h.m), "card at the end"); }
}
static sim::RegisterWorld r1([] { sim::WorldDef d; d.prop = "C11"; d.name = "zdd"; d.run = run; d.max_ops = 90; d.ncfg = 2; d.faults = true; d.real = "datastructure/ZDD.hpp, util/hashes.hpp";
    d.ops = { {"terminal", 1, 5}, {"single", 3, 5}, {"random", 4, 5}, {"and", 4, 5}, {"union", 4, 5}, {"minus", 4, 5}, {"xor", 4, 5}, {"change", 4, 5}, {"onset0", 4, 5}, {"onset1", 4, 5}, {"offset", 4, 5}, {"restrict", 4, 5}, {"permit", 4, 5}, {"card", 2, 5}, {"len", 2, 5}, {"max_item", 3, 5}, {"size", 2, 5}, {"read", 1, 5}, {"create", 3, 5}, {"drop", 1, 5} }; return d; }());

// wide families: many levels (some with high numbers), hundreds of members, tens of thousands of shared nodes
namespace wide {
using Fam = std::set<u64>; struct W { ZDD z; Fam m; };
enum { TERM, RANDOM, POWER, AND, OR, SUB, XOR, CHANGE, ON0, ON1, OFF, RESTRICT, PERMIT, ASK, SAME, HUGE_, FLOOD };
static void run(sim::Ctx& c) {
    int n = (int) c.cfg(2, 40), kind = (int) c.cfg(0, 3); std::vector<int> lev; { sim::Rng r(c.s.seed ^ 0x2dd); int cur = 0; // strictly increasing level numbers
        for (int i = 0; i < n; ++i) { cur += kind == 0 ? 1 : kind == 1 ? 1 + (int) r.below(40) : kind == 2 ? (i % 7 == 3 ? 250 + (int) r.below(20) : 1) : (i % 9 == 1 ? 65530 + (int) r.below(20) : 1 + (int) r.below(3)); lev.push_back(cur); } for (int k = 1; k <= cur; ++k) c.eq((int) ZDD::new_level(), k, "new_level"); }
    std::map<int, int> item; for (int i = 0; i < n; ++i) item[lev[(size_t) i]] = i;
    auto build = [&](const Fam& f) { ZDD z = ZDD::terminal0(); for (u64 s : f) { ZDD t = ZDD::terminal1(); for (int i = 0; i < n; ++i) if (s >> i & 1) t = ZDD::change(t, (Lev) lev[(size_t) i]); z = z + t; } return z; };
    auto member = [&](ZDD z, u64 s) { for (int i = n; i-- > 0;) { bool in = s >> i & 1; if (z.is_terminal0()) return false; if (!z.is_terminal1() && (int) z.top() == lev[(size_t) i]) z = z[in]; else if (in) return false; } return z.is_terminal1(); };
    auto check = [&](const W& w, sim::Rng r, const char* when) { c.eq((i64) ZDD::card<long long>(w.z), (i64) w.m.size(), when); size_t k = 0; for (u64 s : w.m) { if (w.m.size() > 60 && k++ % 5) continue; c.require(member(w.z, s), "member", when); } for (int q = 0; q < 8; ++q) { u64 s = r.next() & ((1ull << n) - 1); if (w.m.size() && r.chance(1, 2)) { auto it = w.m.lower_bound(s); s = (it == w.m.end() ? *w.m.begin() : *it) ^ 1ull << r.below((u64) n); } c.eq(member(w.z, s), w.m.count(s) > 0, "membership"); } };
    auto nodes = [&](const Fam& f) { std::set<Fam> seen; std::vector<Fam> st{ f }; int k = 0; while (st.size()) { Fam g = std::move(st.back()); st.pop_back(); u64 all = 0; for (u64 s : g) all |= s; if (!all || !seen.insert(g).second) continue; ++k; int t = 63 - __builtin_clzll(all); Fam a, b; for (u64 s : g) if (s >> t & 1) b.insert(s ^ 1ull << t); else a.insert(s); st.push_back(std::move(a)); st.push_back(std::move(b)); } return k; };
    std::vector<W> hs{ { ZDD::terminal1(), { 0 } } }; bool faults = c.faults_on();
    while (c.next()) { W f = hs[c.arg(0, 0, (i64) hs.size() - 1)], g = hs[c.arg(1, 0, (i64) hs.size() - 1)]; int v = (int) c.arg(2, 0, n - 1); Lev l = (Lev) lev[(size_t) v]; u64 b = 1ull << v; sim::Rng r = c.rng(3); W o; bool res = true, failed = false; if ((c.cur->code == RESTRICT || c.cur->code == PERMIT) && f.m.size() * g.m.size() > 20000) continue;
        if (faults && r.chance(1, 3)) sim::arm_alloc_failure((i64) r.below(r.chance(1, 2) ? 4 : 200));
        try { sim::Armed a; switch (c.cur->code) {
            case TERM: o.z = r.chance(1, 2) ? ZDD::terminal0() : ZDD::terminal1(); if (o.z.is_terminal1()) o.m = { 0 }; break;
            case RANDOM: { sim::disarm_alloc_failure(); u64 base = r.next(), mask = r.next() | r.next(); for (int k = (int) r.below(r.chance(1, 4) ? 150 : 20); k-- > 0;) o.m.insert((r.chance(1, 2) ? r.next() & r.next() : base ^ (r.next() & r.next() & mask)) & ((1ull << n) - 1)); o.z = build(o.m); break; }
            case POWER: { sim::disarm_alloc_failure(); int k = std::min(n, 1 + (int) r.below(8)); std::set<int> is; while ((int) is.size() < k) is.insert((int) r.below((u64) n)); o.z = ZDD::terminal1(); o.m = { 0 }; for (int i : is) { o.z = o.z + ZDD::change(o.z, (Lev) lev[(size_t) i]); Fam q = o.m; for (u64 s : q) o.m.insert(s | 1ull << i); } break; }
            case AND: o.z = f.z & g.z; for (u64 s : f.m) if (g.m.count(s)) o.m.insert(s); break;
            case OR: o.z = f.z + g.z; o.m = f.m; o.m.insert(g.m.begin(), g.m.end()); break;
            case SUB: o.z = f.z - g.z; for (u64 s : f.m) if (!g.m.count(s)) o.m.insert(s); break;
            case XOR: o.z = f.z ^ g.z; for (u64 s : f.m) if (!g.m.count(s)) o.m.insert(s); for (u64 s : g.m) if (!f.m.count(s)) o.m.insert(s); break;
            case CHANGE: o.z = ZDD::change(f.z, l); for (u64 s : f.m) o.m.insert(s ^ b); break;
            case ON0: o.z = ZDD::onset0(f.z, l); for (u64 s : f.m) if (s & b) o.m.insert(s ^ b); break;
            case ON1: o.z = ZDD::onset1(f.z, l); for (u64 s : f.m) if (s & b) o.m.insert(s); break;
            case OFF: o.z = ZDD::offset(f.z, l); for (u64 s : f.m) if (!(s & b)) o.m.insert(s); break;
            case RESTRICT: o.z = ZDD::restrict(f.z, g.z); for (u64 s : f.m) for (u64 t : g.m) if ((s & t) == t) { o.m.insert(s); break; } break;
            case PERMIT: o.z = ZDD::permit(f.z, g.z); for (u64 s : f.m) for (u64 t : g.m) if ((s & t) == s) { o.m.insert(s); break; } break;
            default: res = false; sim::disarm_alloc_failure(); }
        } catch (const std::bad_alloc&) { failed = true; sim::probe("op_failed_by_allocation"); } sim::disarm_alloc_failure();
        if (failed) { check(f, r, "operand after a failed allocation"); check(g, r, "operand after a failed allocation"); continue; }
        if (c.cur->code == ASK) { c.eq(ZDD::size(f.z), nodes(f.m), "node count"); int w = INT32_MIN; for (u64 s : f.m) w = std::max(w, __builtin_popcountll(s)); c.eq((int) ZDD::len(f.z), w, "len"); auto it = ZDD::max_len_item(f.z); c.eq(it.has_value(), !f.m.empty(), "max_len_item exists"); if (it) { u64 s = 0; for (int x : *it) { c.require(item.count(x) && !(s >> item[x] & 1), "max_len_item"); s |= 1ull << item[x]; } c.require(f.m.count(s) && (int) it->size() == w, "max_len_item is a longest member"); } c.eq((i64) ZDD::card<double>(f.z), (i64) f.m.size(), "card"); }
        if (c.cur->code == SAME) { // the same family by another way is the same diagram
            Fam all = f.m; ZDD z = build(all); c.require((z ^ f.z).is_terminal0(), "equal families are equal diagrams"); c.eq((f.z ^ g.z).is_terminal0(), f.m == g.m, "diagrams are equal exactly if the families are"); }
        if (c.cur->code == FLOOD && n > 20 && r.chance(1, 12)) { // enough other families to fill the shared table with tens of thousands of nodes
            sim::probe("table_of_many_nodes"); ZDD z = ZDD::terminal0(); for (int k = 0; k < 3000; ++k) { u64 s = r.next(); ZDD t = ZDD::terminal1(); for (int i = 0; i < n; ++i) if (s >> i & 1) t = ZDD::change(t, (Lev) lev[(size_t) i]); if (k % 100 == 0) z = z + t; } for (auto& w : hs) check(w, r, "families while the table is large"); c.require(!z.is_terminal0(), "family of the flood"); }
        if (c.cur->code == HUGE_) { // a power set that is too large to list, and the families it cuts out of a listed one
            int k = 1 + (int) r.below((u64) n); u64 mask = 0; while (__builtin_popcountll(mask) < k) mask |= 1ull << r.below((u64) n); ZDD p = ZDD::terminal1(); for (int i = 0; i < n; ++i) if (mask >> i & 1) p = p + ZDD::change(p, (Lev) lev[(size_t) i]); Fam in, out; for (u64 s : f.m) (s & ~mask ? out : in).insert(s);
            c.eq((i64) ZDD::card<long long>(p), (i64) 1 << k, "card of a power set"); c.eq((i64) ZDD::card<double>(p), (i64) 1 << k, "card of a power set"); c.eq((int) ZDD::len(p), k, "len of a power set"); c.eq(ZDD::size(p), k, "node count of a power set"); check({ f.z & p, in }, r, "cut with a power set"); check({ f.z - p, out }, r, "difference with a power set"); check({ ZDD::permit(f.z, p), in }, r, "permit a power set"); c.eq((i64) ZDD::card<long long>(p - f.z), ((i64) 1 << k) - (i64) in.size(), "card of a huge difference"); c.eq((i64) ZDD::card<long long>(p + f.z), ((i64) 1 << k) + (i64) out.size(), "card of a huge union"); }
        if (res) { check(o, r, "result"); check(f, r, "left operand"); if (o.m.size() <= 600) { if (hs.size() < 10) hs.push_back(o); else hs[r.below(hs.size())] = o; } u64 h = 0; for (u64 s : o.m) h = sim::mix64(h ^ s); c.state(h); } }
    sim::Rng r(1); for (auto& w : hs) check(w, r, "at the end");
}
static sim::RegisterWorld r2([] { sim::WorldDef d; d.prop = "C11"; d.name = "zdd_wide"; d.run = run; d.max_ops = 60; d.ncfg = 2; d.faults = true; d.real = "datastructure/ZDD.hpp, util/hashes.hpp"; d.stub = "memory (failures, reuse, poison)";
    d.ops = { {"terminal", 1, 5}, {"random", 6, 5}, {"power_set", 2, 5}, {"and", 4, 5}, {"union", 5, 5}, {"minus", 4, 5}, {"xor", 4, 5}, {"change", 4, 5}, {"onset0", 3, 5}, {"onset1", 3, 5}, {"offset", 3, 5}, {"restrict", 4, 5}, {"permit", 4, 5}, {"ask", 3, 5}, {"same", 2, 5}, {"huge", 2, 5}, {"flood", 1, 5} }; return d; }());
}
