// Hash-based identity: equal contents hash equal for every draw; different contents of equal shape
// hash differently when the draws are fair (>= 61 bits of hash).
#include "library/string/rolling_hash.hpp"
#include "library/string/dynamic_rolling_hash.hpp"
#include "library/string/rolling_hash_field.hpp"
#include "library/util/zobrist_hash.hpp"
#include <atcoder/modint>
using V = std::vector<int>;
static bool fair(sim::Ctx& c) { return c.s.env[sim::E_ENTROPY_MODE] == 0; }
static V letters(sim::Rng r, int n) { V v; int sig = r.chance(1, 2) ? 2 : r.chance(1, 2) ? 26 : 0x7ffffff0; int period = r.chance(1, 3) ? 1 + (int) r.below(4) : 0; for (int i = 0; i < n; ++i) v.push_back(period && i >= period ? v[(size_t) (i - period)] : (int) r.below((uint64_t) sig) + (r.chance(1, 2) ? 1 : 0)); return v; }
static int length(sim::Ctx& c, int k) { int n = (int) c.arg(k, 0, 60); uint64_t q = sim::mix64((uint64_t) c.raw(k) ^ 0x55); return q % 40 ? n : q % 400 ? n * 20 : n * 1200; }
static V sub(const V& a, int l, int r) { return V(a.begin() + l, a.begin() + r); }

// ------------------------------------------------------------------ static rolling hash
enum { RH_NEW, RH_CMP, RH_CAT, RH_BASES, RH_LCP, RH_STR };
template <int K, typename mint> static void run_rh(sim::Ctx& c) {
    using RH = suisen::RollingHash<K, mint>; struct H { RH h; V m; }; std::vector<H> hs; bool trust = true, based = false; std::array<mint, K> b;
    std::map<std::array<uint64_t, K>, std::pair<int, V>> seen[40];   // length -> hash -> content
    auto note = [&](const std::array<uint64_t, K>& h, const V& s) {
        if (s.size() < 40) { auto [it, ins] = seen[s.size()].emplace(h, std::make_pair(0, s)); if (!ins && trust) c.require(it->second.second == s, "collision", "different words share a hash"); }
        for (int i = 0; i < K; ++i) c.obs(h[(size_t) i]);
    };
    while (c.next()) {
        int code = c.cur->code; if (hs.empty() && code != RH_BASES && code != RH_STR) code = RH_NEW;
        switch (code) {
        case RH_NEW: { V m = letters(c.rng(0), length(c, 1)); if (!hs.empty() && c.arg(2, 0, 1)) { const V& o = hs[(size_t) c.arg(3, 0, (int64_t) hs.size() - 1)].m; int l = (int) (c.raw(0) % (o.size() + 1)); V t = sub(o, l, (int) o.size()); m.insert(m.end(), t.begin(), t.end()); if (m.size() > 120 && m.size() > 2 * t.size()) m.resize(std::max<size_t>(120, t.size())); if (!m.empty() && c.raw(2) % 3 == 0) { int& z = m[c.raw(3) % m.size()]; z ^= 1; } }
            if (hs.size() > 5) hs.erase(hs.begin()); hs.push_back(H{ RH(m), m }); break; }
        case RH_CMP: { H& a = hs[(size_t) c.arg(0, 0, (int64_t) hs.size() - 1)]; H& b = hs[(size_t) c.arg(1, 0, (int64_t) hs.size() - 1)]; int len = (int) c.arg(2, 0, (int64_t) std::min(a.m.size(), b.m.size())); int i = (int) c.arg(3, 0, (int64_t) a.m.size() - len), j = (int) c.arg(4, 0, (int64_t) b.m.size() - len);
            auto x = a.h(i, i + len), y = b.h(j, j + len); V s = sub(a.m, i, i + len), t = sub(b.m, j, j + len); note(x, s); note(y, t);
            if (s == t) { c.require(x == y, "equal-words-differ", sim::show(s)); if (a.h(i, i + len) != x) c.fail("unstable", "same query twice"); } else if (trust) c.require(x != y, "collision"); c.state(sim::hash_of(s) + sim::hash_of(t)); break; }
        case RH_CAT: { H& a = hs[(size_t) c.arg(0, 0, (int64_t) hs.size() - 1)]; H& b = hs[(size_t) c.arg(1, 0, (int64_t) hs.size() - 1)]; int l = (int) c.arg(2, 0, (int64_t) a.m.size()), r = (int) c.arg(3, l, (int64_t) a.m.size()), p = (int) c.arg(4, 0, (int64_t) b.m.size()), q = (int) c.arg(5, p, (int64_t) b.m.size());
            V s = sub(a.m, l, r), t = sub(b.m, p, q); auto h = b.h.concat(a.h(l, r), p, q); s.insert(s.end(), t.begin(), t.end()); RH w(s); c.require(h == w(0, (int) s.size()), "concat", sim::show(s)); note(h, s); break; }
        case RH_BASES: { std::mt19937_64 g(1 + (unsigned) c.raw(0) % 100); bool some = based && c.raw(0) % 3 == 0; based = true; for (auto& x : b) if (uint64_t y = (uint64_t) g(); !some || y % 2) { x = y; } RH::set_bases(b); hs.clear(); for (auto& s : seen) s.clear(); trust = fair(c); sim::probe("rebased"); break; }
        case RH_LCP: { H& a = hs[(size_t) c.arg(0, 0, (int64_t) hs.size() - 1)]; H& b = hs[(size_t) c.arg(1, 0, (int64_t) hs.size() - 1)]; int i = (int) c.arg(2, 0, (int64_t) a.m.size()), j = (int) c.arg(3, 0, (int64_t) b.m.size()); if (!trust) break;
            int lo = 0, hi = (int) std::min(a.m.size() - (size_t) i, b.m.size() - (size_t) j) + 1; while (hi - lo > 1) { int mid = (lo + hi) / 2; (a.h(i, i + mid) == b.h(j, j + mid) ? lo : hi) = mid; } int w = 0; while (i + w < (int) a.m.size() && j + w < (int) b.m.size() && a.m[(size_t) (i + w)] == b.m[(size_t) (j + w)]) ++w; c.eq(lo, w, "lcp by hashing"); break; }
        case RH_STR: { sim::Rng r = c.rng(0); int n = (int) c.arg(1, 1, 20), kind = (int) c.arg(2, 0, 3); std::string s, t; const char* al = kind == 0 ? "abcdefghijklmnopqrstuvwxyz" : kind == 1 ? "ABCDEFGHIJKLMNOPQRSTUVWXYZ" : kind == 2 ? "abcxyzABCXYZnopNOP" : "0123456789"; size_t al_n = strlen(al); for (int i = 0; i < n; ++i) s += al[r.below(al_n)]; t = s; if (r.chance(1, 2)) t[r.below(t.size())] = al[r.below(al_n)];
            auto mk = [&](const std::string& x) { return kind == 0 ? RH::from_lowercase_alphabet(x) : kind == 1 ? RH::from_uppercase_alphabet(x) : kind == 2 ? RH::from_alphabet(x) : RH::from_digit(x); }; RH a = mk(s), b = mk(t); if (s == t) c.require(a(0, n) == b(0, n), "equal-strings-differ"); else if (trust) c.require(a(0, n) != b(0, n), "collision", s + " " + t); break; }
        }
    }
}
// ------------------------------------------------------------------ dynamic rolling hash
enum { D_NEW, D_SET, D_INS, D_ERASE, D_PUSH, D_CMP, D_WINDOW };
template <size_t K> static void run_drh(sim::Ctx& c) {
    using D = suisen::DynamicRollingHash<K>; using HT = suisen::Hash<K>; struct H { D d; V m; }; std::vector<std::unique_ptr<H>> hs; D::init_pool(6000); bool trust = fair(c); int created = 0;
    std::map<std::vector<uint64_t>, V> seen[200];
    auto flat = [](const auto& h) { std::vector<uint64_t> v; if constexpr (K == 1) v.push_back(h); else v.assign(h.begin(), h.end()); return v; };
    auto query = [&](H& h, int l, int r) { auto x = flat(h.d(l, r)); V s = sub(h.m, l, r); auto [it, ins] = seen[s.size()].emplace(x, s); if (!ins && trust) c.require(it->second == s, "collision"); for (auto v : x) c.obs(v); return x; };
    std::map<V, std::vector<uint64_t>> byword;
    auto word = [&](H& h, int l, int r) { auto x = query(h, l, r); auto [it, ins] = byword.emplace(sub(h.m, l, r), x); if (!ins) { c.require(it->second == x, "equal-words-differ", sim::show(it->first)); sim::probe("same_word_again"); } };
    while (c.next()) {
        int code = c.cur->code; if (hs.empty()) code = D_NEW;
        if (code == D_NEW) { if (hs.size() > 4 || created > 12) continue; ++created; sim::Rng r = c.rng(0); int n = (int) c.arg(1, r.chance(1, 5) ? 0 : 1, r.chance(1, 5) ? 1 : 60); if (n == 1 && r.chance(1, 2)) n = 0; V m; std::vector<HT> b; for (int i = 0; i < n; ++i) { int x = (int) r.below(r.chance(1, 2) ? 3 : 0x7ffffff0); m.push_back(x); b.emplace_back((uint64_t) x); } hs.push_back(std::unique_ptr<H>(n == 0 && r.chance(1, 2) ? new H{ D(), m } : new H{ D(b), m })); continue; }
        H& h = *hs[(size_t) c.arg(0, 0, (int64_t) hs.size() - 1)]; int n = (int) h.m.size(); int x = (int) (c.raw(2) % 3 == 0 ? c.raw(3) % 0x7ffffff0 : c.raw(3) % 3);
        switch (code) {
        case D_SET: if (n) { int k = (int) c.arg(1, 0, n - 1); h.d.set((size_t) k, (uint64_t) x); h.m[(size_t) k] = x; } break;
        case D_INS: if (n < 150) { int k = (int) c.arg(1, 0, n); h.d.insert((size_t) k, (uint64_t) x); h.m.insert(h.m.begin() + k, x); } break;
        case D_ERASE: if (n) { int k = (int) c.arg(1, 0, n - 1); if (k == 0 && x & 1) h.d.pop_front(); else if (k == n - 1 && x & 1) h.d.pop_back(); else h.d.erase((size_t) k); h.m.erase(h.m.begin() + k); } break;
        case D_PUSH: if (n < 150) { if (c.raw(1) & 1) { h.d.push_back((uint64_t) x); h.m.push_back(x); } else { h.d.push_front((uint64_t) x); h.m.insert(h.m.begin(), x); } } break;
        case D_CMP: { H& g = *hs[(size_t) c.arg(1, 0, (int64_t) hs.size() - 1)]; int len = (int) c.arg(2, 0, (int64_t) std::min(h.m.size(), g.m.size())); int i = (int) c.arg(3, 0, n - len), j = (int) c.arg(4, 0, (int64_t) g.m.size() - len); auto p = query(h, i, i + len), q = query(g, j, j + len);
            if (sub(h.m, i, i + len) == sub(g.m, j, j + len)) c.require(p == q, "equal-words-differ"); else if (trust) c.require(p != q, "collision"); break; }
        case D_WINDOW: { int w = (int) c.arg(1, 0, std::min(n, 4)); for (int i = 0; i + w <= n && i < 20; ++i) word(h, i, i + w); word(h, 0, n); break; }
        }
        c.state(sim::hash_of(h.m));
    }
}
// ------------------------------------------------------------------ rolling hash over a field
enum { F_NEW, F_CMP, F_CAT, F_LCP, F_ADD, F_ARITH };
namespace { struct FX { static suisen::modint2p61m1 add(suisen::modint2p61m1 a, suisen::modint2p61m1 b) { return a + b; } static suisen::modint2p61m1 zero() { return 0; } static suisen::modint2p61m1 neg(suisen::modint2p61m1 a) { return suisen::modint2p61m1(0) - a; } static suisen::modint2p61m1 mul(suisen::modint2p61m1 a, suisen::modint2p61m1 b) { return a * b; } static suisen::modint2p61m1 one() { return 1; } }; }
static void run_field(sim::Ctx& c) {
    using mint = suisen::modint2p61m1;
    using RF = suisen::RollingHashField<mint, 2, FX::add, FX::zero, FX::neg, FX::mul, FX::one>; bool trust = fair(c);
    std::mt19937_64 g(1); RF::set_bases({ mint(g() >> 3), mint(g() >> 3) }); struct H { RF h; V m; }; std::vector<H> hs;
    std::array<std::function<mint(int)>, 2> fn{ [](int x) { return mint((uint64_t) x); }, [](int x) { return mint((uint64_t) x * 7 + 1); } };
    while (c.next()) {
        int code = c.cur->code; if (hs.empty()) code = F_NEW;
        if (c.cur->code == F_ARITH) { constexpr uint64_t P = (1ull << 61) - 1; sim::Rng r = c.rng(0); using u128 = unsigned __int128;
            auto v = [&](const mint& x) { c.require(x.val() < P, "residue is reduced"); return x.val(); }; auto raw = [&] { uint64_t k = r.below(8); return k == 0 ? P * r.below(8) + r.below(3) - 1 : k == 1 ? ~0ull - r.below(3) : k == 2 ? r.below(3) : k == 3 ? (1ull << r.below(64)) - r.below(2) : r.next(); };
            uint64_t a = raw(), b = r.chance(1, 4) ? a : raw(); if (r.chance(1, 6)) b = P - a % P; mint x = a, y = b; a %= P; b %= P; c.eq(v(x), a, "reduction"); c.eq(v(x + y), (uint64_t) (((u128) a + b) % P), "sum"); c.eq(v(x - y), (a + P - b) % P, "difference"); c.eq(v(x * y), (uint64_t) ((u128) a * b % P), "product"); c.eq(x == y, a == b, "equality"); c.eq(v(x += x), (uint64_t) (((u128) a + a) % P), "sum with itself"); c.eq(v(y -= y), 0ull, "difference with itself"); continue; }
        if (code == F_NEW) { V m = letters(c.rng(0), length(c, 1)); if (hs.size() > 5) hs.erase(hs.begin()); hs.push_back(H{ RF::create(m, fn), m }); continue; }
        H& a = hs[(size_t) c.arg(0, 0, (int64_t) hs.size() - 1)]; H& b = hs[(size_t) c.arg(1, 0, (int64_t) hs.size() - 1)];
        switch (code) {
        case F_CMP: { int len = (int) c.arg(2, 0, (int64_t) std::min(a.m.size(), b.m.size())); int i = (int) c.arg(3, 0, (int64_t) a.m.size() - len), j = (int) c.arg(4, 0, (int64_t) b.m.size() - len); auto x = a.h(i, i + len), y = b.h(j, j + len); if (sub(a.m, i, i + len) == sub(b.m, j, j + len)) c.require(x == y, "equal-words-differ"); else if (trust) c.require(!(x == y), "collision"); c.obs(x[0].val()); c.state(sim::hash_of(sub(a.m, i, i + len))); break; }
        case F_CAT: { V s = a.m; s.insert(s.end(), b.m.begin(), b.m.end()); auto h = RF::concat(a.h(0, (int) a.m.size()), b.h(0, (int) b.m.size()), (int) b.m.size()); RF w = RF::create(s, fn); c.require(h == w(0, (int) s.size()), "concat"); break; }
        case F_LCP: { if (!trust) break; int i = (int) c.arg(2, 0, (int64_t) a.m.size()), j = (int) c.arg(3, 0, (int64_t) a.m.size()); int w = 0; while (i + w < (int) a.m.size() && j + w < (int) a.m.size() && a.m[(size_t) (i + w)] == a.m[(size_t) (j + w)]) ++w; c.eq(a.h.lcp(i, j), w, "lcp"); break; }
        case F_ADD: { int len = (int) std::min(a.m.size(), b.m.size()); V s; for (int i = 0; i < len; ++i) s.push_back((int) (((int64_t) a.m[(size_t) i] + b.m[(size_t) i]) % 0x7fffffff)); bool ok = true; for (int i = 0; i < len; ++i) ok &= (int64_t) a.m[(size_t) i] + b.m[(size_t) i] < 0x7fffffff; if (!ok) break; auto h = RF::pointwise_add(a.h(0, len), b.h(0, len)); RF w = RF::create(s, fn); c.require(h[0] == w(0, len)[0], "pointwise_add"); break; }
        }
    }
}
// ------------------------------------------------------------------ zobrist
enum { Z_FLIP, Z_MANY, Z_XOR, Z_CMP };
template <typename Z, typename Key, typename Make> static void run_z(sim::Ctx& c, Z& z, int64_t U, Make mk) {
    struct S { uint64_t h; std::set<int64_t> m; }; std::vector<S> ss(3, S{ z.empty_set(), {} }); bool trust = fair(c); std::map<std::set<int64_t>, uint64_t> byset; std::map<uint64_t, std::set<int64_t>> byhash;
    auto check = [&](S& s) { auto [i, a] = byset.emplace(s.m, s.h); if (!a) c.require(i->second == s.h, "equal-sets-differ"); auto [j, b] = byhash.emplace(s.h, s.m); if (!b && trust) c.require(j->second == s.m, "collision"); c.obs(s.h); c.state(sim::hash_of(std::vector<int64_t>(s.m.begin(), s.m.end()))); };
    auto flip = [&](S& s, int64_t k) { s.h = (uint64_t) z.flip(s.h, mk(k)); if (!s.m.erase(k)) s.m.insert(k); };
    while (c.next()) {
        S& s = ss[(size_t) c.arg(0, 0, (int64_t) ss.size() - 1)];
        switch (c.cur->code) {
        case Z_FLIP: flip(s, c.arg(1, 0, U)); break;
        case Z_MANY: { sim::Rng r = c.rng(1); std::vector<int64_t> ks(s.m.begin(), s.m.end()); for (int i = 0, n = (int) c.arg(2, 0, 6); i < n; ++i) ks.push_back((int64_t) r.below((uint64_t) U + 1)); for (size_t i = ks.size(); i > 1; --i) std::swap(ks[i - 1], ks[r.below(i)]); S t{ z.empty_set(), {} }; for (auto k : ks) { if (r.chance(1, 2)) flip(t, k); else { t.h = z.xor_set(t.h, z.sigleton_set(mk(k))); if (!t.m.erase(k)) t.m.insert(k); } } check(t); if (c.raw(3) & 1) s = t; break; }
        case Z_XOR: { S& t = ss[(size_t) c.arg(1, 0, (int64_t) ss.size() - 1)]; S u{ (uint64_t) z.xor_set(s.h, t.h), s.m }; for (auto k : t.m) if (!u.m.erase(k)) u.m.insert(k); ss[c.raw(2) % ss.size()] = u; check(u); break; }
        case Z_CMP: { S& t = ss[(size_t) c.arg(1, 0, (int64_t) ss.size() - 1)]; if (s.m == t.m) c.require(s.h == t.h, "equal-sets-differ"); else if (trust) c.require(s.h != t.h, "collision"); break; }
        }
        check(s);
    }
}
static void run_zv(sim::Ctx& c) { if (c.cfg(0, 1)) { suisen::VecZobristHash<> z; run_z<decltype(z), size_t>(c, z, 60, [](int64_t k) { return (size_t) k; }); } else { suisen::VecZobristHash<> z((size_t) c.cfg(0, 40)); run_z<decltype(z), size_t>(c, z, 60, [](int64_t k) { return (size_t) k; }); } }
static void run_za(sim::Ctx& c) { suisen::ArrZobristHash<60> z; run_z<decltype(z), size_t>(c, z, 60, [](int64_t k) { return (size_t) k; }); }
static void run_zm(sim::Ctx& c) { if (c.cfg(0, 1)) { suisen::MapZobristHash<std::string> z; run_z<decltype(z), std::string>(c, z, 60, [](int64_t k) { return std::to_string(k * 77) + "key"; }); } else { std::vector<int64_t> u; for (int64_t i = 0, n = c.cfg(0, 60); i < n; ++i) u.push_back(i - 30); suisen::MapZobristHash<int64_t> z(u); run_z<decltype(z), int64_t>(c, z, 60, [](int64_t k) { return k - 30; }); } }

static sim::WorldDef mk(const char* name, void (*run)(sim::Ctx&), std::vector<sim::OpDef> ops, int share, const char* real, const char* stub = "") { sim::WorldDef d; d.prop = "C05"; d.name = name; d.run = run; d.ops = ops; d.max_ops = 80; d.ncfg = 4; d.share = share; d.real = real; d.stub = stub; return d; }
static std::vector<sim::OpDef> rh_ops = { {"new", 2, 4}, {"compare", 8, 5}, {"concat", 4, 6}, {"set_bases", 1, 1}, {"lcp", 3, 4}, {"from_string", 2, 3} };
static std::vector<sim::OpDef> d_ops = { {"new", 2, 2}, {"set", 5, 4}, {"insert", 6, 4}, {"erase", 5, 4}, {"push", 3, 4}, {"compare", 6, 5}, {"windows", 3, 2} };
static std::vector<sim::OpDef> z_ops = { {"flip", 8, 2}, {"rebuild", 3, 4}, {"xor", 3, 3}, {"compare", 3, 2} };
static sim::RegisterWorld r1(mk("rolling_hash_1", run_rh<1, suisen::modint2p61m1>, rh_ops, 3, "RollingHash, pow_mods, modint2p61m1"));
static sim::RegisterWorld r2(mk("rolling_hash_3", run_rh<3, atcoder::modint998244353>, rh_ops, 2, "RollingHash, pow_mods", "AtCoder Library modint"));
static sim::RegisterWorld r3(mk("dynamic_rolling_hash_1", run_drh<1>, d_ops, 3, "DynamicRollingHash, red-black segment tree, ObjectPool"));
static sim::RegisterWorld r4(mk("dynamic_rolling_hash_3", run_drh<3>, d_ops, 2, "DynamicRollingHash, red-black segment tree, ObjectPool"));
static sim::RegisterWorld r5(mk("rolling_hash_field", run_field, { {"new", 2, 2}, {"compare", 8, 5}, {"concat", 3, 2}, {"lcp", 4, 4}, {"pointwise_add", 2, 2}, {"arithmetic", 2, 1} }, 2, "RollingHashField"));
static sim::RegisterWorld r6(mk("zobrist_vec", run_zv, z_ops, 1, "VecZobristHash"));
static sim::RegisterWorld r7(mk("zobrist_arr", run_za, z_ops, 1, "ArrZobristHash"));
static sim::RegisterWorld r8(mk("zobrist_map", run_zm, z_ops, 1, "MapZobristHash"));
