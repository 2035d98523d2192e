// Indexes: objects built from given data, copied, moved, swapped, rebuilt and queried on top of multi.hpp.
#pragma once
#include "multi.hpp"
using i64 = int64_t; using u64 = uint64_t; using Rng = sim::Rng; using Ctx = sim::Ctx; using multi::Go;
namespace {
size_t size_for(Rng& r, i64 scale) { switch (scale) { case 0: return r.below(4); case 1: return r.below(14); case 2: { i64 p = 1ll << r.below(7); return (size_t) std::max<i64>(0, p + (i64) r.below(3) - 1); } default: return r.chance(1, 90) ? 1000 + r.below(3200) : r.chance(1, 6) ? 200 + r.below(500) : 1 + r.below(90); } }
std::pair<int, int> range(Rng& r, size_t n) { int l = (int) r.below(n + 1), x = (int) r.below(n + 1); if (r.chance(1, 8)) l = 0; if (r.chance(1, 8)) x = (int) n; if (r.chance(1, 8)) x = std::min((int) n, l + (int) r.below(3)); return { std::min(l, x), std::max(l, x) }; }
i64 sgn(Rng& r, i64 span) { return (i64) r.below(2 * (u64) span + 1) - span; }
template <typename V> u64 hash_seq(const V& m) { u64 h = m.size(); for (auto& x : m) h = sim::mix64(h * 31 + (u64) x); return h; }
u64 g_verify = 0;
// D: gen(r, scale) -> Model, build(r, Model) -> T*, check(c, r, T&, Model), optionally change(c, r, T&, Model&, go)
template <typename D, typename TT, typename MM> struct Kind {
    using T = TT; using Model = MM;
    static T* built(Ctx& c, Rng& r, const Model& m) { Go go{ c, r, c.faults_on() }; T* t = nullptr; u64 s = r.next(); for (int k = 0; k < 30; ++k) { Rng q(s); if (go(1, [&] { t = D::build(q, m); }, 1 << r.below(6))) return t; } Rng q(s); return D::build(q, m); }
    static void make(Ctx& c, Rng& r, i64 sc, T*& t, Model& m) { m = D::gen(r, sc); t = built(c, r, m); }
    static bool change(Ctx&, Rng&, T&, Model&, Go&) { return false; }
    static void step(Ctx& c, Rng& r, T& t, Model& m, bool up, Go& go) { if (up && D::change(c, r, t, m, go)) return; if (up && r.chance(1, 3)) { Model n = D::gen(r, (i64) r.below(4)); std::unique_ptr<T> q(built(c, r, n)); t = std::move(*q); m = n; return; } for (int k = 0; k < 3; ++k) D::check(c, r, t, m, go); }
    static void verify(Ctx& c, T& t, const Model& m) { Rng r(c.s.seed + 77 * ++g_verify); Go go{ c, r, false }; for (int k = 0; k < 2; ++k) D::check(c, r, t, m, go); }
    static u64 hash(const Model& m) { return hash_seq(m); }
};
// holds a tree that cannot be assigned
template <typename B> struct Box { std::unique_ptr<B> p; Box() {} explicit Box(B* q) : p(q) {} Box(const Box& o) : p(new B(*o.p)) {} Box(Box&& o) : p(new B(std::move(*o.p))) {} Box& operator=(const Box& o) { p.reset(new B(*o.p)); return *this; } Box& operator=(Box&& o) { p.reset(new B(std::move(*o.p))); return *this; } };
}
