// C24: online convolutions: streams whose next input depends on earlier output, interleaved, forked and failed half-way.
#include <atcoder/modint>
#include "sim.hpp"
#include <algorithm>
#include <cassert>
#include <memory>
#include "library/convolution/relaxed_convolution.hpp"
#include "library/convolution/relaxed_convolution_ntt.hpp"
#include "library/convolution/semi_relaxed_convolution.hpp"
#include "library/convolution/semi_relaxed_convolution_ntt.hpp"
using i64 = int64_t; using u64 = uint64_t; using mint = atcoder::modint998244353; using V = std::vector<mint>;
namespace sim { template <> inline std::string show<mint>(const mint& m) { return std::to_string(m.val()); } template <> inline uint64_t hash_of<mint>(const mint& m) { return mix64(m.val()); } }
namespace {
V conv(const V& a, const V& b) { sim::callback(); if (a.empty() || b.empty()) return {}; V h(a.size() + b.size() - 1); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) h[i + j] += a[i] * b[j]; return h; }
using R = suisen::RelaxedConvolution<mint>; using RN = suisen::RelaxedConvolutionNTT<mint>; using SR = suisen::SemiRelaxedConvolution<mint>; using SN = suisen::SemiRelaxedConvolutionNTT<mint>;
template <typename T> constexpr bool SEMI = std::is_same_v<T, SR> || std::is_same_v<T, SN>;
template <typename T> constexpr bool NTT = std::is_same_v<T, RN> || std::is_same_v<T, SN>;
enum { NEW, STEP, RUN, READ, COPY, ASSIGN, SWAP };
template <typename T> void run(sim::Ctx& c) { bool on = c.faults_on(); constexpr bool semi = SEMI<T>; const bool L = sim::mix64(c.s.seed ^ 0xb16) % 25 == 0; const size_t LIM = L ? (NTT<T> ? 2600 : 600) : NTT<T> ? 700 : 200; u64 base = sim::live_blocks(); {
    int maxrun = (int) c.cfg(1, NTT<T> ? 200 : 40) * (L ? 6 : 1);
    struct Obj { std::unique_ptr<T> t; V f, g, h; size_t n = 0; int mode = 0; }; std::vector<std::shared_ptr<Obj>> os;
    auto mk = [&](sim::Rng& r) { auto o = std::make_shared<Obj>(); o->mode = (int) r.below(4); if constexpr (semi) { o->f.resize(r.chance(1, 3) ? r.below(5) : 1 + r.below(LIM)); for (auto& x : o->f) x = (int) r.below(998244353); }
        sim::scribble_stack(); if constexpr (std::is_same_v<T, R>) { if (r.chance(1, 2)) o->t.reset(new R(conv)); else { o->t.reset(new R); o->t->set_convolve_function(conv); } } else if constexpr (std::is_same_v<T, SR>) { if (r.chance(1, 2)) o->t.reset(new SR(o->f, conv)); else { o->t.reset(new SR(o->f)); o->t->set_convolve_function(conv); } } else if constexpr (semi) o->t.reset(new T(o->f)); else o->t.reset(new T); return o; };
    auto put = [&](sim::Rng& r, std::shared_ptr<Obj> o) { if (os.size() < 4) os.push_back(o); else os[r.below(4)] = o; };
    { sim::Rng r(c.s.seed ^ 9); os.push_back(mk(r)); }
    auto verify = [&](Obj& o) { for (size_t i = 0; i < o.n; ++i) c.eq((*o.t)[(int) i], o.h[i], "coefficient"); auto v = o.t->get(); c.require(v.size() >= o.n, "number of coefficients"); for (size_t i = 0; i < o.n; ++i) c.eq(v[i], o.h[i], "coefficient"); };
    while (c.next()) { sim::Rng r = c.rng(2); auto keep = os[(size_t) c.arg(0, 0, (i64) os.size() - 1)], keep2 = os[r.below(os.size())]; Obj& o = *keep; Obj& p = *keep2; bool any = false;
        auto step = [&] { if (o.n >= LIM) return; bool failed = false; mint last = o.n ? o.h[o.n - 1] : mint(1); auto pick = [&]() -> mint { switch (o.mode) { case 0: return mint((int) r.below(998244353)); case 1: return last; case 2: return r.chance(1, 3) ? last : mint((int) r.below(3)); default: return mint(r.chance(1, 8) ? 1 : 0); } }; mint a = pick(), b = pick(); mint got;
            auto f = [&] { if constexpr (semi) got = o.t->append(b); else got = o.t->append(a, b); };
            if (!on || !r.chance(1, 5)) f(); else { if (NTT<T> || r.chance(1, 2)) sim::arm_alloc_failure((i64) r.below(12)); else sim::arm_callback_throw((i64) r.below(8)); try { sim::Armed z; f(); } catch (const std::bad_alloc&) { failed = true; } catch (const sim::InjectedFault&) { failed = true; } sim::disarm_alloc_failure(); sim::disarm_callback_throw(); if (failed) sim::probe("request_failed"); }
            if (failed) { any = true; return; }
            if constexpr (!semi) o.f.push_back(a); o.g.push_back(b); mint w = 0; for (size_t i = 0; i <= o.n && i < o.f.size(); ++i) w += o.f[i] * o.g[o.n - i]; o.h.push_back(w); ++o.n; c.eq(got, w, "coefficient returned by append"); };
        switch (c.cur->code) {
        case NEW: put(r, mk(r)); break;
        case STEP: step(); break;
        case RUN: for (int k = 1 + (int) r.below((u64) maxrun); k-- > 0;) step(); break;
        case READ: break;
        case COPY: { auto q = std::make_shared<Obj>(Obj{ std::make_unique<T>(*o.t), o.f, o.g, o.h, o.n, (int) r.below(4) }); put(r, q); break; }
        case ASSIGN: *o.t = *p.t; o.f = p.f; o.g = p.g; o.h = p.h; o.n = p.n; break;
        case SWAP: if (&o != &p) { std::swap(*o.t, *p.t); std::swap(o.f, p.f); std::swap(o.g, p.g); std::swap(o.h, p.h); std::swap(o.n, p.n); } break; }
        if (any || c.cur->code != STEP) verify(o); if (any || r.chance(1, 8)) for (auto& q : os) verify(*q);
        u64 h = 0; for (auto& q : os) h = sim::mix64(h * 31 + q->n * 7 + (q->n ? q->h[q->n - 1].val() : 0)); c.state(h); } 
    for (auto& q : os) verify(*q); }
    c.eq(sim::live_blocks(), base, "all memory is returned"); sim::check_heap("end");
}
sim::WorldDef def(const char* nm, void (*run)(sim::Ctx&), const char* real) { sim::WorldDef d; d.prop = "C24"; d.name = nm; d.run = run; d.max_ops = 50; d.ncfg = 1; d.faults = true; d.real = real; d.stub = "memory (failures, reuse, poison), convolution callback, atcoder::internal::butterfly"; d.ops = { {"new", 1, 3}, {"append", 8, 3}, {"run", 8, 3}, {"read", 1, 3}, {"copy", 2, 3}, {"assign", 1, 3}, {"swap", 1, 3} }; return d; }
sim::RegisterWorld w1(def("relaxed", run<R>, "library/convolution/relaxed_convolution.hpp")), w2(def("relaxed_ntt", run<RN>, "library/convolution/relaxed_convolution_ntt.hpp")), w3(def("semi_relaxed", run<SR>, "library/convolution/semi_relaxed_convolution.hpp")), w4(def("semi_relaxed_ntt", run<SN>, "library/convolution/semi_relaxed_convolution_ntt.hpp"));
}
