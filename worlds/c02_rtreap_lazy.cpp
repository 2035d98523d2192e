#include "seq_treap.hpp"
#include "library/datastructure/bbst/reversible_implicit_treap_dual_segtree.hpp"
#include "library/datastructure/bbst/reversible_implicit_treap_lazy_segtree.hpp"
using namespace seqw;
template <typename A_> struct Er {
    template <typename T, typename C> static std::optional<std::pair<int, T>> erase_lb(A_& a, const T& t, const C& comp, int) { return a.erase_lower_bound(t, comp); }
    template <typename T, typename C> static std::optional<std::pair<int, T>> erase_ub(A_& a, const T& t, const C& comp, int) { return a.erase_upper_bound(t, comp); }
};
using Dual = suisen::ReversibleDynamicDualSegmentTree<M, F, mapping, composition, id>;
using DualG = suisen::ReversibleDynamicDualSegmentTree<M, G, mapping_g, composition_g, id_g>;
using Lazy = suisen::ReversibleDynamicLazySegmentTree<M, op, e, toggle, F, mapping_sz, composition, id>;
using LazyG = suisen::ReversibleDynamicLazySegmentTree<M, op, e, toggle, G, mapping_sz_g, composition_g, id_g>;
struct LT : BaseTraits { using T = M; static constexpr bool REV = true, LAZY = true, SEARCH_EDIT = true; static T val(uint64_t i, uint64_t r) { return elem(i, (int64_t) (r % 4)); } };
struct TDual : LT, Er<Dual> { using A = Dual; static constexpr bool MUTABLE = true; static F lift(F f) { return f; } };
struct TDualG : LT, Er<DualG> { using A = DualG; static constexpr bool MUTABLE = true; static G lift(F f) { return G{ f.a, f.b }; } };
struct TLazy : LT, Er<Lazy> { using A = Lazy; static constexpr bool PROD = true; static F lift(F f) { return f; } };
struct TLazyG : LT, Er<LazyG> { using A = LazyG; static constexpr bool PROD = true; static G lift(F f) { return G{ f.a, f.b }; } };
static sim::RegisterWorld w1(def<World<TDual>>("C02", "reversible_dual", "ReversibleDynamicDualSegmentTree"));
static sim::RegisterWorld w2(def<World<TDualG>>("C02", "reversible_dual_noeq", "ReversibleDynamicDualSegmentTree (operator without ==)"));
static sim::RegisterWorld w3(def<World<TLazy>>("C02", "reversible_lazy", "ReversibleDynamicLazySegmentTree"));
static sim::RegisterWorld w4(def<World<TLazyG>>("C02", "reversible_lazy_noeq", "ReversibleDynamicLazySegmentTree (operator without ==)"));
