#include "seq_treap.hpp"
#include "library/datastructure/bbst/reversible_implicit_treap.hpp"
#include "library/datastructure/bbst/reversible_implicit_treap_segtree.hpp"
using namespace seqw;
template <typename A_> struct Er {
    template <typename T, typename C> static std::optional<std::pair<int, T>> erase_lb(A_& a, const T& t, const C& comp, int) { return a.erase_lower_bound(t, comp); }
    template <typename T, typename C> static std::optional<std::pair<int, T>> erase_ub(A_& a, const T& t, const C& comp, int) { return a.erase_upper_bound(t, comp); }
};
struct TArr : BaseTraits, Er<suisen::ReversibleDynamicArray<int64_t>> { using T = int64_t; using A = suisen::ReversibleDynamicArray<T>; static constexpr bool REV = true, SEARCH_EDIT = true, MUTABLE = true; static T val(uint64_t id, uint64_t) { return (T) id; } };
struct TStr : BaseTraits, Er<suisen::ReversibleDynamicArray<std::string>> { using T = std::string; using A = suisen::ReversibleDynamicArray<T>; static constexpr bool REV = true, SEARCH_EDIT = true, MUTABLE = true; static T val(uint64_t id, uint64_t r) { return std::string(r % 40, 'x') + std::to_string(id); } };
struct TSeg : BaseTraits, Er<suisen::ReversibleDynamicSegmentTree<M, op, e, toggle>> { using T = M; using A = suisen::ReversibleDynamicSegmentTree<M, op, e, toggle>; static constexpr bool REV = true, PROD = true, SEARCH_EDIT = true; static T val(uint64_t id, uint64_t r) { return elem(id, (int64_t) (r % 4)); } };
static sim::RegisterWorld w1(def<World<TArr>>("C02", "reversible_array_int", "ReversibleDynamicArray"));
static sim::RegisterWorld w2(def<World<TStr>>("C02", "reversible_array_string", "ReversibleDynamicArray"));
static sim::RegisterWorld w3(def<World<TSeg>>("C02", "reversible_segment_tree", "ReversibleDynamicSegmentTree"));
