#include "seq_treap.hpp"
#include "library/datastructure/bbst/implicit_treap.hpp"
#include "library/datastructure/bbst/implicit_treap_segtree.hpp"
using namespace seqw;
struct TArr : BaseTraits { using T = int64_t; using A = suisen::DynamicArray<T>; static constexpr bool ITER_EDIT = true, MUTABLE = true; static T val(uint64_t id, uint64_t) { return (T) id; } };
struct TStr : BaseTraits { using T = std::string; using A = suisen::DynamicArray<T>; static constexpr bool ITER_EDIT = true, MUTABLE = true; static T val(uint64_t id, uint64_t r) { return std::string(r % 40, 'x') + std::to_string(id); } };
struct TSeg : BaseTraits { using T = M; using A = suisen::DynamicSegmentTree<M, op, e>; static constexpr bool PROD = true, ITER_EDIT = true; static T val(uint64_t id, uint64_t r) { return elem(id, (int64_t) (r % 4)); } };
static sim::RegisterWorld w1(def<World<TArr>>("C01", "dynamic_array_int", "DynamicArray (implicit_treap.hpp, implicit_treap_base.hpp)"));
static sim::RegisterWorld w2(def<World<TStr>>("C01", "dynamic_array_string", "DynamicArray (implicit_treap.hpp, implicit_treap_base.hpp)"));
static sim::RegisterWorld w3(def<World<TSeg>>("C01", "dynamic_segment_tree", "DynamicSegmentTree (implicit_treap_segtree.hpp, implicit_treap_base.hpp)"));
