#include "rb_world.hpp"
#include "library/datastructure/bbst/red_black_tree.hpp"
#include "library/datastructure/bbst/red_black_segment_tree.hpp"
#include "library/datastructure/bbst/red_black_lazy_segment_tree.hpp"
#include "library/datastructure/bbst/red_black_reversible_lazy_segment_tree.hpp"
using namespace rbw; namespace b = suisen::bbst;
struct TInt : UBase { using N = b::RedBlackTreeNode<u64>; };
struct TStr : SBase { using N = b::RedBlackTreeNode<std::string>; };
struct TSeg : MBase { using N = b::segtree::RedBlackTreeNode<M, op, e>; static constexpr bool PROD = true; };
struct TLazy : MBase { using N = b::lazy_segtree::RedBlackTreeNode<M, op, e, F, mapping_sz, composition, id>; static constexpr bool PROD = true, LAZY = true; static F act(sim::Rng& r) { return F{ 1 + r.below(20), r.below(20) }; } static M ap(const F& f, const M& x) { return map_raw(f, x); } };
struct TRev : UBase { using N = b::reversible_lazy_segtree::RedBlackTreeNode<u64, cop, ce, CF, cmap, ccomp, cid>; static constexpr bool PROD = true, LAZY = true, REV = true; static CF act(sim::Rng& r) { return CF{ r.chance(1, 3) ? 1 : r.below(20), r.below(20) }; } static u64 ap(const CF& f, u64 x) { return f.a * x + f.b; } };
static sim::RegisterWorld w1(World<TInt>::def("C08", "rb_tree", "RedBlackTree, ObjectPool")), w2(World<TStr>::def("C08", "rb_tree_strings", "RedBlackTree, ObjectPool")), w3(World<TSeg>::def("C08", "rb_segtree", "RedBlackTree segment tree, ObjectPool", 2)), w4(World<TLazy>::def("C08", "rb_lazy_segtree", "RedBlackTree lazy segment tree, ObjectPool", 2)), w5(World<TRev>::def("C08", "rb_reversible_lazy_segtree", "RedBlackTree reversible lazy segment tree, ObjectPool", 2));
