#include "rb_world.hpp"
#include "library/datastructure/bbst/persistent_red_black_tree.hpp"
#include "library/datastructure/bbst/persistent_red_black_segment_tree.hpp"
#include "library/datastructure/bbst/persistent_red_black_lazy_segment_tree.hpp"
#include "library/datastructure/bbst/persistent_red_black_reversible_lazy_segment_tree.hpp"
using namespace rbw; namespace b = suisen::bbst;
struct TInt : UBase { using N = b::PersistentRedBlackTreeNode<u64>; static constexpr bool PERS = true; };
struct TSeg : MBase { using N = b::segtree::PersistentRedBlackTreeNode<M, op, e>; static constexpr bool PROD = true, PERS = true; };
struct TLazy : MBase { using N = b::lazy_segtree::PersistentRedBlackTreeNode<M, op, e, F, mapping_sz, composition, id>; static constexpr bool PROD = true, LAZY = true, PERS = true; static F act(sim::Rng& r) { return F{ 1 + r.below(20), r.below(20) }; } static M ap(const F& f, const M& x) { return map_raw(f, x); } };
struct TRev : UBase { using N = b::reversible_lazy_segtree::PersistentRedBlackTreeNode<u64, cop, ce, CF, cmap, ccomp, cid>; static constexpr bool PROD = true, LAZY = true, REV = true, PERS = true; static CF act(sim::Rng& r) { return CF{ r.chance(1, 3) ? 1 : r.below(20), r.below(20) }; } static u64 ap(const CF& f, u64 x) { return f.a * x + f.b; } };
static sim::RegisterWorld w1(World<TInt>::def("C07", "prb_tree", "PersistentRedBlackTree, ObjectPool", 2)), w3(World<TSeg>::def("C07", "prb_segtree", "PersistentRedBlackTree segment tree, ObjectPool", 2)), w4(World<TLazy>::def("C07", "prb_lazy_segtree", "PersistentRedBlackTree lazy segment tree, ObjectPool", 3)), w5(World<TRev>::def("C07", "prb_reversible_lazy_segtree", "PersistentRedBlackTree reversible lazy segment tree, ObjectPool", 3));
