From b7aa9264a428059c7f68d4755e4b3bbf07a800e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:11 +0000
Subject: [PATCH 001/158] fix: reversible treap: pushing a pending reversal
 must toggle the children's products

ReversibleNode::push called the base reverse_all, so a child's cached product was
not toggled and prod/prod_all/max_right/min_left were wrong for non-commutative
monoids after a reverse.
---
 library/datastructure/bbst/reversible_implicit_treap_base.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/bbst/reversible_implicit_treap_base.hpp b/library/datastructure/bbst/reversible_implicit_treap_base.hpp
index 55c323a..12a65a1 100644
--- a/library/datastructure/bbst/reversible_implicit_treap_base.hpp
+++ b/library/datastructure/bbst/reversible_implicit_treap_base.hpp
@@ -74,8 +74,8 @@ namespace suisen::internal::implicit_treap {
         }
         static void push(node_pointer t) { // t : not null
             if (std::exchange(reversed(t), false)) {
-                reverse_all(child0(t));
-                reverse_all(child1(t));
+                node_type::reverse_all(child0(t));
+                node_type::reverse_all(child1(t));
             }
         }
 
-- 
2.43.0


From 9becda7182caf69a5b92e68a9d43ed80ad632cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:11 +0000
Subject: [PATCH 002/158] fix: reversible treap: erase_lower_bound /
 erase_upper_bound did not compile

The removal predicate is called with the candidate value.
---
 library/datastructure/bbst/reversible_implicit_treap_base.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/bbst/reversible_implicit_treap_base.hpp b/library/datastructure/bbst/reversible_implicit_treap_base.hpp
index 12a65a1..0aeb461 100644
--- a/library/datastructure/bbst/reversible_implicit_treap_base.hpp
+++ b/library/datastructure/bbst/reversible_implicit_treap_base.hpp
@@ -340,7 +340,7 @@ namespace suisen::internal::implicit_treap {
             return erase_binary_search(
                 t,
                 [&](const value_type& x) { return not comp(x, v); },
-                [] { return true; }
+                [](const value_type&) { return true; }
             );
         }
         template <typename Compare = std::less<>>
@@ -348,7 +348,7 @@ namespace suisen::internal::implicit_treap {
             return erase_binary_search(
                 t,
                 [&](const value_type& x) { return comp(v, x); },
-                [] { return true; }
+                [](const value_type&) { return true; }
             );
         }
         template <typename Compare = std::less<>>
-- 
2.43.0


From aa451aa24053e49232892d55bedda9bed59b9696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:51 +0000
Subject: [PATCH 003/158] fix: SortableSegmentTree: pop_front / pop_back did
 not return the erased entry

---
 library/datastructure/segment_tree/sortable_segment_tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/segment_tree/sortable_segment_tree.hpp b/library/datastructure/segment_tree/sortable_segment_tree.hpp
index 6fd6590..45be4fd 100644
--- a/library/datastructure/segment_tree/sortable_segment_tree.hpp
+++ b/library/datastructure/segment_tree/sortable_segment_tree.hpp
@@ -665,8 +665,8 @@ namespace suisen {
             outer_node::dealloc_node(tm);
             return res;
         }
-        std::pair<key_type, value_type> pop_front() { erase(0); }
-        std::pair<key_type, value_type> pop_back() { erase(size() - 1); }
+        std::pair<key_type, value_type> pop_front() { return erase(0); }
+        std::pair<key_type, value_type> pop_back() { return erase(size() - 1); }
 
         SortableSegmentTree split(size_type i) {
             assert(0 <= i and i <= size());
-- 
2.43.0


From 3bbdc91ec275ec8104892f203d98b8c2ba5529ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:53 +0000
Subject: [PATCH 004/158] fix: SortableSegmentTree: concat did not compile and
 a copied tree freed its nodes twice

The tree owns its nodes, so make it move-only and let concat take the nodes over.
---
 .../datastructure/segment_tree/sortable_segment_tree.hpp   | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/library/datastructure/segment_tree/sortable_segment_tree.hpp b/library/datastructure/segment_tree/sortable_segment_tree.hpp
index 45be4fd..c2a8d78 100644
--- a/library/datastructure/segment_tree/sortable_segment_tree.hpp
+++ b/library/datastructure/segment_tree/sortable_segment_tree.hpp
@@ -610,6 +610,11 @@ namespace suisen {
         SortableSegmentTree() : SortableSegmentTree(nullptr) {}
         SortableSegmentTree(const std::vector<std::pair<key_type, value_type>>& dat) : SortableSegmentTree(outer_node::build(dat)) {}
 
+        SortableSegmentTree(const SortableSegmentTree&) = delete;
+        SortableSegmentTree& operator=(const SortableSegmentTree&) = delete;
+        SortableSegmentTree(SortableSegmentTree&& rhs) noexcept : SortableSegmentTree(std::exchange(rhs._root, nullptr)) {}
+        SortableSegmentTree& operator=(SortableSegmentTree&& rhs) noexcept { return std::swap(_root, rhs._root), *this; }
+
         ~SortableSegmentTree() {
             outer_node::dealloc_all(_root);
         }
@@ -675,7 +680,7 @@ namespace suisen {
             return SortableSegmentTree{ root_r };
         }
         void concat(SortableSegmentTree tr) {
-            _root = outer_node::concat(_root, tr->_root);
+            _root = outer_node::concat(_root, std::exchange(tr._root, nullptr));
         }
 
         value_type prod(size_type l, size_type r) {
-- 
2.43.0


From c190bd187c44ceeb1b5180e2ef6e8ae9964afc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:34 +0000
Subject: [PATCH 005/158] fix: SortableSegmentTree: max_right / min_left
 ignored descending-sorted blocks

The search inside a block walked it in ascending order even when the block is
stored reversed, returning a wrong index and product.
---
 .../segment_tree/sortable_segment_tree.hpp    | 26 ++++++++++---------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/library/datastructure/segment_tree/sortable_segment_tree.hpp b/library/datastructure/segment_tree/sortable_segment_tree.hpp
index c2a8d78..4569fb2 100644
--- a/library/datastructure/segment_tree/sortable_segment_tree.hpp
+++ b/library/datastructure/segment_tree/sortable_segment_tree.hpp
@@ -242,39 +242,41 @@ namespace suisen {
             }
 
             template <typename Predicate, std::enable_if_t<std::is_invocable_r_v<bool, Predicate, value_type>, std::nullptr_t> = nullptr>
-            static std::pair<size_type, value_type> max_right(inner_node_pointer t, const Predicate& f, const value_type& init_sum = e()) {
+            static std::pair<size_type, value_type> max_right(inner_node_pointer t, bool rev, const Predicate& f, const value_type& init_sum = e()) {
                 size_type r = 0;
                 value_type s = init_sum;
                 while (t) {
-                    if (value_type nxt_s = op(s, safe_sum(child0(t))); f(nxt_s)) {
+                    const inner_node_pointer lch = rev ? child1(t) : child0(t), rch = rev ? child0(t) : child1(t);
+                    if (value_type nxt_s = op(s, rev ? toggle(safe_sum(lch)) : safe_sum(lch)); f(nxt_s)) {
                         s = std::move(nxt_s);
-                        r += safe_size(child0(t));
+                        r += safe_size(lch);
                         if (nxt_s = op(s, value(t)); f(nxt_s)) {
                             s = std::move(nxt_s);
                             r += 1;
-                            t = child1(t);
+                            t = rch;
                         } else break;
                     } else {
-                        t = child0(t);
+                        t = lch;
                     }
                 }
                 return { r, s };
             }
             template <typename Predicate, std::enable_if_t<std::is_invocable_r_v<bool, Predicate, value_type>, std::nullptr_t> = nullptr>
-            static std::pair<size_type, value_type> min_left(inner_node_pointer t, const Predicate& f, const value_type& init_sum = e()) {
+            static std::pair<size_type, value_type> min_left(inner_node_pointer t, bool rev, const Predicate& f, const value_type& init_sum = e()) {
                 size_type l = safe_size(t);
                 value_type s = init_sum;
                 while (t) {
-                    if (value_type nxt_s = op(safe_sum(child1(t)), s); f(nxt_s)) {
+                    const inner_node_pointer lch = rev ? child1(t) : child0(t), rch = rev ? child0(t) : child1(t);
+                    if (value_type nxt_s = op(rev ? toggle(safe_sum(rch)) : safe_sum(rch), s); f(nxt_s)) {
                         s = std::move(nxt_s);
-                        l -= safe_size(child1(t));
+                        l -= safe_size(rch);
                         if (nxt_s = op(value(t), s); f(nxt_s)) {
                             s = std::move(nxt_s);
                             l -= 1;
-                            t = child0(t);
+                            t = lch;
                         } else break;
                     } else {
-                        t = child1(t);
+                        t = rch;
                     }
                 }
                 return { l, s };
@@ -541,7 +543,7 @@ namespace suisen {
                             t = child1(t);
                         } else {
                             size_type r_inner;
-                            std::tie(r_inner, s) = inner_node::max_right(inner(t), f, s);
+                            std::tie(r_inner, s) = inner_node::max_right(inner(t), reversed(t), f, s);
                             r += r_inner;
                             break;
                         }
@@ -572,7 +574,7 @@ namespace suisen {
                             t = child0(t);
                         } else {
                             size_type l_inner;
-                            std::tie(l_inner, s) = inner_node::min_left(inner(t), f, s);
+                            std::tie(l_inner, s) = inner_node::min_left(inner(t), reversed(t), f, s);
                             l -= inner_size(t) - l_inner;
                             break;
                         }
-- 
2.43.0


From a237d13faf4385e8a4ef32bff1c4b59335642d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:02 +0000
Subject: [PATCH 006/158] fix: Montgomery: reduction overflowed for moduli of
 2^63 and above

---
 library/number/montogomery.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/number/montogomery.hpp b/library/number/montogomery.hpp
index 7aa7923..1eb6763 100644
--- a/library/number/montogomery.hpp
+++ b/library/number/montogomery.hpp
@@ -48,7 +48,8 @@ namespace suisen {
                 //  => (T + m * N) / R is an integer.
                 //  => t * R = T + m * N = T (mod N)
                 //  => t = T R^(-1) (mod N)
-                DInt t = divR(T + m * N);
+                // (T + m * N may not fit in DInt, so the upper halves are added; the lower halves sum up to 0 or R)
+                DInt t = static_cast<DInt>(divR(T)) + divR(m * N) + (modR(T) != 0);
 
                 // Note:
                 //  1. 0 <= T < RN
-- 
2.43.0


From f05ee8e29fcf64e125a81de542708028992a0e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:35 +0000
Subject: [PATCH 007/158] fix: OrderMod: is_primitive_root / primitive_root
 aborted for moduli between 2^31 and 2^32

---
 library/number/order_Z_mZ.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/number/order_Z_mZ.hpp b/library/number/order_Z_mZ.hpp
index 35a5348..b7ffc50 100644
--- a/library/number/order_Z_mZ.hpp
+++ b/library/number/order_Z_mZ.hpp
@@ -61,7 +61,7 @@ namespace suisen {
         }
 
         bool is_primitive_root(U a) const {
-            if (_mod < 1ULL << 32) {
+            if (_mod < 1ULL << 31) {
                 using mint = atcoder::dynamic_modint<1000000000>;
                 U old_mod = mint::mod();
                 mint::set_mod(_mod);
-- 
2.43.0


From 5744ec2f6d153f17883df1718b913b2b58a1d7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:35 +0000
Subject: [PATCH 008/158] fix: OrderMod: prime powers were treated as primes,
 so a multiple of p could be returned as a primitive root

---
 library/number/order_Z_mZ.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/library/number/order_Z_mZ.hpp b/library/number/order_Z_mZ.hpp
index b7ffc50..36f9c74 100644
--- a/library/number/order_Z_mZ.hpp
+++ b/library/number/order_Z_mZ.hpp
@@ -50,7 +50,7 @@ namespace suisen {
         OrderMod() = default;
         OrderMod(T m) : _mod(m) {
             auto factorized = fast_factorize::factorize<T>(_mod);
-            _is_prime = factorized.size() == 1;
+            _is_prime = factorized.size() == 1 and factorized.front().second == 1;
             _lambda = _carmichael(factorized);
             _phi = _totient(factorized);
             for (auto [p, q] : fast_factorize::factorize<T>(_lambda)) {
@@ -153,7 +153,8 @@ namespace suisen {
         template <typename mint>
         bool _is_primitive_root_impl(U a) const {
             if (_lambda != _phi) return false;
-            if (_mod == 2) return a % 2 == 1;
+            if (std::gcd(a, _mod) != 1) return false;
+            if (_mod == 2) return true;
 
             const int k = _fac_lambda.size();
             U x = _lambda;
-- 
2.43.0


From abfee1e34b5ae097b59d6816f26f791d831e36eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:48 +0000
Subject: [PATCH 009/158] fix: discrete logarithm: endless loop for moduli of
 2^30 and above

---
 library/number/discrete_logarithm.hpp      | 2 +-
 library/number/fast_discrete_logarithm.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/number/discrete_logarithm.hpp b/library/number/discrete_logarithm.hpp
index 3fed267..83be154 100644
--- a/library/number/discrete_logarithm.hpp
+++ b/library/number/discrete_logarithm.hpp
@@ -9,7 +9,7 @@ namespace suisen {
     namespace internal::discrete_logarithm {
         int floor_log2(int m) {
             int res = 0;
-            while (1 << (res + 1) <= m) ++res;
+            while (1LL << (res + 1) <= m) ++res;
             return res;
         }
     }
diff --git a/library/number/fast_discrete_logarithm.hpp b/library/number/fast_discrete_logarithm.hpp
index 362edaa..bd7e2b2 100644
--- a/library/number/fast_discrete_logarithm.hpp
+++ b/library/number/fast_discrete_logarithm.hpp
@@ -355,7 +355,7 @@ namespace suisen::fast_discrete_logarithm {
 
             const int floor_log2_m = [m] {
                 int res = 0;
-                while (1 << (res + 1) <= m) ++res;
+                while (1LL << (res + 1) <= m) ++res;
                 return res;
             }();
 
-- 
2.43.0


From 146b3de373b5ff3bc77fcf55c26cf2023803c880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:04 +0000
Subject: [PATCH 010/158] fix: red-black tree set / DynamicRollingHash::set did
 not compile

---
 library/datastructure/bbst/red_black_tree_base.hpp | 2 +-
 library/string/dynamic_rolling_hash.hpp            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/bbst/red_black_tree_base.hpp b/library/datastructure/bbst/red_black_tree_base.hpp
index 3e51775..7178e2b 100644
--- a/library/datastructure/bbst/red_black_tree_base.hpp
+++ b/library/datastructure/bbst/red_black_tree_base.hpp
@@ -119,7 +119,7 @@ namespace suisen::bbst::internal {
             return merge(merge(tl, top), tr);
         }
         static tree_type set(tree_type node, size_type k, value_type val) {
-            return update_value(node, k, [&val]{ return val; });
+            return update_value(node, k, [&val](const value_type&) { return val; });
         }
         static std::pair<tree_type, value_type> get(tree_type node, size_type k) {
             auto [tl, top, tr] = split_range(node, k, k + 1);
diff --git a/library/string/dynamic_rolling_hash.hpp b/library/string/dynamic_rolling_hash.hpp
index 3fed14b..b98c6ef 100644
--- a/library/string/dynamic_rolling_hash.hpp
+++ b/library/string/dynamic_rolling_hash.hpp
@@ -126,7 +126,7 @@ namespace suisen {
 
         template <typename T>
         void set(size_t k, const T& val) {
-            _seq = node::update_value(_seq, k, val);
+            _seq = node::set(_seq, k, val);
         }
         template <typename T>
         void insert(size_t k, const T& val) {
-- 
2.43.0


From 092fd44b687c0ad682058a31fd850ec0f61691a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:04 +0000
Subject: [PATCH 011/158] fix: DynamicRollingHash: the base was truncated to 32
 bits and a zero base was redrawn on every use

---
 library/string/dynamic_rolling_hash.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/library/string/dynamic_rolling_hash.hpp b/library/string/dynamic_rolling_hash.hpp
index b98c6ef..92791bd 100644
--- a/library/string/dynamic_rolling_hash.hpp
+++ b/library/string/dynamic_rolling_hash.hpp
@@ -11,16 +11,16 @@ namespace suisen {
     namespace internal::dynamic_rolling_hash {
         struct BaseGen {
             static inline std::mt19937_64 rng{ std::random_device{}() };
-            static inline std::uniform_int_distribution<uint64_t> dist{ 0, modint2p61m1::mod() - 1 };
+            static inline std::uniform_int_distribution<uint64_t> dist{ 1, modint2p61m1::mod() - 1 };
             
-            static uint32_t generate() {
+            static uint64_t generate() {
                 return dist(rng);
             }
         };
 
         template <size_t id>
-        uint32_t base() {
-            static uint32_t _base = 0;
+        uint64_t base() {
+            static uint64_t _base = 0;
             return _base ? _base : (_base = BaseGen::generate());
         }
 
-- 
2.43.0


From e25a8883869472181001cdead0ed3f4f478a39d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:04 +0000
Subject: [PATCH 012/158] fix: tree isomorphism: second-centroid comparison
 read past the end when the second tree has one centroid

---
 library/tree/tree_isomorphism_classification.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/tree/tree_isomorphism_classification.hpp b/library/tree/tree_isomorphism_classification.hpp
index 3fde37e..118918a 100644
--- a/library/tree/tree_isomorphism_classification.hpp
+++ b/library/tree/tree_isomorphism_classification.hpp
@@ -211,7 +211,7 @@ namespace suisen {
                 id21 = id_new_par;
             }
             if (id11 == ids20[cs2[0]]) return std::pair{ cs1[1], cs2[0] };
-            if (ids20[cs2[1]] == id21) return std::pair{ cs1[0], cs2[1] };
+            if (ids10[cs1[0]] == id21) return std::pair{ cs1[0], cs2[1] };
             if (id11 == id21) return std::pair{ cs1[1], cs2[1] };
             return std::nullopt;
         }
-- 
2.43.0


From dced8e5b67d8e1d497963320a48763d56a0441cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:45 +0000
Subject: [PATCH 013/158] fix: PersistentUnionFind: path compression rewrote
 nodes shared with older versions

---
 .../datastructure/union_find/persistent_union_find.hpp    | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/library/datastructure/union_find/persistent_union_find.hpp b/library/datastructure/union_find/persistent_union_find.hpp
index 6e6539d..0121a3e 100644
--- a/library/datastructure/union_find/persistent_union_find.hpp
+++ b/library/datastructure/union_find/persistent_union_find.hpp
@@ -19,12 +19,8 @@ namespace suisen {
 
         // Get the root of `x`. equivalent to `operator[](x)`
         int root(int x) {
-            static std::vector<int> buf;
-            while (true) {
-                if (int r = _dat.get(x); r >= 0) buf.push_back(std::exchange(x, r));
-                else break;
-            }
-            while (buf.size()) _dat.mut_set(buf.back(), x), buf.pop_back();
+            // no path compression: the nodes of `_dat` are shared with other versions
+            for (int r; (r = _dat.get(x)) >= 0;) x = r;
             return x;
         }
         // Get the root of `x`. euivalent to `root(x)`
-- 
2.43.0


From d73fdd0fccb6f9c8c771c4eb75021e50a12dec66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:45 +0000
Subject: [PATCH 014/158] fix: persistent red-black trees: insert, erase, set
 and split modified nodes of older versions

---
 library/datastructure/bbst/persistent_red_black_tree_base.hpp | 3 +++
 library/datastructure/bbst/red_black_tree_base.hpp            | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/library/datastructure/bbst/persistent_red_black_tree_base.hpp b/library/datastructure/bbst/persistent_red_black_tree_base.hpp
index 1687ca3..5b35617 100644
--- a/library/datastructure/bbst/persistent_red_black_tree_base.hpp
+++ b/library/datastructure/bbst/persistent_red_black_tree_base.hpp
@@ -49,6 +49,9 @@ namespace suisen::bbst::internal {
             if (not node) return node;
             return &(*base_type::create_leaf() = *node);
         }
+        static tree_type push(tree_type node) {
+            return clone(node);
+        }
     };
 }
 
diff --git a/library/datastructure/bbst/red_black_tree_base.hpp b/library/datastructure/bbst/red_black_tree_base.hpp
index 7178e2b..8242151 100644
--- a/library/datastructure/bbst/red_black_tree_base.hpp
+++ b/library/datastructure/bbst/red_black_tree_base.hpp
@@ -105,6 +105,7 @@ namespace suisen::bbst::internal {
 
         static std::pair<tree_type, value_type> erase(tree_type node, size_type k) {
             auto [tl, tm, tr] = split_range(node, k, k + 1);
+            tm = node_type::clone(tm);
             value_type erased_value = tm->_val;
             free_node(tm);
             return { merge(tl, tr) , erased_value };
@@ -115,6 +116,7 @@ namespace suisen::bbst::internal {
         template <typename Fun>
         static tree_type update_value(tree_type node, size_type k, Fun &&fun) {
             auto [tl, top, tr] = split_range(node, k, k + 1);
+            top = node_type::clone(top);
             top->_val = fun(top->_val);
             return merge(merge(tl, top), tr);
         }
-- 
2.43.0


From 77c86d4c74224333c98b7c6aa2a88dd8cab88d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:45 +0000
Subject: [PATCH 015/158] fix: PersistentArray::dump returned the first element
 everywhere

---
 library/datastructure/persistent_array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/persistent_array.hpp b/library/datastructure/persistent_array.hpp
index 7be4f0f..3c7b31c 100644
--- a/library/datastructure/persistent_array.hpp
+++ b/library/datastructure/persistent_array.hpp
@@ -59,7 +59,7 @@ namespace suisen {
                 std::vector<value_type> res;
                 auto dfs = [&](auto dfs, node_pointer_type cur, int id, int p) -> void {
                     if (int(res.size()) <= id) res.resize(id + 1);
-                    res[id] = node->_val;
+                    res[id] = cur->_val;
                     int np = p << lg_ary, nid = id + p;
                     for (int d = 1; d < 1 << lg_ary; ++d, nid += p) {
                         if (cur->_ch[d]) dfs(dfs, cur->_ch[d], nid, np);
-- 
2.43.0


From 89237910b73dcd7e6894758eca75d22da5704427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:45 +0000
Subject: [PATCH 016/158] fix: persistent (lazy) segment tree: empty trees,
 rebuilding after clear_pool, dump, apply(i, f) and max_right<pred>

---
 .../segment_tree/persistent_lazy_segment_tree.hpp  | 14 +++++++-------
 .../segment_tree/persistent_segment_tree.hpp       |  8 ++++----
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp b/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
index 4aea0a9..ab2d430 100644
--- a/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
+++ b/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
@@ -52,7 +52,7 @@ namespace suisen {
 
             static node_pointer_type build(const std::vector<value_type>& dat) {
                 auto rec = [&](auto rec, int l, int r) -> node_pointer_type {
-                    node_pointer_type res = _pool.alloc();
+                    node_pointer_type res = &(*_pool.alloc() = node_type());
                     if (r - l == 1) {
                         res->_dat = dat[l];
                         res->_laz = id();
@@ -64,7 +64,7 @@ namespace suisen {
                     }
                     return res;
                 };
-                return rec(rec, 0, dat.size());
+                return dat.empty() ? nullptr : rec(rec, 0, dat.size());
             }
 
             static value_type prod_all(node_pointer_type node) {
@@ -194,8 +194,8 @@ namespace suisen {
                     if (is_leaf(cur)) {
                         *it++ = mapping(f, cur->_dat);
                     } else {
-                        *it++ = mapping(f, cur->_dat);
-                        rec(rec, cur->_ch[0], composition(cur->_laz, f)), rec(rec, cur->_ch[1], composition(cur->_laz, f));
+                        operator_type g = composition(f, cur->_laz);
+                        rec(rec, cur->_ch[0], g), rec(rec, cur->_ch[1], g);
                     }
                 };
                 rec(rec, node, id());
@@ -247,7 +247,7 @@ namespace suisen {
         template <typename Func>
         PersistentLazySegmentTree apply(int i, Func&& f) {
             assert(0 <= i and i < _n);
-            return PersistentLazySegmentTree(_n, node_type::apply(_root, _n, i, std::forward<F>(f)));
+            return PersistentLazySegmentTree(_n, node_type::apply(_root, _n, i, std::forward<Func>(f)));
         }
         PersistentLazySegmentTree set(int i, const value_type& v) {
             assert(0 <= i and i < _n);
@@ -260,7 +260,7 @@ namespace suisen {
             return node_type::max_right(_root, _n, l, std::forward<Pred>(pred));
         }
         template <bool(*pred)(value_type)>
-        static int max_right(int l) {
+        int max_right(int l) {
             return max_right(l, pred);
         }
         template <typename Pred>
@@ -269,7 +269,7 @@ namespace suisen {
             return node_type::min_left(_root, _n, r, std::forward<Pred>(pred));
         }
         template <bool(*pred)(value_type)>
-        static int min_left(int r) {
+        int min_left(int r) {
             return min_left(r, pred);
         }
 
diff --git a/library/datastructure/segment_tree/persistent_segment_tree.hpp b/library/datastructure/segment_tree/persistent_segment_tree.hpp
index b75814b..2fa2835 100644
--- a/library/datastructure/segment_tree/persistent_segment_tree.hpp
+++ b/library/datastructure/segment_tree/persistent_segment_tree.hpp
@@ -37,7 +37,7 @@ namespace suisen {
 
             static node_pointer_type build(const std::vector<value_type>& dat) {
                 auto rec = [&](auto rec, int l, int r) -> node_pointer_type {
-                    node_pointer_type res = _pool.alloc();
+                    node_pointer_type res = &(*_pool.alloc() = node_type());
                     if (r - l == 1) {
                         res->_dat = dat[l];
                     } else {
@@ -47,7 +47,7 @@ namespace suisen {
                     }
                     return res;
                 };
-                return rec(rec, 0, dat.size());
+                return dat.empty() ? nullptr : rec(rec, 0, dat.size());
             }
 
             static value_type prod_all(node_pointer_type node) {
@@ -210,7 +210,7 @@ namespace suisen {
             return node_type::max_right(_root, _n, l, std::forward<F>(f));
         }
         template <bool(*pred)(value_type)>
-        static int max_right(int l) {
+        int max_right(int l) {
             return max_right(l, pred);
         }
         template <typename F>
@@ -219,7 +219,7 @@ namespace suisen {
             return node_type::min_left(_root, _n, r, std::forward<F>(f));
         }
         template <bool(*pred)(value_type)>
-        static int min_left(int r) {
+        int min_left(int r) {
             return min_left(r, pred);
         }
 
-- 
2.43.0


From 03fac60a022fd31e806ddb58bf595bfe5dfce2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:45 +0000
Subject: [PATCH 017/158] fix: PersistentFenwickTree: initial values were
 ignored, as was the reset of recycled nodes; n = 0 was undefined

---
 .../datastructure/fenwick_tree/persistent_fenwick_tree.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/library/datastructure/fenwick_tree/persistent_fenwick_tree.hpp b/library/datastructure/fenwick_tree/persistent_fenwick_tree.hpp
index e6335f7..c9b1071 100644
--- a/library/datastructure/fenwick_tree/persistent_fenwick_tree.hpp
+++ b/library/datastructure/fenwick_tree/persistent_fenwick_tree.hpp
@@ -33,10 +33,10 @@ namespace suisen {
                 auto rec = [&](auto rec, int p, int id) -> node_pointer_type {
                     if (p == 0) return nullptr;
                     const int np = p >> 1;
-                    node_pointer_type res = _pool.alloc();
+                    node_pointer_type res = &(*_pool.alloc() = node_type());
                     res->_ch[0] = rec(rec, np, id - np);
                     if (id + 1 <= n) res->_ch[1] = rec(rec, np, id + np);
-                    if (id <= n) nodes[id] = res;
+                    if (id <= n) nodes[id] = res, res->_dat = dat[id - 1];
                     return res;
                 };
                 node_pointer_type res = rec(rec, p, p);
@@ -108,8 +108,7 @@ namespace suisen {
         PersistentFenwickTree(int p, node_pointer_type root) : _p(p), _root(root) {}
 
         static constexpr int floor_pow2(int n) {
-            int x = 31 - __builtin_clz(n);
-            return x < 0 ? 0 : 1 << x;
+            return n <= 0 ? 0 : 1 << (31 - __builtin_clz(n));
         }
     };
 }
-- 
2.43.0


From 4e986792bb0e40fafd02913039e711c8192ea0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:47 +0000
Subject: [PATCH 018/158] fix: link_cut_tree_path_foldable.hpp shared its
 include guard with link_cut_tree.hpp, so only one could be used in a program

---
 library/tree/link_cut_tree_path_foldable.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/tree/link_cut_tree_path_foldable.hpp b/library/tree/link_cut_tree_path_foldable.hpp
index 28f4d36..5d6ebce 100644
--- a/library/tree/link_cut_tree_path_foldable.hpp
+++ b/library/tree/link_cut_tree_path_foldable.hpp
@@ -1,5 +1,5 @@
-#ifndef SUISEN_LINK_CUT_TREE
-#define SUISEN_LINK_CUT_TREE
+#ifndef SUISEN_LINK_CUT_TREE_PATH_FOLDABLE
+#define SUISEN_LINK_CUT_TREE_PATH_FOLDABLE
 
 #include "library/tree/link_cut_tree_base.hpp"
 
@@ -64,4 +64,4 @@ namespace suisen {
     using internal::link_cut_tree::LinkCutTreePathFoldable;
 } // namespace suisen
 
-#endif // SUISEN_LINK_CUT_TREE
+#endif // SUISEN_LINK_CUT_TREE_PATH_FOLDABLE
-- 
2.43.0


From cbc3cb312e9c6fce9c3356348e2bcbc023a48dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:47 +0000
Subject: [PATCH 019/158] fix: SparseLazySegmentTree: apply_fun shared a static
 path between nested calls, and a failed allocation left half-pushed nodes

---
 .../segment_tree/sparse_lazy_segment_tree.hpp            | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/library/datastructure/segment_tree/sparse_lazy_segment_tree.hpp b/library/datastructure/segment_tree/sparse_lazy_segment_tree.hpp
index c11d144..549ba5e 100644
--- a/library/datastructure/segment_tree/sparse_lazy_segment_tree.hpp
+++ b/library/datastructure/segment_tree/sparse_lazy_segment_tree.hpp
@@ -60,7 +60,7 @@ namespace suisen {
         template <typename Fun>
         void apply_fun(index_type i, Fun &&fun) {
             assert(0 <= i and i < n);
-            static std::vector<pool_index_type> path;
+            std::vector<pool_index_type> path;
             pool_index_type cur = root;
             for (std::array<index_type, 2> lr { 0, n }; lr[1] - lr[0] > 1;) {
                 path.push_back(cur);
@@ -115,8 +115,11 @@ namespace suisen {
         void push(pool_index_type node, index_type tl, index_type tr) {
             const index_type tm = (tl + tr) >> 1;
             const operator_type laz = pool[node].laz;
-            apply_all(get_or_create_child(node, 0, tl, tm), laz, tl, tm);
-            apply_all(get_or_create_child(node, 1, tm, tr), laz, tm, tr);
+            // create both children before touching either
+            const pool_index_type lch = get_or_create_child(node, 0, tl, tm);
+            const pool_index_type rch = get_or_create_child(node, 1, tm, tr);
+            apply_all(lch, laz, tl, tm);
+            apply_all(rch, laz, tm, tr);
             pool[node].laz = id();
         }
 
-- 
2.43.0


From 1382e49e30a584cd5b91c778148b05bbca9bdbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:47 +0000
Subject: [PATCH 020/158] fix: sparse segment trees: the midpoint overflowed
 for lengths above half the range of the index type

---
 .../segment_tree/sparse_lazy_segment_tree.hpp          | 10 +++++-----
 .../datastructure/segment_tree/sparse_segment_tree.hpp |  6 +++---
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/library/datastructure/segment_tree/sparse_lazy_segment_tree.hpp b/library/datastructure/segment_tree/sparse_lazy_segment_tree.hpp
index 549ba5e..71394de 100644
--- a/library/datastructure/segment_tree/sparse_lazy_segment_tree.hpp
+++ b/library/datastructure/segment_tree/sparse_lazy_segment_tree.hpp
@@ -50,7 +50,7 @@ namespace suisen {
             operator_type f = id();
             pool_index_type cur = root;
             for (std::array<index_type, 2> lr { 0, n }; cur and lr[1] - lr[0] > 1;) {
-                index_type m = (lr[0] + lr[1]) >> 1;
+                index_type m = lr[0] + ((lr[1] - lr[0]) >> 1);
                 bool b = i >= m;
                 f = composition(f, pool[cur].laz);
                 cur = pool[cur].ch[b], lr[not b] = m;
@@ -64,7 +64,7 @@ namespace suisen {
             pool_index_type cur = root;
             for (std::array<index_type, 2> lr { 0, n }; lr[1] - lr[0] > 1;) {
                 path.push_back(cur);
-                index_type m = (lr[0] + lr[1]) >> 1;
+                index_type m = lr[0] + ((lr[1] - lr[0]) >> 1);
                 bool b = i >= m;
                 push(cur, lr[0], lr[1]);
                 cur = pool[cur].ch[b], lr[not b] = m;
@@ -113,7 +113,7 @@ namespace suisen {
             pool[node].laz = composition(f, pool[node].laz);
         }
         void push(pool_index_type node, index_type tl, index_type tr) {
-            const index_type tm = (tl + tr) >> 1;
+            const index_type tm = tl + ((tr - tl) >> 1);
             const operator_type laz = pool[node].laz;
             // create both children before touching either
             const pool_index_type lch = get_or_create_child(node, 0, tl, tm);
@@ -132,14 +132,14 @@ namespace suisen {
             if (tr <= ql or qr <= tl) return e();
             if (ql <= tl and tr <= qr) return pool[node].dat;
             push(node, tl, tr);
-            const index_type tm = (tl + tr) >> 1;
+            const index_type tm = tl + ((tr - tl) >> 1);
             return op(query(pool[node].ch[0], ql, qr, tl, tm), query(pool[node].ch[1], ql, qr, tm, tr));
         }
 
         void apply(pool_index_type node, const operator_type& f, index_type ql, index_type qr, index_type tl, index_type tr) {
             if (tr <= ql or qr <= tl) return;
             if (ql <= tl and tr <= qr) return apply_all(node, f, tl, tr);
-            const index_type tm = (tl + tr) >> 1;
+            const index_type tm = tl + ((tr - tl) >> 1);
             push(node, tl, tr);
             apply(pool[node].ch[0], f, ql, qr, tl, tm), apply(pool[node].ch[1], f, ql, qr, tm, tr);
             update(node);
diff --git a/library/datastructure/segment_tree/sparse_segment_tree.hpp b/library/datastructure/segment_tree/sparse_segment_tree.hpp
index 6d5bd04..4868065 100644
--- a/library/datastructure/segment_tree/sparse_segment_tree.hpp
+++ b/library/datastructure/segment_tree/sparse_segment_tree.hpp
@@ -47,7 +47,7 @@ namespace suisen {
             assert(0 <= i and i < n);
             pool_index_type cur = root;
             for (index_type l = 0, r = n; cur and r - l > 1;) {
-                index_type m = (l + r) >> 1;
+                index_type m = l + ((r - l) >> 1);
                 if (i < m) cur = pool[cur].ch[0], r = m;
                 else       cur = pool[cur].ch[1], l = m;
             }
@@ -61,7 +61,7 @@ namespace suisen {
                     pool[cur].dat = fun(get(cur, l, r));
                     return;
                 }
-                const index_type m = (l + r) >> 1;
+                const index_type m = l + ((r - l) >> 1);
                 if (i < m) rec(rec, get_or_create_child(cur, 0, l, m), l, m);
                 else       rec(rec, get_or_create_child(cur, 1, m, r), m, r);
                 pool[cur].dat = op(get(pool[cur].ch[0], l, m), get(pool[cur].ch[1], m, r));
@@ -101,7 +101,7 @@ namespace suisen {
             if (tr <= ql or qr <= tl) return e();
             if (not node) return init(std::max(ql, tl), std::min(qr, tr));
             if (ql <= tl and tr <= qr) return pool[node].dat;
-            const index_type tm = (tl + tr) >> 1;
+            const index_type tm = tl + ((tr - tl) >> 1);
             return op(query(pool[node].ch[0], ql, qr, tl, tm), query(pool[node].ch[1], ql, qr, tm, tr));
         }
     };
-- 
2.43.0


From b489f944f179ec491f7a1239270a8ccfb18449c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:28 +0000
Subject: [PATCH 021/158] fix: ZDD: a failed allocation while creating a node
 left the node tables inconsistent

---
 library/datastructure/ZDD.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/library/datastructure/ZDD.hpp b/library/datastructure/ZDD.hpp
index dc6f27d..bdfc145 100644
--- a/library/datastructure/ZDD.hpp
+++ b/library/datastructure/ZDD.hpp
@@ -36,7 +36,7 @@ namespace suisen {
 
         template <typename Cache, typename Result, typename ...Args>
         auto register_result(Cache& cache, Result f, Args &&...args) {
-            return cache[std::make_tuple(std::forward<Args>(args)...)] = f;
+            return cache.emplace(std::make_tuple(std::forward<Args>(args)...), f).first->second;
         }
     } // namespace zdd
     
@@ -59,9 +59,13 @@ namespace suisen {
             using namespace internal::zdd;
             if (r.id == ZERO) return l.id;
             if (auto it = check_cache(zdd_cache, l.id, r.id, lev); it != zdd_cache.end()) return it->second;
-            child.push_back(std::array<zdd_t, 2>{ l.id, r.id });
-            level.push_back(lev);
-            return register_result(zdd_cache, next_id++, l.id, r.id, lev);
+            // next_id is advanced last, so that a failed allocation leaves the tables consistent
+            child.resize(next_id + 1);
+            level.resize(next_id + 1);
+            child[next_id] = { l.id, r.id };
+            level[next_id] = lev;
+            register_result(zdd_cache, next_id, l.id, r.id, lev);
+            return next_id++;
         }
 
         bool is_terminal0() const {
-- 
2.43.0


From 7d0fee24c97650581cb3693833eafa922fd8c509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:28 +0000
Subject: [PATCH 022/158] fix: ZDD::max_len_item dropped the item of nodes
 whose 0-edge is the empty family

---
 library/datastructure/ZDD.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/datastructure/ZDD.hpp b/library/datastructure/ZDD.hpp
index bdfc145..4904d1a 100644
--- a/library/datastructure/ZDD.hpp
+++ b/library/datastructure/ZDD.hpp
@@ -272,6 +272,7 @@ namespace suisen {
             } else if (res0.has_value()) {
                 return register_result(cache, res0, f.id);
             } else if (res1.has_value()) {
+                res1->push_back(f.top());
                 return register_result(cache, res1, f.id);
             } else {
                 return register_result(cache, std::nullopt, f.id);
-- 
2.43.0


From f80d17345e9b77c007ff66177b203b20151afd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:02 +0000
Subject: [PATCH 023/158] fix: factorial: growing the table could run past the
 modulus, and a failed allocation left unfilled entries

---
 library/math/factorial.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/library/math/factorial.hpp b/library/math/factorial.hpp
index 92dae7f..c255c12 100644
--- a/library/math/factorial.hpp
+++ b/library/math/factorial.hpp
@@ -13,8 +13,9 @@ namespace suisen {
         static void ensure(const int n) {
             int sz = _fac.size();
             if (n + 1 <= sz) return;
-            int new_size = std::max(n + 1, sz * 2);
-            _fac.resize(new_size), _fac_inv.resize(new_size);
+            int new_size = std::max(n + 1, limit<T>(sz * 2, 0));
+            // _fac last: its size tells how far both tables are filled
+            _fac_inv.resize(new_size), _fac.resize(new_size);
             for (int i = sz; i < new_size; ++i) _fac[i] = _fac[i - 1] * i;
             _fac_inv[new_size - 1] = U(1) / _fac[new_size - 1];
             for (int i = new_size - 1; i > sz; --i) _fac_inv[i - 1] = _fac_inv[i] * i;
@@ -57,6 +58,14 @@ namespace suisen {
             return _fac[n] * _fac_inv[n - r];
         }
     private:
+        // i! = 0 for i >= mod, so the tables must not grow that far unless requested
+        template <typename V>
+        static auto limit(int siz, int) -> decltype(V::mod(), int()) {
+            return (unsigned long long) siz < (unsigned long long) V::mod() ? siz : int(V::mod());
+        }
+        template <typename V>
+        static int limit(int siz, long) { return siz; }
+
         static std::vector<T> _fac;
         static std::vector<U> _fac_inv;
     };
-- 
2.43.0


From f6afafbaff861a3c3254682a56f7cfb9a14c45e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:02 +0000
Subject: [PATCH 024/158] fix: inv_mods, pow_mods: operator[] returned a
 reference that the next, growing access left dangling

---
 library/math/inv_mods.hpp | 2 +-
 library/math/pow_mods.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/math/inv_mods.hpp b/library/math/inv_mods.hpp
index e268f25..593488d 100644
--- a/library/math/inv_mods.hpp
+++ b/library/math/inv_mods.hpp
@@ -9,7 +9,7 @@ namespace suisen {
     public:
         inv_mods() = default;
         inv_mods(int n) { ensure(n); }
-        const mint& operator[](int i) const {
+        mint operator[](int i) const {
             ensure(i);
             return invs[i];
         }
diff --git a/library/math/pow_mods.hpp b/library/math/pow_mods.hpp
index 3e954f5..715da96 100644
--- a/library/math/pow_mods.hpp
+++ b/library/math/pow_mods.hpp
@@ -8,7 +8,7 @@ namespace suisen {
     struct static_pow_mods {
         static_pow_mods() = default;
         static_pow_mods(int n) { ensure(n); }
-        const mint& operator[](int i) const {
+        mint operator[](int i) const {
             ensure(i);
             return pows[i];
         }
@@ -28,7 +28,7 @@ namespace suisen {
     struct pow_mods {
         pow_mods() = default;
         pow_mods(mint base, int n) : base(base) { ensure(n); }
-        const mint& operator[](int i) const {
+        mint operator[](int i) const {
             ensure(i);
             return pows[i];
         }
-- 
2.43.0


From 0e234d581367819b413b9cfdc8a26d16334c7ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:02 +0000
Subject: [PATCH 025/158] fix: safe_sqrt kept the modulus of the first call
 when a dynamic modint's modulus changed

---
 library/math/modint_extension.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/math/modint_extension.hpp b/library/math/modint_extension.hpp
index 3efc099..c9a550e 100644
--- a/library/math/modint_extension.hpp
+++ b/library/math/modint_extension.hpp
@@ -10,13 +10,13 @@
  */
 template <typename mint>
 std::optional<mint> safe_sqrt(mint a) {
-    static int p = mint::mod();
+    const int p = mint::mod();
     if (a == 0) return std::make_optional(0);
     if (p == 2) return std::make_optional(a);
     if (a.pow((p - 1) / 2) != 1) return std::nullopt;
     mint b = 1;
     while (b.pow((p - 1) / 2) == 1) ++b;
-    static int tlz = __builtin_ctz(p - 1), q = (p - 1) >> tlz;
+    const int tlz = __builtin_ctz(p - 1), q = (p - 1) >> tlz;
     mint x = a.pow((q + 1) / 2);
     b = b.pow(q);
     for (int shift = 2; x * x != a; ++shift) {
-- 
2.43.0


From 2212bd77e81658406d964df4d4410c9ca38bac2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:45 +0000
Subject: [PATCH 026/158] fix: sum_i_i_pow_d_r_pow_i::sum(t, m) multiplied by
 r^r instead of r^t (and did not compile)

---
 library/math/sum_i^d_r^i.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/math/sum_i^d_r^i.hpp b/library/math/sum_i^d_r^i.hpp
index 7d1c14a..4909793 100644
--- a/library/math/sum_i^d_r^i.hpp
+++ b/library/math/sum_i^d_r^i.hpp
@@ -29,7 +29,7 @@ namespace suisen {
             }
             prepare();
             auto res = shift_of_sampling_points<mint>(ys, t, m);
-            mint pr = r.pow(r);
+            mint pr = r.pow(t);
             for (auto &e : res) e *= pr, e += c, pr *= r;
             return res;
         }
-- 
2.43.0


From 26281aa67face10138cb9f855a9b04f71fef69cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:09 +0000
Subject: [PATCH 027/158] fix: bell_number read one past the end and left B_n
 uncomputed

---
 library/sequence/bell_number.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/sequence/bell_number.hpp b/library/sequence/bell_number.hpp
index 54f70ee..dfe05aa 100644
--- a/library/sequence/bell_number.hpp
+++ b/library/sequence/bell_number.hpp
@@ -18,7 +18,7 @@ namespace suisen {
         factorial<mint> fac(n);
         FPSType f(n + 1);
         for (int i = 1; i <= n; ++i) f[i] = fac.fac_inv(i);
-        f.exp_inplace(n);
+        f.exp_inplace(n + 1), f.resize(n + 1);
         for (int i = 0; i <= n; ++i) f[i] *= fac.fac(i);
         return f;
     }
-- 
2.43.0


From 8be4322328335f4761c3a45fcfa63918b3c32fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:57 +0000
Subject: [PATCH 028/158] fix: offline dynamic connectivity: answer() dropped
 the edges that were still active, so later queries and deletions went wrong

---
 library/algorithm/offline_dynamic_connectivity.hpp       | 9 ++++-----
 .../offline_dynamic_connectivity_component_sum.hpp       | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/library/algorithm/offline_dynamic_connectivity.hpp b/library/algorithm/offline_dynamic_connectivity.hpp
index c45b0a6..8cef2be 100644
--- a/library/algorithm/offline_dynamic_connectivity.hpp
+++ b/library/algorithm/offline_dynamic_connectivity.hpp
@@ -26,13 +26,12 @@ namespace suisen {
 
         std::vector<bool> answer() {
             const int q = _connectivity_queries.size();
-            for (auto it = _active.begin(); it != _active.end(); it = _active.erase(it)) {
-                const auto &[u, v] = it->first;
-                _active_range.emplace_back(u, v, it->second, q);
-            }
             if (not q) return {};
+            // edges that are still active stay active: queries can be added after answer()
+            auto ranges = _active_range;
+            for (const auto &[uv, l] : _active) ranges.emplace_back(uv.first, uv.second, l, q);
             std::vector<std::vector<std::pair<int, int>>> seg(2 * q);
-            for (auto [u, v, l, r] : _active_range) {
+            for (auto [u, v, l, r] : ranges) {
                 for (l += q, r += q; l < r; l >>= 1, r >>= 1) {
                     if (l & 1) seg[l++].emplace_back(u, v);
                     if (r & 1) seg[--r].emplace_back(u, v);
diff --git a/library/algorithm/offline_dynamic_connectivity_component_sum.hpp b/library/algorithm/offline_dynamic_connectivity_component_sum.hpp
index ed53aaa..3cb7755 100644
--- a/library/algorithm/offline_dynamic_connectivity_component_sum.hpp
+++ b/library/algorithm/offline_dynamic_connectivity_component_sum.hpp
@@ -35,13 +35,12 @@ namespace suisen {
         template <typename T, void(*merge_data)(T&, const T&), void(*undo_data)(T&), typename U, U(*get_value)(const T&)>
         std::vector<std::variant<bool, U>> answer(const std::vector<T> &init_values) {
             const int q = _get_queries.size();
-            for (auto it = _active.begin(); it != _active.end(); it = _active.erase(it)) {
-                const auto &[u, v] = it->first;
-                _active_range.emplace_back(u, v, it->second, q);
-            }
             if (not q) return {};
+            // edges that are still active stay active: queries can be added after answer()
+            auto ranges = _active_range;
+            for (const auto &[uv, l] : _active) ranges.emplace_back(uv.first, uv.second, l, q);
             std::vector<std::vector<std::pair<int, int>>> seg(2 * q);
-            for (auto [u, v, l, r] : _active_range) {
+            for (auto [u, v, l, r] : ranges) {
                 for (l += q, r += q; l < r; l >>= 1, r >>= 1) {
                     if (l & 1) seg[l++].emplace_back(u, v);
                     if (r & 1) seg[--r].emplace_back(u, v);
-- 
2.43.0


From 3a972a0477e4eca0c558ae918037def55ebd8ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:16 +0000
Subject: [PATCH 029/158] fix: undo union-find: a failed allocation or merge
 callback left a merge that could not be undone

---
 .../datastructure/union_find/undo_union_find.hpp   |  7 +++++--
 .../union_find/undo_union_find_component_sum.hpp   | 14 +++++++++++---
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/library/datastructure/union_find/undo_union_find.hpp b/library/datastructure/union_find/undo_union_find.hpp
index 1100061..a6e1692 100644
--- a/library/datastructure/union_find/undo_union_find.hpp
+++ b/library/datastructure/union_find/undo_union_find.hpp
@@ -22,8 +22,11 @@ namespace suisen {
             x = root(x), y = root(y);
             if (x == y) return false;
             if (_dat[x] > _dat[y]) std::swap(x, y);
-            _history.emplace_back(x, std::exchange(_dat[x], _dat[x] + _dat[y]));
-            _history.emplace_back(y, std::exchange(_dat[y], x));
+            // extend the history before modifying anything, since it may throw
+            const std::size_t h = _history.size();
+            _history.resize(h + 2);
+            _history[h] = { x, std::exchange(_dat[x], _dat[x] + _dat[y]) };
+            _history[h + 1] = { y, std::exchange(_dat[y], x) };
             return true;
         }
         bool same(int x, int y) const {
diff --git a/library/datastructure/union_find/undo_union_find_component_sum.hpp b/library/datastructure/union_find/undo_union_find_component_sum.hpp
index 5c46a44..a986a68 100644
--- a/library/datastructure/union_find/undo_union_find_component_sum.hpp
+++ b/library/datastructure/union_find/undo_union_find_component_sum.hpp
@@ -14,9 +14,17 @@ namespace suisen {
             x = root(x), y = root(y);
             if (x == y) return false;
             if (_dat[x] > _dat[y]) std::swap(x, y);
-            _history.emplace_back(x, std::exchange(_dat[x], _dat[x] + _dat[y]));
-            _history.emplace_back(y, std::exchange(_dat[y], x));
-            merge_data(_sum[x], _sum[y]);
+            // extend the history and merge the data before modifying anything, since both may throw
+            const std::size_t h = _history.size();
+            _history.resize(h + 2);
+            try {
+                merge_data(_sum[x], _sum[y]);
+            } catch (...) {
+                _history.resize(h);
+                throw;
+            }
+            _history[h] = { x, std::exchange(_dat[x], _dat[x] + _dat[y]) };
+            _history[h + 1] = { y, std::exchange(_dat[y], x) };
             return true;
         }
         void snapshot() {
-- 
2.43.0


From 674e4d5077a56ba7420099240da78144b9383c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:52 +0000
Subject: [PATCH 030/158] fix: Affine, AffineClamp: the stream operators << and
 >> were swapped

---
 library/algebra/monoid/affine.hpp       | 4 ++--
 library/algebra/monoid/affine_clamp.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/library/algebra/monoid/affine.hpp b/library/algebra/monoid/affine.hpp
index 7970dce..178d9a9 100644
--- a/library/algebra/monoid/affine.hpp
+++ b/library/algebra/monoid/affine.hpp
@@ -49,8 +49,8 @@ namespace suisen {
         template <typename U = T, typename V = T>
         operator std::tuple<U, V>() { return std::tuple<U, V>{ a, b }; }
 
-        friend std::istream& operator<<(std::istream& in, Affine<T> &f) { return in >> f.a >> f.b; }
-        friend std::ostream& operator>>(std::ostream& out, const Affine<T> &f) { return out << f.a << ' ' << f.b; }
+        friend std::istream& operator>>(std::istream& in, Affine<T> &f) { return in >> f.a >> f.b; }
+        friend std::ostream& operator<<(std::ostream& out, const Affine<T> &f) { return out << f.a << ' ' << f.b; }
     };
 } // namespace suisen
 
diff --git a/library/algebra/monoid/affine_clamp.hpp b/library/algebra/monoid/affine_clamp.hpp
index bb6d5b5..183acf8 100644
--- a/library/algebra/monoid/affine_clamp.hpp
+++ b/library/algebra/monoid/affine_clamp.hpp
@@ -32,8 +32,8 @@ namespace suisen {
         template <typename U = T, typename V = T, typename W = T, typename X = T>
         operator std::tuple<U, V, W, X>() { return { this->a, this->b, l, r }; }
 
-        friend std::istream& operator<<(std::istream& in, AffineClamp<T>& f) { return in >> f.a >> f.b >> f.l >> f.r; }
-        friend std::ostream& operator>>(std::ostream& out, const AffineClamp<T>& f) { return out << f.a << ' ' << f.b << ' ' << f.l << ' ' << f.r; }
+        friend std::istream& operator>>(std::istream& in, AffineClamp<T>& f) { return in >> f.a >> f.b >> f.l >> f.r; }
+        friend std::ostream& operator<<(std::ostream& out, const AffineClamp<T>& f) { return out << f.a << ' ' << f.b << ' ' << f.l << ' ' << f.r; }
     };
 } // namespace suisen
 
-- 
2.43.0


From 20fd046a89704bf8c041d09cb3ed856cf3792809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:10 +0000
Subject: [PATCH 031/158] fix: unsigned_bigint, bigint: numbers written with
 leading zeros compared unequal to themselves (and zero was true)

---
 library/math/unsigned_bigint.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/math/unsigned_bigint.hpp b/library/math/unsigned_bigint.hpp
index 911de2c..daab1eb 100644
--- a/library/math/unsigned_bigint.hpp
+++ b/library/math/unsigned_bigint.hpp
@@ -39,6 +39,7 @@ namespace suisen {
                     v = v * 10 + d;
                 }
             }
+            _cut_leading_zeros();
         }
         unsigned_bigint(const char* s) : unsigned_bigint(std::string(s)) {}
 
-- 
2.43.0


From 5901b4e072d2108944861e474cfb67963ecd3b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:50 +0000
Subject: [PATCH 032/158] fix: unsigned_bigint, bigint: reading at the end of
 the input dereferenced an empty string

---
 library/math/bigint.hpp          | 2 +-
 library/math/unsigned_bigint.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/math/bigint.hpp b/library/math/bigint.hpp
index b51778f..b4b3604 100644
--- a/library/math/bigint.hpp
+++ b/library/math/bigint.hpp
@@ -232,7 +232,7 @@ namespace suisen {
 
         friend std::istream& operator>>(std::istream& in, bigint& v) {
             std::string s;
-            in >> s, v = s;
+            if (in >> s) v = s;
             return in;
         }
         friend std::ostream& operator<<(std::ostream& out, const bigint& v) {
diff --git a/library/math/unsigned_bigint.hpp b/library/math/unsigned_bigint.hpp
index daab1eb..f6f4c5c 100644
--- a/library/math/unsigned_bigint.hpp
+++ b/library/math/unsigned_bigint.hpp
@@ -188,7 +188,7 @@ namespace suisen {
 
         friend std::istream& operator>>(std::istream& in, unsigned_bigint& v) {
             std::string s;
-            in >> s, v = s;
+            if (in >> s) v = s;
             return in;
         }
         friend std::ostream& operator<<(std::ostream& out, const unsigned_bigint& v) {
-- 
2.43.0


From c860cacbbce7887796b185e19d49cdea5f27f72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:09 +0000
Subject: [PATCH 033/158] fix: modint: a read that failed assigned an
 uninitialised value

---
 library/number/modint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/number/modint.hpp b/library/number/modint.hpp
index 3ee7e71..8d814aa 100644
--- a/library/number/modint.hpp
+++ b/library/number/modint.hpp
@@ -298,7 +298,7 @@ namespace suisen {
     mint inv(mint a) { return a.inv(); }
 
     template <typename mint, std::enable_if_t<is_modint_v<mint>, std::nullptr_t> = nullptr>
-    std::istream& operator>>(std::istream& is, mint& v) { long long val; is >> val, v = val; return is; }
+    std::istream& operator>>(std::istream& is, mint& v) { long long val; if (is >> val) v = val; return is; }
     template <typename mint, std::enable_if_t<is_modint_v<mint>, std::nullptr_t> = nullptr>
     std::ostream& operator<<(std::ostream& os, const mint& v) { return os << v.val(); }
 } // namespace suisen
-- 
2.43.0


From f216017169cfc4446006878e3a62f87be6ee345b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:29 +0000
Subject: [PATCH 034/158] fix: InputStream::read() returned an uninitialised
 value when the input had ended

---
 library/io/input_stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/io/input_stream.hpp b/library/io/input_stream.hpp
index 19f152a..cbb8e88 100644
--- a/library/io/input_stream.hpp
+++ b/library/io/input_stream.hpp
@@ -9,7 +9,7 @@ namespace suisen::io {
     private:
         using istream_type = std::remove_reference_t<IStream>;
         IStream is;
-        struct { InputStream* is; template <typename T> operator T() { T e; *is >> e; return e; } } _reader{ this };
+        struct { InputStream* is; template <typename T> operator T() { T e{}; *is >> e; return e; } } _reader{ this };
     public:
         template <typename IStream_> InputStream(IStream_ &&is) : is(std::move(is)) {}
         template <typename IStream_> InputStream(IStream_ &is) : is(is) {}
-- 
2.43.0


From 012ddb3af2840fb92f78bec501e817303eb06ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:29 +0000
Subject: [PATCH 035/158] fix: geometry: a read of a point that failed assigned
 uninitialised coordinates

---
 library/geom/geometry.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/library/geom/geometry.hpp b/library/geom/geometry.hpp
index 24fab8e..2b9408d 100644
--- a/library/geom/geometry.hpp
+++ b/library/geom/geometry.hpp
@@ -31,8 +31,7 @@ namespace geometry {
 
     std::istream& operator>>(std::istream &in, Point &p) {
         coordinate_t x, y;
-        in >> x >> y;
-        p = Point(x, y);
+        if (in >> x >> y) p = Point(x, y);
         return in;
     }
     std::ostream& operator<<(std::ostream &out, const Point &p) {
-- 
2.43.0


From 3819a18502a4f29665cdcf5fc978b797a3237da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:35 +0000
Subject: [PATCH 036/158] fix: static_bitset: operator[] was not const, so <<
 did not compile

---
 library/datastructure/util/static_bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/util/static_bitset.hpp b/library/datastructure/util/static_bitset.hpp
index bff3624..5ff165b 100644
--- a/library/datastructure/util/static_bitset.hpp
+++ b/library/datastructure/util/static_bitset.hpp
@@ -111,7 +111,7 @@ namespace suisen {
         bool operator>=(const static_bitset<N>& rhs) const {
             return not (*this < rhs);
         }
-        bool operator[](std::size_t i) {
+        bool operator[](std::size_t i) const {
             return (_data[outer_index(i)] >> inner_index(i)) & 1;
         }
         operator bool() const {
-- 
2.43.0


From 0d4f51262e202231a87e7716ffc204c13dd31a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:35 +0000
Subject: [PATCH 037/158] fix: Timer measured with the wall clock, so durations
 were wrong or negative when it was adjusted

---
 library/util/timer.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/util/timer.hpp b/library/util/timer.hpp
index 6f05b7d..c93e349 100644
--- a/library/util/timer.hpp
+++ b/library/util/timer.hpp
@@ -14,11 +14,11 @@ namespace suisen {
         Timer() { start(); }
 
         void start() {
-            _start = std::chrono::system_clock::now();
+            _start = std::chrono::steady_clock::now();
         }
         template <typename TimeUnit = std::chrono::milliseconds>
         double elapsed() const {
-            return std::chrono::duration_cast<TimeUnit>(std::chrono::system_clock::now() - _start).count();
+            return std::chrono::duration_cast<TimeUnit>(std::chrono::steady_clock::now() - _start).count();
         }
 
         template <typename TimeUnit = std::chrono::milliseconds, typename Proc>
@@ -28,7 +28,7 @@ namespace suisen {
             return timer.elapsed<TimeUnit>();
         }
     private:
-        decltype(std::chrono::system_clock::now()) _start;
+        decltype(std::chrono::steady_clock::now()) _start;
     };
 } // namespace suisen
 
-- 
2.43.0


From 26ca6e7c0c6947706ff518f78eed4c0c4f302084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:18 +0000
Subject: [PATCH 038/158] fix: OutputStream: 128-bit integers bypassed the
 state of the stream, so write errors went unnoticed and text appeared after
 them

---
 library/io/output_stream.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/io/output_stream.hpp b/library/io/output_stream.hpp
index dd07933..024a4f4 100644
--- a/library/io/output_stream.hpp
+++ b/library/io/output_stream.hpp
@@ -29,11 +29,11 @@ namespace suisen::io {
         void _print(__uint128_t value) {
             char buffer[41], *d = std::end(buffer);
             do *--d = '0' + (value % 10), value /= 10; while (value);
-            os.rdbuf()->sputn(d, std::end(buffer) - d);
+            os.write(d, std::end(buffer) - d);
         }
         void _print(__int128_t value) {
             if (value < 0) *this << '-';
-            _print(__uint128_t(value < 0 ? -value : value));
+            _print(value < 0 ? -__uint128_t(value) : __uint128_t(value));
         }
         template <typename T, typename U>
         void _print(const std::pair<T, U>& a) { *this << a.first << ' ' << a.second; }
-- 
2.43.0


From bf38f63a1b95c763b25c7567b87ba4048c9a492b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:28 +0000
Subject: [PATCH 039/158] fix: headers that shared an include guard with
 another header could not be used together with it

---
 .../datastructure/fenwick_tree/fenwick_tree_2d_sparse.hpp   | 6 +++---
 library/datastructure/union_find/union_find_lazy.hpp        | 6 +++---
 library/graph/assignment_problem.hpp                        | 6 +++---
 library/integral_geom/closest_pair.hpp                      | 6 +++---
 library/integral_geom/geometry.hpp                          | 6 +++---
 library/tree/rerooting_invertible.hpp                       | 6 +++---
 6 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/library/datastructure/fenwick_tree/fenwick_tree_2d_sparse.hpp b/library/datastructure/fenwick_tree/fenwick_tree_2d_sparse.hpp
index 4fedbb8..289fa97 100644
--- a/library/datastructure/fenwick_tree/fenwick_tree_2d_sparse.hpp
+++ b/library/datastructure/fenwick_tree/fenwick_tree_2d_sparse.hpp
@@ -1,5 +1,5 @@
-#ifndef SUISEN_SEGMENT_TREE_2D_SPARSE
-#define SUISEN_SEGMENT_TREE_2D_SPARSE
+#ifndef SUISEN_FENWICK_TREE_2D_SPARSE
+#define SUISEN_FENWICK_TREE_2D_SPARSE
 
 #include <algorithm>
 #include <cassert>
@@ -111,4 +111,4 @@ namespace suisen {
 } // namespace suisen
 
 
-#endif // SUISEN_SEGMENT_TREE_2D_SPARSE
+#endif // SUISEN_FENWICK_TREE_2D_SPARSE
diff --git a/library/datastructure/union_find/union_find_lazy.hpp b/library/datastructure/union_find/union_find_lazy.hpp
index fa738d5..8455934 100644
--- a/library/datastructure/union_find/union_find_lazy.hpp
+++ b/library/datastructure/union_find/union_find_lazy.hpp
@@ -1,5 +1,5 @@
-#ifndef SUISEN_UNION_FIND_COMPONENT_SUM
-#define SUISEN_UNION_FIND_COMPONENT_SUM
+#ifndef SUISEN_UNION_FIND_LAZY
+#define SUISEN_UNION_FIND_LAZY
 
 #include "library/datastructure/union_find/linked_union_find.hpp"
 
@@ -91,4 +91,4 @@ namespace suisen {
 } // namespace suisen
 
 
-#endif // SUISEN_UNION_FIND_COMPONENT_SUM
+#endif // SUISEN_UNION_FIND_LAZY
diff --git a/library/graph/assignment_problem.hpp b/library/graph/assignment_problem.hpp
index 3178006..31c2e37 100644
--- a/library/graph/assignment_problem.hpp
+++ b/library/graph/assignment_problem.hpp
@@ -1,5 +1,5 @@
-#ifndef SUISEN_MIN_COST_FLOW
-#define SUISEN_MIN_COST_FLOW
+#ifndef SUISEN_ASSIGNMENT_PROBLEM
+#define SUISEN_ASSIGNMENT_PROBLEM
 
 #include <algorithm>
 #include <cassert>
@@ -149,4 +149,4 @@ namespace suisen {
 } // namespace suisen
 
 
-#endif // SUISEN_MIN_COST_FLOW
+#endif // SUISEN_ASSIGNMENT_PROBLEM
diff --git a/library/integral_geom/closest_pair.hpp b/library/integral_geom/closest_pair.hpp
index 3ac591a..4bc4759 100644
--- a/library/integral_geom/closest_pair.hpp
+++ b/library/integral_geom/closest_pair.hpp
@@ -1,5 +1,5 @@
-#ifndef SUISEN_CLOSEST_PAIR
-#define SUISEN_CLOSEST_PAIR
+#ifndef SUISEN_INTEGRAL_CLOSEST_PAIR
+#define SUISEN_INTEGRAL_CLOSEST_PAIR
 
 #include <cassert>
 
@@ -58,4 +58,4 @@ namespace suisen::integral_geometry {
 } // namespace suisen::integral_geometry
 
 
-#endif // SUISEN_CLOSEST_PAIR
+#endif // SUISEN_INTEGRAL_CLOSEST_PAIR
diff --git a/library/integral_geom/geometry.hpp b/library/integral_geom/geometry.hpp
index a3d7a92..bace3aa 100644
--- a/library/integral_geom/geometry.hpp
+++ b/library/integral_geom/geometry.hpp
@@ -1,5 +1,5 @@
-#ifndef SUISEN_GEOMETRY
-#define SUISEN_GEOMETRY
+#ifndef SUISEN_INTEGRAL_GEOMETRY
+#define SUISEN_INTEGRAL_GEOMETRY
 
 #include <algorithm>
 #include <cmath>
@@ -238,4 +238,4 @@ namespace suisen::integral_geometry {
     }
 } // namespace suisen::integral_geometry
 
-#endif // SUISEN_GEOMETRY
+#endif // SUISEN_INTEGRAL_GEOMETRY
diff --git a/library/tree/rerooting_invertible.hpp b/library/tree/rerooting_invertible.hpp
index eb4b42f..8e1fe5b 100644
--- a/library/tree/rerooting_invertible.hpp
+++ b/library/tree/rerooting_invertible.hpp
@@ -1,5 +1,5 @@
-#ifndef SUISEN_REROOTING
-#define SUISEN_REROOTING
+#ifndef SUISEN_REROOTING_INVERTIBLE
+#define SUISEN_REROOTING_INVERTIBLE
 
 #include <cassert>
 #include <tuple>
@@ -180,4 +180,4 @@ namespace suisen {
     using RerootingInvertibleWeighted = internal::rerooting::RerootingInvertible<VertexWeight, EdgeWeighted>;
 } // namsepace suisen
 
-#endif // SUISEN_REROOTING
+#endif // SUISEN_REROOTING_INVERTIBLE
-- 
2.43.0


From 9b211944df834fd27e8f47f29227d928611f2973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:28 +0000
Subject: [PATCH 040/158] fix: UnionFind: a failed allocation in root() left
 stale entries in a buffer shared by all union-finds, corrupting another one

---
 library/datastructure/union_find/union_find.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/library/datastructure/union_find/union_find.hpp b/library/datastructure/union_find/union_find.hpp
index bae3177..c95ed69 100644
--- a/library/datastructure/union_find/union_find.hpp
+++ b/library/datastructure/union_find/union_find.hpp
@@ -2,6 +2,7 @@
 #define SUISEN_UNION_FIND
 
 #include <algorithm>
+#include <utility>
 #include <vector>
 
 namespace suisen {
@@ -10,10 +11,10 @@ namespace suisen {
         explicit UnionFind(int _n) : _n(_n), _dat(_n, -1) {}
         // Get the root of `x`. equivalent to `operator[](x)`
         int root(int x) {
-            static std::vector<int> buf;
-            while (_dat[x] >= 0) buf.push_back(x), x = _dat[x];
-            while (buf.size()) _dat[buf.back()] = x, buf.pop_back();
-            return x;
+            int r = x;
+            while (_dat[r] >= 0) r = _dat[r];
+            while (x != r) x = std::exchange(_dat[x], r);
+            return r;
         }
         // Get the root of `x`. euivalent to `root(x)`
         int operator[](int x) {
@@ -43,7 +44,7 @@ namespace suisen {
             return res;
         }
     protected:
-        int _n;
+        int _n = 0;
         std::vector<int> _dat;
     };
 } // namespace suisen
-- 
2.43.0


From 70cfd62cb4916f33a3d067a08137860eb5685b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:28 +0000
Subject: [PATCH 041/158] fix: UnionFindLazy: a failed allocation during merge
 or propagate left values of the component without the pending operation

---
 library/datastructure/union_find/union_find_lazy.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/library/datastructure/union_find/union_find_lazy.hpp b/library/datastructure/union_find/union_find_lazy.hpp
index 8455934..7a75e30 100644
--- a/library/datastructure/union_find/union_find_lazy.hpp
+++ b/library/datastructure/union_find/union_find_lazy.hpp
@@ -25,14 +25,15 @@ namespace suisen {
             x = root(x), y = root(y);
             if (x == y) return false;
 
-            UnionFind::merge(x, y);
-            if (root(x) == y) std::swap(x, y);
-            
+            if (size(x) < size(y)) std::swap(x, y);
+
             F laz = composition(inv(_laz[x]), _laz[y]);
             for (int v : connected_component(y)) {
                 mapping(laz, _val[v], 1);
             }
 
+            UnionFind::merge(x, y);
+
             merge_sum(_sum[x], std::move(_sum[y]));
 
             std::swap(_link[x], _link[y]);
@@ -61,8 +62,9 @@ namespace suisen {
 
         void propagate(int x) {
             x = root(x);
+            const std::vector<int> component = connected_component(x);
             F laz = std::exchange(_laz[x], id());
-            for (int v : connected_component(x)) {
+            for (int v : component) {
                 mapping(laz, _val[v], 1);
             }
         }
-- 
2.43.0


From ab071fecfee62608265f67adfb4da7249563e42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:28 +0000
Subject: [PATCH 042/158] fix: WeightedUnionFind: size of a default-constructed
 object was uninitialised

---
 library/datastructure/union_find/weighted_union_find.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/union_find/weighted_union_find.hpp b/library/datastructure/union_find/weighted_union_find.hpp
index eb4a7f8..6a98b8f 100644
--- a/library/datastructure/union_find/weighted_union_find.hpp
+++ b/library/datastructure/union_find/weighted_union_find.hpp
@@ -73,7 +73,7 @@ namespace suisen {
                 return res;
             }
         private:
-            int n;
+            int n = 0;
             std::vector<int> par, siz;
             std::vector<T> value;
 
-- 
2.43.0


From 79cc90276b996ccc9405415a4772b2ca2c818b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:52 +0000
Subject: [PATCH 043/158] fix: WeightedUnionFind: an operation that throws
 (e.g. out of memory) in the middle of a query left a wrong potential behind

---
 library/datastructure/union_find/weighted_union_find.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/union_find/weighted_union_find.hpp b/library/datastructure/union_find/weighted_union_find.hpp
index 6a98b8f..4615092 100644
--- a/library/datastructure/union_find/weighted_union_find.hpp
+++ b/library/datastructure/union_find/weighted_union_find.hpp
@@ -81,8 +81,9 @@ namespace suisen {
                 T res = e();
                 while (par[x] != x) {
                     int& p = par[x];
-                    value[x] = op(value[p], value[x]);
-                    res = op(value[x], res);
+                    T compressed = op(value[p], value[x]);
+                    res = op(compressed, res);
+                    value[x] = std::move(compressed);
                     x = p = par[p];
                 }
                 return res;
-- 
2.43.0


From 40eb6a714bda28b283be69e0574c7ff12612e9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:35 +0000
Subject: [PATCH 044/158] fix: LowLink, BiconnectedComponents,
 TwoEdgeConnectedComponents: build() after add_edge kept the results of the
 previous build

---
 library/graph/biconnected_components.hpp        | 3 +++
 library/graph/low_link.hpp                      | 7 +++++++
 library/graph/two_edge_connected_components.hpp | 1 +
 3 files changed, 11 insertions(+)

diff --git a/library/graph/biconnected_components.hpp b/library/graph/biconnected_components.hpp
index ee3d5e9..7896435 100644
--- a/library/graph/biconnected_components.hpp
+++ b/library/graph/biconnected_components.hpp
@@ -18,7 +18,9 @@ namespace suisen {
 
         void build() {
             LowLink::build();
+            _built = false;
             dfs_for_all_connected_components();
+            _built = true;
         }
 
         // # of component (including isolated vertices)
@@ -110,6 +112,7 @@ namespace suisen {
             _edge_comp_num = 0;
             _edge_comp_id.assign(_m, -1);
             _used.assign(_n, false);
+            _isolated_vertices.clear();
             for (int i = 0; i < _n; ++i) if (not _used[i]) {
                 dfs(i, -1);
                 if (_g[i].empty()) _isolated_vertices.push_back(i);
diff --git a/library/graph/low_link.hpp b/library/graph/low_link.hpp
index cc2b4e6..0bf3bf3 100644
--- a/library/graph/low_link.hpp
+++ b/library/graph/low_link.hpp
@@ -1,6 +1,7 @@
 #ifndef SUISEN_LOW_LINK
 #define SUISEN_LOW_LINK
 
+#include <algorithm>
 #include <cassert>
 #include <cstddef>
 #include <cstdint>
@@ -26,6 +27,12 @@ namespace suisen {
         }
 
         void build() {
+            _built = false;
+            _conn_comp_num = 0;
+            _bridges.clear();
+            _articulation_points.clear();
+            std::fill(_pre_order.begin(), _pre_order.end(), -1);
+            std::fill(_par.begin(), _par.end(), -1);
             dfs_for_all_connected_components();
             _built = true;
         }
diff --git a/library/graph/two_edge_connected_components.hpp b/library/graph/two_edge_connected_components.hpp
index 01bde25..83e1595 100644
--- a/library/graph/two_edge_connected_components.hpp
+++ b/library/graph/two_edge_connected_components.hpp
@@ -66,6 +66,7 @@ namespace suisen {
         }
         void dfs_for_all_connected_components() {
             _comp_num = 0;
+            std::fill(_comp_id.begin(), _comp_id.end(), -1);
             for (int i = 0; i < _n; ++i) {
                 if (_comp_id[i] < 0) dfs(i, -1);
             }
-- 
2.43.0


From 5db72a4d22075c90ee0ffa2b47716af4200947ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:51 +0000
Subject: [PATCH 045/158] fix: KruscalMST: a failed build() left the object
 answering with wrong weights; missing includes

---
 library/graph/kruscal.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/library/graph/kruscal.hpp b/library/graph/kruscal.hpp
index 33e81e3..678acea 100644
--- a/library/graph/kruscal.hpp
+++ b/library/graph/kruscal.hpp
@@ -1,6 +1,12 @@
 #ifndef SUISEN_KRUSCAL
 #define SUISEN_KRUSCAL
 
+#include <algorithm>
+#include <cassert>
+#include <functional>
+#include <tuple>
+#include <vector>
+
 #include <atcoder/dsu>
 
 namespace suisen {
@@ -28,10 +34,10 @@ namespace suisen {
              * return: whether there exists MST or not (i.e. the graph is connected or not)
              */
             bool build() {
+                atcoder::dsu uf(_n);
                 _built = true;
                 _weight_sum = 0;
                 if (_n == 0) return true;
-                atcoder::dsu uf(_n);
                 std::sort(_edges.begin(), _edges.end(), [this](const auto& e1, const auto& e2) { return _comp(std::get<2>(e1), std::get<2>(e2)); });
                 for (auto& [u, v, w] : _edges) {
                     if (uf.same(u, v)) {
-- 
2.43.0


From bbd16cfa29eebebc8578f0dd23150cd55ae434af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:51 +0000
Subject: [PATCH 046/158] fix: eulerian_trail left an auxiliary edge in the
 graph when there was no trail or memory ran out

---
 library/graph/directed_eulerian_graph.hpp   | 11 +++++------
 library/graph/undirected_eulerian_graph.hpp | 11 +++++------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/library/graph/directed_eulerian_graph.hpp b/library/graph/directed_eulerian_graph.hpp
index 74714e0..7df2072 100644
--- a/library/graph/directed_eulerian_graph.hpp
+++ b/library/graph/directed_eulerian_graph.hpp
@@ -61,14 +61,13 @@ namespace suisen {
                 return eulerian_circuit();
             }
             if (s < 0 or t < 0 or invalid >= 0) return std::nullopt;
-            add_edge(t, s);
-            auto opt_res = eulerian_circuit(s);
+            // the edge (t, s) is added to a copy so that the graph is left as it is
+            DirectedEulerianGraph closed = *this;
+            closed.add_edge(t, s);
+            auto opt_res = closed.eulerian_circuit(s);
             if (not opt_res) return std::nullopt;
             auto &res = *opt_res;
             res.pop_back();
-            // remove edge (t, s)
-            g[t].pop_back();
-            --in_deg[s];
             if (res.back() == t) return res;
             auto is_ts_edge = [&](int u, int v) {
                 return u == t and v == s;
@@ -81,7 +80,7 @@ namespace suisen {
             return g[u];
         }
     private:
-        int n;
+        int n = 0;
         std::vector<std::vector<int>> g;
         std::vector<int> in_deg;
     };
diff --git a/library/graph/undirected_eulerian_graph.hpp b/library/graph/undirected_eulerian_graph.hpp
index d4e691b..3d0788a 100644
--- a/library/graph/undirected_eulerian_graph.hpp
+++ b/library/graph/undirected_eulerian_graph.hpp
@@ -58,14 +58,13 @@ namespace suisen {
                 return eulerian_circuit();
             }
             if (s < 0 or t < 0 or invalid >= 0) return std::nullopt;
-            add_edge(s, t);
-            auto opt_res = eulerian_circuit(s);
+            // the edge (s, t) is added to a copy so that the graph is left as it is
+            UndirectedEulerianGraph closed = *this;
+            closed.add_edge(s, t);
+            auto opt_res = closed.eulerian_circuit(s);
             if (not opt_res) return std::nullopt;
             auto &res = *opt_res;
             res.pop_back();
-            // remove edge (s, t)
-            g[s].pop_back(), inv[s].pop_back();
-            g[t].pop_back(), inv[t].pop_back();
             if (res.back() == t) return res;
             auto is_st_edge = [&](int u, int v) {
                 return (u == s and v == t) or (u == t and v == s);
@@ -81,7 +80,7 @@ namespace suisen {
             return { g[u][i], inv[u][i] };
         }
     private:
-        int n;
+        int n = 0;
         std::vector<std::vector<int>> g;
         std::vector<std::vector<int>> inv;
     };
-- 
2.43.0


From 9296730f1052eabf1475c30ecad4c90b941f89b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:21 +0000
Subject: [PATCH 047/158] fix: BipartiteMatching: solve() after adding edges
 returned only the increment, min_edge_cover() overran its buffer, sizes of a
 default-constructed object were uninitialised

---
 library/graph/bipartite_matching.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/library/graph/bipartite_matching.hpp b/library/graph/bipartite_matching.hpp
index ba7cd72..ac8047e 100644
--- a/library/graph/bipartite_matching.hpp
+++ b/library/graph/bipartite_matching.hpp
@@ -90,11 +90,11 @@ namespace suisen {
                 }
                 return level[_n + r] = _n + _m, false;
             };
-            for (_f = 0; bfs();) {
+            while (bfs()) {
                 std::fill(iter.begin(), iter.end(), 0);
-                for (int j = 0; j < _m; ++j) if (_to_l[j] == ABSENT) _f += dfs(dfs, j);
+                for (int j = 0; j < _m; ++j) if (_to_l[j] == ABSENT) dfs(dfs, j);
             }
-            return _f;
+            return _f = _n - std::count(_to_r.begin(), _to_r.end(), ABSENT);
         }
 
         std::vector<std::pair<int, int>> max_matching() {
@@ -107,7 +107,7 @@ namespace suisen {
 
         std::vector<std::pair<int, int>> min_edge_cover() {
             auto res = max_matching();
-            std::vector<bool> vl(_n, false), vr(_n, false);
+            std::vector<bool> vl(_n, false), vr(_m, false);
             for (const auto& [u, v] : res) vl[u] = vr[v] = true;
             for (int u = 0; u < _n; ++u) for (int v : _g[u]) if (not (vl[u] and vr[v])) {
                 vl[u] = vr[v] = true;
@@ -174,7 +174,7 @@ namespace suisen {
         }
 
     private:
-        int _n, _m;
+        int _n = 0, _m = 0;
         std::vector<int> _to_r, _to_l;
         std::vector<std::vector<int>> _g;
         int _f = 0;
-- 
2.43.0


From 94c05c7a876dda1fe71f4ca9a58cdeafb1887cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:43 +0000
Subject: [PATCH 048/158] fix: HornSAT: a variable forced to be false triggered
 the clauses that need it to be true

---
 library/algorithm/horn_sat.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/library/algorithm/horn_sat.hpp b/library/algorithm/horn_sat.hpp
index 7744be5..29d0d1b 100644
--- a/library/algorithm/horn_sat.hpp
+++ b/library/algorithm/horn_sat.hpp
@@ -2,6 +2,7 @@
 #define SUISEN_HORN_SAT
 
 #include <cassert>
+#include <deque>
 #include <queue>
 #include <vector>
 
@@ -40,7 +41,8 @@ class HornSAT {
                 if (not seen[i]) {
                     ans[i] = val;
                     seen[i] = true;
-                    for (const int j : ls[i]) {
+                    // a clause fires only when all variables on its left-hand side are true
+                    if (val) for (const int j : ls[i]) {
                         if (--c[j] == 0) dq.push_back(r[j]);
                     }
                 } else if (val != ans[i]) return has_answer = false;
-- 
2.43.0


From 561271bab3deb05e82ba50c8e920ef6bed41e47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:01 +0000
Subject: [PATCH 049/158] fix: MinCostFlow: potentials of unreachable vertices
 overflowed, and a second flow from another source was wrong

---
 library/graph/min_cost_flow.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/library/graph/min_cost_flow.hpp b/library/graph/min_cost_flow.hpp
index d5624c6..67c3c5a 100644
--- a/library/graph/min_cost_flow.hpp
+++ b/library/graph/min_cost_flow.hpp
@@ -3,6 +3,7 @@
 
 #include <algorithm>
 #include <cassert>
+#include <deque>
 #include <queue>
 #include <limits>
 #include <vector>
@@ -56,7 +57,7 @@ class MinCostFlow {
             return min_cost_max_flow_slope(s, t, INF_FLOW);
         }
         auto min_cost_arbitrary_flow_slope(const int s, const int t) {
-            return min_cost_flow_slope(s, t, INF_FLOW, [this, t](Cap, Cost){ return potential[t] < 0; });
+            return min_cost_flow_slope(s, t, INF_FLOW, [this, s, t](Cap, Cost){ return potential[t] < potential[s]; });
         }
 
         struct Edge {
@@ -114,7 +115,7 @@ class MinCostFlow {
                 }
                 assert(df != 0);
                 flow += df;
-                cost += df * potential[t];
+                cost += df * (potential[t] - potential[s]);
                 if (slope.size() >= 2) {
                     auto [f0, c0] = *std::next(slope.rbegin());
                     auto [f1, c1] = *slope.rbegin();
@@ -134,7 +135,7 @@ class MinCostFlow {
 
         void update_potential() {
             for (int u = 0; u < n; ++u) {
-                if (potential[u] != INF_COST) potential[u] += dist[u];
+                if (dist[u] != INF_COST) potential[u] += dist[u];
             }
         }
 
-- 
2.43.0


From 4acbe0de28c5c046645d7245f62e779a22d7dec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:25 +0000
Subject: [PATCH 050/158] fix: ProjectSelection: a failed min_cost() counted
 costs twice in the next one; size of a default-constructed object was
 uninitialised

---
 library/optimization/k_project_selection_problem.hpp | 4 +++-
 library/optimization/project_selection_problem.hpp   | 6 +++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/library/optimization/k_project_selection_problem.hpp b/library/optimization/k_project_selection_problem.hpp
index 05ff5e9..a7e379b 100644
--- a/library/optimization/k_project_selection_problem.hpp
+++ b/library/optimization/k_project_selection_problem.hpp
@@ -1,6 +1,8 @@
 #ifndef SUISEN_K_PROJECT_SELECTION
 #define SUISEN_K_PROJECT_SELECTION
 
+#include <cassert>
+#include <limits>
 #include <type_traits>
 #include <vector>
 
@@ -110,7 +112,7 @@ namespace suisen {
     private:
         static constexpr Cost INF = std::numeric_limits<Cost>::max() / 2;
 
-        std::size_t _num;
+        std::size_t _num = 0;
         std::vector<std::size_t> _ks;
         std::vector<std::vector<std::size_t>> _x;
         ProjectSelection<Cost> _psp;
diff --git a/library/optimization/project_selection_problem.hpp b/library/optimization/project_selection_problem.hpp
index d9ce6c9..0265ded 100644
--- a/library/optimization/project_selection_problem.hpp
+++ b/library/optimization/project_selection_problem.hpp
@@ -167,7 +167,7 @@ public:
         static constexpr std::size_t S = ~0;
         static constexpr std::size_t T = ~1;
 
-        std::size_t _num;
+        std::size_t _num = 0;
         std::size_t _num_aux = 0;
         Cost _cost0 = 0;
         std::vector<CostFunc1> _cost1;
@@ -177,11 +177,11 @@ public:
             for (std::size_t i = 0; i < _num; ++i) {
                 CostFunc1& cost = _cost1[i];
                 if (cost[0] <= cost[1]) {
-                    add_cost(cost[0]);
                     add_edge(S, i, cost[1] - cost[0]);
+                    add_cost(cost[0]);
                 } else {
-                    add_cost(cost[1]);
                     add_edge(i, T, cost[0] - cost[1]);
+                    add_cost(cost[1]);
                 }
                 cost = { 0, 0 };
             }
-- 
2.43.0


From 5b1ba078a9305069f7004b1857082bcab86a9fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:24 +0000
Subject: [PATCH 051/158] fix: Graph: shrink_to_fit() and dfs_tree() of a
 copied or moved graph used the edges of the original, which may be gone;
 missing includes

---
 library/graph/csr_graph.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/library/graph/csr_graph.hpp b/library/graph/csr_graph.hpp
index 2ab74e7..0458ff7 100644
--- a/library/graph/csr_graph.hpp
+++ b/library/graph/csr_graph.hpp
@@ -3,6 +3,8 @@
 
 #include <algorithm>
 #include <cassert>
+#include <cstdint>
+#include <iostream>
 #include <limits>
 #include <optional>
 #include <type_traits>
@@ -210,7 +212,7 @@ namespace suisen {
             auto it = new_edges.begin();
             for (int i = 0; i < _n; ++i) {
                 int nl = it - new_edges.begin();
-                it = std::move(_adj[i].begin(), _adj[i].end(), it);
+                it = std::move((*this)[i].begin(), (*this)[i].end(), it);
                 _adj[i]._offset = nl;
                 _adj[i]._cap = _adj[i]._siz;
             }
@@ -258,7 +260,7 @@ namespace suisen {
                         *pst_it++ = cur;
                         cur = par[cur];
                     } else {
-                        const auto &e = _adj[cur][eid[cur]];
+                        const auto &e = (*this)[cur][eid[cur]];
                         weight_type_or_1 w = get_weight(e);
                         int nxt = e;
                         if (par[nxt] == -2) {
@@ -280,7 +282,7 @@ namespace suisen {
         }
 
     private:
-        int _n;
+        int _n = 0;
         std::vector<adjacent_list> _adj;
         std::vector<edge_type> _edges;
 
-- 
2.43.0


From 470bd6375cc9936ef429519752725e147d9eccc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:07 +0000
Subject: [PATCH 052/158] fix: splay trees: a failed allocation while splaying
 lost the whole tree

---
 library/datastructure/dynamic_sequence.hpp | 37 +++++++-------
 library/datastructure/splay_tree_map.hpp   | 59 +++++++++-------------
 2 files changed, 42 insertions(+), 54 deletions(-)

diff --git a/library/datastructure/dynamic_sequence.hpp b/library/datastructure/dynamic_sequence.hpp
index 302fad6..b67b8d4 100644
--- a/library/datastructure/dynamic_sequence.hpp
+++ b/library/datastructure/dynamic_sequence.hpp
@@ -48,10 +48,24 @@ struct DynamicSequenceNodeBase {
         return root;
     }
 
+    static void join(node_ptr_t node, node_ptr_t work_leaf[2]) {
+        for (int d : { 0, 1 }) {
+            node_ptr_t subtree = node->ch[d ^ 1];
+            while (work_leaf[d] != nullptr) {
+                node_ptr_t leaf = work_leaf[d];
+                work_leaf[d] = leaf->ch[d];
+                leaf->ch[d] = subtree;
+                leaf->update();
+                subtree = leaf;
+            }
+            node->ch[d ^ 1] = subtree;
+        }
+        node->update();
+    }
+
     static node_ptr_t splay(node_ptr_t node, int index) {
-        std::vector<node_ptr_t> path;
-        node_ptr_t work_root = new Derived();
-        node_ptr_t work_leaf[2] { work_root, work_root };
+        // nodes that have been cut off, linked by the child pointers to be filled later
+        node_ptr_t work_leaf[2] { nullptr, nullptr };
         while (true) {
             node->push();
             int size_l = size(node->ch[0]);
@@ -78,24 +92,11 @@ struct DynamicSequenceNodeBase {
                     }
                 }
             }
-            path.push_back(node);
-            work_leaf[is_right]->ch[is_right] = node;
+            node->ch[is_right] = work_leaf[is_right];
             work_leaf[is_right] = node;
             node = next_node;
         }
-        work_leaf[0]->ch[0] = node->ch[1];
-        work_leaf[1]->ch[1] = node->ch[0];
-        node->ch[0] = work_root->ch[1];
-        node->ch[1] = work_root->ch[0];
-    
-        work_root->ch[0] = work_root->ch[1] = nullptr;
-        delete work_root;
-
-        while (path.size()) {
-            path.back()->update(), path.pop_back();
-        }
-        node->update();
-
+        join(node, work_leaf);
         return node;
     }
 
diff --git a/library/datastructure/splay_tree_map.hpp b/library/datastructure/splay_tree_map.hpp
index 821a5e5..b2934fa 100644
--- a/library/datastructure/splay_tree_map.hpp
+++ b/library/datastructure/splay_tree_map.hpp
@@ -43,10 +43,24 @@ struct MapNodeBase {
         return root;
     }
 
+    static void join(node_ptr_t node, node_ptr_t work_leaf[2]) {
+        for (int d : { 0, 1 }) {
+            node_ptr_t subtree = node->ch[d ^ 1];
+            while (work_leaf[d] != nullptr) {
+                node_ptr_t leaf = work_leaf[d];
+                work_leaf[d] = leaf->ch[d];
+                leaf->ch[d] = subtree;
+                leaf->update();
+                subtree = leaf;
+            }
+            node->ch[d ^ 1] = subtree;
+        }
+        node->update();
+    }
+
     static node_ptr_t splay_by_index(node_ptr_t node, int index) {
-        std::vector<node_ptr_t> path;
-        node_ptr_t work_root = new Derived();
-        node_ptr_t work_leaf[2] { work_root, work_root };
+        // nodes that have been cut off, linked by the child pointers to be filled later
+        node_ptr_t work_leaf[2] { nullptr, nullptr };
         while (true) {
             node->push();
             int size_l = size(node->ch[0]);
@@ -73,32 +87,18 @@ struct MapNodeBase {
                     }
                 }
             }
-            path.push_back(node);
-            work_leaf[is_right]->ch[is_right] = node;
+            node->ch[is_right] = work_leaf[is_right];
             work_leaf[is_right] = node;
             node = next_node;
         }
-        work_leaf[0]->ch[0] = node->ch[1];
-        work_leaf[1]->ch[1] = node->ch[0];
-        node->ch[0] = work_root->ch[1];
-        node->ch[1] = work_root->ch[0];
-    
-        work_root->ch[0] = work_root->ch[1] = nullptr;
-        delete work_root;
-
-        while (path.size()) {
-            path.back()->update(), path.pop_back();
-        }
-        node->update();
-
+        join(node, work_leaf);
         return node;
     }
 
     static node_ptr_t splay_by_key(node_ptr_t node, const Key &x) {
         if (node == nullptr) return node;
-        std::vector<node_ptr_t> path;
-        node_ptr_t work_root = new Derived();
-        node_ptr_t work_leaf[2] { work_root, work_root };
+        // nodes that have been cut off, linked by the child pointers to be filled later
+        node_ptr_t work_leaf[2] { nullptr, nullptr };
         while (true) {
             node->push();
             if (x == node->key) {
@@ -120,24 +120,11 @@ struct MapNodeBase {
                     }
                 }
             }
-            path.push_back(node);
-            work_leaf[is_right]->ch[is_right] = node;
+            node->ch[is_right] = work_leaf[is_right];
             work_leaf[is_right] = node;
             node = next_node;
         }
-        work_leaf[0]->ch[0] = node->ch[1];
-        work_leaf[1]->ch[1] = node->ch[0];
-        node->ch[0] = work_root->ch[1];
-        node->ch[1] = work_root->ch[0];
-
-        work_root->ch[0] = work_root->ch[1] = nullptr;
-        delete work_root;
-
-        while (path.size()) {
-            path.back()->update(), path.pop_back();
-        }
-        node->update();
-
+        join(node, work_leaf);
         return node;
     }
     static std::pair<node_ptr_t, bool> find_key(node_ptr_t node, const Key &key) {
-- 
2.43.0


From bc415a5dbbb73d3bd1289ae011301e4c89d7c187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:07 +0000
Subject: [PATCH 053/158] fix: splay tree maps: a failed allocation in insert()
 lost the whole tree

---
 library/datastructure/splay_tree_map.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/library/datastructure/splay_tree_map.hpp b/library/datastructure/splay_tree_map.hpp
index b2934fa..62611ad 100644
--- a/library/datastructure/splay_tree_map.hpp
+++ b/library/datastructure/splay_tree_map.hpp
@@ -177,16 +177,17 @@ struct MapNodeBase {
     static node_ptr_t merge(node_ptr_t tl, node_ptr_t tm, node_ptr_t tr) {
         return merge(merge(tl, tm), tr);
     }
-    static node_ptr_t insert(node_ptr_t node, const Key &key, const Val &val, bool overwrite = true) {
-        auto [l, r] = split_by_key(node, key);
-        if (r != nullptr and r->key == key) {
+    static node_ptr_t insert(node_ptr_t &node, const Key &key, const Val &val, bool overwrite = true) {
+        node = splay_by_key(node, key);
+        if (node != nullptr and node->key == key) {
             if (overwrite) {
-                r->val = val;
-                r->update();
+                node->val = val;
+                node->update();
             }
-            return merge(l, r);
+            return node;
         }
         node_ptr_t new_node = new Derived(key, val);
+        auto [l, r] = split_by_key(node, key);
         new_node->ch[0] = l;
         new_node->ch[1] = r;
         new_node->update();
-- 
2.43.0


From 6dccc7184b6a0265e236cca182679ed8fcb99a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:07 +0000
Subject: [PATCH 054/158] fix: splay tree maps: erase_index(), get_or_default()
 and operator()(l, r) did not compile, merge() of two empty maps failed an
 assertion

---
 library/datastructure/lazy_eval_map.hpp      | 10 ++++------
 library/datastructure/range_foldable_map.hpp |  8 +++-----
 library/datastructure/splay_tree_map.hpp     | 14 ++++++--------
 3 files changed, 13 insertions(+), 19 deletions(-)

diff --git a/library/datastructure/lazy_eval_map.hpp b/library/datastructure/lazy_eval_map.hpp
index 8ea8850..8a2a62c 100644
--- a/library/datastructure/lazy_eval_map.hpp
+++ b/library/datastructure/lazy_eval_map.hpp
@@ -89,7 +89,7 @@ class LazyEvalMap {
             return is_erased;
         }
         void erase_index(int k) {
-            index_bounds_check(k, size() + 1);
+            index_bounds_check(k, size());
             root = Node::erase_index(root, k);
         }
         Val& get_or_create(const Key &key, const Val &val) {
@@ -102,7 +102,7 @@ class LazyEvalMap {
             return UpdateProxyObject { root->val, [this]{ root->update(); } };
         }
         Val operator()(const Key &l, const Key &r) {
-            return prod(l, r);
+            return prod_by_key(l, r);
         }
         Val prod_by_key(const Key &l, const Key &r) {
             auto [new_root, res] = Node::prod_by_key(root, l, r);
@@ -128,9 +128,7 @@ class LazyEvalMap {
         }
 
         Val get_or_default(const Key &key, const Val &default_value) {
-            auto [new_root, res] = Node::get_or_default(root, key, default_value);
-            root = new_root;
-            return res;
+            return Node::get_or_default(root, key, default_value);
         }
         std::pair<Key, Val> kth_entry(int k) {
             index_bounds_check(k, size());
@@ -149,7 +147,7 @@ class LazyEvalMap {
             return LazyEvalMap(r);
         }
         void merge(LazyEvalMap &&r) {
-            assert(root != r.root);
+            assert(root == nullptr or root != r.root);
             root = Node::merge(root, r.root);
             r.root = nullptr;
         }
diff --git a/library/datastructure/range_foldable_map.hpp b/library/datastructure/range_foldable_map.hpp
index af42871..1adb1c1 100644
--- a/library/datastructure/range_foldable_map.hpp
+++ b/library/datastructure/range_foldable_map.hpp
@@ -83,7 +83,7 @@ class RangeFoldableMap {
             return is_erased;
         }
         void erase_index(int k) {
-            index_bounds_check(k, size() + 1);
+            index_bounds_check(k, size());
             root = Node::erase_index(root, k);
         }
         Val& get_or_create(const Key &key, const Val &val) {
@@ -96,7 +96,7 @@ class RangeFoldableMap {
             return UpdateProxyObject { root->val, [this]{ root->update(); } };
         }
         Val operator()(const Key &l, const Key &r) {
-            return prod(l, r);
+            return prod_by_key(l, r);
         }
         Val prod_by_key(const Key &l, const Key &r) {
             auto [new_root, res] = Node::prod_by_key(root, l, r);
@@ -113,9 +113,7 @@ class RangeFoldableMap {
         }
 
         Val get_or_default(const Key &key, const Val &default_value) {
-            auto [new_root, res] = Node::get_or_default(root, key, default_value);
-            root = new_root;
-            return res;
+            return Node::get_or_default(root, key, default_value);
         }
         std::pair<Key, Val> kth_entry(int k) {
             index_bounds_check(k, size());
diff --git a/library/datastructure/splay_tree_map.hpp b/library/datastructure/splay_tree_map.hpp
index 62611ad..97cc8c1 100644
--- a/library/datastructure/splay_tree_map.hpp
+++ b/library/datastructure/splay_tree_map.hpp
@@ -3,7 +3,7 @@
 
 #include <cassert>
 #include <cstddef>
-#include <vector>
+#include <tuple>
 #include <utility>
 
 namespace suisen {
@@ -194,7 +194,7 @@ struct MapNodeBase {
         return new_node;
     }
     static node_ptr_t erase_index(node_ptr_t node, int index) {
-        auto [l, r] = split(index ? node : splay(node, 0), index);
+        auto [l, r] = split_by_index(index ? node : splay_by_index(node, 0), index);
         assert(r->ch[0] == nullptr);
         node_ptr_t res = merge(l, r->ch[1]);
         r->ch[1] = nullptr;
@@ -210,7 +210,7 @@ struct MapNodeBase {
         delete r;
         return { res, true };
     }
-    static Val get_or_default(node_ptr_t node, const Key &key, const Val &default_value) {
+    static Val get_or_default(node_ptr_t &node, const Key &key, const Val &default_value) {
         auto [new_root, found] = find_key(node, key);
         node = new_root;
         return found ? new_root->val : default_value;
@@ -265,7 +265,7 @@ class SplayTreeMap {
             return is_erased;
         }
         void erase_index(int k) {
-            index_bounds_check(k, size() + 1);
+            index_bounds_check(k, size());
             root = Node::erase_index(root, k);
         }
         Val& get_or_create(const Key &key, const Val &val) {
@@ -276,9 +276,7 @@ class SplayTreeMap {
             return get_or_create(key, Val{});
         }
         Val get_or_default(const Key &key, const Val &default_value) {
-            auto [new_root, res] = Node::get_or_default(root, key, default_value);
-            root = new_root;
-            return res;
+            return Node::get_or_default(root, key, default_value);
         }
         std::pair<Key, Val> kth_entry(int k) {
             index_bounds_check(k, size());
@@ -297,7 +295,7 @@ class SplayTreeMap {
             return SplayTreeMap<Key, Val>(r);
         }
         void merge(SplayTreeMap &&r) {
-            assert(root != r.root);
+            assert(root == nullptr or root != r.root);
             root = Node::merge(root, r.root);
             r.root = nullptr;
         }
-- 
2.43.0


From b78bfa4715f4b2b33748a2f2c42a7495b84d357d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:07 +0000
Subject: [PATCH 055/158] fix: DynamicSequence: reverse_all() did not compile,
 self-move-assignment destroyed the sequence

---
 library/datastructure/dynamic_sequence.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/datastructure/dynamic_sequence.hpp b/library/datastructure/dynamic_sequence.hpp
index b67b8d4..08b8334 100644
--- a/library/datastructure/dynamic_sequence.hpp
+++ b/library/datastructure/dynamic_sequence.hpp
@@ -210,7 +210,7 @@ struct DynamicSequenceBase {
             root = SplayNode::reverse(root, l, r);
         }
         void reverse_all() {
-            SplayNode::reverese_all(root);
+            SplayNode::reverse_all(root);
         }
     protected:
         mutable node_ptr_t root;
@@ -236,6 +236,7 @@ struct DynamicSequence : public DynamicSequenceBase<T, internal::dynamic_sequenc
 
         DynamicSequence& operator=(const DynamicSequence&) = delete;
         DynamicSequence& operator=(DynamicSequence&& other) {
+            if (other.root == this->root) return *this;
             delete this->root;
             this->root = other.root;
             other.root = nullptr;
-- 
2.43.0


From 1942c05519693e308f5e9281934866d8f7499def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:08 +0000
Subject: [PATCH 056/158] fix: splay trees: destruction of a deep tree
 overflowed the stack

---
 library/datastructure/dynamic_sequence.hpp | 15 +++++++++++++--
 library/datastructure/splay_tree_map.hpp   | 15 +++++++++++++--
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/library/datastructure/dynamic_sequence.hpp b/library/datastructure/dynamic_sequence.hpp
index 08b8334..2b7d1c8 100644
--- a/library/datastructure/dynamic_sequence.hpp
+++ b/library/datastructure/dynamic_sequence.hpp
@@ -25,8 +25,19 @@ struct DynamicSequenceNodeBase {
     DynamicSequenceNodeBase(const T &val) : val(val), siz(1), rev(false) {}
 
     ~DynamicSequenceNodeBase() {
-        delete ch[0];
-        delete ch[1];
+        // without recursion, because the tree may be as deep as it is large
+        for (node_ptr_t node : ch) while (node != nullptr) {
+            node_ptr_t next = node->ch[0];
+            if (next != nullptr) {
+                node->ch[0] = next->ch[1];
+                next->ch[1] = node;
+            } else {
+                next = node->ch[1];
+                node->ch[1] = nullptr;
+                delete node;
+            }
+            node = next;
+        }
     }
 
     void update() {
diff --git a/library/datastructure/splay_tree_map.hpp b/library/datastructure/splay_tree_map.hpp
index 97cc8c1..5d2d28c 100644
--- a/library/datastructure/splay_tree_map.hpp
+++ b/library/datastructure/splay_tree_map.hpp
@@ -22,8 +22,19 @@ struct MapNodeBase {
     MapNodeBase(const Key &key, const Val &val) : key(key), val(val), siz(1) {}
 
     ~MapNodeBase() {
-        delete ch[0];
-        delete ch[1];
+        // without recursion, because the tree may be as deep as it is large
+        for (node_ptr_t node : ch) while (node != nullptr) {
+            node_ptr_t next = node->ch[0];
+            if (next != nullptr) {
+                node->ch[0] = next->ch[1];
+                next->ch[1] = node;
+            } else {
+                next = node->ch[1];
+                node->ch[1] = nullptr;
+                delete node;
+            }
+            node = next;
+        }
     }
 
     void update() {
-- 
2.43.0


From 415f0b38801f76c3238de9f9bea6fff126140f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:47 +0000
Subject: [PATCH 057/158] fix: BinaryHeap: pop() of the last element touched an
 element that no longer exists

---
 library/datastructure/heap/binary_heap.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/datastructure/heap/binary_heap.hpp b/library/datastructure/heap/binary_heap.hpp
index 26d84b3..32ce2e9 100644
--- a/library/datastructure/heap/binary_heap.hpp
+++ b/library/datastructure/heap/binary_heap.hpp
@@ -105,6 +105,7 @@ namespace suisen {
             }
             void heapify_down(const int root) {
                 const int n = _dat.size(), m = n >> 1;
+                if (root >= n) return;
                 int cur = root;
                 value_type val = std::move(_dat[cur]);
                 while (cur < m) {
-- 
2.43.0


From 4ae644663cb0ec85db27df802fc88bb0c0343ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:47 +0000
Subject: [PATCH 058/158] fix: priority_queue.hpp did not compile

---
 library/datastructure/priority_queue.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/priority_queue.hpp b/library/datastructure/priority_queue.hpp
index 2a5d2c5..758c1a5 100644
--- a/library/datastructure/priority_queue.hpp
+++ b/library/datastructure/priority_queue.hpp
@@ -5,9 +5,9 @@
 
 namespace suisen {
     template <typename T, typename Comp = std::less<T>>
-    using MinPriorityQueue = suisen::BinaryHeap<T, Comp>;
+    using MinPriorityQueue = suisen::MinBinaryHeap<T, Comp>;
     template <typename T>
-    using MaxPriorityQueue = suisen::BinaryHeap<T, std::greater<T>>;
+    using MaxPriorityQueue = suisen::MaxBinaryHeap<T>;
 } // namespace suisen
 
 
-- 
2.43.0


From 4a3c9e33054ae0d743c5c8be67885f95b22d18b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:47 +0000
Subject: [PATCH 059/158] fix: DoubleEndedPriorityQueue: a copy compared with
 the comparator of the original, which may be gone

---
 .../double_ended_priority_queue.hpp             | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/library/datastructure/double_ended_priority_queue.hpp b/library/datastructure/double_ended_priority_queue.hpp
index 797e321..3657dd1 100644
--- a/library/datastructure/double_ended_priority_queue.hpp
+++ b/library/datastructure/double_ended_priority_queue.hpp
@@ -39,7 +39,7 @@ namespace suisen {
                 std::push_heap(_max_heap.begin(), _max_heap.end(), _comp);
             } else {
                 _min_heap.push_back(v);
-                std::push_heap(_min_heap.begin(), _min_heap.end(), _rev_comp);
+                std::push_heap(_min_heap.begin(), _min_heap.end(), _rev_comp());
             }
         }
         template <typename ...Args>
@@ -64,7 +64,7 @@ namespace suisen {
         }
         value_type pop_min() {
             ensure_min_heap_nonempty();
-            std::pop_heap(_min_heap.begin(), _min_heap.end(), _rev_comp);
+            std::pop_heap(_min_heap.begin(), _min_heap.end(), _rev_comp());
             value_type res = std::move(_min_heap.back());
             _min_heap.pop_back();
             return res;
@@ -82,13 +82,12 @@ namespace suisen {
 
     private:
         compare_type _comp;
-        struct {
-            compare_type* comp;
-            bool operator()(const value_type& x, const value_type& y) { return (*comp)(y, x); }
-        } _rev_comp{ &_comp };
+        auto _rev_comp() {
+            return [this](const value_type& x, const value_type& y) { return _comp(y, x); };
+        }
 
         std::vector<value_type> _max_heap, _min_heap;
-        value_type pivot;
+        value_type pivot{};
 
         void ensure_min_heap_nonempty() {
             const int siz = size();
@@ -105,7 +104,7 @@ namespace suisen {
                 std::move(_max_heap.begin(), _max_heap.begin() + mid, std::back_inserter(_min_heap));
                 _max_heap.erase(_max_heap.begin(), _max_heap.begin() + mid);
                 std::make_heap(_max_heap.begin(), _max_heap.end(), _comp);
-                std::make_heap(_min_heap.begin(), _min_heap.end(), _rev_comp);
+                std::make_heap(_min_heap.begin(), _min_heap.end(), _rev_comp());
             }
         }
         void ensure_max_heap_nonempty() {
@@ -122,7 +121,7 @@ namespace suisen {
                 std::move(_min_heap.begin() + mid, _min_heap.end(), std::back_inserter(_max_heap));
                 _min_heap.erase(_min_heap.begin() + mid, _min_heap.end());
                 std::make_heap(_max_heap.begin(), _max_heap.end(), _comp);
-                std::make_heap(_min_heap.begin(), _min_heap.end(), _rev_comp);
+                std::make_heap(_min_heap.begin(), _min_heap.end(), _rev_comp());
             }
         }
     };
-- 
2.43.0


From 5a93c4fe6c021ce051fb1047797674c7ae549f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:47 +0000
Subject: [PATCH 060/158] fix: DoubleEndedPriorityQueue: a failed allocation
 while rebalancing destroyed the heap order

---
 .../double_ended_priority_queue.hpp           | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/library/datastructure/double_ended_priority_queue.hpp b/library/datastructure/double_ended_priority_queue.hpp
index 3657dd1..a686694 100644
--- a/library/datastructure/double_ended_priority_queue.hpp
+++ b/library/datastructure/double_ended_priority_queue.hpp
@@ -3,6 +3,7 @@
 
 #include <algorithm>
 #include <cassert>
+#include <iterator>
 #include <vector>
 #include <functional>
 #include <utility>
@@ -94,13 +95,18 @@ namespace suisen {
             assert(siz);
             if (not _min_heap.empty()) return;
             if (siz == 1) {
+                pivot = _max_heap.front();
                 std::swap(_min_heap, _max_heap);
-                pivot = _min_heap.front();
             } else {
                 const int mid = (siz + 1) >> 1;
-                std::nth_element(_max_heap.begin(), _max_heap.begin() + mid - 1, _max_heap.end(), _comp);
-                pivot = _max_heap[mid - 1];
                 _min_heap.reserve(mid);
+                std::nth_element(_max_heap.begin(), _max_heap.begin() + mid - 1, _max_heap.end(), _comp);
+                try {
+                    pivot = _max_heap[mid - 1];
+                } catch (...) {
+                    std::make_heap(_max_heap.begin(), _max_heap.end(), _comp);
+                    throw;
+                }
                 std::move(_max_heap.begin(), _max_heap.begin() + mid, std::back_inserter(_min_heap));
                 _max_heap.erase(_max_heap.begin(), _max_heap.begin() + mid);
                 std::make_heap(_max_heap.begin(), _max_heap.end(), _comp);
@@ -115,9 +121,14 @@ namespace suisen {
                 std::swap(_min_heap, _max_heap);
             } else {
                 const int mid = siz >> 1;
-                std::nth_element(_min_heap.begin(), _min_heap.begin() + mid - 1, _min_heap.end(), _comp);
-                pivot = _min_heap[mid - 1];
                 _max_heap.reserve(siz - mid);
+                std::nth_element(_min_heap.begin(), _min_heap.begin() + mid - 1, _min_heap.end(), _comp);
+                try {
+                    pivot = _min_heap[mid - 1];
+                } catch (...) {
+                    std::make_heap(_min_heap.begin(), _min_heap.end(), _rev_comp());
+                    throw;
+                }
                 std::move(_min_heap.begin() + mid, _min_heap.end(), std::back_inserter(_max_heap));
                 _min_heap.erase(_min_heap.begin() + mid, _min_heap.end());
                 std::make_heap(_max_heap.begin(), _max_heap.end(), _comp);
-- 
2.43.0


From cf6cd994f33055dc91aa63799c18937a2f553c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:47 +0000
Subject: [PATCH 061/158] fix: PrioritySum: erase() of an element that is not
 the last of the first k erased the wrong one

---
 library/datastructure/util/priority_sum.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/util/priority_sum.hpp b/library/datastructure/util/priority_sum.hpp
index e21d5be..465dfb4 100644
--- a/library/datastructure/util/priority_sum.hpp
+++ b/library/datastructure/util/priority_sum.hpp
@@ -29,7 +29,7 @@ namespace suisen {
                 if (_head_k.size() and v == _head_k.top()) {
                     _sum -= v;
                     _head_k.pop();
-                } else if (_head_k.size() and _rev_cmp(v, _head_k.top())) {
+                } else if (_head_k.size() and _cmp(v, _head_k.top())) {
                     _sum -= v;
                     _del_head_k.push(v);
                 } else {
-- 
2.43.0


From 2f402c5fd032b423218fe42c388269295236e0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:12 +0000
Subject: [PATCH 062/158] fix: QueueAggregation: a failed pop_front()
 duplicated elements, iterators did not compile when the sum has a type of its
 own

---
 library/datastructure/queue_aggregation.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/library/datastructure/queue_aggregation.hpp b/library/datastructure/queue_aggregation.hpp
index c3988fe..7fd05e5 100644
--- a/library/datastructure/queue_aggregation.hpp
+++ b/library/datastructure/queue_aggregation.hpp
@@ -2,6 +2,8 @@
 #define SUISEN_QUEUE_SUM
 
 #include <cassert>
+#include <iterator>
+#include <utility>
 #include <vector>
 
 namespace suisen {
@@ -24,8 +26,8 @@ namespace suisen {
             using iterator_category = std::random_access_iterator_tag;
 
         private:
-            using fi_iterator_type = typename std::vector<std::pair<value_type, value_type>>::const_reverse_iterator;
-            using se_iterator_type = typename std::vector<std::pair<value_type, value_type>>::const_iterator;
+            using fi_iterator_type = typename std::vector<std::pair<value_type, sum_type>>::const_reverse_iterator;
+            using se_iterator_type = typename std::vector<std::pair<value_type, sum_type>>::const_iterator;
         public:
 
             fi_iterator_type it_l;
@@ -95,10 +97,13 @@ namespace suisen {
             if (_st_l.size()) return _st_l.pop_back();
             const int siz = _st_r.size();
             assert(siz);
+            std::vector<std::pair<value_type, sum_type>> st_l;
+            st_l.reserve(siz - 1);
             for (int i = siz - 1; i > 0; --i) {
-                value_type v = std::move(_st_r[i].first);
-                _st_l.emplace_back(v, append(prod(_st_l), v));
+                const value_type& v = _st_r[i].first;
+                st_l.emplace_back(v, append(prod(st_l), v));
             }
+            _st_l.swap(st_l);
             _st_r.clear();
         }
         const value_type& front() const { return _st_l.size() ? _st_l.back().first : _st_r.front().first; }
-- 
2.43.0


From c9440cbfe503453ad69f5d600d65e6a31f587ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:12 +0000
Subject: [PATCH 063/158] fix: DequeAggregation: a failed pop duplicated
 elements

---
 library/datastructure/deque_aggregation.hpp | 22 +++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/library/datastructure/deque_aggregation.hpp b/library/datastructure/deque_aggregation.hpp
index 74bdf5b..535be9a 100644
--- a/library/datastructure/deque_aggregation.hpp
+++ b/library/datastructure/deque_aggregation.hpp
@@ -2,6 +2,8 @@
 #define SUISEN_DEQUE_SUM
 
 #include <cassert>
+#include <iterator>
+#include <utility>
 #include <vector>
 
 /**
@@ -122,22 +124,22 @@ namespace suisen {
             const int siz = _st_l.size();
             const int l = siz >> 1, r = siz - l;
             assert(r); // <=> siz > 0
-            for (int i = r - 1; i > 0; --i) push_back(std::move(_st_l[i].first));
-            _st_l.erase(_st_l.begin(), _st_l.begin() + r);
-            if (l == 0) return;
-            _st_l[0].second = _st_l[0].first;
-            for (int i = 1; i < l; ++i) _st_l[i].second = op(_st_l[i].first, _st_l[i - 1].second);
+            DequeAggregation res;
+            res._st_l.reserve(l), res._st_r.reserve(r - 1);
+            for (int i = r - 1; i > 0; --i) res.push_back(_st_l[i].first);
+            for (int i = r; i < siz; ++i) res.push_front(_st_l[i].first);
+            _st_l.swap(res._st_l), _st_r.swap(res._st_r);
         }
         void pop_front() {
             if (_st_l.size()) return _st_l.pop_back();
             const int siz = _st_r.size();
             const int r = siz >> 1, l = siz - r;
             assert(l); // <=> siz > 0
-            for (int i = l - 1; i > 0; --i) push_front(std::move(_st_r[i].first));
-            _st_r.erase(_st_r.begin(), _st_r.begin() + l);
-            if (r == 0) return;
-            _st_r[0].second = _st_r[0].first;
-            for (int i = 1; i < r; ++i) _st_r[i].second = op(_st_r[i - 1].second, _st_r[i].first);
+            DequeAggregation res;
+            res._st_l.reserve(l - 1), res._st_r.reserve(r);
+            for (int i = l - 1; i > 0; --i) res.push_front(_st_r[i].first);
+            for (int i = l; i < siz; ++i) res.push_back(_st_r[i].first);
+            _st_l.swap(res._st_l), _st_r.swap(res._st_r);
         }
         const value_type& front() const { return _st_l.size() ? _st_l.back().first : _st_r.front().first; }
         const value_type& back() const { return _st_r.size() ? _st_r.back().first : _st_l.front().first; }
-- 
2.43.0


From b80d899ef33ae83711b9328f3e1f4fe506932411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:12 +0000
Subject: [PATCH 064/158] fix: sliding_window_minimum: a failed proc_right()
 lost candidates

---
 library/datastructure/sliding_window_minimum.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/library/datastructure/sliding_window_minimum.hpp b/library/datastructure/sliding_window_minimum.hpp
index 36c12b7..14d0df9 100644
--- a/library/datastructure/sliding_window_minimum.hpp
+++ b/library/datastructure/sliding_window_minimum.hpp
@@ -2,8 +2,9 @@
 #define SUISEN_SLIDING_WINDOW_MINIMUM
 
 #include <cassert>
+#include <deque>
+#include <functional>
 #include <vector>
-#include <queue>
 #include <type_traits>
 
 namespace suisen {
@@ -31,8 +32,15 @@ class sliding_window_minimum {
         void proc_right() {
             assert(_r < _n);
             T v = _a[_r];
-            while (not _dq.empty() and _cmp(_a[_dq.back()], v)) _dq.pop_back();
-            _dq.push_back(_r++);
+            int k = _dq.size();
+            while (k and _cmp(_a[_dq[k - 1]], v)) --k;
+            if (k == int(_dq.size())) {
+                _dq.push_back(_r);
+            } else {
+                _dq[k] = _r;
+                _dq.resize(k + 1);
+            }
+            ++_r;
         }
         void proc_right(int to_index) {
             while (_r < to_index) proc_right();
-- 
2.43.0


From abdd19e5508e7a71b4c6385047501a754d8e8807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:12 +0000
Subject: [PATCH 065/158] fix: RangeSet: in_the_same_range() did not compile

---
 library/datastructure/util/range_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/util/range_set.hpp b/library/datastructure/util/range_set.hpp
index 11c2c83..2eb3e7c 100644
--- a/library/datastructure/util/range_set.hpp
+++ b/library/datastructure/util/range_set.hpp
@@ -35,7 +35,7 @@ struct RangeSet : public std::map<T, T> {
 
         // returns whether `x` and `y` is in this set and in the same range. O(log N)
         bool in_the_same_range(T x, T y) const {
-            auto it = get_containing_range(x);
+            auto it = find_range(x);
             return it != this->end() and it->first <= y and y <= it->second;
         }
 
-- 
2.43.0


From 4bd440782b596f5a2f1cfabfdf33829b75bbbe39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:12 +0000
Subject: [PATCH 066/158] fix: RangeSet: a failed allocation in insert() or
 erase() lost ranges

---
 library/datastructure/util/range_set.hpp | 36 ++++++++++++++----------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/library/datastructure/util/range_set.hpp b/library/datastructure/util/range_set.hpp
index 2eb3e7c..051dc71 100644
--- a/library/datastructure/util/range_set.hpp
+++ b/library/datastructure/util/range_set.hpp
@@ -1,7 +1,10 @@
 #ifndef SUISEN_RANGE_SET
 #define SUISEN_RANGE_SET
 
+#include <algorithm>
+#include <iterator>
 #include <map>
+#include <utility>
 
 namespace suisen {
 
@@ -53,13 +56,16 @@ struct RangeSet : public std::map<T, T> {
                 l = std::min(l, it->first);
             }
             T inserted = 0;
-            for (; it != this->end() and is_mergeable(r, it->first); it = std::map<T, T>::erase(it)) {
-                auto [cl, cr] = *it; 
+            auto last = it;
+            for (; last != this->end() and is_mergeable(r, last->first); ++last) {
+                auto [cl, cr] = *last;
                 r = std::max(r, cr);
                 inserted -= cr - cl + 1;
             }
             inserted += r - l + 1;
-            (*this)[l] = r;
+            auto pos = this->emplace(l, r).first;
+            pos->second = r;
+            std::map<T, T>::erase(std::next(pos), last);
             _size += inserted;
             return inserted;
         }
@@ -72,26 +78,26 @@ struct RangeSet : public std::map<T, T> {
         // erases the range [l, r] and returns the number of intergers erased from this set. amortized O(log N)
         T erase(T l, T r) {
             if (l > r) return 0;
-            T tl = l, tr = r;
             auto it = this->upper_bound(l);
             if (it != this->begin() and l <= std::prev(it)->second) {
                 it = std::prev(it);
-                tl = it->first;
+            }
+            auto last = this->upper_bound(r);
+            if (it == last) return 0;
+            if (const T tr = std::prev(last)->second; r < tr) {
+                last = this->emplace(r + 1, tr).first;
+                std::prev(last)->second = r;
             }
             T erased = 0;
-            for (; it != this->end() and it->first <= r; it = std::map<T, T>::erase(it)) {
+            if (it->first < l) {
+                erased += it->second - l + 1;
+                it->second = l - 1;
+                ++it;
+            }
+            for (; it != last; it = std::map<T, T>::erase(it)) {
                 auto [cl, cr] = *it;
-                tr = cr;
                 erased += cr - cl + 1;
             }
-            if (tl < l) {
-                (*this)[tl] = l - 1;
-                erased -= l - tl;
-            }
-            if (r < tr) {
-                (*this)[r + 1] = tr;
-                erased -= tr - r;
-            }
             _size -= erased;
             return erased;
         }
-- 
2.43.0


From 64b648d6c68e576f6365ba41e2a121d4de4339fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:12 +0000
Subject: [PATCH 067/158] fix: RangeSet: clear() and swap() kept the number of
 elements, a range that ends at the largest integer overflowed

---
 library/datastructure/util/range_set.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/library/datastructure/util/range_set.hpp b/library/datastructure/util/range_set.hpp
index 051dc71..f928aa6 100644
--- a/library/datastructure/util/range_set.hpp
+++ b/library/datastructure/util/range_set.hpp
@@ -116,11 +116,20 @@ struct RangeSet : public std::map<T, T> {
             return it == this->end() ? upper : it->first - 1;
         }
 
+        void clear() {
+            std::map<T, T>::clear();
+            _size = 0;
+        }
+        void swap(RangeSet& other) {
+            std::map<T, T>::swap(other);
+            std::swap(_size, other._size);
+        }
+
     private:
         T _size;
 
         bool is_mergeable(T cur_r, T next_l) {
-            return next_l <= cur_r + merge_adjacent_segment;
+            return next_l <= cur_r or (merge_adjacent_segment and next_l - 1 == cur_r);
         }
 };
 
-- 
2.43.0


From a4977a047fd9b429f64c3c01744f9e6b1cdf798f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:12 +0000
Subject: [PATCH 068/158] fix: MonotonicCHT: a failed add_line() lost lines

---
 .../monotonic_convex_hull_trick.hpp           | 35 ++++++++++---------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/library/datastructure/monotonic_convex_hull_trick.hpp b/library/datastructure/monotonic_convex_hull_trick.hpp
index 3f067d4..749a097 100644
--- a/library/datastructure/monotonic_convex_hull_trick.hpp
+++ b/library/datastructure/monotonic_convex_hull_trick.hpp
@@ -1,10 +1,13 @@
 #ifndef SUISEN_MONOTONIC_CHT
 #define SUISEN_MONOTONIC_CHT
 
+#include <algorithm>
 #include <cassert>
+#include <deque>
+#include <iterator>
 #include <limits>
-#include <queue>
 #include <type_traits>
+#include <utility>
 
 namespace suisen {
     namespace internal::monotonic_cht { struct query_tag_base {}; }
@@ -79,11 +82,11 @@ namespace suisen {
         void add_line(value_type slope, value_type intercept) {
             if constexpr (not is_min_query) slope = -slope, intercept = -intercept;
             if (slope <= min_slope) {
-                min_slope = slope, max_slope = std::max(max_slope, slope);
                 add_right(slope, intercept);
+                min_slope = slope, max_slope = std::max(max_slope, slope);
             } else if (slope >= max_slope) {
-                max_slope = slope, min_slope = std::min(min_slope, slope);
                 add_left(slope, intercept);
+                max_slope = slope, min_slope = std::min(min_slope, slope);
             } else assert(false);
         }
 
@@ -103,31 +106,29 @@ namespace suisen {
         }
 
         void add_left(value_type slope, value_type intercept) {
-            while (lines.size()) {
-                auto it = lines.begin();
+            if (lines.size() and lines.front().first == slope and intercept >= lines.front().second) return;
+            lines.emplace_front(slope, intercept);
+            while (lines.size() >= 2) {
+                auto it = std::next(lines.begin());
                 const auto [a, b] = *it;
-                if (a == slope) {
-                    if (intercept >= b) return;
-                } else {
+                if (a != slope) {
                     if (++it == lines.end() or is_necessary(it->first, it->second, a, b, slope, intercept)) break;
                 }
-                lines.pop_front();
+                lines.erase(std::next(lines.begin()));
             }
-            lines.emplace_front(slope, intercept);
         }
 
         void add_right(value_type slope, value_type intercept) {
-            while (lines.size()) {
-                auto it = lines.rbegin();
+            if (lines.size() and lines.back().first == slope and intercept >= lines.back().second) return;
+            lines.emplace_back(slope, intercept);
+            while (lines.size() >= 2) {
+                auto it = std::next(lines.rbegin());
                 const auto [a, b] = *it;
-                if (a == slope) {
-                    if (intercept >= b) return;
-                } else {
+                if (a != slope) {
                     if (++it == lines.rend() or is_necessary(slope, intercept, a, b, it->first, it->second)) break;
                 }
-                lines.pop_back();
+                lines.erase(std::prev(lines.end(), 2));
             }
-            lines.emplace_back(slope, intercept);
         }
 
         value_type eval(value_type x, int i) {
-- 
2.43.0


From d0f55d34c779b479357499a625981fce5efbc053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:12 +0000
Subject: [PATCH 069/158] fix: SlopeTrick: lines() did not compile

---
 library/datastructure/slope_trick.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/slope_trick.hpp b/library/datastructure/slope_trick.hpp
index 0d1a211..90d702e 100644
--- a/library/datastructure/slope_trick.hpp
+++ b/library/datastructure/slope_trick.hpp
@@ -83,7 +83,7 @@ class SlopeTrick {
 
         std::tuple<std::vector<T>, T, std::vector<T>> lines() {
             struct seq_getter_dsc : public pq_dsc { static std::vector<T> get(const pq_dsc& pq) { return pq.*&seq_getter_dsc::c; } };
-            struct seq_getter_asc : public pq_asc { static std::vector<T> get(const pq_dsc& pq) { return pq.*&seq_getter_asc::c; } };
+            struct seq_getter_asc : public pq_asc { static std::vector<T> get(const pq_asc& pq) { return pq.*&seq_getter_asc::c; } };
             std::vector<T> neg = seq_getter_dsc::get(l);
             std::vector<T> pos = seq_getter_asc::get(r);
             std::sort(neg.begin(), neg.end());
-- 
2.43.0


From 259f66ffa135e64e55c1bc5e3501c2fb8d1bde13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:12 +0000
Subject: [PATCH 070/158] fix: SlopeTrick: a failed request left the function
 half changed

---
 library/datastructure/slope_trick.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/library/datastructure/slope_trick.hpp b/library/datastructure/slope_trick.hpp
index 90d702e..ca0a0e9 100644
--- a/library/datastructure/slope_trick.hpp
+++ b/library/datastructure/slope_trick.hpp
@@ -3,9 +3,12 @@
 
 #include <algorithm>
 #include <cassert>
+#include <functional>
 #include <limits>
 #include <tuple>
 #include <queue>
+#include <utility>
+#include <vector>
 
 namespace suisen {
 
@@ -35,8 +38,9 @@ class SlopeTrick {
             if (l.top() + add_l <= a) {
                 r.push(a - add_r);
             } else {
-                base += (l.top() + add_l) - a;
-                l.push(a - add_l), r.push(l.top() + add_l - add_r), l.pop();
+                const T top = l.top() + add_l;
+                r.push(top - add_r), l.pop(), l.push(a - add_l);
+                base += top - a;
             }
             return *this;
         }
@@ -45,8 +49,9 @@ class SlopeTrick {
             if (r.top() + add_r >= a) {
                 l.push(a - add_l);
             } else {
-                base += a - (r.top() + add_r);
-                r.push(a - add_r), l.push(r.top() + add_r - add_l), r.pop();
+                const T top = r.top() + add_r;
+                l.push(top - add_l), r.pop(), r.push(a - add_r);
+                base += a - top;
             }
             return *this;
         }
@@ -56,11 +61,13 @@ class SlopeTrick {
             return *this;
         }
         SlopeTrick& cumulative_min_left() {
-            r = pq_asc{}, r.push(+inf);
+            pq_asc new_r;
+            new_r.push(+inf), r.swap(new_r);
             return *this;
         }
         SlopeTrick& cumulative_min_right() {
-            l = pq_dsc{}, l.push(-inf);
+            pq_dsc new_l;
+            new_l.push(-inf), l.swap(new_l);
             return *this;
         }
         SlopeTrick& operator<<=(const T shamt_left) {
-- 
2.43.0


From f81a5c7de438cf3d08dfdadb69c663498ffd73ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:12 +0000
Subject: [PATCH 071/158] fix: fenwick_tree_set: max_leq() of an empty universe
 read out of range, queries at the largest and smallest integer overflowed

---
 library/datastructure/fenwick_tree/fenwick_tree_set.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/library/datastructure/fenwick_tree/fenwick_tree_set.hpp b/library/datastructure/fenwick_tree/fenwick_tree_set.hpp
index 63dad3e..8cf1355 100644
--- a/library/datastructure/fenwick_tree/fenwick_tree_set.hpp
+++ b/library/datastructure/fenwick_tree/fenwick_tree_set.hpp
@@ -1,6 +1,7 @@
 #ifndef SUISEN_FENWICK_TREE_SET
 #define SUISEN_FENWICK_TREE_SET
 
+#include <algorithm>
 #include <array>
 #include <cassert>
 #include <cstdint>
@@ -93,7 +94,7 @@ namespace suisen {
         }
         // O(log n).
         // Count elements <= `v`. `v` may be out of range.
-        int count_leq(int v) const { return count_lt(v + 1); }
+        int count_leq(int v) const { return v >= _n ? _siz : count_lt(v + 1); }
         // O(log n).
         // Count elements > `v`. `v` may be out of range.
         int count_gt(int v) const { return _siz - count_leq(v); }
@@ -127,8 +128,8 @@ namespace suisen {
         // O(log n).
         // Max element <= `v` or `-1` if not exists
         int max_leq(int v) const {
-            if (v < 0) return -1;
             v = std::min(v, _n - 1);
+            if (v < 0) return -1;
             const auto [t, u] = index(v);
             const int lz = (WORD - 1) - u;
             if (const uint64_t bits = _bs[t] << lz >> lz) {
@@ -142,7 +143,7 @@ namespace suisen {
         }
         // O(log n).
         // Max element < `v` or `-1` if not exists
-        int max_lt(int v) const { return max_leq(v - 1); }
+        int max_lt(int v) const { return v <= 0 ? -1 : max_leq(v - 1); }
         // O(log n).
         // Min element >= `v` or `-1` if not exists
         int min_geq(int v) const {
@@ -160,7 +161,7 @@ namespace suisen {
         }
         // O(log n).
         // Min element > `v` or `-1` if not exists
-        int min_gt(int v) const { return min_geq(v + 1); }
+        int min_gt(int v) const { return v >= _n ? -1 : min_geq(v + 1); }
     private:
         struct IndexHolder {
             friend fenwick_tree_set;
-- 
2.43.0


From dc8f481c6c8573e9696689baf907d9b8b9b64fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:00 +0000
Subject: [PATCH 072/158] fix: ObjectPool: a failed extension left an invalid
 iterator and slots that were never handed out

---
 library/util/object_pool.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/library/util/object_pool.hpp b/library/util/object_pool.hpp
index 3a1012f..e0dd2bf 100644
--- a/library/util/object_pool.hpp
+++ b/library/util/object_pool.hpp
@@ -2,6 +2,7 @@
 #define SUISEN_OBJECT_POOL
 
 #include <deque>
+#include <type_traits>
 #include <vector>
 
 namespace suisen {
@@ -43,8 +44,14 @@ namespace suisen {
         void ensure() {
             if (it != stock.end()) return;
             int siz = stock.size();
-            for (int i = siz; i <= siz * 2; ++i) {
-                stock.push_back(&pool.emplace_back());
+            try {
+                for (int i = siz; i <= siz * 2; ++i) {
+                    stock.push_back(&pool.emplace_back());
+                }
+            } catch (...) {
+                pool.resize(siz), stock.resize(siz);
+                it = stock.end();
+                throw;
             }
             it = stock.begin() + siz;
         }
-- 
2.43.0


From cf4d76c72c366501927fceb2d6360529de301fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:00 +0000
Subject: [PATCH 073/158] fix: ptr32: a constructor that throws in alloc() lost
 the slot

---
 library/util/pointer_32bit.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/library/util/pointer_32bit.hpp b/library/util/pointer_32bit.hpp
index f139781..961b964 100644
--- a/library/util/pointer_32bit.hpp
+++ b/library/util/pointer_32bit.hpp
@@ -1,6 +1,8 @@
 #ifndef SUISEN_32BIT_POINTER
 #define SUISEN_32BIT_POINTER
 
+#include <cstddef>
+#include <utility>
 #include <vector>
 
 namespace suisen {
@@ -35,8 +37,8 @@ namespace suisen {
         static ptr32 alloc(Args &&...args) {
             if (del.size()) {
                 ptr32 ptr(del.back());
-                del.pop_back();
                 *ptr = object_type(std::forward<Args>(args)...);
+                del.pop_back();
                 return ptr;
             } else {
                 ptr32 ptr(pool.size());
-- 
2.43.0


From 507fc2ff29173a79802492b1644a4143497f90ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:42 +0000
Subject: [PATCH 074/158] fix: ArrayTrie: a failed allocation in add() left an
 edge to a node that does not exist

---
 library/string/trie_array.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/library/string/trie_array.hpp b/library/string/trie_array.hpp
index 34fc66b..dc7c629 100644
--- a/library/string/trie_array.hpp
+++ b/library/string/trie_array.hpp
@@ -56,12 +56,14 @@ namespace suisen {
             for (key_type c : s) {
                 c -= offset;
                 if (nodes[cur][c] == none) {
-                    nodes[cur][c] = nodes.size();
+                    // allocate the node before linking it
+                    const int nxt = nodes.size();
                     if constexpr (std::is_base_of_v<ArrayTrieNodeWithParentLink<alphabet_size, offset>, node_type>) {
                         nodes.emplace_back(cur, c);
                     } else {
                         nodes.emplace_back();
                     }
+                    nodes[cur][c] = nxt;
                 }
                 cur = nodes[cur][c];
             }
-- 
2.43.0


From ab0b957285a046622383d27d2bb122eeb9046d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:42 +0000
Subject: [PATCH 075/158] fix: MapTrie: a failed allocation in add() left an
 edge to a node that does not exist

---
 library/string/trie_map.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/library/string/trie_map.hpp b/library/string/trie_map.hpp
index e007187..b9dc191 100644
--- a/library/string/trie_map.hpp
+++ b/library/string/trie_map.hpp
@@ -44,9 +44,21 @@ namespace suisen {
         node_type& add(const Container& s, int start = 0) {
             int cur = start;
             for (key_type c : s) {
-                auto [it, inserted] = nodes[cur].try_emplace(c, nodes.size());
-                if (inserted) nodes.emplace_back();
-                cur = it->second;
+                auto it = nodes[cur].find(c);
+                if (it == nodes[cur].end()) {
+                    // allocate the node before linking it
+                    const int nxt = nodes.size();
+                    nodes.emplace_back();
+                    try {
+                        nodes[cur].emplace(c, nxt);
+                    } catch (...) {
+                        nodes.pop_back();
+                        throw;
+                    }
+                    cur = nxt;
+                } else {
+                    cur = it->second;
+                }
             }
             return nodes[cur];
         }
-- 
2.43.0


From 2893f88bb1f03783f9365c7bfc6d37b7b44d4ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:42 +0000
Subject: [PATCH 076/158] fix: BinaryTrie: insert() terminated the program when
 an allocation failed

---
 library/datastructure/binary_trie.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/library/datastructure/binary_trie.hpp b/library/datastructure/binary_trie.hpp
index b1e2f30..96f0f94 100644
--- a/library/datastructure/binary_trie.hpp
+++ b/library/datastructure/binary_trie.hpp
@@ -19,7 +19,7 @@ class BinaryTrie {
             delete ch[0];
             delete ch[1];
         }
-        inline Node* get_or_create(bool b) noexcept {
+        inline Node* get_or_create(bool b) {
             if (is_absent(b)) ch[b] = new Node();
             return ch[b];
         }
@@ -56,12 +56,15 @@ class BinaryTrie {
         inline int size() const noexcept { return Node::size(root); }
         inline bool empty() const noexcept { return size() == 0; }
 
-        int insert(const U val, const int num = 1) noexcept {
+        int insert(const U val, const int num = 1) {
             if (num == 0) return 0;
             Node *cur = root;
+            // allocate all nodes before counting the new elements
+            for (int i = bit_length; i --> 0;) cur = cur->get_or_create(bit(val, i));
+            cur = root;
             cur->siz += num;
             for (int i = bit_length; i --> 0;) {
-                cur = cur->get_or_create(bit(val, i));
+                cur = (*cur)[bit(val, i)];
                 cur->siz += num;
             }
             return cur->siz;
-- 
2.43.0


From 174978fac58f16f34d78ff05a4ebbe633c56dab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:42 +0000
Subject: [PATCH 077/158] fix: BinaryTrie: xor_count_leq() counted the elements
 equal to val instead of x ^ val

---
 library/datastructure/binary_trie.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/binary_trie.hpp b/library/datastructure/binary_trie.hpp
index 96f0f94..f31a0bb 100644
--- a/library/datastructure/binary_trie.hpp
+++ b/library/datastructure/binary_trie.hpp
@@ -111,7 +111,7 @@ class BinaryTrie {
             }
             return res;
         }
-        inline int xor_count_leq(const U x, const U val) const noexcept { return xor_count_lt(x, val) + count(val); }
+        inline int xor_count_leq(const U x, const U val) const noexcept { return xor_count_lt(x, val) + count(x ^ val); }
         inline int xor_count_gt (const U x, const U val) const noexcept { return size() - xor_count_leq(x, val);    }
         inline int xor_count_geq(const U x, const U val) const noexcept { return size() - xor_count_lt(x, val);     }
         inline U xor_lower(const U x, const U val, const U default_value = ~U(0)) const noexcept {
-- 
2.43.0


From 7c049ff20288021041ef839ff0ba3fa7dc4526d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:42 +0000
Subject: [PATCH 078/158] fix: BinaryTrie: max() returned the complement of the
 largest element

---
 library/datastructure/binary_trie.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/binary_trie.hpp b/library/datastructure/binary_trie.hpp
index f31a0bb..acf4909 100644
--- a/library/datastructure/binary_trie.hpp
+++ b/library/datastructure/binary_trie.hpp
@@ -133,7 +133,7 @@ class BinaryTrie {
 
         inline U kth_min(const int k) const { return xor_kth_min(0, k); }
         inline U min() const { return xor_kth_min(0, 0); }
-        inline U max() const { return xor_kth_min(~U(0), 0); }
+        inline U max() const { return xor_kth_max(0, 0); }
         inline int count_lt (const U val) const noexcept { return xor_count_lt(0, val);  }
         inline int count_leq(const U val) const noexcept { return xor_count_leq(0, val); }
         inline int count_gt (const U val) const noexcept { return xor_count_gt(0, val);  }
-- 
2.43.0


From 668376e2c5e9197ea26cc7031ccf9a62fca7b149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:43 +0000
Subject: [PATCH 079/158] fix: BinaryTrie: a copy shared its nodes with the
 original, which were then freed twice

---
 library/datastructure/binary_trie.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/library/datastructure/binary_trie.hpp b/library/datastructure/binary_trie.hpp
index acf4909..f36869e 100644
--- a/library/datastructure/binary_trie.hpp
+++ b/library/datastructure/binary_trie.hpp
@@ -5,6 +5,7 @@
 #include <limits>
 #include <optional>
 #include <string>
+#include <utility>
 #include <vector>
 
 namespace suisen {
@@ -23,6 +24,17 @@ class BinaryTrie {
             if (is_absent(b)) ch[b] = new Node();
             return ch[b];
         }
+        Node* clone() const {
+            Node *res = new Node();
+            try {
+                res->siz = siz;
+                for (int b = 0; b < 2; ++b) if (is_present(b)) res->ch[b] = ch[b]->clone();
+            } catch (...) {
+                delete res;
+                throw;
+            }
+            return res;
+        }
         inline Node* operator[](bool b) const noexcept { return ch[b]; }
         inline bool is_absent (bool b) const noexcept { return ch[b] == nullptr; }
         inline bool is_present(bool b) const noexcept { return ch[b] != nullptr; }
@@ -51,6 +63,9 @@ class BinaryTrie {
     };
     public:
         BinaryTrie() : root(new Node) {}
+        BinaryTrie(const BinaryTrie &other) : root(other.root->clone()) {}
+        BinaryTrie(BinaryTrie &&other) : BinaryTrie() { std::swap(root, other.root); }
+        BinaryTrie& operator=(BinaryTrie other) noexcept { return std::swap(root, other.root), *this; }
         ~BinaryTrie() { delete root; }
 
         inline int size() const noexcept { return Node::size(root); }
@@ -146,7 +161,7 @@ class BinaryTrie {
         inline std::string to_string() const noexcept { return root->to_string(); }
         friend std::ostream& operator<<(std::ostream& out, const BinaryTrie &bt) { return out << bt.to_string(); }
     private:
-        Node *const root;
+        Node *root;
         static constexpr bool bit(const U val, const int i) noexcept {
             return (val >> i) & 1;
         }
-- 
2.43.0


From 94cfff4c566231905fcc365d25950bf18e7f5833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:43 +0000
Subject: [PATCH 080/158] fix: BinaryTriePatricia: values as wide as their type
 were shifted by their whole width: contains() and counts were wrong

---
 .../datastructure/binary_trie_patricia.hpp    | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/library/datastructure/binary_trie_patricia.hpp b/library/datastructure/binary_trie_patricia.hpp
index 9852540..53c52a4 100644
--- a/library/datastructure/binary_trie_patricia.hpp
+++ b/library/datastructure/binary_trie_patricia.hpp
@@ -90,7 +90,7 @@ namespace suisen {
                 const uint32_t ch_idx = val & (ary - 1);
                 node_pointer_type nxt = cur->ch[ch_idx];
                 if (not nxt or cut_lower(val ^ nxt->val, nxt->len)) return 0;
-                val >>= nxt->len;
+                val = drop_lower(val, nxt->len);
                 l += nxt->len;
                 cur = nxt;
             }
@@ -123,7 +123,7 @@ namespace suisen {
                     }
                 }
                 res |= nxt->val << l;
-                x >>= nxt->len;
+                x = drop_lower(x, nxt->len);
                 l += nxt->len;
                 cur = nxt;
             }
@@ -138,7 +138,7 @@ namespace suisen {
         // #{ v in S | x ^ v < upper }
         __attribute__((target("bmi")))
         size_type xor_count_lt (unsigned_value_type x, unsigned_value_type upper) const {
-            if (upper >> bit_num) return _root->siz;
+            if (drop_lower(upper, bit_num)) return _root->siz;
             bit_reverse(x);
             bit_reverse(upper);
             internal_size_type res = 0;
@@ -159,8 +159,8 @@ namespace suisen {
                     uint32_t tz = len <= 32 ? _tzcnt_u32(vlo ^ ulo) : _tzcnt_u64(vlo ^ ulo);
                     return (ulo >> tz) & 1 ? res + nxt->siz : res;
                 }
-                x >>= len;
-                upper >>= len;
+                x = drop_lower(x, len);
+                upper = drop_lower(upper, len);
                 l += len;
                 cur = nxt;
             }
@@ -252,8 +252,11 @@ namespace suisen {
 
         node_pointer_type _root = node_type::new_node(0, 0, 0);
 
+        static constexpr unsigned_value_type drop_lower(const unsigned_value_type& val, uint32_t r) {
+            return r >= uint32_t(std::numeric_limits<unsigned_value_type>::digits) ? 0 : val >> r;
+        }
         static constexpr unsigned_value_type cut_lower(const unsigned_value_type& val, uint32_t r) {
-            return val & ((unsigned_value_type(1) << r) - 1);
+            return r >= uint32_t(std::numeric_limits<unsigned_value_type>::digits) ? val : val & ((unsigned_value_type(1) << r) - 1);
         }
         static constexpr uint32_t bit_reverse_u32(uint32_t x) {
             x = (((x & 0xaaaaaaaa) >> 1) | ((x & 0x55555555) << 1));
@@ -292,7 +295,7 @@ namespace suisen {
             uint32_t len = nxt->len, tz = len <= 32 ? _tzcnt_u32(x) : _tzcnt_u64(x);
             tz -= tz & (log_ary - 1);
             if (tz >= len) {
-                bool inserted = _insert_if_absent(nxt, l + len, val >> len);
+                bool inserted = _insert_if_absent(nxt, l + len, drop_lower(val, len));
                 cur->siz += inserted;
                 return inserted;
             }
@@ -320,7 +323,7 @@ namespace suisen {
             unsigned_value_type x = val ^ nxt->val;
             uint32_t len = nxt->len, tz = len <= 32 ? _tzcnt_u32(x) : _tzcnt_u64(x);
             tz -= tz & (log_ary - 1);
-            if (tz >= len) return _insert(nxt, l + len, val >> len, num);
+            if (tz >= len) return _insert(nxt, l + len, drop_lower(val, len), num);
             node_pointer_type br = node_type::new_node(cut_lower(nxt->val, tz), tz, nxt->siz + num);
             cur->ch[idx] = br;
             nxt->val >>= tz;
@@ -339,7 +342,7 @@ namespace suisen {
             const uint32_t idx = val & (ary - 1);
             node_pointer_type nxt = cur->ch[idx];
             if (not nxt or cut_lower(val ^ nxt->val, nxt->len)) return num = 0, false;
-            bool deleted = _erase(nxt, num, l + nxt->len, val >> nxt->len);
+            bool deleted = _erase(nxt, num, l + nxt->len, drop_lower(val, nxt->len));
             cur->siz -= num;
             if (not deleted) return false;
             cur->ch[idx] = nullptr;
-- 
2.43.0


From e30f9309c2b52b9ea76b0a7a5241aa536c5511ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:43 +0000
Subject: [PATCH 081/158] fix: BinaryTriePatricia: a failed allocation left a
 wrong number of elements or a dangling root

---
 .../datastructure/binary_trie_patricia.hpp    | 43 ++++++++++++-------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/library/datastructure/binary_trie_patricia.hpp b/library/datastructure/binary_trie_patricia.hpp
index 53c52a4..43a14aa 100644
--- a/library/datastructure/binary_trie_patricia.hpp
+++ b/library/datastructure/binary_trie_patricia.hpp
@@ -64,7 +64,7 @@ namespace suisen {
         bool empty() const {
             return _root->siz == 0;
         }
-        void clear() { delete _root; _root = node_type::new_node(0, 0, 0); }
+        void clear() { delete std::exchange(_root, node_type::new_node(0, 0, 0)); }
 
         // returns true iff insertion is succeeded.
         bool insert_if_absent(unsigned_value_type val) {
@@ -299,38 +299,51 @@ namespace suisen {
                 cur->siz += inserted;
                 return inserted;
             }
-            node_pointer_type br = node_type::new_node(cut_lower(nxt->val, tz), tz, nxt->siz + 1);
-            cur->ch[idx] = br;
-            nxt->val >>= tz;
-            nxt->len -= tz;
-            val >>= tz;
-            br->ch[nxt->val & (ary - 1)] = nxt;
-            br->ch[val & (ary - 1)] = node_type::new_node(val, bit_num - l - tz, 1);
+            cur->ch[idx] = _branch(nxt, tz, l, val, 1);
             ++cur->siz;
             return true;
         }
 
         __attribute__((target("bmi")))
         void _insert(node_pointer_type cur, uint32_t l, unsigned_value_type val, internal_size_type num) {
-            cur->siz += num;
-            if (l == bit_num) return;
+            // the new elements are counted after the last allocation
+            if (l == bit_num) {
+                cur->siz += num;
+                return;
+            }
             const uint32_t idx = val & (ary - 1);
             node_pointer_type nxt = cur->ch[idx];
             if (not nxt) {
                 cur->ch[idx] = node_type::new_node(val, bit_num - l, num);
+                cur->siz += num;
                 return;
             }
             unsigned_value_type x = val ^ nxt->val;
             uint32_t len = nxt->len, tz = len <= 32 ? _tzcnt_u32(x) : _tzcnt_u64(x);
             tz -= tz & (log_ary - 1);
-            if (tz >= len) return _insert(nxt, l + len, drop_lower(val, len), num);
-            node_pointer_type br = node_type::new_node(cut_lower(nxt->val, tz), tz, nxt->siz + num);
-            cur->ch[idx] = br;
+            if (tz >= len) {
+                _insert(nxt, l + len, drop_lower(val, len), num);
+            } else {
+                cur->ch[idx] = _branch(nxt, tz, l, val, num);
+            }
+            cur->siz += num;
+        }
+
+        // splits the edge to nxt after tz bits and adds a leaf for val there. Nothing is changed if an allocation fails.
+        static node_pointer_type _branch(node_pointer_type nxt, uint32_t tz, uint32_t l, unsigned_value_type val, internal_size_type num) {
+            val >>= tz;
+            node_pointer_type leaf = node_type::new_node(val, bit_num - l - tz, num), br = nullptr;
+            try {
+                br = node_type::new_node(cut_lower(nxt->val, tz), tz, nxt->siz + num);
+            } catch (...) {
+                delete leaf;
+                throw;
+            }
             nxt->val >>= tz;
             nxt->len -= tz;
-            val >>= tz;
             br->ch[nxt->val & (ary - 1)] = nxt;
-            br->ch[val & (ary - 1)] = node_type::new_node(val, bit_num - l - tz, num);
+            br->ch[val & (ary - 1)] = leaf;
+            return br;
         }
 
         bool _erase(node_pointer_type cur, internal_size_type &num, uint32_t l, unsigned_value_type val) {
-- 
2.43.0


From b49770bca8fe85ff00cc57882af1e089a76d42c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:43 +0000
Subject: [PATCH 082/158] fix: BinaryTriePatricia: a copy shared its nodes with
 the original, which were then freed twice

---
 library/datastructure/binary_trie_patricia.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/library/datastructure/binary_trie_patricia.hpp b/library/datastructure/binary_trie_patricia.hpp
index 43a14aa..0041cc4 100644
--- a/library/datastructure/binary_trie_patricia.hpp
+++ b/library/datastructure/binary_trie_patricia.hpp
@@ -46,12 +46,26 @@ namespace suisen {
                 for (uint32_t i = 0; i < ary; ++i) delete ch[i];
             }
 
+            node_pointer_type clone() const {
+                node_pointer_type res = new_node(val, len, siz);
+                try {
+                    for (uint32_t i = 0; i < ary; ++i) if (ch[i]) res->ch[i] = ch[i]->clone();
+                } catch (...) {
+                    delete res;
+                    throw;
+                }
+                return res;
+            }
+
             static node_pointer_type new_node(const unsigned_value_type& val, uint32_t len, internal_size_type siz) {
                 return new node_type(val, len, siz);
             }
         };
 
         BinaryTriePatricia() = default;
+        BinaryTriePatricia(const BinaryTriePatricia& other) : _root(other._root->clone()) {}
+        BinaryTriePatricia(BinaryTriePatricia&& other) : BinaryTriePatricia() { std::swap(_root, other._root); }
+        BinaryTriePatricia& operator=(BinaryTriePatricia other) noexcept { return std::swap(_root, other._root), *this; }
         ~BinaryTriePatricia() {
             delete _root;
         }
-- 
2.43.0


From 8cdcd67ae16be7abd7543a43f997a99f32ea7433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:00 +0000
Subject: [PATCH 083/158] fix: BinaryTriePatricia: xor_max() returned the
 complement of the largest xor

---
 library/datastructure/binary_trie_patricia.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/binary_trie_patricia.hpp b/library/datastructure/binary_trie_patricia.hpp
index 0041cc4..119dbbf 100644
--- a/library/datastructure/binary_trie_patricia.hpp
+++ b/library/datastructure/binary_trie_patricia.hpp
@@ -118,7 +118,7 @@ namespace suisen {
         }
         // max{ x ^ v | v in S }
         value_type xor_max(const unsigned_value_type& x) const {
-            return xor_min(~x);
+            return xor_kth_max(x, 0);
         }
 
         // k-th smallest of { x ^ v | v in S } (0-indexed)
-- 
2.43.0


From 5455a95a6a13636754d72e2448a37fce9fda2a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:18 +0000
Subject: [PATCH 084/158] fix: BinaryTriePatricia: insert() of zero copies made
 insert_if_absent() believe that the element exists

---
 library/datastructure/binary_trie_patricia.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/datastructure/binary_trie_patricia.hpp b/library/datastructure/binary_trie_patricia.hpp
index 119dbbf..a02fec1 100644
--- a/library/datastructure/binary_trie_patricia.hpp
+++ b/library/datastructure/binary_trie_patricia.hpp
@@ -86,6 +86,7 @@ namespace suisen {
             return _insert_if_absent(_root, 0, val);
         }
         void insert(unsigned_value_type val, internal_size_type num = 1) {
+            if (num == 0) return;
             bit_reverse(val);
             _insert(_root, 0, val, num);
         }
-- 
2.43.0


From 137f2917c542dd31dd4363f6d9ab5361b11615bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:10 +0000
Subject: [PATCH 085/158] fix: AhoCorasick: a failed allocation in add() left a
 transition to a state that does not exist

---
 library/string/aho_corasick.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/library/string/aho_corasick.hpp b/library/string/aho_corasick.hpp
index bdf23cf..ac3b96e 100644
--- a/library/string/aho_corasick.hpp
+++ b/library/string/aho_corasick.hpp
@@ -15,14 +15,26 @@ namespace suisen {
 
         template <typename Container, std::enable_if_t<std::is_constructible_v<value_type, typename Container::value_type>, std::nullptr_t> = nullptr>
         void add(const Container& s) {
+            _built = false;
             int cur = init_state();
             for (value_type c : s) {
-                auto [it, inserted] = _next[cur].try_emplace(c, _next.size());
-                if (inserted) _next.emplace_back();
-                cur = it->second;
+                auto it = _next[cur].find(c);
+                if (it == _next[cur].end()) {
+                    // allocate the state before linking it
+                    const int nxt = _next.size();
+                    _next.emplace_back();
+                    try {
+                        _next[cur].emplace(c, nxt);
+                    } catch (...) {
+                        _next.pop_back();
+                        throw;
+                    }
+                    cur = nxt;
+                } else {
+                    cur = it->second;
+                }
             }
             _marks.push_back(cur);
-            _built = false;
         }
 
         void build() {
-- 
2.43.0


From cdedd208cdf3ec6707f91e3b114dcd87294ed0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:10 +0000
Subject: [PATCH 086/158] fix: AhoCorasick: build() after a build counted the
 patterns again, a failed build() passed for a finished one

---
 library/string/aho_corasick.hpp | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/library/string/aho_corasick.hpp b/library/string/aho_corasick.hpp
index ac3b96e..41f22d6 100644
--- a/library/string/aho_corasick.hpp
+++ b/library/string/aho_corasick.hpp
@@ -38,10 +38,9 @@ namespace suisen {
         }
 
         void build() {
-            _built = true;
             const int n = _next.size();
-            _failure.resize(n, 0);
-            _count.resize(n, 0);
+            _failure.assign(n, 0);
+            _count.assign(n, 0);
             for (int mark : _marks) ++_count[mark];
             std::deque<int> dq{ 0 };
             while (dq.size()) {
@@ -49,12 +48,13 @@ namespace suisen {
                 dq.pop_front();
                 for (const auto& [c, nxt] : _next[cur]) {
                     if (cur) {
-                        _failure[nxt] = next_state(_failure[cur], c);
+                        _failure[nxt] = next_state_unchecked(_failure[cur], c);
                         _count[nxt] += _count[_failure[nxt]];
                     }
                     dq.push_back(nxt);
                 }
             }
+            _built = true;
         }
 
         int init_state() const {
@@ -62,14 +62,7 @@ namespace suisen {
         }
         int next_state(int state, value_type c) const {
             assert(_built);
-            while (true) {
-                if (auto it = _next[state].find(c); it == _next[state].end()) {
-                    if (state == 0) return 0;
-                    state = _failure[state];
-                } else {
-                    return it->second;
-                }
-            }
+            return next_state_unchecked(state, c);
         }
         int count_suffix_matching(int state) const {
             assert(_built);
@@ -81,6 +74,17 @@ namespace suisen {
         std::vector<int> _marks;
         std::vector<int> _count;
         bool _built = true;
+
+        int next_state_unchecked(int state, value_type c) const {
+            while (true) {
+                if (auto it = _next[state].find(c); it == _next[state].end()) {
+                    if (state == 0) return 0;
+                    state = _failure[state];
+                } else {
+                    return it->second;
+                }
+            }
+        }
     };
 } // namespace suisen
 
-- 
2.43.0


From 4d2e06bb5a304e2bb99fafab7e89b7b3044a52c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:10 +0000
Subject: [PATCH 087/158] fix: AhoCorasickArray: build() after a failed build()
 counted patterns twice

---
 library/string/aho_corasick_array.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/library/string/aho_corasick_array.hpp b/library/string/aho_corasick_array.hpp
index c46d839..2199943 100644
--- a/library/string/aho_corasick_array.hpp
+++ b/library/string/aho_corasick_array.hpp
@@ -3,7 +3,6 @@
 
 #include <array>
 #include <cassert>
-#include <deque>
 #include <vector>
 
 #include "library/string/trie_array.hpp"
@@ -29,18 +28,20 @@ namespace suisen {
         }
 
         void build() {
+            // nothing is changed if the allocation fails
+            std::vector<int> que;
+            que.reserve(this->nodes.size());
             this->nodes[0].failure = init_state();
-            std::deque<int> dq{ init_state() };
-            while (dq.size()) {
-                const int cur = dq.front();
-                dq.pop_front();
+            que.push_back(init_state());
+            for (std::size_t head = 0; head < que.size(); ++head) {
+                const int cur = que[head];
                 const auto& links = this->nodes[this->nodes[cur].failure];
                 for (int i = 0; i < alphabet_size; ++i) {
                     const int link = cur ? links[i] : init_state();
                     if (int& nxt = this->nodes[cur][i]; nxt != node_type::none) {
                         this->nodes[nxt].failure = link;
                         this->nodes[nxt].count += this->nodes[link].count;
-                        dq.push_back(nxt);
+                        que.push_back(nxt);
                     } else {
                         nxt = link;
                     }
-- 
2.43.0


From a22904fdc2e81ba767bff7bcd237c0bb7908b66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:10 +0000
Subject: [PATCH 088/158] fix: PalindromicTree: a failed allocation in add()
 left a broken tree

---
 library/string/palindromic_tree.hpp | 52 +++++++++++++++--------------
 1 file changed, 27 insertions(+), 25 deletions(-)

diff --git a/library/string/palindromic_tree.hpp b/library/string/palindromic_tree.hpp
index ff459b1..d8b37ba 100644
--- a/library/string/palindromic_tree.hpp
+++ b/library/string/palindromic_tree.hpp
@@ -57,42 +57,44 @@ namespace suisen {
             int add(const value_type& val) {
                 _seq.push_back(val);
 
-                node_pointer_type par_node = _find_next_longest_suffix_palindrome(_get_node(_active_index));
-                auto& ch = par_node->_children;
+                const int par_index = _find_next_longest_suffix_palindrome(_get_node(_active_index)) - _nodes.data();
+                const int new_index = _nodes.size();
 
                 bool inserted = false;
 
-                if constexpr (is_map) {
-                    const auto [it, inserted_tmp] = ch.emplace(val, _nodes.size());
-                    inserted = inserted_tmp;
-                    _active_index = it->second;
-                } else if constexpr (is_vector) {
-                    if (value_type(ch.size()) <= val) ch.resize(val + 1, NODE_NULL);
-                    if (ch[val] == NODE_NULL) {
-                        inserted = true;
-                        ch[val] = _nodes.size();
-                        _active_index = _nodes.size();
-                    } else {
+                // nothing is changed if an allocation fails
+                try {
+                    _new_node();
+                    auto& ch = _get_node(par_index)->_children;
+                    if constexpr (is_map) {
+                        const auto [it, inserted_tmp] = ch.emplace(val, new_index);
+                        inserted = inserted_tmp;
+                        _active_index = it->second;
+                    } else if constexpr (is_vector) {
+                        if (value_type(ch.size()) <= val) ch.resize(val + 1, NODE_NULL);
+                        inserted = ch[val] == NODE_NULL;
+                        if (inserted) ch[val] = new_index;
                         _active_index = ch[val];
-                    }
-                } else if constexpr (is_array) {
-                    if (ch[val] == NODE_NULL) {
-                        inserted = true;
-                        ch[val] = _nodes.size();
-                        _active_index = _nodes.size();
-                    } else {
+                    } else if constexpr (is_array) {
+                        inserted = ch[val] == NODE_NULL;
+                        if (inserted) ch[val] = new_index;
                         _active_index = ch[val];
-                    }
-                } else static_assert(false_v<void>);
+                    } else static_assert(false_v<void>);
+                } catch (...) {
+                    _nodes.resize(new_index);
+                    _seq.pop_back();
+                    throw;
+                }
                 if (not inserted) {
+                    _nodes.pop_back();
                     ++_get_node(_active_index)->_multiplicity;
                     return _active_index;
                 }
 
-                int par_length = par_node->_length;
-                int par_suffix_link = par_node->_suffix_link;
+                int par_length = _get_node(par_index)->_length;
+                int par_suffix_link = _get_node(par_index)->_suffix_link;
 
-                node_pointer_type new_node = _new_node();
+                node_pointer_type new_node = _get_node(new_index);
 
                 new_node->_multiplicity = 1;
                 new_node->_length = par_length + 2;
-- 
2.43.0


From ee4fc6d76516a40976b9b0b283692f440e2c0a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:10 +0000
Subject: [PATCH 089/158] fix: PalindromicTree: clear() kept edges to nodes
 that no longer exist

---
 library/string/palindromic_tree.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/library/string/palindromic_tree.hpp b/library/string/palindromic_tree.hpp
index d8b37ba..93b9794 100644
--- a/library/string/palindromic_tree.hpp
+++ b/library/string/palindromic_tree.hpp
@@ -173,6 +173,7 @@ namespace suisen {
                     _nodes.clear();
                 } else {
                     _nodes.erase(_nodes.begin() + 2, _nodes.end());
+                    for (node_type& node : _nodes) _clear_children(node);
                 }
             }
 
@@ -192,11 +193,16 @@ namespace suisen {
 
             node_pointer_type _new_node() {
                 node_pointer_type new_node = &_nodes.emplace_back();
-                if constexpr (not (is_map or is_vector)) {
-                    std::fill(new_node->_children.begin(), new_node->_children.end(), NODE_NULL);
-                }
+                _clear_children(*new_node);
                 return new_node;
             }
+            void _clear_children(node_type& node) {
+                if constexpr (is_map or is_vector) {
+                    node._children.clear();
+                } else {
+                    std::fill(node._children.begin(), node._children.end(), NODE_NULL);
+                }
+            }
 
             node_pointer_type _find_next_longest_suffix_palindrome(node_pointer_type node) {
                 const int sz = _seq.size();
-- 
2.43.0


From 62665b4dda620f9ba89f1c7e852366c876ec28e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:10 +0000
Subject: [PATCH 090/158] fix: SuffixAutomaton: a failed allocation in append()
 left a broken automaton

---
 library/string/suffix_automaton.hpp | 31 +++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/library/string/suffix_automaton.hpp b/library/string/suffix_automaton.hpp
index 348eada..781c8c6 100644
--- a/library/string/suffix_automaton.hpp
+++ b/library/string/suffix_automaton.hpp
@@ -41,16 +41,27 @@ struct SuffixAutomatonBase {
         const int new_node = nodes.size();
         const int new_node_index = nodes[last].index + 1;
         nodes.push_back({ {}, -1, nodes[last].len + 1, false, new_node_index });
-        int p = last;
-        for (; p != -1 and not nodes[p].nxt.count(c); p = nodes[p].link) nodes[p].nxt[c] = new_node;
-        const int q = p == -1 ? 0 : nodes[p].nxt[c];
-        if (p == -1 or nodes[p].len + 1 == nodes[q].len) {
-            nodes[new_node].link = q;
-        } else {
-            const int clone_node = nodes.size();
-            nodes.push_back({ nodes[q].nxt, nodes[q].link, nodes[p].len + 1, true, new_node_index });
-            for (; p != -1 and nodes[p].nxt[c] == q; p = nodes[p].link) nodes[p].nxt[c] = clone_node;
-            nodes[new_node].link = nodes[q].link = clone_node;
+        try {
+            int p = last;
+            for (; p != -1 and not nodes[p].nxt.count(c); p = nodes[p].link) nodes[p].nxt[c] = new_node;
+            const int q = p == -1 ? 0 : nodes[p].nxt[c];
+            if (p == -1 or nodes[p].len + 1 == nodes[q].len) {
+                nodes[new_node].link = q;
+            } else {
+                const int clone_node = nodes.size();
+                nodes.push_back({ nodes[q].nxt, nodes[q].link, nodes[p].len + 1, true, new_node_index });
+                for (; p != -1 and nodes[p].nxt[c] == q; p = nodes[p].link) nodes[p].nxt[c] = clone_node;
+                nodes[new_node].link = nodes[q].link = clone_node;
+            }
+        } catch (...) {
+            // an allocation failed: take back the transitions to the new state
+            for (int p = last; p != -1; p = nodes[p].link) {
+                auto it = nodes[p].nxt.find(c);
+                if (it == nodes[p].nxt.end() or it->second != new_node) break;
+                nodes[p].nxt.erase(it);
+            }
+            nodes.pop_back();
+            throw;
         }
         last = new_node;
     }
-- 
2.43.0


From c71aac5ee7ad346860f07290bd623be9d1b4a2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:10 +0000
Subject: [PATCH 091/158] fix: SubstringSet: build() of a set that was built
 before kept counts of the old one

---
 library/string/substring_set.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/library/string/substring_set.hpp b/library/string/substring_set.hpp
index 2bdf394..fb13a83 100644
--- a/library/string/substring_set.hpp
+++ b/library/string/substring_set.hpp
@@ -25,11 +25,12 @@ class SubstringSet {
 
         // build set of all substrings in `s`
         void build(const value_type &s) {
-            sa = SuffixAutomaton(s);
-            dp.resize(sa.nodes.size(), size_type(1));
-            for (const int u : sa.topological_order(/* reversed = */true)) {
-                for (const auto &p : sa.nodes[u].nxt) dp[u] += dp[p.second];
+            SuffixAutomaton<T> new_sa(s);
+            std::vector<size_type> new_dp(new_sa.nodes.size(), size_type(1));
+            for (const int u : new_sa.topological_order(/* reversed = */true)) {
+                for (const auto &p : new_sa.nodes[u].nxt) new_dp[u] += new_dp[p.second];
             }
+            sa = std::move(new_sa), dp = std::move(new_dp);
         }
 
         size_type size() const {
-- 
2.43.0


From 979c326dbd5f9586d283afe68629562a1c22a74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:10 +0000
Subject: [PATCH 092/158] fix: SubstringSet: dereferencing an iterator did not
 compile

---
 library/string/substring_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/string/substring_set.hpp b/library/string/substring_set.hpp
index fb13a83..48f2e25 100644
--- a/library/string/substring_set.hpp
+++ b/library/string/substring_set.hpp
@@ -120,7 +120,7 @@ class SubstringSet {
             public:
                 SubstringSetIterator(const SubstringSet *st, size_type k) : st(st), k(k) {}
 
-                value_type operator*() const { return st->kth_substring(k); }
+                value_type operator*() const { return st->kth_element(k); }
 
                 auto& operator=(const SubstringSetIterator& other) {
                     st = other.st;
-- 
2.43.0


From ddc9b8968da2c4fba5fdebac1ae20f5a24b9ce55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:51 +0000
Subject: [PATCH 093/158] fix: relaxed convolutions: the number of terms of a
 default-constructed object was uninitialised; missing includes

---
 library/convolution/relaxed_convolution.hpp          | 3 ++-
 library/convolution/semi_relaxed_convolution.hpp     | 4 +++-
 library/convolution/semi_relaxed_convolution_ntt.hpp | 2 +-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/library/convolution/relaxed_convolution.hpp b/library/convolution/relaxed_convolution.hpp
index 6aa4581..8365e9e 100644
--- a/library/convolution/relaxed_convolution.hpp
+++ b/library/convolution/relaxed_convolution.hpp
@@ -1,6 +1,7 @@
 #ifndef SUISEN_RELAXED_CONVOLUTION
 #define SUISEN_RELAXED_CONVOLUTION
 
+#include <cassert>
 #include <vector>
 
 namespace suisen {
@@ -40,7 +41,7 @@ namespace suisen {
 
     private:
         convolution_type _convolve = [](const polynomial_type&, const polynomial_type&) -> polynomial_type { assert(false); };
-        int _n;
+        int _n = 0;
         polynomial_type _f, _g, _h;
 
         polynomial_type range_convolve(int l1, int r1, int l2, int r2) {
diff --git a/library/convolution/semi_relaxed_convolution.hpp b/library/convolution/semi_relaxed_convolution.hpp
index 815dfe2..dba1556 100644
--- a/library/convolution/semi_relaxed_convolution.hpp
+++ b/library/convolution/semi_relaxed_convolution.hpp
@@ -1,6 +1,8 @@
 #ifndef SUISEN_SEMI_RELAXED_CONVOLUTION
 #define SUISEN_SEMI_RELAXED_CONVOLUTION
 
+#include <algorithm>
+#include <cassert>
 #include <vector>
 
 namespace suisen {
@@ -39,7 +41,7 @@ namespace suisen {
 
     private:
         convolution_type _convolve = [](const polynomial_type&, const polynomial_type&) -> polynomial_type { assert(false); };
-        int _n;
+        int _n = 0;
         polynomial_type _f, _g, _h;
 
         polynomial_type range_convolve(int l1, int r1, int l2, int r2) {
diff --git a/library/convolution/semi_relaxed_convolution_ntt.hpp b/library/convolution/semi_relaxed_convolution_ntt.hpp
index 15f832a..5da0e29 100644
--- a/library/convolution/semi_relaxed_convolution_ntt.hpp
+++ b/library/convolution/semi_relaxed_convolution_ntt.hpp
@@ -56,7 +56,7 @@ namespace suisen {
         }
 
     private:
-        int _n;
+        int _n = 0;
         std::vector<mint> _f, _g, _h;
 
         std::vector<std::vector<mint>> _f_fft;
-- 
2.43.0


From d06a7a7ac8402f3bcff0265d4777f87a3e7b9707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:51 +0000
Subject: [PATCH 094/158] fix: relaxed convolutions: append() that fails left a
 term half added

---
 library/convolution/relaxed_convolution.hpp   | 31 +++++++++----
 .../convolution/relaxed_convolution_ntt.hpp   | 46 +++++++++++++------
 .../convolution/semi_relaxed_convolution.hpp  | 28 ++++++++---
 .../semi_relaxed_convolution_ntt.hpp          | 42 +++++++++++------
 4 files changed, 103 insertions(+), 44 deletions(-)

diff --git a/library/convolution/relaxed_convolution.hpp b/library/convolution/relaxed_convolution.hpp
index 8365e9e..3deba4f 100644
--- a/library/convolution/relaxed_convolution.hpp
+++ b/library/convolution/relaxed_convolution.hpp
@@ -2,6 +2,7 @@
 #define SUISEN_RELAXED_CONVOLUTION
 
 #include <cassert>
+#include <utility>
 #include <vector>
 
 namespace suisen {
@@ -20,15 +21,25 @@ namespace suisen {
         }
 
         value_type append(const value_type &fi, const value_type &gi) {
-            ++_n;
-            _f.push_back(fi), _g.push_back(gi);
-            for (int p = 1;; p <<= 1) {
-                int l1 = _n - p, r1 = _n, l2 = p - 1, r2 = l2 + p;
-                add(l1 + l2, range_convolve(l1, r1, l2, r2));
-                if (l1 == l2) break;
-                add(l1 + l2, range_convolve(l2, r2, l1, r1));
-                if (not (_n & p)) break;
+            // nothing is changed if an allocation or the convolution fails
+            const int n = _n;
+            std::vector<std::pair<int, polynomial_type>> hs;
+            try {
+                _f.push_back(fi), _g.push_back(gi);
+                ++_n;
+                for (int p = 1;; p <<= 1) {
+                    int l1 = _n - p, r1 = _n, l2 = p - 1, r2 = l2 + p;
+                    hs.emplace_back(l1 + l2, range_convolve(l1, r1, l2, r2));
+                    if (l1 == l2) break;
+                    hs.emplace_back(l1 + l2, range_convolve(l2, r2, l1, r1));
+                    if (not (_n & p)) break;
+                }
+                for (const auto &[bias, h] : hs) ensure(bias + h.size());
+            } catch (...) {
+                _n = n, _f.resize(n), _g.resize(n);
+                throw;
             }
+            for (const auto &[bias, h] : hs) add(bias, h);
             return _h[_n - 1];
         }
 
@@ -49,9 +60,11 @@ namespace suisen {
         }
 
         void add(std::size_t bias, const polynomial_type &h) {
-            if (_h.size() < bias + h.size()) _h.resize(bias + h.size());
             for (std::size_t i = 0; i < h.size(); ++i) _h[bias + i] += h[i];
         }
+        void ensure(std::size_t n) {
+            if (_h.size() < n) _h.resize(n);
+        }
     };
 } // namespace suisen
 
diff --git a/library/convolution/relaxed_convolution_ntt.hpp b/library/convolution/relaxed_convolution_ntt.hpp
index bd97063..2341386 100644
--- a/library/convolution/relaxed_convolution_ntt.hpp
+++ b/library/convolution/relaxed_convolution_ntt.hpp
@@ -1,6 +1,10 @@
 #ifndef SUISEN_RELAXED_CONVOLUTION_NTT
 #define SUISEN_RELAXED_CONVOLUTION_NTT
 
+#include <algorithm>
+#include <utility>
+#include <vector>
+
 #include <atcoder/convolution>
 
 namespace suisen {
@@ -10,6 +14,31 @@ namespace suisen {
         RelaxedConvolutionNTT(): _n(0), _f{}, _g{}, _h{} {}
 
         mint append(const mint& fi, const mint& gi) {
+            // nothing is changed if an allocation fails
+            const int n = _n;
+            const std::size_t m = std::min(_f_fft.size(), _g_fft.size());
+            try {
+                return unsafe_append(fi, gi);
+            } catch (...) {
+                _n = n, _f.resize(n), _g.resize(n), _f_fft.resize(m), _g_fft.resize(m);
+                throw;
+            }
+        }
+
+        const mint& operator[](int i) const {
+            return _h[i];
+        }
+        std::vector<mint> get() const {
+            return _h;
+        }
+
+    private:
+        int _n;
+        std::vector<mint> _f, _g, _h;
+
+        std::vector<std::vector<mint>> _f_fft, _g_fft;
+
+        mint unsafe_append(const mint& fi, const mint& gi) {
             static constexpr int threshold_log = 6;
             static constexpr int threshold = 1 << threshold_log;
             static constexpr int threshold_mask = threshold - 1;
@@ -32,12 +61,12 @@ namespace suisen {
                     }
                     atcoder::internal::butterfly_inv(h);
                     ensure(2 * _n);
+                    _f_fft.push_back(std::move(f_fft));
+                    _g_fft.push_back(std::move(g_fft));
                     const mint z = mint(2 * _n).inv();
                     for (int i = _n - 1; i < 2 * _n; ++i) {
                         _h[i] += h[i] * z;
                     }
-                    _f_fft.push_back(std::move(f_fft));
-                    _g_fft.push_back(std::move(g_fft));
                 } else {
                     const int log_q = __builtin_ctz(q);
                     const int k = (-q & q) << threshold_log;
@@ -73,19 +102,6 @@ namespace suisen {
             return _h[_n - 1];
         }
 
-        const mint& operator[](int i) const {
-            return _h[i];
-        }
-        std::vector<mint> get() const {
-            return _h;
-        }
-
-    private:
-        int _n;
-        std::vector<mint> _f, _g, _h;
-
-        std::vector<std::vector<mint>> _f_fft, _g_fft;
-
         void ensure(std::size_t n) {
             if (_h.size() < n) _h.resize(n);
         }
diff --git a/library/convolution/semi_relaxed_convolution.hpp b/library/convolution/semi_relaxed_convolution.hpp
index dba1556..8765321 100644
--- a/library/convolution/semi_relaxed_convolution.hpp
+++ b/library/convolution/semi_relaxed_convolution.hpp
@@ -3,6 +3,7 @@
 
 #include <algorithm>
 #include <cassert>
+#include <utility>
 #include <vector>
 
 namespace suisen {
@@ -22,13 +23,24 @@ namespace suisen {
         }
 
         value_type append(const value_type &gi) {
-            ++_n;
-            _g.push_back(gi);
-            for (int p = 1;; p <<= 1) {
-                int l1 = p - 1, r1 = l1 + p, l2 = _n - p, r2 = _n;
-                add(l1 + l2, range_convolve(l1, r1, l2, r2));
-                if (p == (-_n & _n)) break;
+            // nothing is changed if an allocation or the convolution fails
+            const int n = _n;
+            std::vector<std::pair<int, polynomial_type>> hs;
+            try {
+                _g.push_back(gi);
+                ++_n;
+                ensure(_n);
+                for (int p = 1;; p <<= 1) {
+                    int l1 = p - 1, r1 = l1 + p, l2 = _n - p, r2 = _n;
+                    hs.emplace_back(l1 + l2, range_convolve(l1, r1, l2, r2));
+                    if (p == (-_n & _n)) break;
+                }
+                for (const auto &[bias, h] : hs) ensure(bias + h.size());
+            } catch (...) {
+                _n = n, _g.resize(n);
+                throw;
             }
+            for (const auto &[bias, h] : hs) add(bias, h);
             return _h[_n - 1];
         }
 
@@ -50,9 +62,11 @@ namespace suisen {
         }
 
         void add(std::size_t bias, const polynomial_type &h) {
-            if (_h.size() < bias + h.size()) _h.resize(bias + h.size());
             for (std::size_t i = 0; i < h.size(); ++i) _h[bias + i] += h[i];
         }
+        void ensure(std::size_t n) {
+            if (_h.size() < n) _h.resize(n);
+        }
     };
 } // namespace suisen
 
diff --git a/library/convolution/semi_relaxed_convolution_ntt.hpp b/library/convolution/semi_relaxed_convolution_ntt.hpp
index 5da0e29..22516b0 100644
--- a/library/convolution/semi_relaxed_convolution_ntt.hpp
+++ b/library/convolution/semi_relaxed_convolution_ntt.hpp
@@ -1,6 +1,10 @@
 #ifndef SUISEN_SEMI_RELAXED_CONVOLUTION_NTT
 #define SUISEN_SEMI_RELAXED_CONVOLUTION_NTT
 
+#include <algorithm>
+#include <utility>
+#include <vector>
+
 #include <atcoder/convolution>
 
 namespace suisen {
@@ -11,6 +15,31 @@ namespace suisen {
         SemiRelaxedConvolutionNTT(const std::vector<mint> &f) : _n(0), _f(f), _g{}, _h{} {}
 
         mint append(const mint& gi) {
+            // nothing is changed if an allocation fails
+            const int n = _n;
+            const std::size_t m = _f_fft.size();
+            try {
+                return unsafe_append(gi);
+            } catch (...) {
+                _n = n, _g.resize(n), _f_fft.resize(m);
+                throw;
+            }
+        }
+
+        const mint& operator[](int i) const {
+            return _h[i];
+        }
+        std::vector<mint> get() const {
+            return _h;
+        }
+
+    private:
+        int _n = 0;
+        std::vector<mint> _f, _g, _h;
+
+        std::vector<std::vector<mint>> _f_fft;
+
+        mint unsafe_append(const mint& gi) {
             static constexpr int threshold_log = 6;
             static constexpr int threshold = 1 << threshold_log;
             static constexpr int threshold_mask = threshold - 1;
@@ -48,19 +77,6 @@ namespace suisen {
             return _h[_n - 1];
         }
 
-        const mint& operator[](int i) const {
-            return _h[i];
-        }
-        std::vector<mint> get() const {
-            return _h;
-        }
-
-    private:
-        int _n = 0;
-        std::vector<mint> _f, _g, _h;
-
-        std::vector<std::vector<mint>> _f_fft;
-
         void ensure(std::size_t n) {
             if (_h.size() < n) _h.resize(n);
         }
-- 
2.43.0


From 11e5b92ae235cf97067d584fb11cc48eba269cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:06 +0000
Subject: [PATCH 095/158] fix: SegmentTree: max_right() and min_left() did not
 compile

---
 library/datastructure/segment_tree/segment_tree.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/library/datastructure/segment_tree/segment_tree.hpp b/library/datastructure/segment_tree/segment_tree.hpp
index d5568f9..fdc4bf3 100644
--- a/library/datastructure/segment_tree/segment_tree.hpp
+++ b/library/datastructure/segment_tree/segment_tree.hpp
@@ -1,6 +1,7 @@
 #ifndef SUISEN_SEGMENT_TREE
 #define SUISEN_SEGMENT_TREE
 
+#include <algorithm>
 #include <cassert>
 #include <vector>
 
@@ -50,10 +51,10 @@ class SegmentTree {
         template <typename Pred, constraints_t<std::is_invocable_r<bool, Pred, T>> = nullptr>
         int max_right(int l, const Pred &f) const {
             assert(0 <= l and l <= n);
-            assert(f(e));
+            assert(f(e()));
             if (l == n) return n;
             l += m;
-            T sum_l = e;
+            T sum_l = e();
             do {
                 while (l % 2 == 0) l >>= 1;
                 if (not f(op(sum_l, data[l]))) {
@@ -74,10 +75,10 @@ class SegmentTree {
         template <typename Pred, constraints_t<std::is_invocable_r<bool, Pred, T>> = nullptr>
         int min_left(int r, const Pred &f) const {
             assert(0 <= r && r <= n);
-            assert(f(e));
+            assert(f(e()));
             if (r == 0) return 0;
             r += m;
-            T sum_r = e;
+            T sum_r = e();
             do {
                 r--;
                 while (r > 1 && (r % 2)) r >>= 1;
-- 
2.43.0


From 13d5a5d8633dd2fd41c0de86c6d5a3b637e080d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:06 +0000
Subject: [PATCH 096/158] fix: LazySegmentTree: suffix_prod() failed an
 assertion unless the size is a power of two

---
 library/datastructure/segment_tree/lazy_segment_tree.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/datastructure/segment_tree/lazy_segment_tree.hpp b/library/datastructure/segment_tree/lazy_segment_tree.hpp
index 0e0fab6..362ca01 100644
--- a/library/datastructure/segment_tree/lazy_segment_tree.hpp
+++ b/library/datastructure/segment_tree/lazy_segment_tree.hpp
@@ -1,6 +1,7 @@
 #ifndef SUISEN_LAZY_SEGMENT_TREE
 #define SUISEN_LAZY_SEGMENT_TREE
 
+#include <algorithm>
 #include <cassert>
 #include <vector>
 #include "library/util/update_proxy_object.hpp"
@@ -44,7 +45,7 @@ namespace suisen {
 
         value_type prod(int l, int r) { return (*this)(l, r); }
         value_type prefix_prod(int r) { return (*this)(0, r); }
-        value_type suffix_prod(int l) { return (*this)(l, m); }
+        value_type suffix_prod(int l) { return (*this)(l, n); }
         value_type all_prod() const { return data[1]; }
 
         auto operator[](int p) {
-- 
2.43.0


From 72a3047d1b3dc23658cc65b0a3cbb57bbcdac85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:06 +0000
Subject: [PATCH 097/158] fix: CommutativeDualSegmentTree: a
 default-constructed tree had an uninitialised size

---
 .../segment_tree/commutative_dual_segment_tree.hpp              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/segment_tree/commutative_dual_segment_tree.hpp b/library/datastructure/segment_tree/commutative_dual_segment_tree.hpp
index 4d40a6a..5057528 100644
--- a/library/datastructure/segment_tree/commutative_dual_segment_tree.hpp
+++ b/library/datastructure/segment_tree/commutative_dual_segment_tree.hpp
@@ -7,7 +7,7 @@
 namespace suisen {
     template <typename T, typename F, T(*mapping)(F, T), F(*composition)(F, F), F(*id)()>
     struct CommutativeDualSegmentTree {
-        CommutativeDualSegmentTree() = default;
+        CommutativeDualSegmentTree() : CommutativeDualSegmentTree(std::vector<T>{}) {}
         CommutativeDualSegmentTree(std::vector<T>&& a) : n(a.size()), m(ceil_pow2(a.size())), data(std::move(a)), lazy(m, id()) {}
         CommutativeDualSegmentTree(const std::vector<T>& a) : CommutativeDualSegmentTree(std::vector<T>(a)) {}
         CommutativeDualSegmentTree(int n, const T& fill_value) : CommutativeDualSegmentTree(std::vector<T>(n, fill_value)) {}
-- 
2.43.0


From 76416a36b861ec252da0b883128a4367b275e8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:06 +0000
Subject: [PATCH 098/158] fix: SegmentTree2D: SegmentTree2D(n, m) made a tree
 of 2n rows and 2m columns, a default-constructed one had an uninitialised
 size

---
 library/datastructure/segment_tree/segment_tree_2d.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/segment_tree/segment_tree_2d.hpp b/library/datastructure/segment_tree/segment_tree_2d.hpp
index ada2c02..ad0fd48 100644
--- a/library/datastructure/segment_tree/segment_tree_2d.hpp
+++ b/library/datastructure/segment_tree/segment_tree_2d.hpp
@@ -7,8 +7,8 @@
 namespace suisen {
     template <typename T, T(*op)(T, T), T(*e)()>
     struct SegmentTree2D {
-        SegmentTree2D() = default;
-        SegmentTree2D(int n, int m) : SegmentTree2D(std::vector(2 * n, std::vector(2 * m, e()))) {}
+        SegmentTree2D() : SegmentTree2D(0, 0) {}
+        SegmentTree2D(int n, int m) : SegmentTree2D(std::vector<std::vector<T>>(n, std::vector<T>(m, e()))) {}
         SegmentTree2D(const std::vector<std::vector<T>> &a) : n(a.size()), m(n == 0 ? 0 : a[0].size()), dat(2 * n, std::vector<T>(2 * m, e())) {
             for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) {
                 dat[n + i][m + j] = a[i][j];
-- 
2.43.0


From 17eb338c33d2a07a9cfe6ffd4b0968acba3b52a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:44 +0000
Subject: [PATCH 099/158] fix: LazySegmentTree: a query that threw while
 pushing applied a map twice

---
 .../segment_tree/lazy_segment_tree.hpp          | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/segment_tree/lazy_segment_tree.hpp b/library/datastructure/segment_tree/lazy_segment_tree.hpp
index 362ca01..929d26e 100644
--- a/library/datastructure/segment_tree/lazy_segment_tree.hpp
+++ b/library/datastructure/segment_tree/lazy_segment_tree.hpp
@@ -125,8 +125,21 @@ namespace suisen {
             }
         }
         void push(int k) {
-            all_apply(2 * k, lazy[k]), all_apply(2 * k + 1, lazy[k]);
-            lazy[k] = id();
+            if constexpr (enable_beats) {
+                all_apply(2 * k, lazy[k]), all_apply(2 * k + 1, lazy[k]);
+                lazy[k] = id();
+            } else {
+                // calls every user function before anything is changed: a query that throws must not push twice
+                const int l = 2 * k, r = 2 * k + 1;
+                value_type data_l = mapping(lazy[k], data[l]), data_r = mapping(lazy[k], data[r]);
+                operator_type f = id();
+                if (l < m) {
+                    operator_type lazy_l = composition(lazy[k], lazy[l]), lazy_r = composition(lazy[k], lazy[r]);
+                    lazy[l] = std::move(lazy_l), lazy[r] = std::move(lazy_r);
+                }
+                data[l] = std::move(data_l), data[r] = std::move(data_r);
+                lazy[k] = std::move(f);
+            }
         }
         void push_to(int p) {
             p += m;
-- 
2.43.0


From da0c5f849fc312d3ab40acbcea8bf0c5abf13bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:44 +0000
Subject: [PATCH 100/158] fix: SegmentTree2DSparse: a default-constructed tree
 had an uninitialised size; missing include

---
 library/datastructure/segment_tree/segment_tree_2d_sparse.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/datastructure/segment_tree/segment_tree_2d_sparse.hpp b/library/datastructure/segment_tree/segment_tree_2d_sparse.hpp
index ea73499..911319a 100644
--- a/library/datastructure/segment_tree/segment_tree_2d_sparse.hpp
+++ b/library/datastructure/segment_tree/segment_tree_2d_sparse.hpp
@@ -2,6 +2,7 @@
 #define SUISEN_SEGMENT_TREE_2D_SPARSE
 
 #include <algorithm>
+#include <limits>
 #include <tuple>
 
 #include "library/datastructure/segment_tree/segment_tree.hpp"
@@ -11,7 +12,7 @@ namespace suisen {
 template <typename T, T(*op)(T, T), T(*e)()>
 class SegmentTree2DSparse {
     public:
-        SegmentTree2DSparse() = default;
+        SegmentTree2DSparse() : SegmentTree2DSparse(0) {}
         explicit SegmentTree2DSparse(int x_num) : n(x_num + 1), m(ceil_pow2(n)), data(m * 2), points(), pos_x(), pos_y(m * 2) {}
 
         void add_point(int x, int y) {
-- 
2.43.0


From 3435a3f9991adcb38f9249cef09f2ee4f5d7aada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:44 +0000
Subject: [PATCH 101/158] fix: CompressedSegmentTree: a tree that was not built
 had an uninitialised size

---
 .../datastructure/segment_tree/compressed_segment_tree.hpp    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/segment_tree/compressed_segment_tree.hpp b/library/datastructure/segment_tree/compressed_segment_tree.hpp
index 36b7ea5..4bd6f73 100644
--- a/library/datastructure/segment_tree/compressed_segment_tree.hpp
+++ b/library/datastructure/segment_tree/compressed_segment_tree.hpp
@@ -67,7 +67,7 @@ namespace suisen {
             for (int i = comp(p[0]) + n; i; i >>= 1) data[i].apply(tail(p), val);
         }
     private:
-        int n;
+        int n = 0;
         internal::compressed_segment_tree::Compressor<index_type> comp;
         std::vector<point_type> points;
         std::vector<data_type> data;
@@ -122,7 +122,7 @@ namespace suisen {
             for (int i = comp(p) + n; i; i >>= 1) data[i] = op(data[i], val);
         }
     private:
-        int n;
+        int n = 0;
         internal::compressed_segment_tree::Compressor<index_type> comp;
         std::vector<data_type> data;
     };
-- 
2.43.0


From 34c2d1139df2a021952caffbb98656167303c681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:44 +0000
Subject: [PATCH 102/158] fix: CompressedSegmentTree: set() of a point forgot
 the other points that share its coordinates but the first

---
 .../segment_tree/compressed_segment_tree.hpp           | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/library/datastructure/segment_tree/compressed_segment_tree.hpp b/library/datastructure/segment_tree/compressed_segment_tree.hpp
index 4bd6f73..9a91d03 100644
--- a/library/datastructure/segment_tree/compressed_segment_tree.hpp
+++ b/library/datastructure/segment_tree/compressed_segment_tree.hpp
@@ -18,6 +18,7 @@ namespace suisen {
                 return xs.size();
             }
             int operator()(const value_type& x) const { return std::lower_bound(xs.begin(), xs.end(), x) - xs.begin(); }
+            bool contains(const value_type& x) const { return std::binary_search(xs.begin(), xs.end(), x); }
         private:
             std::vector<value_type> xs;
         };
@@ -58,10 +59,13 @@ namespace suisen {
             return op(sml, smr);
         }
         value_type get(const point_type& p) const {
-            return data[comp(p[0]) + n].get(tail(p));
+            return comp.contains(p[0]) ? data[comp(p[0]) + n].get(tail(p)) : e();
         }
         void set(const point_type& p, const value_type& val) {
-            for (int i = comp(p[0]) + n; i; i >>= 1) data[i].set(tail(p), val);
+            int i = comp(p[0]) + n;
+            const auto q = tail(p);
+            data[i].set(q, val);
+            while (i >>= 1) data[i].set(q, op(data[2 * i + 0].get(q), data[2 * i + 1].get(q)));
         }
         void apply(const point_type& p, const value_type& val) {
             for (int i = comp(p[0]) + n; i; i >>= 1) data[i].apply(tail(p), val);
@@ -110,7 +114,7 @@ namespace suisen {
             return op(sml, smr);
         }
         value_type get(const point_type &i) const {
-            return data[comp(i) + n];
+            return comp.contains(i) ? data[comp(i) + n] : e();
         }
 
         void set(const point_type& p, const value_type& val) {
-- 
2.43.0


From 9ccf1675ce6daaa7a55e16c7a4a8430998ab38f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:44 +0000
Subject: [PATCH 103/158] fix: LiChaoSegmentTree: add_line() did not cover
 negative coordinates of floating-point type; missing include

---
 library/datastructure/segment_tree/li_chao_segment_tree.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/datastructure/segment_tree/li_chao_segment_tree.hpp b/library/datastructure/segment_tree/li_chao_segment_tree.hpp
index a253288..e867d65 100644
--- a/library/datastructure/segment_tree/li_chao_segment_tree.hpp
+++ b/library/datastructure/segment_tree/li_chao_segment_tree.hpp
@@ -3,6 +3,7 @@
 
 #include <algorithm>
 #include <cassert>
+#include <limits>
 #include <optional>
 #include <vector>
 
@@ -51,7 +52,7 @@ namespace suisen {
 
         // Add ax+b for x in (-infty, infty)
         void add_line(T a, T b) {
-            add_segment(std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), a, b);
+            add_segment(std::numeric_limits<T>::lowest(), std::numeric_limits<T>::max(), a, b);
         }
 
         /**
-- 
2.43.0


From a6a38f4e7f9d1744a4b29754cf030ae9c3dd73c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:44 +0000
Subject: [PATCH 104/158] fix: Fenwick trees: default-constructed trees had an
 uninitialised size

---
 .../datastructure/fenwick_tree/compressed_fenwick_tree.hpp    | 4 ++--
 .../fenwick_tree/compressed_fenwick_tree_prefix.hpp           | 4 ++--
 library/datastructure/fenwick_tree/fenwick_tree.hpp           | 2 +-
 library/datastructure/fenwick_tree/fenwick_tree_2d.hpp        | 2 +-
 library/datastructure/fenwick_tree/fenwick_tree_2d_sparse.hpp | 2 +-
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/library/datastructure/fenwick_tree/compressed_fenwick_tree.hpp b/library/datastructure/fenwick_tree/compressed_fenwick_tree.hpp
index 71958e8..08fba41 100644
--- a/library/datastructure/fenwick_tree/compressed_fenwick_tree.hpp
+++ b/library/datastructure/fenwick_tree/compressed_fenwick_tree.hpp
@@ -54,7 +54,7 @@ namespace suisen {
             for (int r = comp(p[0]) + 1; r <= n; r += r & -r) data[r - 1].apply(tail(p), val);
         }
     private:
-        int n;
+        int n = 0;
         internal::compressed_fenwick_tree::Compressor<index_type> comp;
         std::vector<point_type> points;
         std::vector<data_type> data;
@@ -98,7 +98,7 @@ namespace suisen {
             for (int r = comp(p) + 1; r <= n; r += r & -r) data[r - 1] = op(data[r - 1], val);
         }
     private:
-        int n;
+        int n = 0;
         internal::compressed_fenwick_tree::Compressor<index_type> comp;
         std::vector<data_type> data;
 
diff --git a/library/datastructure/fenwick_tree/compressed_fenwick_tree_prefix.hpp b/library/datastructure/fenwick_tree/compressed_fenwick_tree_prefix.hpp
index 56160a5..b2f3df1 100644
--- a/library/datastructure/fenwick_tree/compressed_fenwick_tree_prefix.hpp
+++ b/library/datastructure/fenwick_tree/compressed_fenwick_tree_prefix.hpp
@@ -55,7 +55,7 @@ namespace suisen {
             for (int r = comp(p[0]) + 1; r <= n; r += r & -r) data[r - 1].apply(tail(p), val);
         }
     private:
-        int n;
+        int n = 0;
         internal::compressed_fenwick_tree_prefix::Compressor<index_type> comp;
         std::vector<point_type> points;
         std::vector<data_type> data;
@@ -89,7 +89,7 @@ namespace suisen {
             for (int r = comp(p) + 1; r <= n; r += r & -r) data[r - 1] = op(data[r - 1], val);
         }
     private:
-        int n;
+        int n = 0;
         internal::compressed_fenwick_tree_prefix::Compressor<index_type> comp;
         std::vector<data_type> data;
     };
diff --git a/library/datastructure/fenwick_tree/fenwick_tree.hpp b/library/datastructure/fenwick_tree/fenwick_tree.hpp
index 3e39a3d..8692e95 100644
--- a/library/datastructure/fenwick_tree/fenwick_tree.hpp
+++ b/library/datastructure/fenwick_tree/fenwick_tree.hpp
@@ -42,7 +42,7 @@ namespace suisen {
 
             Container& get_internal_container() { return data; }
         protected:
-            index_t n;
+            index_t n = 0;
             Container data;
             template <typename ...Args>
             FenwickTreeBase(index_t n, Args &&...args) : n(n), data(std::forward<Args>(args)...) {}
diff --git a/library/datastructure/fenwick_tree/fenwick_tree_2d.hpp b/library/datastructure/fenwick_tree/fenwick_tree_2d.hpp
index 31867f1..8ab7c48 100644
--- a/library/datastructure/fenwick_tree/fenwick_tree_2d.hpp
+++ b/library/datastructure/fenwick_tree/fenwick_tree_2d.hpp
@@ -8,7 +8,7 @@ namespace suisen {
     template <typename T>
     class FenwickTree2D {
     public:
-        FenwickTree2D() = default;
+        FenwickTree2D() : FenwickTree2D(0, 0) {}
         explicit FenwickTree2D(int n, int m) : n(n), m(m), data(n, std::vector<T>(m, T{})) {}
         void add(int i, int j, T v) {
             for (int x = i + 1; x <= n; x += (x & -x)) for (int y = j + 1; y <= m; y += (y & -y)) {
diff --git a/library/datastructure/fenwick_tree/fenwick_tree_2d_sparse.hpp b/library/datastructure/fenwick_tree/fenwick_tree_2d_sparse.hpp
index 289fa97..1e37aac 100644
--- a/library/datastructure/fenwick_tree/fenwick_tree_2d_sparse.hpp
+++ b/library/datastructure/fenwick_tree/fenwick_tree_2d_sparse.hpp
@@ -13,7 +13,7 @@ namespace suisen {
     template <typename T>
     class FenwickTree2DSparse {
     public:
-        FenwickTree2DSparse() = default;
+        FenwickTree2DSparse() : FenwickTree2DSparse(0) {}
         explicit FenwickTree2DSparse(int x_num) : n(x_num + 1), data(n), points(), pos_x(), pos_y(n) {}
 
         void add_point(int x, int y) {
-- 
2.43.0


From 728d67f74b7ee99132fa82b7a64813f8bb3a3764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:44 +0000
Subject: [PATCH 105/158] fix: MapFenwickTree: sum() did not compile, indices
 were cut to int

---
 .../fenwick_tree/fenwick_tree.hpp             | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/library/datastructure/fenwick_tree/fenwick_tree.hpp b/library/datastructure/fenwick_tree/fenwick_tree.hpp
index 8692e95..c26232c 100644
--- a/library/datastructure/fenwick_tree/fenwick_tree.hpp
+++ b/library/datastructure/fenwick_tree/fenwick_tree.hpp
@@ -1,9 +1,11 @@
 #ifndef SUISEN_FENWICK_TREE
 #define SUISEN_FENWICK_TREE
 
-#include <vector>
 #include <map>
+#include <type_traits>
 #include <unordered_map>
+#include <utility>
+#include <vector>
 
 namespace suisen {
     namespace internal {
@@ -13,7 +15,7 @@ namespace suisen {
             FenwickTreeBase() = default;
             explicit FenwickTreeBase(index_t n) : n(n) {}
 
-            int size() const {
+            index_t size() const {
                 return n;
             }
             void add(index_t i, T v) {
@@ -22,9 +24,9 @@ namespace suisen {
             T sum(index_t l, index_t r) const {
                 return sum(r) - sum(l);
             }
-            auto operator[](int i) {
+            auto operator[](index_t i) {
                 struct {
-                    int i;
+                    index_t i;
                     FenwickTreeBase& ft;
                     operator T() const { return ft.sum(i, i + 1); }
                     auto& operator++() { return *this += 1; }
@@ -38,7 +40,7 @@ namespace suisen {
                 } obj{ i, *this };
                 return obj;
             }
-            T operator()(int l, int r) const { return sum(l, r); }
+            T operator()(index_t l, index_t r) const { return sum(l, r); }
 
             Container& get_internal_container() { return data; }
         protected:
@@ -47,9 +49,15 @@ namespace suisen {
             template <typename ...Args>
             FenwickTreeBase(index_t n, Args &&...args) : n(n), data(std::forward<Args>(args)...) {}
         private:
-            T sum(int r) const {
+            T sum(index_t r) const {
                 T s{};
-                for (; r; r -= r & -r) s += data[r - 1];
+                for (; r; r -= r & -r) {
+                    if constexpr (std::is_same_v<Container, std::vector<T>>) {
+                        s += data[r - 1];
+                    } else if (auto it = data.find(r - 1); it != data.end()) {
+                        s += it->second;
+                    }
+                }
                 return s;
             }
         };
-- 
2.43.0


From c8c36c114217f281ff239205ffc11ed0a716b455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:44 +0000
Subject: [PATCH 106/158] fix: DynamicBitSet: &= on one bit cleared other bits

---
 library/datastructure/util/dynamic_bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/util/dynamic_bitset.hpp b/library/datastructure/util/dynamic_bitset.hpp
index d64b0fd..9b40433 100644
--- a/library/datastructure/util/dynamic_bitset.hpp
+++ b/library/datastructure/util/dynamic_bitset.hpp
@@ -21,7 +21,7 @@ namespace suisen {
             void set() { b |= block(1) << i; }
             void reset() { b &= ~(block(1) << i); }
             void flip() { b ^= block(1) << i; }
-            bitref& operator&=(bool val) { b &= block(val) << i; return *this; }
+            bitref& operator&=(bool val) { if (not val) reset(); return *this; }
             bitref& operator|=(bool val) { b |= block(val) << i; return *this; }
             bitref& operator^=(bool val) { b ^= block(val) << i; return *this; }
             bitref& operator =(bool val) { val ? set() : reset(); return *this; }
-- 
2.43.0


From c0be53cf40d3c9ba27dc83584237de7cc566539e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:44 +0000
Subject: [PATCH 107/158] fix: DynamicBitSet: all() shifted by the whole width
 of a block when the size is a multiple of 64

---
 library/datastructure/util/dynamic_bitset.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/util/dynamic_bitset.hpp b/library/datastructure/util/dynamic_bitset.hpp
index 9b40433..2a5ed26 100644
--- a/library/datastructure/util/dynamic_bitset.hpp
+++ b/library/datastructure/util/dynamic_bitset.hpp
@@ -1,7 +1,9 @@
 #ifndef SUISEN_DYNAMIC_BITSET
 #define SUISEN_DYNAMIC_BITSET
 
+#include <algorithm>
 #include <cassert>
+#include <cstddef>
 #include <limits>
 #include <utility>
 #include <vector>
@@ -253,8 +255,7 @@ namespace suisen {
             }
             const std::size_t num = n - ((block_num() - 1) << log_block_size);
             assert(num);
-            const block upper = ((block(1) << (block_size - num)) - 1) << num;
-            return (upper | blocks.back()) == ~block(0);
+            return get_lower_bits(~blocks.back(), num) == 0;
         }
         bool none() const {
             if (empty()) return true;
-- 
2.43.0


From c8072db81196afba88ea78bece71c7295dee5099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:13 +0000
Subject: [PATCH 108/158] fix: static_bitset: ~ and << left bits beyond the end
 that comparisons and >> saw

---
 library/datastructure/util/static_bitset.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/library/datastructure/util/static_bitset.hpp b/library/datastructure/util/static_bitset.hpp
index 5ff165b..285477e 100644
--- a/library/datastructure/util/static_bitset.hpp
+++ b/library/datastructure/util/static_bitset.hpp
@@ -12,7 +12,7 @@ namespace suisen {
         static constexpr std::size_t L = (N + 63) >> 6;
     public:
         static_bitset() = default;
-        static_bitset(std::array<uint64_t, L> data) : _data(data) {}
+        static_bitset(std::array<uint64_t, L> data) : _data(data) { trim(); }
 
         static_bitset<N>& operator&=(const static_bitset<N>& rhs) {
             for (std::size_t i = 0; i < L; ++i) _data[i] &= rhs._data[i];
@@ -38,6 +38,7 @@ namespace suisen {
         static_bitset<N> operator~() const {
             static_bitset<N> res;
             for (std::size_t i = 0; i < L; ++i) res._data[i] = ~_data[i];
+            res.trim();
             return res;
         }
         static_bitset<N>& operator<<=(const std::size_t shamt) {
@@ -59,6 +60,7 @@ namespace suisen {
                 }
             }
             for (std::size_t i = large_shamt; i-- > 0;) _data[i] = 0;
+            trim();
             return *this;
         }
         static_bitset<N>& operator>>=(const std::size_t shamt) {
@@ -165,6 +167,11 @@ namespace suisen {
     private:
         std::array<uint64_t, L> _data{};
 
+        // clears the bits at N and above, which comparisons and right shifts would see
+        void trim() {
+            if constexpr (N % 64 != 0) _data[L - 1] &= (uint64_t(1) << (N % 64)) - 1;
+        }
+
         static constexpr std::size_t outer_index(std::size_t k) {
             return k >> 6;
         }
-- 
2.43.0


From 8af83cd9636f88fda7dd22cdd28799491d4fceb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:13 +0000
Subject: [PATCH 109/158] fix: RangeSetRangeComposite:
 RangeSetRangeComposite(n) wrote into an empty set of positions

---
 library/range_query/range_set_range_composite.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/library/range_query/range_set_range_composite.hpp b/library/range_query/range_set_range_composite.hpp
index 91f1193..10e0c8a 100644
--- a/library/range_query/range_set_range_composite.hpp
+++ b/library/range_query/range_set_range_composite.hpp
@@ -1,6 +1,9 @@
 #ifndef SUISEN_RANGE_SET_RANGE_COMPOSITE
 #define SUISEN_RANGE_SET_RANGE_COMPOSITE
 
+#include <cassert>
+#include <vector>
+
 #include "library/datastructure/fenwick_tree/fenwick_tree_set.hpp"
 
 #include <atcoder/segtree>
@@ -9,10 +12,11 @@ namespace suisen {
     template <typename T, T(*op)(T, T), T(*e)()>
     struct RangeSetRangeComposite {
         RangeSetRangeComposite() : RangeSetRangeComposite(0) {}
-        explicit RangeSetRangeComposite(int n, T val = e()) : _n(n), _seg(std::vector(_n, e())), _vs(n, e()) {
+        explicit RangeSetRangeComposite(int n, T val = e()) : _n(n), _seg(std::vector(_n, e())), _vs(n, e()), _pos(_n + 1) {
+            _pos.insert(_n);
+            if (_n == 0) return;
             _pos.insert(0), _vs[0] = val;
             _seg.set(0, _pow(0, n));
-            _pos.insert(_n);
         }
         explicit RangeSetRangeComposite(const std::vector<T>& a) : _n(a.size()), _seg(a), _vs(a), _pos(_n + 1, true) {}
 
-- 
2.43.0


From 9c72af3006e7bbee78b7a51935973c2ab1731590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:13 +0000
Subject: [PATCH 110/158] fix: MapFenwickTree: an add() that ran out of memory
 was half done

---
 library/datastructure/fenwick_tree/fenwick_tree.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/library/datastructure/fenwick_tree/fenwick_tree.hpp b/library/datastructure/fenwick_tree/fenwick_tree.hpp
index c26232c..7b3dd90 100644
--- a/library/datastructure/fenwick_tree/fenwick_tree.hpp
+++ b/library/datastructure/fenwick_tree/fenwick_tree.hpp
@@ -19,7 +19,12 @@ namespace suisen {
                 return n;
             }
             void add(index_t i, T v) {
-                for (++i; i <= n; i += (i & -i)) data[i - 1] += v;
+                ++i;
+                if constexpr (not std::is_same_v<Container, std::vector<T>>) {
+                    // makes all nodes before any of them is changed
+                    for (index_t j = i; j <= n; j += (j & -j)) data[j - 1];
+                }
+                for (; i <= n; i += (i & -i)) data[i - 1] += v;
             }
             T sum(index_t l, index_t r) const {
                 return sum(r) - sum(l);
-- 
2.43.0


From e6e87d22dcbc377a00bd12e786ccb0e94efc0b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:55 +0000
Subject: [PATCH 111/158] fix: LazySegmentTree: min_left(n) accessed nodes out
 of range when the size is a power of two

---
 library/datastructure/segment_tree/lazy_segment_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/segment_tree/lazy_segment_tree.hpp b/library/datastructure/segment_tree/lazy_segment_tree.hpp
index 929d26e..f295760 100644
--- a/library/datastructure/segment_tree/lazy_segment_tree.hpp
+++ b/library/datastructure/segment_tree/lazy_segment_tree.hpp
@@ -87,7 +87,7 @@ namespace suisen {
             assert(g(e()));
             if (r == 0) return 0;
             r += m;
-            for (int i = lg; i >= 1; --i) push(r >> i);
+            for (int i = lg; i >= 1; --i) push((r - 1) >> i);
             value_type sum = e();
             do {
                 r--;
-- 
2.43.0


From 99ace9ca6f85683d8e6daffb7e3b79958ff39999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:07 +0000
Subject: [PATCH 112/158] fix: FenwickTreePrefix: a tree made from a vector
 lost elements

---
 library/datastructure/fenwick_tree/fenwick_tree_prefix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/fenwick_tree/fenwick_tree_prefix.hpp b/library/datastructure/fenwick_tree/fenwick_tree_prefix.hpp
index 934baf4..04ff3dc 100644
--- a/library/datastructure/fenwick_tree/fenwick_tree_prefix.hpp
+++ b/library/datastructure/fenwick_tree/fenwick_tree_prefix.hpp
@@ -9,7 +9,7 @@ namespace suisen {
         FenwickTreePrefix() : FenwickTreePrefix(0) {}
         explicit FenwickTreePrefix(int n) : _n(n), _dat(_n + 1, e()) {}
         FenwickTreePrefix(const std::vector<T> &dat) : _n(dat.size()), _dat(_n + 1, e()) {
-            for (int i = _n; i > 0; --i) {
+            for (int i = 1; i <= _n; ++i) {
                 _dat[i] = op(_dat[i], dat[i - 1]);
                 if (int p = i + (-i & i); p <= _n) _dat[p] = op(_dat[p], _dat[i]);
             }
-- 
2.43.0


From 7cf7370b250e596a3f857e7269cd6877d6d8fb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:38 +0000
Subject: [PATCH 113/158] fix: binomial_coefficient_small_r_offline: queries
 that all have r = 0 wrote outside an empty vector

---
 library/sequence/binomial_coefficient_small_r_offline.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/sequence/binomial_coefficient_small_r_offline.hpp b/library/sequence/binomial_coefficient_small_r_offline.hpp
index e8e6f25..cdd6dd0 100644
--- a/library/sequence/binomial_coefficient_small_r_offline.hpp
+++ b/library/sequence/binomial_coefficient_small_r_offline.hpp
@@ -98,6 +98,7 @@ namespace suisen {
         // O(t*2^t)
         template <bool is_signed, typename mint>
         std::vector<Polynomial<mint>> stirling_number1_doubling(int t) {
+            if (t == 0) return {};
             const int n = 1 << t;
 
             std::vector<mint> fac(n + 1), fac_inv(n + 1);
-- 
2.43.0


From 821877527bf2ebec5b8261ec4f417f196aeeacc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:33 +0000
Subject: [PATCH 114/158] fix: MergeHistoryForest: a merge that ran out of
 memory was half done

---
 .../union_find/merge_history_forest.hpp       | 79 ++++++++++++-------
 1 file changed, 50 insertions(+), 29 deletions(-)

diff --git a/library/datastructure/union_find/merge_history_forest.hpp b/library/datastructure/union_find/merge_history_forest.hpp
index 7f04e9e..730dcfe 100644
--- a/library/datastructure/union_find/merge_history_forest.hpp
+++ b/library/datastructure/union_find/merge_history_forest.hpp
@@ -35,30 +35,51 @@ namespace suisen {
         }
  
         void merge(int u, int v) {
-            ++_time;
             const int ru = leader(u), rv = leader(v);
-            if (ru == rv) return;
-            const int new_root = create_node();
-            create_edge(new_root, _root[ru]), create_edge(new_root, _root[rv]);
-            _root[base_type::merge(ru, rv)] = new_root;
+            if (ru != rv) {
+                const int new_root = create_node({ _root[ru], _root[rv] });
+                adopt_children(new_root);
+                _root[base_type::merge(ru, rv)] = new_root;
+            }
+            ++_time;
         }
         void merge(const std::pair<int, int> &edge) { merge(edge.first, edge.second); }
 
         void merge_simultaneously(const std::vector<std::pair<int, int>> &edges) {
-            ++_time;
-            std::vector<int> vs;
+            // leaders of the components to be merged
+            std::vector<int> rs;
             for (const auto &[u, v] : edges) {
                 const int ru = leader(u), rv = leader(v);
-                if (ru == rv) continue;
-                const int r = base_type::merge(ru, rv), c = ru ^ rv ^ r;
-                _g[r].push_back(c);
-                vs.push_back(r);
+                if (ru != rv) rs.push_back(ru), rs.push_back(rv);
             }
-            for (int s : vs) if (s == leader(s)) {
-                const int new_root = create_node();
-                merge_dfs(s, new_root);
-                _root[s] = new_root;
+            std::sort(rs.begin(), rs.end());
+            rs.erase(std::unique(rs.begin(), rs.end()), rs.end());
+            auto index = [&rs](int r) { return int(std::lower_bound(rs.begin(), rs.end(), r) - rs.begin()); };
+            base_type dsu(rs.size());
+            for (const auto &[u, v] : edges) {
+                const int ru = leader(u), rv = leader(v);
+                if (ru != rv) dsu.merge(index(ru), index(rv));
             }
+            const auto groups = dsu.groups();
+            // nothing but the creation of nodes can fail, so that either all of the edges or none of them are merged
+            const int old_node_num = node_num();
+            try {
+                for (const auto &group : groups) {
+                    std::vector<int> children;
+                    for (int i : group) children.push_back(_root[rs[i]]);
+                    create_node(std::move(children));
+                }
+            } catch (...) {
+                _g.resize(old_node_num), _created_time.resize(old_node_num), _parent.resize(old_node_num);
+                throw;
+            }
+            int new_root = old_node_num;
+            for (const auto &group : groups) {
+                for (int i : group) base_type::merge(rs[group.front()], rs[i]);
+                adopt_children(new_root);
+                _root[leader(rs[group.front()])] = new_root++;
+            }
+            ++_time;
         }
 
         int current_time() const { return _time; }
@@ -104,21 +125,21 @@ namespace suisen {
         int _time;
         std::vector<int> _created_time;
 
-        void merge_dfs(int u, int new_root) {
-            for (int v : _g[u]) merge_dfs(v, new_root), _g[v].shrink_to_fit();
-            create_edge(new_root, _root[u]);
-            _g[u].clear();
-        }
-
-        int create_node() {
-            _g.emplace_back();
-            _created_time.push_back(_time);
-            _parent.push_back(-1);
-            return _g.size() - 1;
+        // the node belongs to the merge in progress, which has not been counted in `_time` yet
+        int create_node(std::vector<int> children) {
+            const int vid = node_num();
+            try {
+                _created_time.push_back(_time + 1);
+                _parent.push_back(-1);
+                _g.push_back(std::move(children));
+            } catch (...) {
+                _created_time.resize(vid), _parent.resize(vid);
+                throw;
+            }
+            return vid;
         }
-        void create_edge(int new_root, int old_root) {
-            _g[new_root].push_back(old_root);
-            _parent[old_root] = new_root;
+        void adopt_children(int vid) {
+            for (int child : _g[vid]) _parent[child] = vid;
         }
         static int floor_log2(int n) {
             int res = 0;
-- 
2.43.0


From e56b0b5786a55db7222d592f2cebbaec89c794d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:37 +0000
Subject: [PATCH 115/158] fix: BitVector: could be assigned but not copied or
 moved, nor could what is made of it

---
 library/datastructure/bit_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/library/datastructure/bit_vector.hpp b/library/datastructure/bit_vector.hpp
index 7aa2f66..d8e6666 100644
--- a/library/datastructure/bit_vector.hpp
+++ b/library/datastructure/bit_vector.hpp
@@ -14,6 +14,8 @@ namespace suisen {
         BitVector(int n, Gen gen) : BitVector(n) {
             build(gen);
         }
+        BitVector(const BitVector& bv) = default;
+        BitVector(BitVector&& bv) = default;
         BitVector& operator=(const BitVector& bv) {
             n = bv.n, nl = bv.nl, ns = bv.ns, cum_l = bv.cum_l, cum_s = bv.cum_s, bits = bv.bits;
             return *this;
-- 
2.43.0


From 6079978ff23d953abafeb30874e68d306ac51d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:37 +0000
Subject: [PATCH 116/158] fix: CompressedWaveletMatrix::range_max_leq answered
 only for empty ranges

---
 library/datastructure/compressed_wavelet_matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/compressed_wavelet_matrix.hpp b/library/datastructure/compressed_wavelet_matrix.hpp
index 9e4b810..6846f0c 100644
--- a/library/datastructure/compressed_wavelet_matrix.hpp
+++ b/library/datastructure/compressed_wavelet_matrix.hpp
@@ -80,7 +80,7 @@ namespace suisen {
         }
         // returns the maximum value v in WaveletMatrix[l, r) s.t. v <= upper
         inline T range_max_leq(int l, int r, T upper, T default_value = T(-1)) const {
-            if (r >= l) return default_value;
+            if (l >= r) return default_value;
             return upper == std::numeric_limits<T>::max() ? range_max(l, r) : range_max_lt(l, r, upper + 1, default_value);
         }
     private:
-- 
2.43.0


From 95aff28912864cb8be20e6045ee390693915b82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:17 +0000
Subject: [PATCH 117/158] fix: CumulativeSum, CumulativeSum2D: a
 default-constructed object had no length

---
 library/util/cumulative_sum.hpp    | 2 +-
 library/util/cumulative_sum_2d.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/util/cumulative_sum.hpp b/library/util/cumulative_sum.hpp
index db9cff4..c2e1674 100644
--- a/library/util/cumulative_sum.hpp
+++ b/library/util/cumulative_sum.hpp
@@ -8,7 +8,7 @@
 namespace suisen {
     template <typename T, auto zero = default_operator::zero<T>, auto add = default_operator::add<T>, auto sub = default_operator::sub<T>>
     struct CumulativeSum {
-        CumulativeSum() = default;
+        CumulativeSum() : CumulativeSum(std::vector<T>{}) {}
         CumulativeSum(const std::vector<T> &a) : n(a.size()), s(n + 1, zero()) {
             for (size_t i = 0; i < n; ++i) s[i + 1] = add(a[i], s[i]);
         }
diff --git a/library/util/cumulative_sum_2d.hpp b/library/util/cumulative_sum_2d.hpp
index c58c8ed..3263765 100644
--- a/library/util/cumulative_sum_2d.hpp
+++ b/library/util/cumulative_sum_2d.hpp
@@ -8,7 +8,7 @@
 namespace suisen {
     template <typename T, auto zero = default_operator::zero<T>, auto add = default_operator::add<T>, auto sub = default_operator::sub<T>>
     struct CumulativeSum2D {
-        CumulativeSum2D() = default;
+        CumulativeSum2D() : CumulativeSum2D(std::vector<std::vector<T>>{}) {}
         CumulativeSum2D(const std::vector<std::vector<T>> &a) : n(a.size()), m(n == 0 ? 0 : a[0].size()), s(n + 1, std::vector<T>(m + 1, zero())) {
             for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) {
                 s[i + 1][j + 1] = sub(add(add(a[i][j], s[i + 1][j]), s[i][j + 1]), s[i][j]);
-- 
2.43.0


From ed62cfb1b70a0db70ff2ed4f63d9d65773aa785f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:17 +0000
Subject: [PATCH 118/158] fix: CartesianTree: a default-constructed tree named
 a root it does not have

---
 library/datastructure/cartesian_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/cartesian_tree.hpp b/library/datastructure/cartesian_tree.hpp
index b5c2161..16fd0dd 100644
--- a/library/datastructure/cartesian_tree.hpp
+++ b/library/datastructure/cartesian_tree.hpp
@@ -14,7 +14,7 @@ namespace suisen {
 
         const int root;
 
-        CartesianTree() : base_type(), root(0) {}
+        CartesianTree() : base_type(), root(absent) {}
         CartesianTree(int root, const base_type& g) : base_type(g), root(root) {}
         CartesianTree(int root, base_type&& g) : base_type(std::move(g)), root(root) {}
 
-- 
2.43.0


From 1c21e4e376495e01053afc5ae18f0d337de467c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:17 +0000
Subject: [PATCH 119/158] fix: SparseTable: an empty sequence took the
 logarithm of zero

---
 library/datastructure/sparse_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/sparse_table.hpp b/library/datastructure/sparse_table.hpp
index a60c735..703cf35 100644
--- a/library/datastructure/sparse_table.hpp
+++ b/library/datastructure/sparse_table.hpp
@@ -41,7 +41,7 @@ namespace suisen {
             std::fill(flog.begin() + (1 << log), flog.end(), log);
         }
         static int floor_log2(int i) {
-            return 31 - __builtin_clz(i);
+            return i ? 31 - __builtin_clz(i) : 0;
         }
     };
 } // namespace suisen
-- 
2.43.0


From d75588334276620b8fcd47a64abac01372988660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:40 +0000
Subject: [PATCH 120/158] fix: OfflineRectangleAddPointGet: an add or get that
 ran out of memory was half done

---
 .../fenwick_tree/offline_rectangle_add_point_get.hpp        | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/fenwick_tree/offline_rectangle_add_point_get.hpp b/library/datastructure/fenwick_tree/offline_rectangle_add_point_get.hpp
index 92e3fa8..cb91608 100644
--- a/library/datastructure/fenwick_tree/offline_rectangle_add_point_get.hpp
+++ b/library/datastructure/fenwick_tree/offline_rectangle_add_point_get.hpp
@@ -18,12 +18,14 @@ namespace suisen {
         void add(Index l, Index r, Index d, Index u, T w) {
             assert(l <= r and d <= u);
             if (l == r or d == u) return;
-            _rects.push_back({ l, r, d, u });
+            _weights.resize(_rects.size()); // drops the weight left by a call that failed below
             _weights.push_back(w);
+            _rects.push_back({ l, r, d, u });
         }
         void get(Index x, Index y) {
-            _points.push_back({ x, y });
+            _times.resize(_points.size()); // drops the time left by a call that failed below
             _times.push_back(_rects.size());
+            _points.push_back({ x, y });
         }
 
         std::vector<T> solve() const {
-- 
2.43.0


From 52c386db831a032a0dd0fe24abed8f104736a001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:00 +0000
Subject: [PATCH 121/158] fix: PermutationTree: the build read and wrote
 entries it had popped from a stack

---
 library/datastructure/permutation_tree.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/permutation_tree.hpp b/library/datastructure/permutation_tree.hpp
index 9209a59..a3cc371 100644
--- a/library/datastructure/permutation_tree.hpp
+++ b/library/datastructure/permutation_tree.hpp
@@ -79,8 +79,9 @@ namespace suisen {
 
             auto erase = [&](list_node_pointer node) -> list_node_pointer {
                 list_node_pointer nxt = node->nxt, prv = node->prv;
-                if (list_node_pointer& nl = max_val[node->max_idx].second; node == nl) nl = nxt and nxt->max_idx == node->max_idx ? nxt : nullptr;
-                if (list_node_pointer& nl = min_val[node->min_idx].second; node == nl) nl = nxt and nxt->min_idx == node->min_idx ? nxt : nullptr;
+                // the entry of the node may have been popped already
+                if (node->max_idx < int(max_val.size())) if (list_node_pointer& nl = max_val[node->max_idx].second; node == nl) nl = nxt and nxt->max_idx == node->max_idx ? nxt : nullptr;
+                if (node->min_idx < int(min_val.size())) if (list_node_pointer& nl = min_val[node->min_idx].second; node == nl) nl = nxt and nxt->min_idx == node->min_idx ? nxt : nullptr;
                 if (nxt) nxt->prv = prv, nxt->delta += node->delta;
                 if (prv) prv->nxt = nxt;
                 delete node;
-- 
2.43.0


From 02cc4220ea36db7659c37e7260a8701ce8042392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:04 +0000
Subject: [PATCH 122/158] fix: PermutationTree: a build that ran out of memory
 lost its list

---
 library/datastructure/permutation_tree.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/permutation_tree.hpp b/library/datastructure/permutation_tree.hpp
index a3cc371..509a45d 100644
--- a/library/datastructure/permutation_tree.hpp
+++ b/library/datastructure/permutation_tree.hpp
@@ -3,6 +3,7 @@
 
 #include <algorithm>
 #include <cassert>
+#include <deque>
 #include <limits>
 #include <utility>
 #include <vector>
@@ -72,6 +73,7 @@ namespace suisen {
                 DoublyLinkedList(int idx) : idx(idx) {}
             };
             using list_node_pointer = DoublyLinkedList::list_node_pointer;
+            std::deque<DoublyLinkedList> nodes; // owns the nodes, also when the build fails
             list_node_pointer tail = nullptr;
 
             using minmax_stack = std::vector<std::pair<int, list_node_pointer>>;
@@ -84,7 +86,6 @@ namespace suisen {
                 if (node->min_idx < int(min_val.size())) if (list_node_pointer& nl = min_val[node->min_idx].second; node == nl) nl = nxt and nxt->min_idx == node->min_idx ? nxt : nullptr;
                 if (nxt) nxt->prv = prv, nxt->delta += node->delta;
                 if (prv) prv->nxt = nxt;
-                delete node;
                 return nxt;
             };
             auto pop_tail = [&] { erase(std::exchange(tail, tail->prv)); };
@@ -92,7 +93,7 @@ namespace suisen {
             std::vector<std::vector<int>> select(n);
             for (int i = 0, pl = n; i < n; ++i) {
                 while (tail and tail->idx > pl) pop_tail();
-                list_node_pointer new_node = new DoublyLinkedList(i);
+                list_node_pointer new_node = &nodes.emplace_back(i);
                 auto rec_update = [&](auto rec_update, minmax_stack& vals, list_node_pointer nr, auto comp) -> bool {
                     if (vals.empty()) return false;
                     auto [val, nl] = vals.back();
-- 
2.43.0


From 042be3e8c0a7defce3600dde446e9f4ad15c4305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:06 +0000
Subject: [PATCH 123/158] fix: WaveletMatrix, RangeXoredMexQuery: constructors
 that allocate promised not to throw, so that running out of memory ended the
 program

---
 library/datastructure/compressed_wavelet_matrix.hpp  | 2 +-
 library/datastructure/wavelet_matrix.hpp             | 4 ++--
 library/range_query/static_range_xored_mex_query.hpp | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/library/datastructure/compressed_wavelet_matrix.hpp b/library/datastructure/compressed_wavelet_matrix.hpp
index 6846f0c..c98e9f1 100644
--- a/library/datastructure/compressed_wavelet_matrix.hpp
+++ b/library/datastructure/compressed_wavelet_matrix.hpp
@@ -13,7 +13,7 @@ namespace suisen {
     template <typename T, int log_max_len = std::numeric_limits<std::make_unsigned_t<T>>::digits>
     struct CompressedWaveletMatrix : private WaveletMatrix<int, log_max_len> {
         // default constructor
-        CompressedWaveletMatrix() noexcept : WaveletMatrix<int, log_max_len>(0) {}
+        CompressedWaveletMatrix() : WaveletMatrix<int, log_max_len>(0) {}
         // builds WaveletMatrix from generating function typed as (int) -> T
         template <typename Gen, constraints_t<std::is_invocable_r<T, Gen, int>> = nullptr>
         CompressedWaveletMatrix(int n, Gen generator) : WaveletMatrix<int, log_max_len>(n), comp(CoordinateCompressorBuilder<T>::build(n, generator)) {
diff --git a/library/datastructure/wavelet_matrix.hpp b/library/datastructure/wavelet_matrix.hpp
index bdf7070..0fac099 100644
--- a/library/datastructure/wavelet_matrix.hpp
+++ b/library/datastructure/wavelet_matrix.hpp
@@ -12,7 +12,7 @@ namespace suisen {
     template <typename T, int bit_num = std::numeric_limits<std::make_unsigned_t<T>>::digits>
     struct WaveletMatrix {
         // default constructor
-        WaveletMatrix() noexcept : n(0) {}
+        WaveletMatrix() : n(0) {}
         // builds WaveletMatrix from generating function typed as (int) -> T
         template <typename Gen, constraints_t<std::is_invocable_r<T, Gen, int>> = nullptr>
         WaveletMatrix(int n, Gen generator) : n(n) {
@@ -153,7 +153,7 @@ namespace suisen {
         // returns the maximum value v in WaveletMatrix[l, r) s.t. v <= upper
         T range_max_leq(int l, int r, T upper, T default_value = T(-1)) const { return range_xor_max_leq(l, r, 0, upper, default_value); }
     protected:
-        WaveletMatrix(int n) noexcept : n(n) {}
+        WaveletMatrix(int n) : n(n) {}
     private:
         static_assert(bit_num > 0);
         static constexpr T MAX = bit_num == std::numeric_limits<T>::digits ? std::numeric_limits<T>::max() : (T(1) << bit_num) - 1;
diff --git a/library/range_query/static_range_xored_mex_query.hpp b/library/range_query/static_range_xored_mex_query.hpp
index a6ecdb4..326dca6 100644
--- a/library/range_query/static_range_xored_mex_query.hpp
+++ b/library/range_query/static_range_xored_mex_query.hpp
@@ -12,7 +12,7 @@ namespace suisen {
     template <typename T, int bit_num = std::numeric_limits<std::make_unsigned_t<T>>::digits>
     struct RangeXoredMexQuery {
         // default constructor
-        RangeXoredMexQuery() noexcept : n(0) {}
+        RangeXoredMexQuery() : n(0) {}
         // builds WaveletMatrix from vector
         template <typename U, std::enable_if_t<std::is_constructible_v<T, U>, std::nullptr_t> = nullptr>
         RangeXoredMexQuery(const std::vector<U>& a) { build(a); }
-- 
2.43.0


From 8903531d8aeed955aa57305d6747393f726e966b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:53 +0000
Subject: [PATCH 124/158] fix: WaveletMatrix, RangeXoredMexQuery:
 default-constructed objects read values that were never set

---
 library/datastructure/wavelet_matrix.hpp             | 2 +-
 library/range_query/static_range_xored_mex_query.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/wavelet_matrix.hpp b/library/datastructure/wavelet_matrix.hpp
index 0fac099..e530078 100644
--- a/library/datastructure/wavelet_matrix.hpp
+++ b/library/datastructure/wavelet_matrix.hpp
@@ -160,7 +160,7 @@ namespace suisen {
 
         int n;
         std::array<BitVector, bit_num> bv;
-        std::array<int, bit_num> mid;
+        std::array<int, bit_num> mid{};
 
         void succ(int& l, int& r, const bool b, const int log) const {
             l = b * mid[log] + bv[log].rank(b, l);
diff --git a/library/range_query/static_range_xored_mex_query.hpp b/library/range_query/static_range_xored_mex_query.hpp
index 326dca6..4bea37d 100644
--- a/library/range_query/static_range_xored_mex_query.hpp
+++ b/library/range_query/static_range_xored_mex_query.hpp
@@ -12,7 +12,7 @@ namespace suisen {
     template <typename T, int bit_num = std::numeric_limits<std::make_unsigned_t<T>>::digits>
     struct RangeXoredMexQuery {
         // default constructor
-        RangeXoredMexQuery() : n(0) {}
+        RangeXoredMexQuery() : RangeXoredMexQuery(std::vector<T>{}) {}
         // builds WaveletMatrix from vector
         template <typename U, std::enable_if_t<std::is_constructible_v<T, U>, std::nullptr_t> = nullptr>
         RangeXoredMexQuery(const std::vector<U>& a) { build(a); }
-- 
2.43.0


From c54838ae1afeec842d6481cc98c180563687fde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:16 +0000
Subject: [PATCH 125/158] fix: RMQpm1, StaticRangeModeQuery, PermutationTree:
 an empty sequence was read outside its bounds or divided by zero

---
 library/algorithm/rmq_pm1.hpp                   | 1 +
 library/datastructure/permutation_tree.hpp      | 1 +
 library/range_query/static_range_mode_query.hpp | 2 +-
 3 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/library/algorithm/rmq_pm1.hpp b/library/algorithm/rmq_pm1.hpp
index d6ad85a..25d5a5c 100644
--- a/library/algorithm/rmq_pm1.hpp
+++ b/library/algorithm/rmq_pm1.hpp
@@ -68,6 +68,7 @@ namespace suisen {
 
         std::vector<int> build() {
             std::vector<int> c(m, e());
+            if (n == 0) return c;
             for (int i = 0, p = a[0] - 1; i < n; p = a[i++]) {
                 int outer = i >> LOG;
                 c[outer] = op(c[outer], a[i]);
diff --git a/library/datastructure/permutation_tree.hpp b/library/datastructure/permutation_tree.hpp
index 509a45d..2eda387 100644
--- a/library/datastructure/permutation_tree.hpp
+++ b/library/datastructure/permutation_tree.hpp
@@ -166,6 +166,7 @@ namespace suisen {
 
         static PermutationTree build(const std::vector<int>& p) {
             const int n = p.size();
+            if (n == 0) return PermutationTree();
             std::vector<std::vector<int>> sel_l = left_strong_intervals(p);
             std::vector<std::vector<int>> sel_r = right_strong_intervals(p);
 
diff --git a/library/range_query/static_range_mode_query.hpp b/library/range_query/static_range_mode_query.hpp
index c7a0aa7..89342ca 100644
--- a/library/range_query/static_range_mode_query.hpp
+++ b/library/range_query/static_range_mode_query.hpp
@@ -10,7 +10,7 @@ namespace suisen {
     template <typename T>
     struct StaticRangeModeQuery {
         StaticRangeModeQuery() = default;
-        explicit StaticRangeModeQuery(const std::vector<T> &a): _len(a.size()), _block_size(::sqrt(_len)), _block_num(_cld(_len, _block_size)) {
+        explicit StaticRangeModeQuery(const std::vector<T> &a): _len(a.size()), _block_size(std::max(1, int(::sqrt(_len)))), _block_num(_cld(_len, _block_size)) {
             // Computing the mapping from compressed values to original values
             _sorted = a;
             std::sort(_sorted.begin(), _sorted.end());
-- 
2.43.0


From 22e723f96764f27c7ecbacdd81f29748e88f4de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:49 +0000
Subject: [PATCH 126/158] fix: sbt_node: move_down_left and move_down_right
 called a function that does not exist

---
 library/number/stern_brocot_tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/number/stern_brocot_tree.hpp b/library/number/stern_brocot_tree.hpp
index c59bf2d..92a4d80 100644
--- a/library/number/stern_brocot_tree.hpp
+++ b/library/number/stern_brocot_tree.hpp
@@ -104,9 +104,9 @@ namespace suisen {
         }
 
         // move down k steps to the left
-        void move_down_left(Int k) { move(Left, k); }
+        void move_down_left(Int k) { move_down(Left, k); }
         // move down k steps to the right
-        void move_down_right(Int k) { move(Right, k); }
+        void move_down_right(Int k) { move_down(Right, k); }
         // move down k steps in the direction `dir`
         void move_down(sbt_arc dir, Int k) {
             assert(k >= 0);
-- 
2.43.0


From 54c457f4bf0362c4c1274c8548d547d75cce29c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:49 +0000
Subject: [PATCH 127/158] fix: sbt_node: a move_to that ran out of memory was
 half done

---
 library/number/stern_brocot_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/number/stern_brocot_tree.hpp b/library/number/stern_brocot_tree.hpp
index 92a4d80..10fca8e 100644
--- a/library/number/stern_brocot_tree.hpp
+++ b/library/number/stern_brocot_tree.hpp
@@ -130,7 +130,7 @@ namespace suisen {
             const Int d1 = depth() - a.depth(), d2 = dst.depth() - a.depth();
             if (k <= d1) return move_up(k);
             if (k - d1 > d2) return false;
-            *this = dst;
+            *this = sbt_node(dst);
             return move_up(d2 - (k - d1));
         }
 
-- 
2.43.0


From 86841e241e73f611aa4bfdd5a862b78ca0872ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:49 +0000
Subject: [PATCH 128/158] fix: HeavyLightDecomposition: a default-constructed
 object had no size

---
 library/tree/heavy_light_decomposition.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/tree/heavy_light_decomposition.hpp b/library/tree/heavy_light_decomposition.hpp
index 1153997..3a2e09c 100644
--- a/library/tree/heavy_light_decomposition.hpp
+++ b/library/tree/heavy_light_decomposition.hpp
@@ -150,7 +150,7 @@ class HeavyLightDecomposition {
             return res;
         }
     private:
-        int n;
+        int n = 0;
         std::vector<int> visit, leave, head, ord, siz, par, dep;
         int dfs(Graph &g, int u, int p) {
             par[u] = p;
-- 
2.43.0


From 5b9a80840245a0d0a359e858febc65fa87e6f1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:51 +0000
Subject: [PATCH 129/158] fix: factorial_number: the header used a
 fenwick_tree_set function that does not exist

---
 library/number/factorial_number.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/number/factorial_number.hpp b/library/number/factorial_number.hpp
index 0d4ff69..501c7a0 100644
--- a/library/number/factorial_number.hpp
+++ b/library/number/factorial_number.hpp
@@ -23,7 +23,7 @@ namespace suisen {
             fenwick_tree_set st(_n, true);
             for (int i = 0; i < _n - 1; ++i) {
                 int v = perm[i];
-                _d[_n - 2 - i] = st.index_of(v);
+                _d[_n - 2 - i] = st.count_lt(v);
                 st.erase(v);
             }
         }
-- 
2.43.0


From 19ae397352a7c136cb21205ae22aab91cdd9d195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:51 +0000
Subject: [PATCH 130/158] fix: ArrayMatrix: division by a matrix in place and
 of a scalar by a matrix did not compile

---
 library/linear_algebra/array_matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/linear_algebra/array_matrix.hpp b/library/linear_algebra/array_matrix.hpp
index 9e3092c..f07e37a 100644
--- a/library/linear_algebra/array_matrix.hpp
+++ b/library/linear_algebra/array_matrix.hpp
@@ -71,7 +71,7 @@ namespace suisen {
             for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < M; ++j) A[i][j] = _mul(A[i][j], val);
             return A;
         }
-        friend ArrayMatrix& operator/=(ArrayMatrix& A, const ArrayMatrix& B) { static_assert(is_square_v<>); return A *= *B.inv(); }
+        friend ArrayMatrix& operator/=(ArrayMatrix& A, const ArrayMatrix& B) { static_assert(is_square_v<>); return A *= B.inv(); }
         friend ArrayMatrix& operator/=(ArrayMatrix& A, const T& val) { return A *= _inv(val); }
 
         friend ArrayMatrix operator+(ArrayMatrix A, const ArrayMatrix& B) { A += B; return A; }
@@ -98,7 +98,7 @@ namespace suisen {
         }
         friend ArrayMatrix operator/(ArrayMatrix A, const ArrayMatrix& B) { static_assert(is_square_v<>); return A * B.inv(); }
         friend ArrayMatrix operator/(ArrayMatrix A, const T& val) { A /= val; return A; }
-        friend ArrayMatrix operator/(const T& val, ArrayMatrix A) { return A.inv() *= val; }
+        friend ArrayMatrix operator/(const T& val, ArrayMatrix A) { return val * A.inv(); }
 
         ArrayMatrix pow(long long b) const {
             static_assert(is_square_v<>);
-- 
2.43.0


From 708cdba76c8c9d62ff29691592efd4cace09e226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:16 +0000
Subject: [PATCH 131/158] fix: unsigned_bigint: construction from unsigned long
 or { 0 } used a constructor of std::vector

---
 library/math/unsigned_bigint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/math/unsigned_bigint.hpp b/library/math/unsigned_bigint.hpp
index f6f4c5c..575d201 100644
--- a/library/math/unsigned_bigint.hpp
+++ b/library/math/unsigned_bigint.hpp
@@ -195,7 +195,7 @@ namespace suisen {
             return out << v._to_string();
         }
     private:
-        using std::vector<int>::vector;
+        unsigned_bigint(const_iterator l, const_iterator r) : vector(l, r) {}
 
         void _check_leading_zeros() const {
             assert(this->empty() or this->back());
-- 
2.43.0


From 58ff9d8351d9ee2d8058388c5858953ded4b0898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:16 +0000
Subject: [PATCH 132/158] fix: matrices and power series: scaling by one of
 their own entries used the entry after it had been scaled

---
 library/linear_algebra/array_matrix.hpp    | 2 +-
 library/linear_algebra/matrix.hpp          | 2 +-
 library/math/array_set_power_series.hpp    | 2 +-
 library/math/set_power_series.hpp          | 2 +-
 library/polynomial/formal_power_series.hpp | 2 +-
 library/polynomial/fps.hpp                 | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/library/linear_algebra/array_matrix.hpp b/library/linear_algebra/array_matrix.hpp
index f07e37a..a9301b2 100644
--- a/library/linear_algebra/array_matrix.hpp
+++ b/library/linear_algebra/array_matrix.hpp
@@ -67,7 +67,7 @@ namespace suisen {
         }
         template <size_t K>
         friend MatrixType<N, K>& operator*=(ArrayMatrix& A, const MatrixType<M, K>& B) { return A = A * B; }
-        friend ArrayMatrix& operator*=(ArrayMatrix& A, const T& val) {
+        friend ArrayMatrix& operator*=(ArrayMatrix& A, T val) {
             for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < M; ++j) A[i][j] = _mul(A[i][j], val);
             return A;
         }
diff --git a/library/linear_algebra/matrix.hpp b/library/linear_algebra/matrix.hpp
index 2d77da2..c2f5516 100644
--- a/library/linear_algebra/matrix.hpp
+++ b/library/linear_algebra/matrix.hpp
@@ -41,7 +41,7 @@ namespace suisen {
             return A;
         }
         friend Matrix<T>& operator*=(Matrix<T>& A, const Matrix<T>& B) { return A = A * B; }
-        friend Matrix<T>& operator*=(Matrix<T>& A, const T& val) {
+        friend Matrix<T>& operator*=(Matrix<T>& A, T val) {
             for (auto& row : A.dat) for (auto& elm : row) elm *= val;
             return A;
         }
diff --git a/library/math/array_set_power_series.hpp b/library/math/array_set_power_series.hpp
index 7d72be9..d9065ce 100644
--- a/library/math/array_set_power_series.hpp
+++ b/library/math/array_set_power_series.hpp
@@ -68,7 +68,7 @@ namespace suisen {
         ArraySetPowerSeries& operator*=(const ArraySetPowerSeries& g) {
             return *this = (zeta() *= g).mobius_inplace();
         }
-        ArraySetPowerSeries& operator*=(const value_type& c) {
+        ArraySetPowerSeries& operator*=(value_type c) {
             for (auto& e : *this) e *= c;
             return *this;
         }
diff --git a/library/math/set_power_series.hpp b/library/math/set_power_series.hpp
index 20362f6..a36577d 100644
--- a/library/math/set_power_series.hpp
+++ b/library/math/set_power_series.hpp
@@ -68,7 +68,7 @@ namespace suisen {
         SetPowerSeries& operator*=(const SetPowerSeries& g) {
             return *this = (zeta() *= g).mobius_inplace();
         }
-        SetPowerSeries& operator*=(const value_type& c) {
+        SetPowerSeries& operator*=(value_type c) {
             for (auto& e : *this) e *= c;
             return *this;
         }
diff --git a/library/polynomial/formal_power_series.hpp b/library/polynomial/formal_power_series.hpp
index b829524..f91ed6c 100644
--- a/library/polynomial/formal_power_series.hpp
+++ b/library/polynomial/formal_power_series.hpp
@@ -85,7 +85,7 @@ namespace suisen {
 
         FormalPowerSeries& operator+=(const value_type& x) { return safe_get(0) += x, *this; }
         FormalPowerSeries& operator-=(const value_type& x) { return safe_get(0) -= x, *this; }
-        FormalPowerSeries& operator*=(const value_type& x) {
+        FormalPowerSeries& operator*=(value_type x) {
             for (auto& e : *this) e *= x;
             return *this;
         }
diff --git a/library/polynomial/fps.hpp b/library/polynomial/fps.hpp
index 9568dfe..0039f44 100644
--- a/library/polynomial/fps.hpp
+++ b/library/polynomial/fps.hpp
@@ -91,7 +91,7 @@ namespace suisen {
 
         FPS& operator+=(const value_type& x) { return safe_get(0) += x, *this; }
         FPS& operator-=(const value_type& x) { return safe_get(0) -= x, *this; }
-        FPS& operator*=(const value_type& x) {
+        FPS& operator*=(value_type x) {
             for (auto& e : *this) e *= x;
             return *this;
         }
-- 
2.43.0


From 1dd1066ee86b8dcdeb575b7505eb533dc87c62e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:16 +0000
Subject: [PATCH 133/158] fix: MatrixF2::rank: a row after the last was read

---
 library/linear_algebra/matrix_f2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/linear_algebra/matrix_f2.hpp b/library/linear_algebra/matrix_f2.hpp
index 1c568de..d32e4ee 100644
--- a/library/linear_algebra/matrix_f2.hpp
+++ b/library/linear_algebra/matrix_f2.hpp
@@ -119,7 +119,7 @@ namespace suisen {
         std::size_t rank() const {
             MatrixF2 A = *this;
             std::size_t r = 0;
-            for (std::size_t j = 0; j < m; ++j) {
+            for (std::size_t j = 0; j < m and r < n; ++j) {
                 for (std::size_t i = r + 1; i < n; ++i) if (A[i][j]) {
                     std::swap(A[r], A[i]);
                     if (A[i][j]) A[i] ^= A[r];
-- 
2.43.0


From 7bb45162c06f4f937f211406368b341e08e66977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:16 +0000
Subject: [PATCH 134/158] fix: Rational: fractions with equal integer parts
 compared the wrong way round, floor and ceil truncated

---
 library/number/rational.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/library/number/rational.hpp b/library/number/rational.hpp
index 8bedaea..6625501 100644
--- a/library/number/rational.hpp
+++ b/library/number/rational.hpp
@@ -41,14 +41,14 @@ struct Rational {
         if ((sgn_l ^ sgn_r) < 0) return sgn_l;
         T nl = std::abs(l.num), dl = l.den, nr = std::abs(r.num), dr = r.den;
         bool rev = sgn_l < 0;
-        for (; dl and dr; rev = -rev) {
+        for (; dl and dr; rev = not rev) {
             T ql = nl / dl, qr = nr / dr;
             if (ql != qr) return pow_m1((ql < qr) xor rev);
             T rl = nl % dl, rr = nr % dr;
             nl = dl, dl = rl;
             nr = dr, dr = rr;
         }
-        return dl or dr ? pow_m1((dr > 0) xor rev) : 0;
+        return dl or dr ? pow_m1((dl > 0) xor rev) : 0;
     }
     
     friend bool operator<(const Rational &l, const Rational &r) {
@@ -129,10 +129,10 @@ struct Rational {
     }
 
     T floor() const {
-        return num >= 0 ? num / den : -(-num / den);
+        return num / den - (num % den < 0);
     }
     T ceil() const {
-        return num >= 0 ? -(-num / den) : num / den;
+        return num / den + (num % den > 0);
     }
 
     static std::pair<Rational, Rational> approximate(long double target, T max_numerator, T max_denominator) {
-- 
2.43.0


From 7b62e89518f08c864872cdb6c76e684fb12f0896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:21 +0000
Subject: [PATCH 135/158] fix: factorial_number: the smallest long long was
 negated, a multiplication or resize that ran out of memory was half done

---
 library/number/factorial_number.hpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/library/number/factorial_number.hpp b/library/number/factorial_number.hpp
index 501c7a0..7b81d39 100644
--- a/library/number/factorial_number.hpp
+++ b/library/number/factorial_number.hpp
@@ -12,10 +12,10 @@ namespace suisen {
         factorial_number(): factorial_number(1) {}
         explicit factorial_number(int n, long long val = 0): _n(n), _d(_n - 1) {
             bool neg = val < 0;
-            val = std::abs(val);
-            for (int i = 0; val and i < _n - 1; ++i) {
-                _d[i] = val % (i + 2);
-                val /= i + 2;
+            unsigned long long abs_val = neg ? -static_cast<unsigned long long>(val) : val;
+            for (int i = 0; abs_val and i < _n - 1; ++i) {
+                _d[i] = abs_val % (i + 2);
+                abs_val /= i + 2;
             }
             if (neg) *this = -*this;
         }
@@ -32,8 +32,8 @@ namespace suisen {
             return _n;
         }
         void resize(int n) {
+            _d.resize(n - 1);
             _n = n;
-            _d.resize(_n - 1);
         }
 
         factorial_number operator-() const {
@@ -121,15 +121,15 @@ namespace suisen {
 
         factorial_number& operator*=(long long val) {
             bool neg = val < 0;
-            val = std::abs(val);
-            __int128_t carry = 0;
+            unsigned long long abs_val = neg ? -static_cast<unsigned long long>(val) : val;
+            factorial_number res(_n);
+            __uint128_t carry = 0;
             for (int i = 0; i < _n - 1; ++i) {
-                __int128_t x = __int128_t(_d[i]) * val + carry;
-                _d[i] = x % (i + 2);
+                __uint128_t x = __uint128_t(_d[i]) * abs_val + carry;
+                res._d[i] = x % (i + 2);
                 carry = x / (i + 2);
             }
-            if (neg) *this = -*this;
-            return *this;
+            return *this = neg ? -res : std::move(res);
         }
         friend factorial_number operator*(const factorial_number& x, long long val) {
             factorial_number z = x;
-- 
2.43.0


From d0f8e777c17029882a7b8f6d2a5e395f3d2dbcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:38 +0000
Subject: [PATCH 136/158] fix: convolution_naive: the product of two empty
 sequences had a negative length

---
 library/convolution/convolution_naive.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/convolution/convolution_naive.hpp b/library/convolution/convolution_naive.hpp
index 7c3f049..8593bf0 100644
--- a/library/convolution/convolution_naive.hpp
+++ b/library/convolution/convolution_naive.hpp
@@ -7,6 +7,7 @@ namespace suisen::internal {
     template <typename T, typename R = T>
     std::vector<R> convolution_naive(const std::vector<T>& a, const std::vector<T>& b) {
         const int n = a.size(), m = b.size();
+        if (n == 0 or m == 0) return {};
         std::vector<R> c(n + m - 1);
         if (n < m) {
             for (int j = 0; j < m; j++) for (int i = 0; i < n; i++) c[i + j] += R(a[i]) * b[j];
-- 
2.43.0


From b9c7113aa81118ce9c5f8a437c6286e7c6edd24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:49 +0000
Subject: [PATCH 137/158] fix: unsigned_bigint: division kept leading zeros in
 the running remainder

---
 library/math/unsigned_bigint.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/math/unsigned_bigint.hpp b/library/math/unsigned_bigint.hpp
index 575d201..e659117 100644
--- a/library/math/unsigned_bigint.hpp
+++ b/library/math/unsigned_bigint.hpp
@@ -398,6 +398,7 @@ namespace suisen {
                 }
                 if (i) {
                     r.insert(r.begin(), a[i - 1]);
+                    r._cut_leading_zeros();
                 }
             }
             std::reverse(q.begin(), q.end());
-- 
2.43.0


From d64c24588b56e459286aecfd7e9d21b09e28a4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:49 +0000
Subject: [PATCH 138/158] fix: unsigned_bigint: an addition or increment that
 ran out of memory was half done

---
 library/math/unsigned_bigint.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/library/math/unsigned_bigint.hpp b/library/math/unsigned_bigint.hpp
index e659117..713bbb3 100644
--- a/library/math/unsigned_bigint.hpp
+++ b/library/math/unsigned_bigint.hpp
@@ -206,11 +206,12 @@ namespace suisen {
         }
 
         static unsigned_bigint& _incr_assign(unsigned_bigint& a) {
+            a.push_back(0);
             for (int& e : a) {
-                if (++e != D) return a;
+                if (++e != D) break;
                 e -= D;
             }
-            a.push_back(1);
+            a._cut_leading_zeros();
             return a;
         }
         static unsigned_bigint& _decr_assign(unsigned_bigint& a) {
@@ -224,7 +225,7 @@ namespace suisen {
         }
 
         static unsigned_bigint& _add_assign(unsigned_bigint& a, const unsigned_bigint& b) {
-            if (a.size() < b.size()) a.resize(b.size());
+            a.resize(std::max(a.size(), b.size()) + 1);
             int carry = 0;
             for (size_t i = 0; i < a.size(); ++i) {
                 if (i >= b.size()) {
@@ -241,7 +242,7 @@ namespace suisen {
                     carry = 0;
                 }
             }
-            if (carry) a.push_back(1);
+            a._cut_leading_zeros();
             return a;
         }
 
-- 
2.43.0


From 974e7521f18e9b38551ce519ea12637bf49f5fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:13 +0000
Subject: [PATCH 139/158] fix: FPS::diff_inplace: the derivative of an empty
 series wrote outside of it

---
 library/polynomial/fps.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/polynomial/fps.hpp b/library/polynomial/fps.hpp
index 0039f44..d9742f8 100644
--- a/library/polynomial/fps.hpp
+++ b/library/polynomial/fps.hpp
@@ -179,6 +179,7 @@ namespace suisen {
         /* Other Operations */
 
         FPS& diff_inplace() {
+            if (this->empty()) return *this;
             const int n = size();
             for (int i = 1; i < n; ++i) (*this)[i - 1] = (*this)[i] * i;
             return (*this)[n - 1] = 0, *this;
-- 
2.43.0


From 8bbe8863bed77a239ba97be0f45c5b0ab8523150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:13 +0000
Subject: [PATCH 140/158] fix: ArrayFPSNaive::sqrt: coefficients after the last
 were read

---
 library/polynomial/array_fps_naive.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/polynomial/array_fps_naive.hpp b/library/polynomial/array_fps_naive.hpp
index cfd34e4..92b9c3e 100644
--- a/library/polynomial/array_fps_naive.hpp
+++ b/library/polynomial/array_fps_naive.hpp
@@ -183,7 +183,7 @@ namespace suisen {
             g[bg] = ::sqrt((*this)[bf]);
             value_type inv_2g0 = ::inv(2 * g[bg]);
             for (int i = 1; i <= d; ++i) {
-                g[bg + i] = (*this)[bf + i];
+                if (bf + i <= DEG) g[bg + i] = (*this)[bf + i];
                 for (int j = 1; j < i; ++j) g[bg + i] -= g[bg + j] * g[bg + i - j];
                 g[bg + i] *= inv_2g0;
             }
-- 
2.43.0


From 1aa80640eeec49f0797b2de5ef45bdb1ffccc308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:19 +0000
Subject: [PATCH 141/158] fix: unsigned_bigint: division of long numbers by a
 divisor of a power of 10 was wrong

---
 library/math/unsigned_bigint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/math/unsigned_bigint.hpp b/library/math/unsigned_bigint.hpp
index 713bbb3..4d8c007 100644
--- a/library/math/unsigned_bigint.hpp
+++ b/library/math/unsigned_bigint.hpp
@@ -437,7 +437,7 @@ namespace suisen {
                         carry = 0;
                     }
                 }
-                ++bc[k];
+                bc[k] = 1;
                 c *= bc;
                 c.erase(c.begin(), c.begin() + dB);
                 bc = b * c;
-- 
2.43.0


From a2e53b478a10e1f2aca5718e21a2f9db8dc9b86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:07 +0000
Subject: [PATCH 142/158] fix: contour structures on trees: a copy kept
 iterators into its original

---
 library/tree/contour_sum.hpp                           |  8 ++++----
 library/tree/point_add_range_contour_sum.hpp           | 10 +++++-----
 .../tree/point_add_range_contour_sum_invertible.hpp    | 10 +++++-----
 .../tree/point_get_range_contour_add_invertible.hpp    | 10 +++++-----
 library/tree/point_get_range_contour_operate.hpp       | 10 +++++-----
 library/tree/range_contour_sum_invertible.hpp          |  8 ++++----
 6 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/library/tree/contour_sum.hpp b/library/tree/contour_sum.hpp
index c27ef4f..43ef718 100644
--- a/library/tree/contour_sum.hpp
+++ b/library/tree/contour_sum.hpp
@@ -26,7 +26,7 @@ namespace suisen {
 
         struct TreeNode {
             std::vector<int> adj;
-            typename std::array<AuxInfo, 30>::iterator info_it;
+            int info_num;
             value_type dat;
         };
     public:
@@ -96,7 +96,7 @@ namespace suisen {
                         dq.pop_front();
                         if (u == nxt) *dat_it++ = std::exchange(sum, _zero()), nxt = -1;
                         auto& node = _nodes[u];
-                        *node.info_it++ = { child_index, int(dat_it - dat.begin()) };
+                        _info[u][node.info_num++] = { child_index, int(dat_it - dat.begin()) };
                         sum = _add(sum, node.dat);
                         for (int v : node.adj) if (v != pu) {
                             dq.emplace_back(v, u);
@@ -145,7 +145,7 @@ namespace suisen {
             res = _add(res, get(_subtrees[u][0], d - 1));
             res = _add(res, get(_subtrees[u][1], d - 1));
             int v = _par[u];
-            const auto it_end = _nodes[u].info_it;
+            const auto it_end = _info[u].begin() + _nodes[u].info_num;
             for (auto it = _info[u].begin(); it != it_end; ++it) {
                 int q = d - it->dist - 1;
                 if (v < _n and q == 0) res = _add(res, _nodes[v].dat);
@@ -176,7 +176,7 @@ namespace suisen {
             std::vector<TreeNode> tmp(_n);
             for (int i = 0; i < _n; ++i) {
                 for (int& e : _nodes[i].adj) e = _ord[e];
-                _nodes[i].info_it = _info[_ord[i]].begin();
+                _nodes[i].info_num = 0;
                 tmp[_ord[i]] = std::move(_nodes[i]);
             }
             _nodes.swap(tmp);
diff --git a/library/tree/point_add_range_contour_sum.hpp b/library/tree/point_add_range_contour_sum.hpp
index 1fe7e08..f0c5e8b 100644
--- a/library/tree/point_add_range_contour_sum.hpp
+++ b/library/tree/point_add_range_contour_sum.hpp
@@ -48,7 +48,7 @@ namespace suisen {
 
         struct TreeNode {
             std::vector<int> adj;
-            typename std::array<AuxInfo, 30>::iterator info_it;
+            int info_num;
             value_type dat;
         };
     public:
@@ -118,7 +118,7 @@ namespace suisen {
                         dq.pop_front();
                         if (u == nxt) *dat_it++ = std::exchange(sum, e()), nxt = -1;
                         auto& node = _nodes[u];
-                        *node.info_it++ = { child_index, int(dat_it - dat.begin()) };
+                        _info[u][node.info_num++] = { child_index, int(dat_it - dat.begin()) };
                         sum = op(sum, node.dat);
                         for (int v : node.adj) if (v != pu) {
                             dq.emplace_back(v, u);
@@ -170,7 +170,7 @@ namespace suisen {
             u = _ord[u];
             _nodes[u].dat = op(_nodes[u].dat, val);
             int v = _par[u];
-            const auto it_end = _nodes[u].info_it;
+            const auto it_end = _info[u].begin() + _nodes[u].info_num;
             for (auto it = _info[u].begin(); it != it_end; ++it) _subtrees[std::exchange(v, _par[v])][it->child_index].add(it->dep, val);
         }
         // O((logN)^2)
@@ -180,7 +180,7 @@ namespace suisen {
             res = op(res, _subtrees[u][0].sum(dl - 1, dr - 1));
             res = op(res, _subtrees[u][1].sum(dl - 1, dr - 1));
             int v = _par[u];
-            const auto it_end = _nodes[u].info_it;
+            const auto it_end = _info[u].begin() + _nodes[u].info_num;
             for (auto it = _info[u].begin(); it != it_end; ++it) {
                 const int ql = dl - it->dep - 1, qr = dr - it->dep - 1;
                 if (v < _n and ql <= 0 and 0 < qr) res = op(res, _nodes[v].dat);
@@ -211,7 +211,7 @@ namespace suisen {
             std::vector<TreeNode> tmp(_n);
             for (int i = 0; i < _n; ++i) {
                 for (int& elm : _nodes[i].adj) elm = _ord[elm];
-                _nodes[i].info_it = _info[_ord[i]].begin();
+                _nodes[i].info_num = 0;
                 tmp[_ord[i]] = std::move(_nodes[i]);
             }
             _nodes.swap(tmp);
diff --git a/library/tree/point_add_range_contour_sum_invertible.hpp b/library/tree/point_add_range_contour_sum_invertible.hpp
index 2859c96..5ec9e71 100644
--- a/library/tree/point_add_range_contour_sum_invertible.hpp
+++ b/library/tree/point_add_range_contour_sum_invertible.hpp
@@ -53,7 +53,7 @@ namespace suisen {
 
         struct TreeNode {
             std::vector<int> adj;
-            typename std::array<AuxInfo, 30>::iterator info_it;
+            int info_num;
             value_type dat;
         };
     public:
@@ -123,7 +123,7 @@ namespace suisen {
                         dq.pop_front();
                         if (u == nxt) *dat_it++ = std::exchange(sum, _zero()), nxt = -1;
                         auto& node = _nodes[u];
-                        *node.info_it++ = { child_index, int(dat_it - dat.begin()) };
+                        _info[u][node.info_num++] = { child_index, int(dat_it - dat.begin()) };
                         sum = _add(sum, node.dat);
                         for (int v : node.adj) if (v != pu) {
                             dq.emplace_back(v, u);
@@ -175,7 +175,7 @@ namespace suisen {
             u = _ord[u];
             _nodes[u].dat = _add(_nodes[u].dat, val);
             int v = _par[u];
-            const auto it_end = _nodes[u].info_it;
+            const auto it_end = _info[u].begin() + _nodes[u].info_num;
             for (auto it = _info[u].begin(); it != it_end; ++it) _subtrees[std::exchange(v, _par[v])][it->child_index].add(it->dep, val);
         }
         // O((logN)^2)
@@ -189,7 +189,7 @@ namespace suisen {
             res = _add(res, _subtrees[u][0].sum(dl - 1, dr - 1));
             res = _add(res, _subtrees[u][1].sum(dl - 1, dr - 1));
             int v = _par[u];
-            const auto it_end = _nodes[u].info_it;
+            const auto it_end = _info[u].begin() + _nodes[u].info_num;
             for (auto it = _info[u].begin(); it != it_end; ++it) {
                 const int ql = dl - it->dep - 1, qr = dr - it->dep - 1;
                 if (v < _n and ql <= 0 and 0 < qr) res = _add(res, _nodes[v].dat);
@@ -220,7 +220,7 @@ namespace suisen {
             std::vector<TreeNode> tmp(_n);
             for (int i = 0; i < _n; ++i) {
                 for (int& e : _nodes[i].adj) e = _ord[e];
-                _nodes[i].info_it = _info[_ord[i]].begin();
+                _nodes[i].info_num = 0;
                 tmp[_ord[i]] = std::move(_nodes[i]);
             }
             _nodes.swap(tmp);
diff --git a/library/tree/point_get_range_contour_add_invertible.hpp b/library/tree/point_get_range_contour_add_invertible.hpp
index 27e224b..7b2ab53 100644
--- a/library/tree/point_get_range_contour_add_invertible.hpp
+++ b/library/tree/point_get_range_contour_add_invertible.hpp
@@ -48,7 +48,7 @@ namespace suisen {
 
         struct TreeNode {
             std::vector<int> adj;
-            typename std::array<AuxInfo, 30>::iterator info_it;
+            int info_num;
         };
     public:
         PointGetRangeContourAddOnTree(int n = 0) : _n(n), _dat(_n), _nodes(_n), _par(2 * _n, -1), _info(_n), _subtrees(2 * _n), _ord(_n, -1) {}
@@ -109,7 +109,7 @@ namespace suisen {
                         dq.pop_front();
                         if (u == nxt) ++dep, nxt = -1;
                         auto& node = _nodes[u];
-                        *node.info_it++ = { child_index, dep };
+                        _info[u][node.info_num++] = { child_index, dep };
                         for (int v : node.adj) if (v != pu) {
                             dq.emplace_back(v, u);
                             if (nxt < 0) nxt = v;
@@ -154,7 +154,7 @@ namespace suisen {
             u = _ord[u];
             value_type res = _dat[u];
             int v = _par[u];
-            const auto it_end = _nodes[u].info_it;
+            const auto it_end = _info[u].begin() + _nodes[u].info_num;
             for (auto it = _info[u].begin(); it != it_end; ++it) res = mapping(_subtrees[std::exchange(v, _par[v])][it->child_index].get(it->dep), res);
             return res;
         }
@@ -170,7 +170,7 @@ namespace suisen {
             _subtrees[u][0].apply(dl - 1, dr - 1, f);
             _subtrees[u][1].apply(dl - 1, dr - 1, f);
             int v = _par[u];
-            const auto it_end = _nodes[u].info_it;
+            const auto it_end = _info[u].begin() + _nodes[u].info_num;
             for (auto it = _info[u].begin(); it != it_end; ++it) {
                 int ql = dl - it->dep - 1, qr = dr - it->dep - 1;
                 if (v < _n and ql <= 0 and 0 < qr) _dat[v] = mapping(f, _dat[v]);
@@ -201,7 +201,7 @@ namespace suisen {
             std::vector<TreeNode> tmp(_n);
             for (int i = 0; i < _n; ++i) {
                 for (int& e : _nodes[i].adj) e = _ord[e];
-                _nodes[i].info_it = _info[_ord[i]].begin();
+                _nodes[i].info_num = 0;
                 tmp[_ord[i]] = std::move(_nodes[i]);
                 _dat[_ord[i]] = a[i];
             }
diff --git a/library/tree/point_get_range_contour_operate.hpp b/library/tree/point_get_range_contour_operate.hpp
index 89066d3..a72b336 100644
--- a/library/tree/point_get_range_contour_operate.hpp
+++ b/library/tree/point_get_range_contour_operate.hpp
@@ -45,7 +45,7 @@ namespace suisen {
 
         struct TreeNode {
             std::vector<int> adj;
-            typename std::array<AuxInfo, 30>::iterator info_it;
+            int info_num;
         };
     public:
         PointGetRangeContourOperate(int n = 0) : _n(n), _dat(_n), _nodes(_n), _par(2 * _n, -1), _info(_n), _subtrees(2 * _n) {}
@@ -56,7 +56,7 @@ namespace suisen {
         }
         // O(NlogN)
         void build(const std::vector<value_type>& a) {
-            for (int i = 0; i < _n; ++i) _dat[i] = a[i], _nodes[i].info_it = _info[i].begin();
+            for (int i = 0; i < _n; ++i) _dat[i] = a[i], _nodes[i].info_num = 0;
 
             int new_node = _n;
             std::vector<int> sub_size(2 * _n, 0);
@@ -105,7 +105,7 @@ namespace suisen {
                         dq.pop_front();
                         if (u == nxt) ++dep, nxt = -1;
                         auto& node = _nodes[u];
-                        *node.info_it++ = { child_index, dep };
+                        _info[u][node.info_num++] = { child_index, dep };
                         for (int v : node.adj) if (v != pu) {
                             dq.emplace_back(v, u);
                             if (nxt < 0) nxt = v;
@@ -149,7 +149,7 @@ namespace suisen {
         value_type get(int u) const {
             value_type res = _dat[u];
             int v = _par[u];
-            const auto it_end = _nodes[u].info_it;
+            const auto it_end = _info[u].begin() + _nodes[u].info_num;
             for (auto it = _info[u].begin(); it != it_end; ++it) res = mapping(_subtrees[std::exchange(v, _par[v])][it->child_index].get(it->dep), res);
             return res;
         }
@@ -163,7 +163,7 @@ namespace suisen {
             _subtrees[u][0].apply(dl - 1, dr - 1, f);
             _subtrees[u][1].apply(dl - 1, dr - 1, f);
             int v = _par[u];
-            const auto it_end = _nodes[u].info_it;
+            const auto it_end = _info[u].begin() + _nodes[u].info_num;
             for (auto it = _info[u].begin(); it != it_end; ++it) {
                 int ql = dl - it->dep - 1, qr = dr - it->dep - 1;
                 if (v < _n and ql <= 0 and 0 < qr) _dat[v] = mapping(f, _dat[v]);
diff --git a/library/tree/range_contour_sum_invertible.hpp b/library/tree/range_contour_sum_invertible.hpp
index 289d5ec..78ad896 100644
--- a/library/tree/range_contour_sum_invertible.hpp
+++ b/library/tree/range_contour_sum_invertible.hpp
@@ -42,7 +42,7 @@ namespace suisen {
  
         struct TreeNode {
             std::vector<int> adj;
-            typename std::array<AuxInfo, 30>::iterator info_it;
+            int info_num;
             value_type dat;
         };
     public:
@@ -111,7 +111,7 @@ namespace suisen {
                         dq.pop_front();
                         if (u == nxt) *dat_it++ = std::exchange(sum, _zero()), nxt = -1;
                         auto& node = _nodes[u];
-                        *node.info_it++ = { child_index, int(dat_it - dat.begin()) };
+                        _info[u][node.info_num++] = { child_index, int(dat_it - dat.begin()) };
                         sum = _add(sum, node.dat);
                         for (int v : node.adj) if (v != pu) {
                             dq.emplace_back(v, u);
@@ -159,7 +159,7 @@ namespace suisen {
             res = _add(res, _subtrees[u][0].sum(dl - 1, dr - 1));
             res = _add(res, _subtrees[u][1].sum(dl - 1, dr - 1));
             int v = _par[u];
-            const auto it_end = _nodes[u].info_it;
+            const auto it_end = _info[u].begin() + _nodes[u].info_num;
             for (auto it = _info[u].begin(); it != it_end; ++it) {
                 int ql = dl - it->dist - 2, qr = dr - it->dist - 2;
                 if (v < _n and ql <= -1 and -1 < qr) res = _add(res, _nodes[v].dat);
@@ -190,7 +190,7 @@ namespace suisen {
             std::vector<TreeNode> tmp(_n);
             for (int i = 0; i < _n; ++i) {
                 for (int& e : _nodes[i].adj) e = _ord[e];
-                _nodes[i].info_it = _info[_ord[i]].begin();
+                _nodes[i].info_num = 0;
                 tmp[_ord[i]] = std::move(_nodes[i]);
             }
             _nodes.swap(tmp);
-- 
2.43.0


From 4a7668f7cc10e4fe061d3645df9cffeb90cf5214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:01 +0000
Subject: [PATCH 143/158] fix: InputStream: a failed read of a 128-bit integer
 overwrote its target with 0

---
 library/io/input_stream.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/io/input_stream.hpp b/library/io/input_stream.hpp
index cbb8e88..1cf3c28 100644
--- a/library/io/input_stream.hpp
+++ b/library/io/input_stream.hpp
@@ -29,8 +29,8 @@ namespace suisen::io {
         }
         static __int128_t _stoi128(const std::string& s) { return (s[0] == '-' ? -1 : +1) * _stou128(s); }
 
-        void _read(__uint128_t& v) { v = _stou128(std::string(_reader)); }
-        void _read(__int128_t& v) { v = _stoi128(std::string(_reader)); }
+        void _read(__uint128_t& v) { std::string s; if (is >> s) v = _stou128(s); }
+        void _read(__int128_t& v) { std::string s; if (is >> s) v = _stoi128(s); }
         template <typename T, typename U>
         void _read(std::pair<T, U>& a) { *this >> a.first >> a.second; }
         template <size_t N = 0, typename ...Args>
-- 
2.43.0


From 702e7041a6b5fa100aaba42114817547180de48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:42 +0000
Subject: [PATCH 144/158] fix: MonotonicCHT: negative slopes and arguments were
 rejected for floating-point types

---
 library/datastructure/monotonic_convex_hull_trick.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/monotonic_convex_hull_trick.hpp b/library/datastructure/monotonic_convex_hull_trick.hpp
index 749a097..cf7c60e 100644
--- a/library/datastructure/monotonic_convex_hull_trick.hpp
+++ b/library/datastructure/monotonic_convex_hull_trick.hpp
@@ -28,7 +28,7 @@ namespace suisen {
         struct query_impl {};
         template <typename Dummy>
         struct query_impl<inc_query_tag, Dummy> {
-            value_type prev_x = std::numeric_limits<value_type>::min();
+            value_type prev_x = std::numeric_limits<value_type>::lowest();
             value_type operator()(MonotonicCHT* ptr, value_type x) {
                 assert(x >= prev_x);
                 prev_x = x;
@@ -95,7 +95,7 @@ namespace suisen {
         }
     private:
         std::deque<std::pair<value_type, value_type>> lines;
-        value_type max_slope = std::numeric_limits<value_type>::min();
+        value_type max_slope = std::numeric_limits<value_type>::lowest();
         value_type min_slope = std::numeric_limits<value_type>::max();
         query_impl<query_tag> _query{};
 
-- 
2.43.0


From ad3c5c252271e550fb5ce09a8529eb5bf39b81b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:09 +0000
Subject: [PATCH 145/158] fix: BinaryTrie::to_string shifts in the value type

---
 library/datastructure/binary_trie.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/binary_trie.hpp b/library/datastructure/binary_trie.hpp
index f36869e..77ff513 100644
--- a/library/datastructure/binary_trie.hpp
+++ b/library/datastructure/binary_trie.hpp
@@ -53,11 +53,11 @@ class BinaryTrie {
             auto pref1 = pref0 + std::string(zo[0].size(), ' ');
             if (is_absent(0) or is_absent(1)) {
                 bool b = is_absent(0);
-                return res + zo[b] + ch[b]->to_string(k - 1, val | (b << k), pref1);
+                return res + zo[b] + ch[b]->to_string(k - 1, val | (U(b) << k), pref1);
             }
             res += zo[0] + ch[0]->to_string(k - 1, val, prefb);
             res += pref0 + "|\n";
-            res += pref0 + zo[1] + ch[1]->to_string(k - 1, val | (1 << k), pref1);
+            res += pref0 + zo[1] + ch[1]->to_string(k - 1, val | (U(1) << k), pref1);
             return res;
         }
     };
-- 
2.43.0


From a652facbf2a86cae916e0f4c3e59c74e3144f754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:53 +0000
Subject: [PATCH 146/158] fix: RangeChMinMaxAddRangeSum: max_right and min_left
 by template argument did not compile

---
 library/range_query/range_chmin_chmax_add_range_sum.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/range_query/range_chmin_chmax_add_range_sum.hpp b/library/range_query/range_chmin_chmax_add_range_sum.hpp
index 2a2ebb2..61bca4e 100644
--- a/library/range_query/range_chmin_chmax_add_range_sum.hpp
+++ b/library/range_query/range_chmin_chmax_add_range_sum.hpp
@@ -66,7 +66,7 @@ namespace suisen {
         }
         template <bool(*pred)(DataType)>
         int max_right(int l) {
-            return seg.max_right<pred>(l);
+            return seg.template max_right<pred>(l);
         }
         template <typename Pred>
         int max_right(int l, Pred &&pred) {
@@ -74,7 +74,7 @@ namespace suisen {
         }
         template <bool(*pred)(DataType)>
         int min_left(int r) {
-            return seg.min_left<pred>(r);
+            return seg.template min_left<pred>(r);
         }
         template <typename Pred>
         int min_left(int r, Pred &&pred) {
-- 
2.43.0


From bfb2e23a7aaeb8e4edc230190903f59774b9a7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:00 +0000
Subject: [PATCH 147/158] fix: SegmentTreeGraph::add_order counted the nodes of
 an order it could not store

---
 library/graph/segment_tree_graph.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/library/graph/segment_tree_graph.hpp b/library/graph/segment_tree_graph.hpp
index 5ee160b..7f18e61 100644
--- a/library/graph/segment_tree_graph.hpp
+++ b/library/graph/segment_tree_graph.hpp
@@ -33,8 +33,10 @@ class SegmentTreeGraph {
             assert(int(p.size()) == n);
             std::vector<int> seg(2 * n, -1);
             for (int i = 0; i < n; ++i) seg[n + i] = p[i];
-            for (int i = 1; i < n; ++i) seg[i] = next_id++;
+            int id = next_id;
+            for (int i = 1; i < n; ++i) seg[i] = id++;
             segs.push_back(std::move(seg));
+            next_id = id;
             return segs.size() - 1;
         }
         int add_order_identity() {
-- 
2.43.0


From 131af4e37f7c92825e6d3dc2648ddc0f3c0c59eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:09 +0000
Subject: [PATCH 148/158] fix: RunLengthEncoder lost its length in pop_back,
 swap and clear

---
 library/util/run_length_encoder.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/library/util/run_length_encoder.hpp b/library/util/run_length_encoder.hpp
index 8c36b17..d2406c6 100644
--- a/library/util/run_length_encoder.hpp
+++ b/library/util/run_length_encoder.hpp
@@ -13,16 +13,16 @@ class RunLengthEncoder {
         using const_iterator = typename std::vector<value_type>::const_iterator;
 
         RunLengthEncoder() noexcept : _length(0), comp() {}
-        RunLengthEncoder(const Container &c) noexcept {
+        RunLengthEncoder(const Container &c) {
             compress(c, comp);
             _length = c.size();
         }
         long long length() const noexcept {
             return _length;
         }
-        void swap(RunLengthEncoder<Container>  &other) { comp.swap(other.comp); }
-        void swap(RunLengthEncoder<Container> &&other) { comp.swap(other.comp); }
-        void clear() { comp.clear(); }
+        void swap(RunLengthEncoder<Container>  &other) { std::swap(_length, other._length), comp.swap(other.comp); }
+        void swap(RunLengthEncoder<Container> &&other) { std::swap(_length, other._length), comp.swap(other.comp); }
+        void clear() { _length = 0, comp.clear(); }
         auto begin()   const noexcept { return comp.begin();   }
         auto end()     const noexcept { return comp.end();     }
         auto rbegin()  const noexcept { return comp.rbegin();  }
@@ -49,8 +49,9 @@ class RunLengthEncoder {
             while (comp.size()) {
                 long long cnt = comp.back().second;
                 if (cnt > num) {
-                    comp.back.second -= num;
-                    return rem + num;
+                    comp.back().second -= num;
+                    rem += num;
+                    break;
                 }
                 num -= cnt, rem += cnt;
                 comp.pop_back();
-- 
2.43.0


From 2190d44f1ceba8f335100de519d4db7230546ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:09 +0000
Subject: [PATCH 149/158] fix: default_vector had an uninitialised default
 value

---
 library/util/default_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/util/default_vector.hpp b/library/util/default_vector.hpp
index fefa450..7f1f59a 100644
--- a/library/util/default_vector.hpp
+++ b/library/util/default_vector.hpp
@@ -37,7 +37,7 @@ class default_vector : public std::vector<T> {
             std::vector<T>::resize(n, default_value);
         }
     private:
-        T default_value;
+        T default_value{};
         bool index_out_of_bounds(unsigned int i) const {
             return i >= std::vector<T>::size();
         }
-- 
2.43.0


From 2c739036c100b153b8b28aa959ff299837015c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:09 +0000
Subject: [PATCH 150/158] fix: BezoutEquation::solve divided by zero for b = 0

---
 library/number/bezout_equation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/number/bezout_equation.hpp b/library/number/bezout_equation.hpp
index 7e57bf2..d8ff47c 100644
--- a/library/number/bezout_equation.hpp
+++ b/library/number/bezout_equation.hpp
@@ -237,7 +237,7 @@ namespace suisen {
                     const long long cx = b / g, cy = -a / g;
                     z /= g;
                     __int128_t x0 = __int128_t(x) * z, y0 = __int128_t(y) * z;
-                    __int128_t k0 = -x0 / cx;
+                    __int128_t k0 = cx == 0 ? 0 : -x0 / cx;
                     return BezoutEquationSolution::make_linear(x0 + k0 * cx, cx, y0 + k0 * cy, cy);
                 }
             }
-- 
2.43.0


From 8d2d5f2ac38a42404ac5e083745479d966f94454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:09 +0000
Subject: [PATCH 151/158] fix: MatcherMP read past the end of its pattern after
 an occurrence

---
 library/string/morris_pratt.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/string/morris_pratt.hpp b/library/string/morris_pratt.hpp
index 32b65cb..91dad52 100644
--- a/library/string/morris_pratt.hpp
+++ b/library/string/morris_pratt.hpp
@@ -48,16 +48,16 @@ namespace suisen {
         struct MatcherMP {
             MatcherMP() = default;
             MatcherMP(const RandomAccessibleContainer &s) : s(s), mp(morris_pratt(s)) {}
-            vector<int> operator()(const RandomAccessibleContainer &t) const {
+            std::vector<int> operator()(const RandomAccessibleContainer &t) const {
                 const int n = s.size(), m = t.size();
                 std::vector<int> res;
                 for (int i = 0, j = 0; i < m; ++i) {
                     while (j >= 0 and s[j] != t[i]) j = mp[j];
-                    if (++j == n) res.push_back(i - n + 1);
+                    if (++j == n) res.push_back(i - n + 1), j = mp[n];
                 }
                 return res;
             }
-            vector<int> enumerate_occurences(const RandomAccessibleContainer &t) const {
+            std::vector<int> enumerate_occurences(const RandomAccessibleContainer &t) const {
                 return (*this)(t);
             }
         private:
-- 
2.43.0


From 68b2e9c5f959302e2d887a584fc69d44e8a6507b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:25 +0000
Subject: [PATCH 152/158] fix: StepSum::sum read outside its table for a class
 beyond the end of a short sequence

---
 library/util/step_sum.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/library/util/step_sum.hpp b/library/util/step_sum.hpp
index f9a82aa..62b0bcc 100644
--- a/library/util/step_sum.hpp
+++ b/library/util/step_sum.hpp
@@ -19,8 +19,9 @@ namespace suisen {
         }
         // sum A_i for i = k (mod step) and i in [l, r)
         value_type sum(int k, int l, int r) const {
-            if (r <= k or r <= l or l >= _n) return 0;
-            const int t = _br.quo(std::min(_n, r) - 1 - k);
+            r = std::min(_n, r);
+            if (r <= k or r <= l) return 0;
+            const int t = _br.quo(r - 1 - k);
             T ans = _sum[t * _step + k];
             if (l > k) {
                 const int s = _br.quo(l - 1 - k);
-- 
2.43.0


From f8be8160128d985359bc0c4146ae21144f41ec06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:58 +0000
Subject: [PATCH 153/158] fix: square roots of power series to fewer terms than
 given lost the terms needed when the lowest ones vanish

---
 library/polynomial/formal_power_series.hpp | 3 ++-
 library/polynomial/fps.hpp                 | 3 ++-
 library/polynomial/fps_naive.hpp           | 1 +
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/library/polynomial/formal_power_series.hpp b/library/polynomial/formal_power_series.hpp
index f91ed6c..321f70d 100644
--- a/library/polynomial/formal_power_series.hpp
+++ b/library/polynomial/formal_power_series.hpp
@@ -319,12 +319,13 @@ namespace suisen {
 
         std::optional<FormalPowerSeries> safe_sqrt(int n = -1) const {
             if (n < 0) n = size();
-            if (n < 60) return FPSNaive<mint>(cut_copy(n)).safe_sqrt();
+            if (n < 60) return FPSNaive<mint>(*this).safe_sqrt(n);
             if (auto sp_f = sparse_fps_format(15); sp_f.has_value()) return safe_sqrt_sparse(std::move(*sp_f), n);
             int tlz = 0;
             while (tlz < size() and (*this)[tlz] == 0) ++tlz;
             if (tlz == size()) return FormalPowerSeries(n, 0);
             if (tlz & 1) return std::nullopt;
+            if (tlz / 2 >= n) return FormalPowerSeries(n, 0);
             const int m = n - tlz / 2;
 
             FormalPowerSeries h(this->begin() + tlz, this->end());
diff --git a/library/polynomial/fps.hpp b/library/polynomial/fps.hpp
index d9742f8..163aa14 100644
--- a/library/polynomial/fps.hpp
+++ b/library/polynomial/fps.hpp
@@ -259,12 +259,13 @@ namespace suisen {
         }
         std::optional<FPS> safe_sqrt(int n = -1) const {
             if (n < 0) n = size();
-            if (n < 60) return FPSNaive<mint>(cut_copy(n)).safe_sqrt(n);
+            if (n < 60) return FPSNaive<mint>(*this).safe_sqrt(n);
             if (auto sp_f = sparse_fps_format(15); sp_f.has_value()) return safe_sqrt_sparse(std::move(*sp_f), n);
             int tlz = 0;
             while (tlz < size() and (*this)[tlz] == 0) ++tlz;
             if (tlz == size()) return FPS(n, 0);
             if (tlz & 1) return std::nullopt;
+            if (tlz / 2 >= n) return FPS(n, 0);
             const int m = n - tlz / 2;
 
             FPS h(this->begin() + tlz, this->end());
diff --git a/library/polynomial/fps_naive.hpp b/library/polynomial/fps_naive.hpp
index bf85b6b..ab2e8e5 100644
--- a/library/polynomial/fps_naive.hpp
+++ b/library/polynomial/fps_naive.hpp
@@ -232,6 +232,7 @@ namespace suisen {
             while (dl < size() and unsafe_get(dl) == value_type{ 0 }) ++dl;
             if (dl == size()) return FPSNaive(n, 0);
             if (dl & 1) return std::nullopt;
+            if (dl / 2 >= n) return FPSNaive(n, 0);
 
             const int m = n - dl / 2;
 
-- 
2.43.0


From d51f9629c45af89c7bc3ea123bbbc56ff90e6656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:25 +0000
Subject: [PATCH 154/158] fix: a failed allocation while a treap was split or
 extended broke the tree and every later split

---
 .../bbst/implicit_treap_base.hpp              | 79 ++++++-------------
 .../bbst/reversible_implicit_treap_base.hpp   | 74 ++++++-----------
 2 files changed, 46 insertions(+), 107 deletions(-)

diff --git a/library/datastructure/bbst/implicit_treap_base.hpp b/library/datastructure/bbst/implicit_treap_base.hpp
index c17cf80..211172e 100644
--- a/library/datastructure/bbst/implicit_treap_base.hpp
+++ b/library/datastructure/bbst/implicit_treap_base.hpp
@@ -153,29 +153,15 @@ namespace suisen::internal::implicit_treap {
             if (k == 0) return { null, t };
             if (k == size(t)) return { t, null };
 
-            static std::vector<node_pointer> lp{}, rp{};
-
-            while (true) {
-                if (const size_type lsiz = safe_size(child0(t)); k <= lsiz) {
-                    if (rp.size()) set_child0(rp.back(), t);
-                    rp.push_back(t);
-                    if (k == lsiz) {
-                        if (lp.size()) set_child1(lp.back(), child0(t));
-
-                        node_pointer lt = set_child0(t, null), rt = null;
-
-                        while (lp.size()) node_type::update(lt = lp.back()), lp.pop_back();
-                        while (rp.size()) node_type::update(rt = rp.back()), rp.pop_back();
-
-                        return { lt, rt };
-                    }
-                    t = child0(t);
-                } else {
-                    if (lp.size()) set_child1(lp.back(), t);
-                    lp.push_back(t);
-                    t = child1(t);
-                    k -= lsiz + 1;
-                }
+            // no allocation here: it could fail when the tree is already taken apart
+            if (const size_type lsiz = safe_size(child0(t)); k <= lsiz) {
+                auto [ll, lr] = split(child0(t), k);
+                set_child0(t, lr);
+                return { ll, node_type::update(t) };
+            } else {
+                auto [rl, rr] = split(child1(t), k - (lsiz + 1));
+                set_child1(t, rl);
+                return { node_type::update(t), rr };
             }
         }
         static std::tuple<node_pointer, node_pointer, node_pointer> split(node_pointer t, size_type l, size_type r) {
@@ -214,39 +200,22 @@ namespace suisen::internal::implicit_treap {
 
         static node_pointer insert_impl(node_pointer t, size_type k, node_pointer new_node) {
             if (is_null(t)) return new_node;
-            static std::vector<node_pointer> st;
-            bool b = false;
-
-            while (true) {
-                if (is_null(t) or priority(new_node) > priority(t)) {
-                    if (is_null(t)) {
-                        t = new_node;
-                    } else {
-                        auto [tl, tr] = split(t, k);
-                        if (is_not_null(tl)) link(max(tl), new_node);
-                        if (is_not_null(tr)) link(new_node, min(tr));
-                        set_child0(new_node, tl);
-                        set_child1(new_node, tr);
-                        t = node_type::update(new_node);
-                    }
-                    if (st.size()) {
-                        set_child(st.back(), b, t);
-                        do t = node_type::update(st.back()), st.pop_back(); while (st.size());
-                    }
-                    return t;
-                } else {
-                    if (const size_type lsiz = safe_size(child0(t)); k <= lsiz) {
-                        if (k == lsiz) link(new_node, t);
-                        st.push_back(t), b = false;
-                        t = child0(t);
-                    } else {
-                        if (k == lsiz + 1) link(t, new_node);
-                        st.push_back(t), b = true;
-                        t = child1(t);
-                        k -= lsiz + 1;
-                    }
-                }
+            if (priority(new_node) > priority(t)) {
+                auto [tl, tr] = split(t, k);
+                if (is_not_null(tl)) link(max(tl), new_node);
+                if (is_not_null(tr)) link(new_node, min(tr));
+                set_child0(new_node, tl);
+                set_child1(new_node, tr);
+                return node_type::update(new_node);
             }
+            if (const size_type lsiz = safe_size(child0(t)); k <= lsiz) {
+                if (k == lsiz) link(new_node, t);
+                set_child0(t, insert_impl(child0(t), k, new_node));
+            } else {
+                if (k == lsiz + 1) link(t, new_node);
+                set_child1(t, insert_impl(child1(t), k - (lsiz + 1), new_node));
+            }
+            return node_type::update(t);
         }
         template <typename ...Args>
         static node_pointer insert(node_pointer t, size_type k, Args &&...args) {
diff --git a/library/datastructure/bbst/reversible_implicit_treap_base.hpp b/library/datastructure/bbst/reversible_implicit_treap_base.hpp
index 0aeb461..132aff4 100644
--- a/library/datastructure/bbst/reversible_implicit_treap_base.hpp
+++ b/library/datastructure/bbst/reversible_implicit_treap_base.hpp
@@ -127,29 +127,16 @@ namespace suisen::internal::implicit_treap {
             if (k == 0) return { empty_node(), t };
             if (k == size(t)) return { t, empty_node() };
 
-            static std::vector<node_pointer> lp{}, rp{};
-
-            while (true) {
-                node_type::push(t);
-                if (const size_type lsiz = safe_size(child0(t)); k <= lsiz) {
-                    if (rp.size()) set_child0(rp.back(), t);
-                    rp.push_back(t);
-                    if (k == lsiz) {
-                        node_pointer& lch = child0(t);
-                        if (lp.size()) set_child1(lp.back(), lch);
-
-                        node_pointer lt = std::exchange(lch, empty_node()), rt = empty_node();
-                        while (lp.size()) node_type::update(lt = lp.back()), lp.pop_back();
-                        while (rp.size()) node_type::update(rt = rp.back()), rp.pop_back();
-                        return { lt, rt };
-                    }
-                    t = child0(t);
-                } else {
-                    if (lp.size()) set_child1(lp.back(), t);
-                    lp.push_back(t);
-                    t = child1(t);
-                    k -= lsiz + 1;
-                }
+            // no allocation here: it could fail when the tree is already taken apart
+            node_type::push(t);
+            if (const size_type lsiz = safe_size(child0(t)); k <= lsiz) {
+                auto [ll, lr] = split(child0(t), k);
+                set_child0(t, lr);
+                return { ll, node_type::update(t) };
+            } else {
+                auto [rl, rr] = split(child1(t), k - (lsiz + 1));
+                set_child1(t, rl);
+                return { node_type::update(t), rr };
             }
         }
         static std::tuple<node_pointer, node_pointer, node_pointer> split(node_pointer t, size_type l, size_type r) {
@@ -205,36 +192,19 @@ namespace suisen::internal::implicit_treap {
             if (not t) {
                 return new_node;
             }
-            static std::vector<node_pointer> st;
-
-            node_pointer* p = nullptr;
-
-            while (true) {
-                if ((not t) or priority(new_node) > priority(t)) {
-                    if (t) {
-                        auto [tl, tr] = split(t, k);
-                        set_child0(new_node, tl);
-                        set_child1(new_node, tr);
-                        t = node_type::update(new_node);
-                    } else {
-                        t = new_node;
-                    }
-                    if (p) *p = t;
-                    while (st.size()) {
-                        t = node_type::update(st.back()), st.pop_back();
-                    }
-                    return t;
-                } else {
-                    node_type::push(t);
-                    st.push_back(t);
-                    if (const size_type lsiz = safe_size(child0(t)); k <= lsiz) {
-                        t = *(p = &child0(t));
-                    } else {
-                        t = *(p = &child1(t));
-                        k -= lsiz + 1;
-                    }
-                }
+            if (priority(new_node) > priority(t)) {
+                auto [tl, tr] = split(t, k);
+                set_child0(new_node, tl);
+                set_child1(new_node, tr);
+                return node_type::update(new_node);
             }
+            node_type::push(t);
+            if (const size_type lsiz = safe_size(child0(t)); k <= lsiz) {
+                set_child0(t, insert_impl(child0(t), k, new_node));
+            } else {
+                set_child1(t, insert_impl(child1(t), k - (lsiz + 1), new_node));
+            }
+            return node_type::update(t);
         }
         template <typename ...Args>
         static node_pointer insert(node_pointer t, size_type k, Args &&...args) {
-- 
2.43.0


From 784b21e233aa865f3844d182fdb9ec72986be214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:04 +0000
Subject: [PATCH 155/158] fix: giving a treap node back could fail, and a
 failed construction lost nodes

---
 .../bbst/implicit_treap_base.hpp              | 13 +++++++++---
 .../bbst/reversible_implicit_treap_base.hpp   | 21 ++++++++++++-------
 library/util/pointer_32bit.hpp                |  2 ++
 3 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/library/datastructure/bbst/implicit_treap_base.hpp b/library/datastructure/bbst/implicit_treap_base.hpp
index 211172e..d2463eb 100644
--- a/library/datastructure/bbst/implicit_treap_base.hpp
+++ b/library/datastructure/bbst/implicit_treap_base.hpp
@@ -99,10 +99,12 @@ namespace suisen::internal::implicit_treap {
         static node_pointer empty_node() { return null; }
         template <typename ...Args>
         static node_pointer create_node(Args &&...args) {
+            // giving a node back must not fail
+            if (_erased.capacity() <= _nodes.size()) _erased.reserve(2 * _nodes.size() + 1);
             if (_erased.size()) {
                 node_pointer res = _erased.back();
-                _erased.pop_back();
                 node(res) = node_type(std::forward<Args>(args)...);
+                _erased.pop_back();
                 return res;
             } else {
                 node_pointer res = _nodes.size();
@@ -128,7 +130,7 @@ namespace suisen::internal::implicit_treap {
             std::generate(priorities.begin(), priorities.end(), random_priority);
             std::make_heap(priorities.begin(), priorities.end());
 
-            std::vector<node_pointer> nodes(n);
+            std::vector<node_pointer> nodes(n, null);
 
             auto rec = [&](auto rec, size_t heap_index, size_t dat_index_offset) -> std::pair<size_t, node_pointer> {
                 if (heap_index >= n) return { 0, null };
@@ -146,7 +148,12 @@ namespace suisen::internal::implicit_treap {
                 set_child1(root, rch);
                 return { lsiz + 1 + rsiz, node_type::update(root) };
             };
-            return rec(rec, 0, 0).second;
+            try {
+                return rec(rec, 0, 0).second;
+            } catch (...) {
+                for (node_pointer t : nodes) if (is_not_null(t)) delete_node(t);
+                throw;
+            }
         }
 
         static std::pair<node_pointer, node_pointer> split(node_pointer t, size_type k) {
diff --git a/library/datastructure/bbst/reversible_implicit_treap_base.hpp b/library/datastructure/bbst/reversible_implicit_treap_base.hpp
index 132aff4..b0eb13a 100644
--- a/library/datastructure/bbst/reversible_implicit_treap_base.hpp
+++ b/library/datastructure/bbst/reversible_implicit_treap_base.hpp
@@ -104,15 +104,20 @@ namespace suisen::internal::implicit_treap {
             size_t fpow2 = 1;
             while ((fpow2 << 1) <= n) fpow2 <<= 1;
 
-            for (size_t bbst_index = 1, skipped = 0; bbst_index < 2 * fpow2; ++bbst_index) {
-                size_t heap_index = (fpow2 | ((bbst_index - 1) >> 1)) >> __builtin_ctz(bbst_index);
-                if (heap_index <= n) {
-                    size_t index = bbst_index - skipped;
-                    nodes[heap_index - 1] = node_pointer::alloc(std::move(dat[index - 1]));
-                    set_priority(nodes[heap_index - 1], priorities[heap_index - 1]);
-                } else {
-                    ++skipped;
+            try {
+                for (size_t bbst_index = 1, skipped = 0; bbst_index < 2 * fpow2; ++bbst_index) {
+                    size_t heap_index = (fpow2 | ((bbst_index - 1) >> 1)) >> __builtin_ctz(bbst_index);
+                    if (heap_index <= n) {
+                        size_t index = bbst_index - skipped;
+                        nodes[heap_index - 1] = node_pointer::alloc(std::move(dat[index - 1]));
+                        set_priority(nodes[heap_index - 1], priorities[heap_index - 1]);
+                    } else {
+                        ++skipped;
+                    }
                 }
+            } catch (...) {
+                for (node_pointer t : nodes) if (t) node_pointer::dealloc(t);
+                throw;
             }
             for (size_t i = fpow2 - 1; i >= 1; --i) {
                 size_t li = 2 * i, ri = 2 * i + 1;
diff --git a/library/util/pointer_32bit.hpp b/library/util/pointer_32bit.hpp
index 961b964..5e0098d 100644
--- a/library/util/pointer_32bit.hpp
+++ b/library/util/pointer_32bit.hpp
@@ -35,6 +35,8 @@ namespace suisen {
 
         template <typename ...Args>
         static ptr32 alloc(Args &&...args) {
+            // giving an object back must not fail
+            if (del.capacity() <= pool.size()) del.reserve(2 * pool.size() + 1);
             if (del.size()) {
                 ptr32 ptr(del.back());
                 *ptr = object_type(std::forward<Args>(args)...);
-- 
2.43.0


From 80ca92b00eab55e94afbdb067b5e4b565282c943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:49 +0000
Subject: [PATCH 156/158] fix: VecSparseFPS sums lost the terms of the longer
 operand, and negation, products and bostan_mori did not compile

---
 library/polynomial/vec_sparse_fps.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/library/polynomial/vec_sparse_fps.hpp b/library/polynomial/vec_sparse_fps.hpp
index d0e622a..5443121 100644
--- a/library/polynomial/vec_sparse_fps.hpp
+++ b/library/polynomial/vec_sparse_fps.hpp
@@ -35,7 +35,7 @@ namespace suisen {
         VecSparseFPS operator-() const {
             VecSparseFPS res;
             for (const auto &[i, f] : _f) {
-                auto &back = res._f.emplace_back(i, {});
+                auto &back = res._f.emplace_back(i, std::vector<value_type>{});
                 for (const auto &v : f) back.second.push_back(-v);
             }
             return res;
@@ -43,7 +43,7 @@ namespace suisen {
         friend VecSparseFPS operator+(const VecSparseFPS &f, const VecSparseFPS &g) {
             const int n = f._f.size(), m = g._f.size();
             VecSparseFPS h;
-            for (int i = 0, j = 0; i < n and j < m;) {
+            for (int i = 0, j = 0; i < n or j < m;) {
                 if (j == m or (i < n and f._f[i].first < g._f[j].first)) {
                     h.add_to_last(f._f[i++]);
                 } else {
@@ -63,7 +63,7 @@ namespace suisen {
             std::sort(data.begin(), data.end(), [](auto &p1, auto &p2) { return p1.first < p2.first; });
             VecSparseFPS h;
             for (auto &[i, a] : data) {
-                h.add_to_last(i, std::move(a));
+                h.add_to_last({ i, std::move(a) });
             }
             return h;
         }
@@ -116,7 +116,7 @@ namespace suisen {
 
         static value_type bostan_mori(VecSparseFPS P, std::vector<value_type> Q, long long m) {
             for (; m; m >>= 1) {
-                std::vector<mint> mQ = Q;
+                std::vector<value_type> mQ = Q;
                 for (int i = 1; i < int(Q.size()); i += 2) mQ[i] = -mQ[i];
                 auto nP = P * mQ;
                 P.clear();
-- 
2.43.0


From 5706efeecb9774567bcf03dad4e7eb0c75ed0a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:49 +0000
Subject: [PATCH 157/158] fix: FPS::prod and RationalFPS::sum of no series read
 the top of an empty queue

---
 library/polynomial/fps.hpp          | 1 +
 library/polynomial/rational_fps.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/library/polynomial/fps.hpp b/library/polynomial/fps.hpp
index 163aa14..f42261e 100644
--- a/library/polynomial/fps.hpp
+++ b/library/polynomial/fps.hpp
@@ -296,6 +296,7 @@ namespace suisen {
         static FPS prod(const std::vector<FPS>& fs) {
             auto comp = [](const FPS& f, const FPS& g) { return f.size() > g.size(); };
             std::priority_queue<FPS, std::vector<FPS>, decltype(comp)> pq{ comp };
+            if (fs.empty()) return { 1 };
             for (const auto& f : fs) pq.push(f);
             while (pq.size() > 1) {
                 auto f = pq.top();
diff --git a/library/polynomial/rational_fps.hpp b/library/polynomial/rational_fps.hpp
index 20be22f..a2fd6e5 100644
--- a/library/polynomial/rational_fps.hpp
+++ b/library/polynomial/rational_fps.hpp
@@ -77,6 +77,7 @@ namespace suisen {
                 return f.den.size() > g.den.size();
             };
             std::priority_queue<RationalFPS<FPSType>, std::vector<RationalFPS<FPSType>>, decltype(comp)> pq{ comp };
+            if (fs.empty()) return {};
             for (const auto& f : fs) pq.push(f);
 
             while (pq.size() > 1) {
-- 
2.43.0


From 5e24c0312daf7efc3ed8cd02fa161b809aaee39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:00 +0000
Subject: [PATCH 158/158] fix: RationalFPS::normalize lost the whole part when
 memory ran out for its copy

---
 library/polynomial/rational_fps.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/polynomial/rational_fps.hpp b/library/polynomial/rational_fps.hpp
index a2fd6e5..1e47404 100644
--- a/library/polynomial/rational_fps.hpp
+++ b/library/polynomial/rational_fps.hpp
@@ -69,7 +69,7 @@ namespace suisen {
         FPSType normalize() {
             auto [q, r] = num.div_mod(den);
             num = std::move(r);
-            return q;
+            return std::move(q);
         }
 
         static RationalFPS<FPSType> sum(const std::vector<RationalFPS<FPSType>>& fs) {
-- 
2.43.0

