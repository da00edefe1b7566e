From 6848a8eb2fe41676576c1080f1d0d52874812413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:28 +0000
Subject: [PATCH 01/61] fix: polynomial_eval_multipoint_eval names the series
 type that exists

---
 library/convolution/polynomial_eval_multipoint_eval.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/convolution/polynomial_eval_multipoint_eval.hpp b/library/convolution/polynomial_eval_multipoint_eval.hpp
index 45d9e8b..4f0fa1f 100644
--- a/library/convolution/polynomial_eval_multipoint_eval.hpp
+++ b/library/convolution/polynomial_eval_multipoint_eval.hpp
@@ -6,7 +6,7 @@
 
 namespace suisen {
     template <typename mint, auto transform, auto transform_inv>
-    std::vector<mint> polynomial_eval(std::vector<mint> &&a, const FPS<mint> &f) {
+    std::vector<mint> polynomial_eval(std::vector<mint> &&a, const FormalPowerSeries<mint> &f) {
         transform(a);
         a = multi_point_eval(f, a);
         transform_inv(a);
@@ -14,7 +14,7 @@ namespace suisen {
     }
 
     template <typename mint, auto transform, auto transform_inv>
-    std::vector<mint> polynomial_eval(const std::vector<mint> &a, const FPS<mint> &f) {
+    std::vector<mint> polynomial_eval(const std::vector<mint> &a, const FormalPowerSeries<mint> &f) {
         return polynomial_eval<mint, transform, transform_inv>(std::vector<mint>(a), f);
     }
 } // namespace suisen
-- 
2.43.0


From ead0422780a6df3bb05c1964df2728aee58c194c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:28 +0000
Subject: [PATCH 02/61] fix: priority_queue aliases name the heaps that exist

---
 library/datastructure/priority_queue.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/priority_queue.hpp b/library/datastructure/priority_queue.hpp
index 2a5d2c5..758c1a5 100644
--- a/library/datastructure/priority_queue.hpp
+++ b/library/datastructure/priority_queue.hpp
@@ -5,9 +5,9 @@
 
 namespace suisen {
     template <typename T, typename Comp = std::less<T>>
-    using MinPriorityQueue = suisen::BinaryHeap<T, Comp>;
+    using MinPriorityQueue = suisen::MinBinaryHeap<T, Comp>;
     template <typename T>
-    using MaxPriorityQueue = suisen::BinaryHeap<T, std::greater<T>>;
+    using MaxPriorityQueue = suisen::MaxBinaryHeap<T>;
 } // namespace suisen
 
 
-- 
2.43.0


From 0c2fbddec7d74b1fae26ddb644a38f3dfa3eaae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:28 +0000
Subject: [PATCH 03/61] fix: factorial_number uses the rank query of
 fenwick_tree_set

---
 library/number/factorial_number.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/number/factorial_number.hpp b/library/number/factorial_number.hpp
index 0d4ff69..501c7a0 100644
--- a/library/number/factorial_number.hpp
+++ b/library/number/factorial_number.hpp
@@ -23,7 +23,7 @@ namespace suisen {
             fenwick_tree_set st(_n, true);
             for (int i = 0; i < _n - 1; ++i) {
                 int v = perm[i];
-                _d[_n - 2 - i] = st.index_of(v);
+                _d[_n - 2 - i] = st.count_lt(v);
                 st.erase(v);
             }
         }
-- 
2.43.0


From b0ab4512c5af53bb73571a822ca38a13101df514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:28 +0000
Subject: [PATCH 04/61] fix: FactorizedForm passes its template argument on

---
 library/number/factorized_form.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/number/factorized_form.hpp b/library/number/factorized_form.hpp
index 6ccf836..f339ab2 100644
--- a/library/number/factorized_form.hpp
+++ b/library/number/factorized_form.hpp
@@ -24,7 +24,7 @@ namespace suisen {
         }
     };
     template <typename T, std::enable_if_t<std::is_integral_v<T>, std::nullptr_t> = nullptr>
-    using FactorizedForm = std::vector<PrimePower>;
+    using FactorizedForm = std::vector<PrimePower<T>>;
 } // namespace suisen
 
 namespace std {
-- 
2.43.0


From 795b5feeab58072c3ef02eeb8f8392ec949a4f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:28 +0000
Subject: [PATCH 05/61] fix: VecSparseFPS::bostan_mori uses its own value type

---
 library/polynomial/vec_sparse_fps.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/polynomial/vec_sparse_fps.hpp b/library/polynomial/vec_sparse_fps.hpp
index d0e622a..18fde2b 100644
--- a/library/polynomial/vec_sparse_fps.hpp
+++ b/library/polynomial/vec_sparse_fps.hpp
@@ -116,7 +116,7 @@ namespace suisen {
 
         static value_type bostan_mori(VecSparseFPS P, std::vector<value_type> Q, long long m) {
             for (; m; m >>= 1) {
-                std::vector<mint> mQ = Q;
+                std::vector<value_type> mQ = Q;
                 for (int i = 1; i < int(Q.size()); i += 2) mQ[i] = -mQ[i];
                 auto nP = P * mQ;
                 P.clear();
-- 
2.43.0


From fd1afb0d55488999c3226e1bd86f9ad740507c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:28 +0000
Subject: [PATCH 06/61] fix: MatcherMP qualifies std::vector and never reads
 past the pattern after a match

---
 library/string/morris_pratt.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/library/string/morris_pratt.hpp b/library/string/morris_pratt.hpp
index 32b65cb..f0812e8 100644
--- a/library/string/morris_pratt.hpp
+++ b/library/string/morris_pratt.hpp
@@ -48,16 +48,19 @@ namespace suisen {
         struct MatcherMP {
             MatcherMP() = default;
             MatcherMP(const RandomAccessibleContainer &s) : s(s), mp(morris_pratt(s)) {}
-            vector<int> operator()(const RandomAccessibleContainer &t) const {
+            std::vector<int> operator()(const RandomAccessibleContainer &t) const {
                 const int n = s.size(), m = t.size();
                 std::vector<int> res;
                 for (int i = 0, j = 0; i < m; ++i) {
                     while (j >= 0 and s[j] != t[i]) j = mp[j];
-                    if (++j == n) res.push_back(i - n + 1);
+                    if (++j == n) {
+                        res.push_back(i - n + 1);
+                        j = mp[j];
+                    }
                 }
                 return res;
             }
-            vector<int> enumerate_occurences(const RandomAccessibleContainer &t) const {
+            std::vector<int> enumerate_occurences(const RandomAccessibleContainer &t) const {
                 return (*this)(t);
             }
         private:
-- 
2.43.0


From 4432e617666ce033b60f9d7664ec6b02b21bf609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:28 +0000
Subject: [PATCH 07/61] fix: sqrt_sparse calls the sparse static helper

---
 library/polynomial/formal_power_series.hpp | 2 +-
 library/polynomial/fps.hpp                 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/polynomial/formal_power_series.hpp b/library/polynomial/formal_power_series.hpp
index b829524..0ae0f6c 100644
--- a/library/polynomial/formal_power_series.hpp
+++ b/library/polynomial/formal_power_series.hpp
@@ -508,7 +508,7 @@ namespace suisen {
             return g;
         }
         static FormalPowerSeries sqrt_sparse(const std::vector<std::pair<int, value_type>>& f, const int n) {
-            return *safe_sqrt(f, n);
+            return *safe_sqrt_sparse(f, n);
         }
     };
 } // namespace suisen
diff --git a/library/polynomial/fps.hpp b/library/polynomial/fps.hpp
index 9568dfe..002a958 100644
--- a/library/polynomial/fps.hpp
+++ b/library/polynomial/fps.hpp
@@ -429,7 +429,7 @@ namespace suisen {
             return g;
         }
         static FPS sqrt_sparse(const std::vector<std::pair<int, value_type>>& f, const int n) {
-            return *safe_sqrt(f, n);
+            return *safe_sqrt_sparse(f, n);
         }
     };
 
-- 
2.43.0


From 9d4ebb21e3c64a632d951b321cbcc1a5b606370e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:28 +0000
Subject: [PATCH 08/61] fix: SegmentTree::max_right/min_left evaluate the
 identity

---
 library/datastructure/segment_tree/segment_tree.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/library/datastructure/segment_tree/segment_tree.hpp b/library/datastructure/segment_tree/segment_tree.hpp
index d5568f9..2898f7a 100644
--- a/library/datastructure/segment_tree/segment_tree.hpp
+++ b/library/datastructure/segment_tree/segment_tree.hpp
@@ -50,10 +50,10 @@ class SegmentTree {
         template <typename Pred, constraints_t<std::is_invocable_r<bool, Pred, T>> = nullptr>
         int max_right(int l, const Pred &f) const {
             assert(0 <= l and l <= n);
-            assert(f(e));
+            assert(f(e()));
             if (l == n) return n;
             l += m;
-            T sum_l = e;
+            T sum_l = e();
             do {
                 while (l % 2 == 0) l >>= 1;
                 if (not f(op(sum_l, data[l]))) {
@@ -74,10 +74,10 @@ class SegmentTree {
         template <typename Pred, constraints_t<std::is_invocable_r<bool, Pred, T>> = nullptr>
         int min_left(int r, const Pred &f) const {
             assert(0 <= r && r <= n);
-            assert(f(e));
+            assert(f(e()));
             if (r == 0) return 0;
             r += m;
-            T sum_r = e;
+            T sum_r = e();
             do {
                 r--;
                 while (r > 1 && (r % 2)) r >>= 1;
-- 
2.43.0


From e3b52b33a0ab4f6529e0c928366488cd49086a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:28 +0000
Subject: [PATCH 09/61] fix: PersistentSegmentTree::max_right<f>/min_left<f>
 are member queries

---
 .../datastructure/segment_tree/persistent_segment_tree.hpp    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/segment_tree/persistent_segment_tree.hpp b/library/datastructure/segment_tree/persistent_segment_tree.hpp
index b75814b..ec53449 100644
--- a/library/datastructure/segment_tree/persistent_segment_tree.hpp
+++ b/library/datastructure/segment_tree/persistent_segment_tree.hpp
@@ -210,7 +210,7 @@ namespace suisen {
             return node_type::max_right(_root, _n, l, std::forward<F>(f));
         }
         template <bool(*pred)(value_type)>
-        static int max_right(int l) {
+        int max_right(int l) {
             return max_right(l, pred);
         }
         template <typename F>
@@ -219,7 +219,7 @@ namespace suisen {
             return node_type::min_left(_root, _n, r, std::forward<F>(f));
         }
         template <bool(*pred)(value_type)>
-        static int min_left(int r) {
+        int min_left(int r) {
             return min_left(r, pred);
         }
 
-- 
2.43.0


From 3dedf6448c5b410114c684d1d5cdb6cea8223d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:28 +0000
Subject: [PATCH 10/61] fix:
 PersistentLazySegmentTree::max_right<f>/min_left<f> are member queries

---
 .../segment_tree/persistent_lazy_segment_tree.hpp             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp b/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
index 4aea0a9..871fa49 100644
--- a/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
+++ b/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
@@ -260,7 +260,7 @@ namespace suisen {
             return node_type::max_right(_root, _n, l, std::forward<Pred>(pred));
         }
         template <bool(*pred)(value_type)>
-        static int max_right(int l) {
+        int max_right(int l) {
             return max_right(l, pred);
         }
         template <typename Pred>
@@ -269,7 +269,7 @@ namespace suisen {
             return node_type::min_left(_root, _n, r, std::forward<Pred>(pred));
         }
         template <bool(*pred)(value_type)>
-        static int min_left(int r) {
+        int min_left(int r) {
             return min_left(r, pred);
         }
 
-- 
2.43.0


From 887e2a435a20da9bd318e1def46f9cbe39a6eb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:28 +0000
Subject: [PATCH 11/61] fix: SortableSegmentTree::concat takes over the nodes;
 pop_front/pop_back return

---
 .../datastructure/segment_tree/sortable_segment_tree.hpp  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/library/datastructure/segment_tree/sortable_segment_tree.hpp b/library/datastructure/segment_tree/sortable_segment_tree.hpp
index 6fd6590..60d3f45 100644
--- a/library/datastructure/segment_tree/sortable_segment_tree.hpp
+++ b/library/datastructure/segment_tree/sortable_segment_tree.hpp
@@ -665,8 +665,8 @@ namespace suisen {
             outer_node::dealloc_node(tm);
             return res;
         }
-        std::pair<key_type, value_type> pop_front() { erase(0); }
-        std::pair<key_type, value_type> pop_back() { erase(size() - 1); }
+        std::pair<key_type, value_type> pop_front() { return erase(0); }
+        std::pair<key_type, value_type> pop_back() { return erase(size() - 1); }
 
         SortableSegmentTree split(size_type i) {
             assert(0 <= i and i <= size());
@@ -674,8 +674,8 @@ namespace suisen {
             _root = root_l;
             return SortableSegmentTree{ root_r };
         }
-        void concat(SortableSegmentTree tr) {
-            _root = outer_node::concat(_root, tr->_root);
+        void concat(SortableSegmentTree&& tr) {
+            _root = outer_node::concat(_root, std::exchange(tr._root, nullptr));
         }
 
         value_type prod(size_type l, size_type r) {
-- 
2.43.0


From 27613a46c16e453da758231f1ee194be207ed61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:28 +0000
Subject: [PATCH 12/61] fix: RedBlackTree set passes a function of the old
 value

---
 library/datastructure/bbst/red_black_tree_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/bbst/red_black_tree_base.hpp b/library/datastructure/bbst/red_black_tree_base.hpp
index 3e51775..7178e2b 100644
--- a/library/datastructure/bbst/red_black_tree_base.hpp
+++ b/library/datastructure/bbst/red_black_tree_base.hpp
@@ -119,7 +119,7 @@ namespace suisen::bbst::internal {
             return merge(merge(tl, top), tr);
         }
         static tree_type set(tree_type node, size_type k, value_type val) {
-            return update_value(node, k, [&val]{ return val; });
+            return update_value(node, k, [&val](const value_type&) { return val; });
         }
         static std::pair<tree_type, value_type> get(tree_type node, size_type k) {
             auto [tl, top, tr] = split_range(node, k, k + 1);
-- 
2.43.0


From 41fa22deb0af72921ed4f84c52e3b22d125f3a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:28 +0000
Subject: [PATCH 13/61] fix: treap erase_lower_bound/erase_upper_bound
 predicates accept the value

---
 library/datastructure/bbst/reversible_implicit_treap_base.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/bbst/reversible_implicit_treap_base.hpp b/library/datastructure/bbst/reversible_implicit_treap_base.hpp
index 55c323a..d99fb54 100644
--- a/library/datastructure/bbst/reversible_implicit_treap_base.hpp
+++ b/library/datastructure/bbst/reversible_implicit_treap_base.hpp
@@ -340,7 +340,7 @@ namespace suisen::internal::implicit_treap {
             return erase_binary_search(
                 t,
                 [&](const value_type& x) { return not comp(x, v); },
-                [] { return true; }
+                [](const value_type&) { return true; }
             );
         }
         template <typename Compare = std::less<>>
@@ -348,7 +348,7 @@ namespace suisen::internal::implicit_treap {
             return erase_binary_search(
                 t,
                 [&](const value_type& x) { return comp(v, x); },
-                [] { return true; }
+                [](const value_type&) { return true; }
             );
         }
         template <typename Compare = std::less<>>
-- 
2.43.0


From b78620a6da20937535d23dea81ac44c4b3b3b065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:28 +0000
Subject: [PATCH 14/61] fix: DynamicSequenceBase::reverse_all calls the
 existing helper

---
 library/datastructure/dynamic_sequence.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/dynamic_sequence.hpp b/library/datastructure/dynamic_sequence.hpp
index 302fad6..8a71d3b 100644
--- a/library/datastructure/dynamic_sequence.hpp
+++ b/library/datastructure/dynamic_sequence.hpp
@@ -209,7 +209,7 @@ struct DynamicSequenceBase {
             root = SplayNode::reverse(root, l, r);
         }
         void reverse_all() {
-            SplayNode::reverese_all(root);
+            SplayNode::reverse_all(root);
         }
     protected:
         mutable node_ptr_t root;
-- 
2.43.0


From be1c3aeeefeb74fdf84fceafff1e0e66d3a7188a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:45 +0000
Subject: [PATCH 15/61] fix: get_or_default of the splay maps keeps the splayed
 root and compiles

---
 library/datastructure/splay_tree_map.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/library/datastructure/splay_tree_map.hpp b/library/datastructure/splay_tree_map.hpp
index 821a5e5..3b06b13 100644
--- a/library/datastructure/splay_tree_map.hpp
+++ b/library/datastructure/splay_tree_map.hpp
@@ -222,10 +222,9 @@ struct MapNodeBase {
         delete r;
         return { res, true };
     }
-    static Val get_or_default(node_ptr_t node, const Key &key, const Val &default_value) {
+    static std::pair<node_ptr_t, Val> get_or_default(node_ptr_t node, const Key &key, const Val &default_value) {
         auto [new_root, found] = find_key(node, key);
-        node = new_root;
-        return found ? new_root->val : default_value;
+        return { new_root, found ? new_root->val : default_value };
     }
 };
 
-- 
2.43.0


From ed07d98cb24586785624c6e88cbbc6ba3624da8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:45 +0000
Subject: [PATCH 16/61] fix: erase_index of the splay maps compiles and rejects
 an index past the end

---
 library/datastructure/lazy_eval_map.hpp      | 2 +-
 library/datastructure/range_foldable_map.hpp | 2 +-
 library/datastructure/splay_tree_map.hpp     | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/library/datastructure/lazy_eval_map.hpp b/library/datastructure/lazy_eval_map.hpp
index 8ea8850..c908aec 100644
--- a/library/datastructure/lazy_eval_map.hpp
+++ b/library/datastructure/lazy_eval_map.hpp
@@ -89,7 +89,7 @@ class LazyEvalMap {
             return is_erased;
         }
         void erase_index(int k) {
-            index_bounds_check(k, size() + 1);
+            index_bounds_check(k, size());
             root = Node::erase_index(root, k);
         }
         Val& get_or_create(const Key &key, const Val &val) {
diff --git a/library/datastructure/range_foldable_map.hpp b/library/datastructure/range_foldable_map.hpp
index af42871..53e4a10 100644
--- a/library/datastructure/range_foldable_map.hpp
+++ b/library/datastructure/range_foldable_map.hpp
@@ -83,7 +83,7 @@ class RangeFoldableMap {
             return is_erased;
         }
         void erase_index(int k) {
-            index_bounds_check(k, size() + 1);
+            index_bounds_check(k, size());
             root = Node::erase_index(root, k);
         }
         Val& get_or_create(const Key &key, const Val &val) {
diff --git a/library/datastructure/splay_tree_map.hpp b/library/datastructure/splay_tree_map.hpp
index 3b06b13..08480e3 100644
--- a/library/datastructure/splay_tree_map.hpp
+++ b/library/datastructure/splay_tree_map.hpp
@@ -206,7 +206,7 @@ struct MapNodeBase {
         return new_node;
     }
     static node_ptr_t erase_index(node_ptr_t node, int index) {
-        auto [l, r] = split(index ? node : splay(node, 0), index);
+        auto [l, r] = split_by_index(index ? node : splay_by_index(node, 0), index);
         assert(r->ch[0] == nullptr);
         node_ptr_t res = merge(l, r->ch[1]);
         r->ch[1] = nullptr;
@@ -276,7 +276,7 @@ class SplayTreeMap {
             return is_erased;
         }
         void erase_index(int k) {
-            index_bounds_check(k, size() + 1);
+            index_bounds_check(k, size());
             root = Node::erase_index(root, k);
         }
         Val& get_or_create(const Key &key, const Val &val) {
-- 
2.43.0


From d4c3c129e495c9cc8f960f59d3cd57bd0b9d11f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:45 +0000
Subject: [PATCH 17/61] fix: operator() of the foldable splay maps forwards to
 prod_by_key

---
 library/datastructure/lazy_eval_map.hpp      | 2 +-
 library/datastructure/range_foldable_map.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/lazy_eval_map.hpp b/library/datastructure/lazy_eval_map.hpp
index c908aec..3c4e603 100644
--- a/library/datastructure/lazy_eval_map.hpp
+++ b/library/datastructure/lazy_eval_map.hpp
@@ -102,7 +102,7 @@ class LazyEvalMap {
             return UpdateProxyObject { root->val, [this]{ root->update(); } };
         }
         Val operator()(const Key &l, const Key &r) {
-            return prod(l, r);
+            return prod_by_key(l, r);
         }
         Val prod_by_key(const Key &l, const Key &r) {
             auto [new_root, res] = Node::prod_by_key(root, l, r);
diff --git a/library/datastructure/range_foldable_map.hpp b/library/datastructure/range_foldable_map.hpp
index 53e4a10..a2292e5 100644
--- a/library/datastructure/range_foldable_map.hpp
+++ b/library/datastructure/range_foldable_map.hpp
@@ -96,7 +96,7 @@ class RangeFoldableMap {
             return UpdateProxyObject { root->val, [this]{ root->update(); } };
         }
         Val operator()(const Key &l, const Key &r) {
-            return prod(l, r);
+            return prod_by_key(l, r);
         }
         Val prod_by_key(const Key &l, const Key &r) {
             auto [new_root, res] = Node::prod_by_key(root, l, r);
-- 
2.43.0


From dede558f9af8e14be71a22bf6c086039125b3a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:45 +0000
Subject: [PATCH 18/61] fix: SlopeTrick::lines reads the right heap type

---
 library/datastructure/slope_trick.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/slope_trick.hpp b/library/datastructure/slope_trick.hpp
index 0d1a211..90d702e 100644
--- a/library/datastructure/slope_trick.hpp
+++ b/library/datastructure/slope_trick.hpp
@@ -83,7 +83,7 @@ class SlopeTrick {
 
         std::tuple<std::vector<T>, T, std::vector<T>> lines() {
             struct seq_getter_dsc : public pq_dsc { static std::vector<T> get(const pq_dsc& pq) { return pq.*&seq_getter_dsc::c; } };
-            struct seq_getter_asc : public pq_asc { static std::vector<T> get(const pq_dsc& pq) { return pq.*&seq_getter_asc::c; } };
+            struct seq_getter_asc : public pq_asc { static std::vector<T> get(const pq_asc& pq) { return pq.*&seq_getter_asc::c; } };
             std::vector<T> neg = seq_getter_dsc::get(l);
             std::vector<T> pos = seq_getter_asc::get(r);
             std::sort(neg.begin(), neg.end());
-- 
2.43.0


From 51204030e2f6c7b82e878670446d91d31ece8021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:45 +0000
Subject: [PATCH 19/61] fix: RangeSet::in_the_same_range uses find_range

---
 library/datastructure/util/range_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/util/range_set.hpp b/library/datastructure/util/range_set.hpp
index 11c2c83..2eb3e7c 100644
--- a/library/datastructure/util/range_set.hpp
+++ b/library/datastructure/util/range_set.hpp
@@ -35,7 +35,7 @@ struct RangeSet : public std::map<T, T> {
 
         // returns whether `x` and `y` is in this set and in the same range. O(log N)
         bool in_the_same_range(T x, T y) const {
-            auto it = get_containing_range(x);
+            auto it = find_range(x);
             return it != this->end() and it->first <= y and y <= it->second;
         }
 
-- 
2.43.0


From 0b3bcf73bc776fb3de4b3340be62bd7ddf15ec22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:45 +0000
Subject: [PATCH 20/61] fix: RunLengthEncoder keeps its length in step with its
 contents

---
 library/util/run_length_encoder.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/library/util/run_length_encoder.hpp b/library/util/run_length_encoder.hpp
index 8c36b17..131338b 100644
--- a/library/util/run_length_encoder.hpp
+++ b/library/util/run_length_encoder.hpp
@@ -20,9 +20,9 @@ class RunLengthEncoder {
         long long length() const noexcept {
             return _length;
         }
-        void swap(RunLengthEncoder<Container>  &other) { comp.swap(other.comp); }
-        void swap(RunLengthEncoder<Container> &&other) { comp.swap(other.comp); }
-        void clear() { comp.clear(); }
+        void swap(RunLengthEncoder<Container>  &other) { std::swap(_length, other._length), comp.swap(other.comp); }
+        void swap(RunLengthEncoder<Container> &&other) { std::swap(_length, other._length), comp.swap(other.comp); }
+        void clear() { _length = 0, comp.clear(); }
         auto begin()   const noexcept { return comp.begin();   }
         auto end()     const noexcept { return comp.end();     }
         auto rbegin()  const noexcept { return comp.rbegin();  }
@@ -49,8 +49,9 @@ class RunLengthEncoder {
             while (comp.size()) {
                 long long cnt = comp.back().second;
                 if (cnt > num) {
-                    comp.back.second -= num;
-                    return rem + num;
+                    comp.back().second -= num;
+                    rem += num;
+                    break;
                 }
                 num -= cnt, rem += cnt;
                 comp.pop_back();
-- 
2.43.0


From 665fad8de8b4db6520c137070af6a9fd52f0a1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:45 +0000
Subject: [PATCH 21/61] fix: sum_i_i_pow_d_r_pow_i::sum(t, m) starts from r^t

---
 library/math/sum_i^d_r^i.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/math/sum_i^d_r^i.hpp b/library/math/sum_i^d_r^i.hpp
index 7d1c14a..4909793 100644
--- a/library/math/sum_i^d_r^i.hpp
+++ b/library/math/sum_i^d_r^i.hpp
@@ -29,7 +29,7 @@ namespace suisen {
             }
             prepare();
             auto res = shift_of_sampling_points<mint>(ys, t, m);
-            mint pr = r.pow(r);
+            mint pr = r.pow(t);
             for (auto &e : res) e *= pr, e += c, pr *= r;
             return res;
         }
-- 
2.43.0


From 353cd472652ab81277f091660a87dba79bd530a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:45 +0000
Subject: [PATCH 22/61] fix: sbt_node::move_down_left/right call move_down

---
 library/number/stern_brocot_tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/number/stern_brocot_tree.hpp b/library/number/stern_brocot_tree.hpp
index c59bf2d..92a4d80 100644
--- a/library/number/stern_brocot_tree.hpp
+++ b/library/number/stern_brocot_tree.hpp
@@ -104,9 +104,9 @@ namespace suisen {
         }
 
         // move down k steps to the left
-        void move_down_left(Int k) { move(Left, k); }
+        void move_down_left(Int k) { move_down(Left, k); }
         // move down k steps to the right
-        void move_down_right(Int k) { move(Right, k); }
+        void move_down_right(Int k) { move_down(Right, k); }
         // move down k steps in the direction `dir`
         void move_down(sbt_arc dir, Int k) {
             assert(k >= 0);
-- 
2.43.0


From eabc4cba4d928a6a46c49b27550709a695b461a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:45 +0000
Subject: [PATCH 23/61] fix: FenwickTreeBase keeps the index type and reads
 absent map entries as zero

---
 .../fenwick_tree/fenwick_tree.hpp              | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/library/datastructure/fenwick_tree/fenwick_tree.hpp b/library/datastructure/fenwick_tree/fenwick_tree.hpp
index 3e39a3d..81c06c5 100644
--- a/library/datastructure/fenwick_tree/fenwick_tree.hpp
+++ b/library/datastructure/fenwick_tree/fenwick_tree.hpp
@@ -13,7 +13,7 @@ namespace suisen {
             FenwickTreeBase() = default;
             explicit FenwickTreeBase(index_t n) : n(n) {}
 
-            int size() const {
+            index_t size() const {
                 return n;
             }
             void add(index_t i, T v) {
@@ -22,9 +22,9 @@ namespace suisen {
             T sum(index_t l, index_t r) const {
                 return sum(r) - sum(l);
             }
-            auto operator[](int i) {
+            auto operator[](index_t i) {
                 struct {
-                    int i;
+                    index_t i;
                     FenwickTreeBase& ft;
                     operator T() const { return ft.sum(i, i + 1); }
                     auto& operator++() { return *this += 1; }
@@ -38,7 +38,7 @@ namespace suisen {
                 } obj{ i, *this };
                 return obj;
             }
-            T operator()(int l, int r) const { return sum(l, r); }
+            T operator()(index_t l, index_t r) const { return sum(l, r); }
 
             Container& get_internal_container() { return data; }
         protected:
@@ -47,11 +47,17 @@ namespace suisen {
             template <typename ...Args>
             FenwickTreeBase(index_t n, Args &&...args) : n(n), data(std::forward<Args>(args)...) {}
         private:
-            T sum(int r) const {
+            T sum(index_t r) const {
                 T s{};
-                for (; r; r -= r & -r) s += data[r - 1];
+                for (; r; r -= r & -r) s += value_at(data, r - 1);
                 return s;
             }
+            static T value_at(const std::vector<T>& c, index_t i) { return c[i]; }
+            template <typename Map>
+            static T value_at(const Map& c, index_t i) {
+                auto it = c.find(i);
+                return it == c.end() ? T{} : it->second;
+            }
         };
 
         template <typename Key, typename Value, bool unordered>
-- 
2.43.0


From c04ed619d87eebd1da9a753f90df4ad7f2c75120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:45 +0000
Subject: [PATCH 24/61] fix: QueueAggregation iterators walk the stored element
 type

---
 library/datastructure/queue_aggregation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/queue_aggregation.hpp b/library/datastructure/queue_aggregation.hpp
index c3988fe..14c9bfe 100644
--- a/library/datastructure/queue_aggregation.hpp
+++ b/library/datastructure/queue_aggregation.hpp
@@ -24,8 +24,8 @@ namespace suisen {
             using iterator_category = std::random_access_iterator_tag;
 
         private:
-            using fi_iterator_type = typename std::vector<std::pair<value_type, value_type>>::const_reverse_iterator;
-            using se_iterator_type = typename std::vector<std::pair<value_type, value_type>>::const_iterator;
+            using fi_iterator_type = typename std::vector<std::pair<value_type, sum_type>>::const_reverse_iterator;
+            using se_iterator_type = typename std::vector<std::pair<value_type, sum_type>>::const_iterator;
         public:
 
             fi_iterator_type it_l;
-- 
2.43.0


From be0670ad8ff4c7ab71442597a0c5adda841fb5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:02 +0000
Subject: [PATCH 25/61] fix: WaveletMatrix over a signed type with the default
 bit count compiles

---
 library/datastructure/wavelet_matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/wavelet_matrix.hpp b/library/datastructure/wavelet_matrix.hpp
index bdf7070..61568f8 100644
--- a/library/datastructure/wavelet_matrix.hpp
+++ b/library/datastructure/wavelet_matrix.hpp
@@ -156,7 +156,7 @@ namespace suisen {
         WaveletMatrix(int n) noexcept : n(n) {}
     private:
         static_assert(bit_num > 0);
-        static constexpr T MAX = bit_num == std::numeric_limits<T>::digits ? std::numeric_limits<T>::max() : (T(1) << bit_num) - 1;
+        static constexpr T MAX = bit_num >= std::numeric_limits<T>::digits ? std::numeric_limits<T>::max() : (T(1) << bit_num) - 1;
 
         int n;
         std::array<BitVector, bit_num> bv;
-- 
2.43.0


From f318a49ae8752e46fd0b603a9beac02c9e13e6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:02 +0000
Subject: [PATCH 26/61] fix: Affine stream operators have their usual direction

---
 library/algebra/monoid/affine.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/algebra/monoid/affine.hpp b/library/algebra/monoid/affine.hpp
index 7970dce..178d9a9 100644
--- a/library/algebra/monoid/affine.hpp
+++ b/library/algebra/monoid/affine.hpp
@@ -49,8 +49,8 @@ namespace suisen {
         template <typename U = T, typename V = T>
         operator std::tuple<U, V>() { return std::tuple<U, V>{ a, b }; }
 
-        friend std::istream& operator<<(std::istream& in, Affine<T> &f) { return in >> f.a >> f.b; }
-        friend std::ostream& operator>>(std::ostream& out, const Affine<T> &f) { return out << f.a << ' ' << f.b; }
+        friend std::istream& operator>>(std::istream& in, Affine<T> &f) { return in >> f.a >> f.b; }
+        friend std::ostream& operator<<(std::ostream& out, const Affine<T> &f) { return out << f.a << ' ' << f.b; }
     };
 } // namespace suisen
 
-- 
2.43.0


From ad8c9479ff3c0e34e0bbc1288eaa75febac38f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:44 +0000
Subject: [PATCH 27/61] fix: headers that shared an include guard can be used
 together

---
 .../datastructure/fenwick_tree/fenwick_tree_2d_sparse.hpp   | 6 +++---
 library/datastructure/union_find/union_find_lazy.hpp        | 6 +++---
 library/graph/assignment_problem.hpp                        | 6 +++---
 library/integral_geom/closest_pair.hpp                      | 6 +++---
 library/integral_geom/geometry.hpp                          | 6 +++---
 library/tree/link_cut_tree_path_foldable.hpp                | 6 +++---
 library/tree/rerooting_invertible.hpp                       | 6 +++---
 7 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/library/datastructure/fenwick_tree/fenwick_tree_2d_sparse.hpp b/library/datastructure/fenwick_tree/fenwick_tree_2d_sparse.hpp
index 4fedbb8..289fa97 100644
--- a/library/datastructure/fenwick_tree/fenwick_tree_2d_sparse.hpp
+++ b/library/datastructure/fenwick_tree/fenwick_tree_2d_sparse.hpp
@@ -1,5 +1,5 @@
-#ifndef SUISEN_SEGMENT_TREE_2D_SPARSE
-#define SUISEN_SEGMENT_TREE_2D_SPARSE
+#ifndef SUISEN_FENWICK_TREE_2D_SPARSE
+#define SUISEN_FENWICK_TREE_2D_SPARSE
 
 #include <algorithm>
 #include <cassert>
@@ -111,4 +111,4 @@ namespace suisen {
 } // namespace suisen
 
 
-#endif // SUISEN_SEGMENT_TREE_2D_SPARSE
+#endif // SUISEN_FENWICK_TREE_2D_SPARSE
diff --git a/library/datastructure/union_find/union_find_lazy.hpp b/library/datastructure/union_find/union_find_lazy.hpp
index fa738d5..8455934 100644
--- a/library/datastructure/union_find/union_find_lazy.hpp
+++ b/library/datastructure/union_find/union_find_lazy.hpp
@@ -1,5 +1,5 @@
-#ifndef SUISEN_UNION_FIND_COMPONENT_SUM
-#define SUISEN_UNION_FIND_COMPONENT_SUM
+#ifndef SUISEN_UNION_FIND_LAZY
+#define SUISEN_UNION_FIND_LAZY
 
 #include "library/datastructure/union_find/linked_union_find.hpp"
 
@@ -91,4 +91,4 @@ namespace suisen {
 } // namespace suisen
 
 
-#endif // SUISEN_UNION_FIND_COMPONENT_SUM
+#endif // SUISEN_UNION_FIND_LAZY
diff --git a/library/graph/assignment_problem.hpp b/library/graph/assignment_problem.hpp
index 3178006..31c2e37 100644
--- a/library/graph/assignment_problem.hpp
+++ b/library/graph/assignment_problem.hpp
@@ -1,5 +1,5 @@
-#ifndef SUISEN_MIN_COST_FLOW
-#define SUISEN_MIN_COST_FLOW
+#ifndef SUISEN_ASSIGNMENT_PROBLEM
+#define SUISEN_ASSIGNMENT_PROBLEM
 
 #include <algorithm>
 #include <cassert>
@@ -149,4 +149,4 @@ namespace suisen {
 } // namespace suisen
 
 
-#endif // SUISEN_MIN_COST_FLOW
+#endif // SUISEN_ASSIGNMENT_PROBLEM
diff --git a/library/integral_geom/closest_pair.hpp b/library/integral_geom/closest_pair.hpp
index 3ac591a..4bc4759 100644
--- a/library/integral_geom/closest_pair.hpp
+++ b/library/integral_geom/closest_pair.hpp
@@ -1,5 +1,5 @@
-#ifndef SUISEN_CLOSEST_PAIR
-#define SUISEN_CLOSEST_PAIR
+#ifndef SUISEN_INTEGRAL_CLOSEST_PAIR
+#define SUISEN_INTEGRAL_CLOSEST_PAIR
 
 #include <cassert>
 
@@ -58,4 +58,4 @@ namespace suisen::integral_geometry {
 } // namespace suisen::integral_geometry
 
 
-#endif // SUISEN_CLOSEST_PAIR
+#endif // SUISEN_INTEGRAL_CLOSEST_PAIR
diff --git a/library/integral_geom/geometry.hpp b/library/integral_geom/geometry.hpp
index a3d7a92..bace3aa 100644
--- a/library/integral_geom/geometry.hpp
+++ b/library/integral_geom/geometry.hpp
@@ -1,5 +1,5 @@
-#ifndef SUISEN_GEOMETRY
-#define SUISEN_GEOMETRY
+#ifndef SUISEN_INTEGRAL_GEOMETRY
+#define SUISEN_INTEGRAL_GEOMETRY
 
 #include <algorithm>
 #include <cmath>
@@ -238,4 +238,4 @@ namespace suisen::integral_geometry {
     }
 } // namespace suisen::integral_geometry
 
-#endif // SUISEN_GEOMETRY
+#endif // SUISEN_INTEGRAL_GEOMETRY
diff --git a/library/tree/link_cut_tree_path_foldable.hpp b/library/tree/link_cut_tree_path_foldable.hpp
index 28f4d36..5d6ebce 100644
--- a/library/tree/link_cut_tree_path_foldable.hpp
+++ b/library/tree/link_cut_tree_path_foldable.hpp
@@ -1,5 +1,5 @@
-#ifndef SUISEN_LINK_CUT_TREE
-#define SUISEN_LINK_CUT_TREE
+#ifndef SUISEN_LINK_CUT_TREE_PATH_FOLDABLE
+#define SUISEN_LINK_CUT_TREE_PATH_FOLDABLE
 
 #include "library/tree/link_cut_tree_base.hpp"
 
@@ -64,4 +64,4 @@ namespace suisen {
     using internal::link_cut_tree::LinkCutTreePathFoldable;
 } // namespace suisen
 
-#endif // SUISEN_LINK_CUT_TREE
+#endif // SUISEN_LINK_CUT_TREE_PATH_FOLDABLE
diff --git a/library/tree/rerooting_invertible.hpp b/library/tree/rerooting_invertible.hpp
index eb4b42f..8e1fe5b 100644
--- a/library/tree/rerooting_invertible.hpp
+++ b/library/tree/rerooting_invertible.hpp
@@ -1,5 +1,5 @@
-#ifndef SUISEN_REROOTING
-#define SUISEN_REROOTING
+#ifndef SUISEN_REROOTING_INVERTIBLE
+#define SUISEN_REROOTING_INVERTIBLE
 
 #include <cassert>
 #include <tuple>
@@ -180,4 +180,4 @@ namespace suisen {
     using RerootingInvertibleWeighted = internal::rerooting::RerootingInvertible<VertexWeight, EdgeWeighted>;
 } // namsepace suisen
 
-#endif // SUISEN_REROOTING
+#endif // SUISEN_REROOTING_INVERTIBLE
-- 
2.43.0


From 189a9969fd3d7fee1937b9bd8e0f0d86fe73601e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:44 +0000
Subject: [PATCH 28/61] fix: headers without an include guard can be included
 twice

---
 library/debug/tree.hpp      | 4 ++++
 library/icpc/parsing.hpp    | 5 +++++
 library/util/grid_utils.hpp | 5 +++++
 library/util/search.hpp     | 5 +++++
 4 files changed, 19 insertions(+)

diff --git a/library/debug/tree.hpp b/library/debug/tree.hpp
index 99d8674..b39aee6 100644
--- a/library/debug/tree.hpp
+++ b/library/debug/tree.hpp
@@ -1,3 +1,6 @@
+#ifndef SUISEN_DEBUG_TREE
+#define SUISEN_DEBUG_TREE
+
 #include <functional>
 #include <string>
 
@@ -202,3 +205,4 @@ namespace debug {
 }
 } // namespace suisen
 
+#endif // SUISEN_DEBUG_TREE
diff --git a/library/icpc/parsing.hpp b/library/icpc/parsing.hpp
index 8832f47..324e565 100644
--- a/library/icpc/parsing.hpp
+++ b/library/icpc/parsing.hpp
@@ -1,3 +1,6 @@
+#ifndef SUISEN_ICPC_PARSING
+#define SUISEN_ICPC_PARSING
+
 #include <iostream>
 #include <optional>
 #include <string>
@@ -119,3 +122,5 @@ namespace suisen::parsing {
         }
     }
 }
+
+#endif // SUISEN_ICPC_PARSING
diff --git a/library/util/grid_utils.hpp b/library/util/grid_utils.hpp
index 314523e..ce479b1 100644
--- a/library/util/grid_utils.hpp
+++ b/library/util/grid_utils.hpp
@@ -1,3 +1,6 @@
+#ifndef SUISEN_GRID_UTILS
+#define SUISEN_GRID_UTILS
+
 #include <utility>
 #include <vector>
 
@@ -102,3 +105,5 @@ auto adjacent_eight_cells(int x, int y) { return AdjacentEightCells { x, y }; }
 auto adjacent_eight_cells(int x, int y, int xl, int xr, int yl, int yr) { return AdjacentEightCellsBounded { x, y, xl, xr, yl, yr }; }
 // [ {nx:=x+dx8[i], ny:=y+dy8[i]} for i in range(8) if 0 <=nx<xr and 0 <=ny<yr ]
 auto adjacent_eight_cells(int x, int y,         int xr,         int yr) { return AdjacentEightCellsBounded { x, y, 0 , xr, 0 , yr }; }
+
+#endif // SUISEN_GRID_UTILS
diff --git a/library/util/search.hpp b/library/util/search.hpp
index f5fc372..f7be305 100644
--- a/library/util/search.hpp
+++ b/library/util/search.hpp
@@ -1,3 +1,6 @@
+#ifndef SUISEN_SEARCH
+#define SUISEN_SEARCH
+
 #include <cassert>
 #include <cstdint>
 #include <functional>
@@ -123,3 +126,5 @@ namespace suisen {
         return r_ok;
     }
 } // namespace suisen
+
+#endif // SUISEN_SEARCH
-- 
2.43.0


From 80abe9d34e130469151802e5e5915dcb4f793d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:44 +0000
Subject: [PATCH 29/61] fix: WaveletMatrix value check does not shift by the
 full width

---
 library/datastructure/wavelet_matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/wavelet_matrix.hpp b/library/datastructure/wavelet_matrix.hpp
index 61568f8..d185f82 100644
--- a/library/datastructure/wavelet_matrix.hpp
+++ b/library/datastructure/wavelet_matrix.hpp
@@ -168,7 +168,7 @@ namespace suisen {
         }
 
         static void check_value_bounds(T val) {
-            assert((val >> bit_num) == 0);
+            assert(0 <= val and val <= MAX);
         }
     };
 } // namespace suisen
-- 
2.43.0


From 832ce12ae4f8db06e8aa616b110364c83f7729f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:22 +0000
Subject: [PATCH 30/61] fix: polynomial_eval_multipoint_eval includes the
 series type it names

---
 library/convolution/polynomial_eval_multipoint_eval.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/convolution/polynomial_eval_multipoint_eval.hpp b/library/convolution/polynomial_eval_multipoint_eval.hpp
index 4f0fa1f..e42cbf5 100644
--- a/library/convolution/polynomial_eval_multipoint_eval.hpp
+++ b/library/convolution/polynomial_eval_multipoint_eval.hpp
@@ -1,6 +1,7 @@
 #ifndef SUISEN_APPLY_POLYNOMIAL_MULTIPOINT_EVAL
 #define SUISEN_APPLY_POLYNOMIAL_MULTIPOINT_EVAL
 
+#include "library/polynomial/formal_power_series.hpp"
 #include "library/polynomial/multi_point_eval.hpp"
 #include "library/type_traits/type_traits.hpp"
 
-- 
2.43.0


From d3f976b6632a2e1a288fa8407b3431f5dacd6de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:22 +0000
Subject: [PATCH 31/61] fix: geometry.hpp does not depend on whether
 suisen::sqrt was declared before it

---
 library/geom/geometry.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/geom/geometry.hpp b/library/geom/geometry.hpp
index 24fab8e..a9f64d9 100644
--- a/library/geom/geometry.hpp
+++ b/library/geom/geometry.hpp
@@ -511,7 +511,7 @@ namespace geometry {
             return { c2.center + v * (r2 / lv) };
         }
         coordinate_t lp = d, ln = (r2 * r2 - r1 * r1) / d;
-        coordinate_t p = (lp + ln) / 2, x = sqrt(r2 * r2 - p * p);
+        coordinate_t p = (lp + ln) / 2, x = std::sqrt(r2 * r2 - p * p);
         auto h = c2.center + v * (p / lv);
         auto t = v * I;
         return { h + t * (x / lv), h - t * (x / lv) };
@@ -532,7 +532,7 @@ namespace geometry {
         if (cnt == Containment::IN) return {};
         if (cnt == Containment::ON) return { p };
         Point v = c.center - p;
-        coordinate_t r = c.radius, d = abs(v), l = sqrt(d * d - r * r);
+        coordinate_t r = c.radius, d = abs(v), l = std::sqrt(d * d - r * r);
         coordinate_t t = std::asin(r / d);
         return { p + rot(v, t) * (l / d), p + rot(v, -t) * (l / d) };
     }
-- 
2.43.0


From 8c81c7516394595eb0a6e1a3a0e559b52fc1408f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:06 +0000
Subject: [PATCH 32/61] fix: headers include the standard headers they use

---
 library/convolution/relaxed_convolution.hpp                     | 1 +
 library/convolution/semi_relaxed_convolution.hpp                | 1 +
 library/datastructure/permutation_tree.hpp                      | 1 +
 library/datastructure/segment_tree/sparse_lazy_segment_tree.hpp | 1 +
 library/datastructure/segment_tree/sparse_segment_tree.hpp      | 1 +
 library/graph/csr_graph.hpp                                     | 1 +
 library/graph/enumerate_cliques.hpp                             | 1 +
 library/io/input_stream.hpp                                     | 1 +
 library/io/output_stream.hpp                                    | 1 +
 library/number/find_denominators.hpp                            | 1 +
 library/polynomial/bostan_mori.hpp                              | 2 ++
 library/polynomial/lagrange_interpolation.hpp                   | 2 ++
 library/polynomial/rational_fps.hpp                             | 1 +
 library/polynomial/subset_sum.hpp                               | 1 +
 library/range_query/static_range_xored_mex_query.hpp            | 1 +
 library/string/rolling_hash_field.hpp                           | 1 +
 library/util/hashes.hpp                                         | 1 +
 library/util/sum_count.hpp                                      | 2 ++
 18 files changed, 21 insertions(+)

diff --git a/library/convolution/relaxed_convolution.hpp b/library/convolution/relaxed_convolution.hpp
index 6aa4581..15ba1f7 100644
--- a/library/convolution/relaxed_convolution.hpp
+++ b/library/convolution/relaxed_convolution.hpp
@@ -1,6 +1,7 @@
 #ifndef SUISEN_RELAXED_CONVOLUTION
 #define SUISEN_RELAXED_CONVOLUTION
 
+#include <cassert>
 #include <vector>
 
 namespace suisen {
diff --git a/library/convolution/semi_relaxed_convolution.hpp b/library/convolution/semi_relaxed_convolution.hpp
index 815dfe2..bfa3d46 100644
--- a/library/convolution/semi_relaxed_convolution.hpp
+++ b/library/convolution/semi_relaxed_convolution.hpp
@@ -1,6 +1,7 @@
 #ifndef SUISEN_SEMI_RELAXED_CONVOLUTION
 #define SUISEN_SEMI_RELAXED_CONVOLUTION
 
+#include <cassert>
 #include <vector>
 
 namespace suisen {
diff --git a/library/datastructure/permutation_tree.hpp b/library/datastructure/permutation_tree.hpp
index 9209a59..0f49a2b 100644
--- a/library/datastructure/permutation_tree.hpp
+++ b/library/datastructure/permutation_tree.hpp
@@ -1,6 +1,7 @@
 #ifndef SUISEN_PERMUTATION_TREE
 #define SUISEN_PERMUTATION_TREE
 
+#include <ostream>
 #include <algorithm>
 #include <cassert>
 #include <limits>
diff --git a/library/datastructure/segment_tree/sparse_lazy_segment_tree.hpp b/library/datastructure/segment_tree/sparse_lazy_segment_tree.hpp
index c11d144..80c3d52 100644
--- a/library/datastructure/segment_tree/sparse_lazy_segment_tree.hpp
+++ b/library/datastructure/segment_tree/sparse_lazy_segment_tree.hpp
@@ -1,6 +1,7 @@
 #ifndef SUISEN_SPARSE_LAZY_SEGTREE
 #define SUISEN_SPARSE_LAZY_SEGTREE
 
+#include <cstdint>
 #include <array>
 #include <cassert>
 #include <vector>
diff --git a/library/datastructure/segment_tree/sparse_segment_tree.hpp b/library/datastructure/segment_tree/sparse_segment_tree.hpp
index 6d5bd04..bc1ab18 100644
--- a/library/datastructure/segment_tree/sparse_segment_tree.hpp
+++ b/library/datastructure/segment_tree/sparse_segment_tree.hpp
@@ -1,6 +1,7 @@
 #ifndef SUISEN_SPARSE_SEGTREE
 #define SUISEN_SPARSE_SEGTREE
 
+#include <cstdint>
 #include <cassert>
 #include <vector>
 
diff --git a/library/graph/csr_graph.hpp b/library/graph/csr_graph.hpp
index 2ab74e7..af1528e 100644
--- a/library/graph/csr_graph.hpp
+++ b/library/graph/csr_graph.hpp
@@ -1,6 +1,7 @@
 #ifndef SUISEN_CSR
 #define SUISEN_CSR
 
+#include <cstdint>
 #include <algorithm>
 #include <cassert>
 #include <limits>
diff --git a/library/graph/enumerate_cliques.hpp b/library/graph/enumerate_cliques.hpp
index d68d9d0..18bb95b 100644
--- a/library/graph/enumerate_cliques.hpp
+++ b/library/graph/enumerate_cliques.hpp
@@ -1,6 +1,7 @@
 #ifndef SUISEN_ENUMERATE_CLIQUES
 #define SUISEN_ENUMERATE_CLIQUES
 
+#include <numeric>
 #include <algorithm>
 #include <vector>
 
diff --git a/library/io/input_stream.hpp b/library/io/input_stream.hpp
index 19f152a..cdd5c6b 100644
--- a/library/io/input_stream.hpp
+++ b/library/io/input_stream.hpp
@@ -1,6 +1,7 @@
 #ifndef SUISEN_INPUT_STREAM
 #define SUISEN_INPUT_STREAM
 
+#include <tuple>
 #include <iostream>
 #include "library/type_traits/type_traits.hpp"
 namespace suisen::io {
diff --git a/library/io/output_stream.hpp b/library/io/output_stream.hpp
index dd07933..9ae8132 100644
--- a/library/io/output_stream.hpp
+++ b/library/io/output_stream.hpp
@@ -1,6 +1,7 @@
 #ifndef SUISEN_OUTPUT_STREAM
 #define SUISEN_OUTPUT_STREAM
 
+#include <tuple>
 #include <iostream>
 #include "library/type_traits/type_traits.hpp"
 namespace suisen::io {
diff --git a/library/number/find_denominators.hpp b/library/number/find_denominators.hpp
index 986a211..07114c9 100644
--- a/library/number/find_denominators.hpp
+++ b/library/number/find_denominators.hpp
@@ -1,6 +1,7 @@
 #ifndef SUISEN_FIND_DENOMINATORS
 #define SUISEN_FIND_DENOMINATORS
 
+#include <algorithm>
 #include <limits>
 #include <optional>
 #include <type_traits>
diff --git a/library/polynomial/bostan_mori.hpp b/library/polynomial/bostan_mori.hpp
index d9f8f6b..07a72b7 100644
--- a/library/polynomial/bostan_mori.hpp
+++ b/library/polynomial/bostan_mori.hpp
@@ -1,6 +1,8 @@
 #ifndef SUISEN_BOSTAN_MORI
 #define SUISEN_BOSTAN_MORI
 
+#include <utility>
+
 namespace suisen {
     template <typename FPSType>
     typename FPSType::value_type bostan_mori(FPSType P, FPSType Q, unsigned long long n) {
diff --git a/library/polynomial/lagrange_interpolation.hpp b/library/polynomial/lagrange_interpolation.hpp
index cb0eff8..f700e82 100644
--- a/library/polynomial/lagrange_interpolation.hpp
+++ b/library/polynomial/lagrange_interpolation.hpp
@@ -1,6 +1,8 @@
 #ifndef SUISEN_INTERPOLATION
 #define SUISEN_INTERPOLATION
 
+#include <cassert>
+
 #include "library/math/product_of_differences.hpp"
 
 namespace suisen {
diff --git a/library/polynomial/rational_fps.hpp b/library/polynomial/rational_fps.hpp
index 20be22f..709eedc 100644
--- a/library/polynomial/rational_fps.hpp
+++ b/library/polynomial/rational_fps.hpp
@@ -1,6 +1,7 @@
 #ifndef SUISEN_RATIONAL_FPS
 #define SUISEN_RATIONAL_FPS
 
+#include <cassert>
 #include <queue>
 #include <utility>
 
diff --git a/library/polynomial/subset_sum.hpp b/library/polynomial/subset_sum.hpp
index a7accaa..727d765 100644
--- a/library/polynomial/subset_sum.hpp
+++ b/library/polynomial/subset_sum.hpp
@@ -1,6 +1,7 @@
 #ifndef SUISEN_SUBSET_SUM
 #define SUISEN_SUBSET_SUM
 
+#include <cassert>
 #include <vector>
 
 #include "library/math/inv_mods.hpp"
diff --git a/library/range_query/static_range_xored_mex_query.hpp b/library/range_query/static_range_xored_mex_query.hpp
index a6ecdb4..c9fa41b 100644
--- a/library/range_query/static_range_xored_mex_query.hpp
+++ b/library/range_query/static_range_xored_mex_query.hpp
@@ -1,6 +1,7 @@
 #ifndef SUISEN_RANGE_XORED_MEX_QUERY
 #define SUISEN_RANGE_XORED_MEX_QUERY
 
+#include <tuple>
 #include <cassert>
 #include <array>
 #include <type_traits>
diff --git a/library/string/rolling_hash_field.hpp b/library/string/rolling_hash_field.hpp
index ffa6b04..e238a51 100644
--- a/library/string/rolling_hash_field.hpp
+++ b/library/string/rolling_hash_field.hpp
@@ -1,6 +1,7 @@
 #ifndef SUISEN_ROLLING_HASH_FIELD
 #define SUISEN_ROLLING_HASH_FIELD
 
+#include <cassert>
 #include <array>
 #include <cstdint>
 #include <functional>
diff --git a/library/util/hashes.hpp b/library/util/hashes.hpp
index 0516e3f..5bb0b58 100644
--- a/library/util/hashes.hpp
+++ b/library/util/hashes.hpp
@@ -1,6 +1,7 @@
 #ifndef SUISEN_TUPLE_HASH
 #define SUISEN_TUPLE_HASH
 
+#include <functional>
 #include <array>
 #include <cstdint>
 #include <tuple>
diff --git a/library/util/sum_count.hpp b/library/util/sum_count.hpp
index 26fcd61..81eb65a 100644
--- a/library/util/sum_count.hpp
+++ b/library/util/sum_count.hpp
@@ -1,6 +1,8 @@
 #ifndef SUISEN_SUM_COUNT
 #define SUISEN_SUM_COUNT
 
+#include <algorithm>
+
 namespace suisen {
     // # of (a, b) s.t. (min_a<=a<=max_a and min_b<=b<=max_b and a+b=sum)
     template <typename T, typename R = T>
-- 
2.43.0


From aa799112ab1dd81846058468ced57a9963daf813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:45 +0000
Subject: [PATCH 33/61] fix: csr_graph and container_utils include the standard
 headers they use

---
 library/graph/csr_graph.hpp      | 1 +
 library/util/container_utils.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/library/graph/csr_graph.hpp b/library/graph/csr_graph.hpp
index af1528e..109d10d 100644
--- a/library/graph/csr_graph.hpp
+++ b/library/graph/csr_graph.hpp
@@ -2,6 +2,7 @@
 #define SUISEN_CSR
 
 #include <cstdint>
+#include <iostream>
 #include <algorithm>
 #include <cassert>
 #include <limits>
diff --git a/library/util/container_utils.hpp b/library/util/container_utils.hpp
index 19cb640..8f7e0b9 100644
--- a/library/util/container_utils.hpp
+++ b/library/util/container_utils.hpp
@@ -1,6 +1,7 @@
 #ifndef SUISEN_CONTAINER_UTILS
 #define SUISEN_CONTAINER_UTILS
 
+#include <algorithm>
 #include <vector>
 #include <optional>
 #include <sstream>
-- 
2.43.0


From 5dc3daae6bbafb8041bfff932c7d51402d7f4594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:39 +0000
Subject: [PATCH 34/61] fix: safe_sqrt reads the modulus on every call

---
 library/math/modint_extension.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/math/modint_extension.hpp b/library/math/modint_extension.hpp
index 3efc099..c9a550e 100644
--- a/library/math/modint_extension.hpp
+++ b/library/math/modint_extension.hpp
@@ -10,13 +10,13 @@
  */
 template <typename mint>
 std::optional<mint> safe_sqrt(mint a) {
-    static int p = mint::mod();
+    const int p = mint::mod();
     if (a == 0) return std::make_optional(0);
     if (p == 2) return std::make_optional(a);
     if (a.pow((p - 1) / 2) != 1) return std::nullopt;
     mint b = 1;
     while (b.pow((p - 1) / 2) == 1) ++b;
-    static int tlz = __builtin_ctz(p - 1), q = (p - 1) >> tlz;
+    const int tlz = __builtin_ctz(p - 1), q = (p - 1) >> tlz;
     mint x = a.pow((q + 1) / 2);
     b = b.pow(q);
     for (int shift = 2; x * x != a; ++shift) {
-- 
2.43.0


From 2c5808758c77586f96fc766f4d997b98ba0868b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:39 +0000
Subject: [PATCH 35/61] fix: point updates of the persistent and sparse segment
 trees keep their path per call

---
 .../datastructure/segment_tree/persistent_lazy_segment_tree.hpp | 2 +-
 library/datastructure/segment_tree/persistent_segment_tree.hpp  | 2 +-
 library/datastructure/segment_tree/sparse_lazy_segment_tree.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp b/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
index 871fa49..cdf6c5d 100644
--- a/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
+++ b/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
@@ -98,7 +98,7 @@ namespace suisen {
 
             template <typename Func>
             static auto update_leaf(node_pointer_type node, int siz, int i, Func &&f) {
-                static std::vector<node_pointer_type> path;
+                std::vector<node_pointer_type> path;
 
                 node_pointer_type res = clone(node);
                 node_pointer_type cur = res;
diff --git a/library/datastructure/segment_tree/persistent_segment_tree.hpp b/library/datastructure/segment_tree/persistent_segment_tree.hpp
index ec53449..6245f17 100644
--- a/library/datastructure/segment_tree/persistent_segment_tree.hpp
+++ b/library/datastructure/segment_tree/persistent_segment_tree.hpp
@@ -62,7 +62,7 @@ namespace suisen {
 
             template <bool do_update, typename F>
             static auto search_node(node_pointer_type node, int siz, int i, F &&f) {
-                static std::vector<node_pointer_type> path;
+                std::vector<node_pointer_type> path;
 
                 node_pointer_type res = node;
                 if constexpr (do_update) res = clone(res);
diff --git a/library/datastructure/segment_tree/sparse_lazy_segment_tree.hpp b/library/datastructure/segment_tree/sparse_lazy_segment_tree.hpp
index 80c3d52..d8077c6 100644
--- a/library/datastructure/segment_tree/sparse_lazy_segment_tree.hpp
+++ b/library/datastructure/segment_tree/sparse_lazy_segment_tree.hpp
@@ -61,7 +61,7 @@ namespace suisen {
         template <typename Fun>
         void apply_fun(index_type i, Fun &&fun) {
             assert(0 <= i and i < n);
-            static std::vector<pool_index_type> path;
+            std::vector<pool_index_type> path;
             pool_index_type cur = root;
             for (std::array<index_type, 2> lr { 0, n }; lr[1] - lr[0] > 1;) {
                 path.push_back(cur);
-- 
2.43.0


From 5d5e5292a8b9dd5ed4134104b5f1ca4cf5238be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:39 +0000
Subject: [PATCH 36/61] fix: RollingHashField::set_bases drops the powers of
 the previous bases

---
 library/string/rolling_hash_field.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/string/rolling_hash_field.hpp b/library/string/rolling_hash_field.hpp
index e238a51..f90987e 100644
--- a/library/string/rolling_hash_field.hpp
+++ b/library/string/rolling_hash_field.hpp
@@ -51,6 +51,7 @@ namespace suisen {
 
         static void set_bases(const std::array<T, base_num>& new_bases) {
             bases = new_bases;
+            for (auto &p : pows) p.clear();
             already_set_bases = true;
         }
 
-- 
2.43.0


From f22c5e483bf1d04324523b6f2a75e2fc036ae004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:10 +0000
Subject: [PATCH 37/61] fix: the root of a trie with parent links has a defined
 parent

---
 library/string/trie_array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/string/trie_array.hpp b/library/string/trie_array.hpp
index 34fc66b..c8790e5 100644
--- a/library/string/trie_array.hpp
+++ b/library/string/trie_array.hpp
@@ -23,7 +23,7 @@ namespace suisen {
         int par;
         key_type key;
 
-        ArrayTrieNodeWithParentLink() : base_node_type() {}
+        ArrayTrieNodeWithParentLink() : base_node_type(), par(base_node_type::none), key() {}
         ArrayTrieNodeWithParentLink(int par, const key_type& key) : base_node_type(), par(par), key(key) {}
     };
 
-- 
2.43.0


From d5e10f4c4ac4a21d84a205b4a2ff2ba99390871b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:44 +0000
Subject: [PATCH 38/61] fix: persistent red-black trees clone nodes before
 changing them

---
 .../bbst/persistent_red_black_tree_base.hpp       |  3 +++
 .../datastructure/bbst/red_black_tree_base.hpp    | 15 ++++++++++-----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/library/datastructure/bbst/persistent_red_black_tree_base.hpp b/library/datastructure/bbst/persistent_red_black_tree_base.hpp
index 1687ca3..5b35617 100644
--- a/library/datastructure/bbst/persistent_red_black_tree_base.hpp
+++ b/library/datastructure/bbst/persistent_red_black_tree_base.hpp
@@ -49,6 +49,9 @@ namespace suisen::bbst::internal {
             if (not node) return node;
             return &(*base_type::create_leaf() = *node);
         }
+        static tree_type push(tree_type node) {
+            return clone(node);
+        }
     };
 }
 
diff --git a/library/datastructure/bbst/red_black_tree_base.hpp b/library/datastructure/bbst/red_black_tree_base.hpp
index 7178e2b..8daade9 100644
--- a/library/datastructure/bbst/red_black_tree_base.hpp
+++ b/library/datastructure/bbst/red_black_tree_base.hpp
@@ -45,7 +45,9 @@ namespace suisen::bbst::internal {
                 tree_type c = l->_ch[1] = merge<false>(l->_ch[1], r);
                 if (l->_col == BLACK and c->_col == RED and color(c->_ch[1]) == RED) {
                     std::swap(l->_col, c->_col);
-                    if (std::exchange(l->_ch[0]->_col, BLACK) == BLACK) return rotate(l, 1);
+                    if (l->_ch[0]->_col == BLACK) return rotate(l, 1);
+                    l->_ch[0] = node_type::clone(l->_ch[0]);
+                    l->_ch[0]->_col = BLACK;
                 }
                 res = node_type::update(l);
             } else if (hr > hl) {
@@ -53,7 +55,9 @@ namespace suisen::bbst::internal {
                 tree_type c = r->_ch[0] = merge<false>(l, r->_ch[0]);
                 if (r->_col == BLACK and c->_col == RED and color(c->_ch[0]) == RED) {
                     std::swap(r->_col, c->_col);
-                    if (std::exchange(r->_ch[1]->_col, BLACK) == BLACK) return rotate(r, 0);
+                    if (r->_ch[1]->_col == BLACK) return rotate(r, 0);
+                    r->_ch[1] = node_type::clone(r->_ch[1]);
+                    r->_ch[1]->_col = BLACK;
                 }
                 res = node_type::update(r);
             } else {
@@ -74,8 +78,8 @@ namespace suisen::bbst::internal {
 
             free_node(node);
 
-            if (color(l) == RED) l->_col = BLACK;
-            if (color(r) == RED) r->_col = BLACK;
+            if (color(l) == RED) l = node_type::clone(l), l->_col = BLACK;
+            if (color(r) == RED) r = node_type::clone(r), r->_col = BLACK;
 
             size_type szl = size(l);
             tree_type m;
@@ -106,7 +110,7 @@ namespace suisen::bbst::internal {
         static std::pair<tree_type, value_type> erase(tree_type node, size_type k) {
             auto [tl, tm, tr] = split_range(node, k, k + 1);
             value_type erased_value = tm->_val;
-            free_node(tm);
+            free_node(node_type::clone(tm));
             return { merge(tl, tr) , erased_value };
         }
         static std::pair<tree_type, value_type> pop_front(tree_type node) { return erase(node, 0); }
@@ -115,6 +119,7 @@ namespace suisen::bbst::internal {
         template <typename Fun>
         static tree_type update_value(tree_type node, size_type k, Fun &&fun) {
             auto [tl, top, tr] = split_range(node, k, k + 1);
+            top = node_type::clone(top);
             top->_val = fun(top->_val);
             return merge(merge(tl, top), tr);
         }
-- 
2.43.0


From 2d44869bec386b44e61af51a0275574557063f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:44 +0000
Subject: [PATCH 39/61] fix: finding a root in PersistentUnionFind does not
 rewrite other versions

---
 .../datastructure/union_find/persistent_union_find.hpp    | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/library/datastructure/union_find/persistent_union_find.hpp b/library/datastructure/union_find/persistent_union_find.hpp
index 6e6539d..8e40e16 100644
--- a/library/datastructure/union_find/persistent_union_find.hpp
+++ b/library/datastructure/union_find/persistent_union_find.hpp
@@ -19,13 +19,11 @@ namespace suisen {
 
         // Get the root of `x`. equivalent to `operator[](x)`
         int root(int x) {
-            static std::vector<int> buf;
+            // no path compression: the nodes are shared with other versions
             while (true) {
-                if (int r = _dat.get(x); r >= 0) buf.push_back(std::exchange(x, r));
-                else break;
+                if (int r = _dat.get(x); r >= 0) x = r;
+                else return x;
             }
-            while (buf.size()) _dat.mut_set(buf.back(), x), buf.pop_back();
-            return x;
         }
         // Get the root of `x`. euivalent to `root(x)`
         int operator[](int x) {
-- 
2.43.0


From b547b74a636460613229d937c34509304a9043c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:44 +0000
Subject: [PATCH 40/61] fix: PersistentLazySegmentTree::apply forwards its own
 argument type

---
 .../datastructure/segment_tree/persistent_lazy_segment_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp b/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
index cdf6c5d..acd8c9b 100644
--- a/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
+++ b/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
@@ -247,7 +247,7 @@ namespace suisen {
         template <typename Func>
         PersistentLazySegmentTree apply(int i, Func&& f) {
             assert(0 <= i and i < _n);
-            return PersistentLazySegmentTree(_n, node_type::apply(_root, _n, i, std::forward<F>(f)));
+            return PersistentLazySegmentTree(_n, node_type::apply(_root, _n, i, std::forward<Func>(f)));
         }
         PersistentLazySegmentTree set(int i, const value_type& v) {
             assert(0 <= i and i < _n);
-- 
2.43.0


From 409048c94f62d16e9c31b974775fb6b145198e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:44 +0000
Subject: [PATCH 41/61] fix: erasing from the implicit treaps rejects the
 position behind the last element

---
 library/datastructure/bbst/implicit_treap.hpp                   | 2 +-
 library/datastructure/bbst/implicit_treap_segtree.hpp           | 2 +-
 library/datastructure/bbst/reversible_implicit_treap.hpp        | 2 +-
 .../bbst/reversible_implicit_treap_dual_segtree.hpp             | 2 +-
 .../bbst/reversible_implicit_treap_lazy_segtree.hpp             | 2 +-
 .../datastructure/bbst/reversible_implicit_treap_segtree.hpp    | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/library/datastructure/bbst/implicit_treap.hpp b/library/datastructure/bbst/implicit_treap.hpp
index dfbec90..488d0fb 100644
--- a/library/datastructure/bbst/implicit_treap.hpp
+++ b/library/datastructure/bbst/implicit_treap.hpp
@@ -62,7 +62,7 @@ namespace suisen {
         void push_back(const value_type& val) { insert(size(), val); }
 
         value_type erase(size_t k) {
-            assert(k <= size_t(size()));
+            assert(k < size_t(size()));
             value_type v;
             std::tie(_root, v) = node_type::erase(_root, k);
             return v;
diff --git a/library/datastructure/bbst/implicit_treap_segtree.hpp b/library/datastructure/bbst/implicit_treap_segtree.hpp
index ec65ff1..5ca93d6 100644
--- a/library/datastructure/bbst/implicit_treap_segtree.hpp
+++ b/library/datastructure/bbst/implicit_treap_segtree.hpp
@@ -133,7 +133,7 @@ namespace suisen {
         void push_back(const value_type& val) { insert(size(), val); }
 
         value_type erase(size_t k) {
-            assert(k <= size_t(size()));
+            assert(k < size_t(size()));
             value_type v;
             std::tie(_root, v) = node_type::erase(_root, k);
             return v;
diff --git a/library/datastructure/bbst/reversible_implicit_treap.hpp b/library/datastructure/bbst/reversible_implicit_treap.hpp
index 69dcf76..85af2c7 100644
--- a/library/datastructure/bbst/reversible_implicit_treap.hpp
+++ b/library/datastructure/bbst/reversible_implicit_treap.hpp
@@ -90,7 +90,7 @@ namespace suisen {
         }
 
         value_type erase(size_t k) {
-            assert(k <= size_t(size()));
+            assert(k < size_t(size()));
             value_type v;
             std::tie(_root, v) = node_type::erase(_root, k);
             return v;
diff --git a/library/datastructure/bbst/reversible_implicit_treap_dual_segtree.hpp b/library/datastructure/bbst/reversible_implicit_treap_dual_segtree.hpp
index 29c682f..bd69678 100644
--- a/library/datastructure/bbst/reversible_implicit_treap_dual_segtree.hpp
+++ b/library/datastructure/bbst/reversible_implicit_treap_dual_segtree.hpp
@@ -138,7 +138,7 @@ namespace suisen {
         }
 
         value_type erase(size_t k) {
-            assert(k <= size_t(size()));
+            assert(k < size_t(size()));
             value_type v;
             std::tie(_root, v) = node_type::erase(_root, k);
             return v;
diff --git a/library/datastructure/bbst/reversible_implicit_treap_lazy_segtree.hpp b/library/datastructure/bbst/reversible_implicit_treap_lazy_segtree.hpp
index fc07d12..17d0417 100644
--- a/library/datastructure/bbst/reversible_implicit_treap_lazy_segtree.hpp
+++ b/library/datastructure/bbst/reversible_implicit_treap_lazy_segtree.hpp
@@ -253,7 +253,7 @@ namespace suisen {
         }
 
         value_type erase(size_t k) {
-            assert(k <= size_t(size()));
+            assert(k < size_t(size()));
             value_type v;
             std::tie(_root, v) = node_type::erase(_root, k);
             return v;
diff --git a/library/datastructure/bbst/reversible_implicit_treap_segtree.hpp b/library/datastructure/bbst/reversible_implicit_treap_segtree.hpp
index ce9a050..62c5be6 100644
--- a/library/datastructure/bbst/reversible_implicit_treap_segtree.hpp
+++ b/library/datastructure/bbst/reversible_implicit_treap_segtree.hpp
@@ -208,7 +208,7 @@ namespace suisen {
         }
 
         value_type erase(size_t k) {
-            assert(k <= size_t(size()));
+            assert(k < size_t(size()));
             value_type v;
             std::tie(_root, v) = node_type::erase(_root, k);
             return v;
-- 
2.43.0


From 8161f577ef3af997ad11adcd48f61cdc06b4d75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:44 +0000
Subject: [PATCH 42/61] fix: LazySegmentTree::suffix_prod ends at the size of
 the sequence

---
 library/datastructure/segment_tree/lazy_segment_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/segment_tree/lazy_segment_tree.hpp b/library/datastructure/segment_tree/lazy_segment_tree.hpp
index 0e0fab6..90af0f9 100644
--- a/library/datastructure/segment_tree/lazy_segment_tree.hpp
+++ b/library/datastructure/segment_tree/lazy_segment_tree.hpp
@@ -44,7 +44,7 @@ namespace suisen {
 
         value_type prod(int l, int r) { return (*this)(l, r); }
         value_type prefix_prod(int r) { return (*this)(0, r); }
-        value_type suffix_prod(int l) { return (*this)(l, m); }
+        value_type suffix_prod(int l) { return (*this)(l, n); }
         value_type all_prod() const { return data[1]; }
 
         auto operator[](int p) {
-- 
2.43.0


From 8f9c2d074f6725437fe172fda094cf2342b2fdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:14 +0000
Subject: [PATCH 43/61] fix: reversing a treap segment tree turns the products
 of the subtrees it is pushed to

---
 library/datastructure/bbst/reversible_implicit_treap_base.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/bbst/reversible_implicit_treap_base.hpp b/library/datastructure/bbst/reversible_implicit_treap_base.hpp
index d99fb54..d25ebcc 100644
--- a/library/datastructure/bbst/reversible_implicit_treap_base.hpp
+++ b/library/datastructure/bbst/reversible_implicit_treap_base.hpp
@@ -74,8 +74,8 @@ namespace suisen::internal::implicit_treap {
         }
         static void push(node_pointer t) { // t : not null
             if (std::exchange(reversed(t), false)) {
-                reverse_all(child0(t));
-                reverse_all(child1(t));
+                Derived::reverse_all(child0(t));
+                Derived::reverse_all(child1(t));
             }
         }
 
-- 
2.43.0


From 9bdf252ac79b23fcf5408e04d21ae17384b384c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:01 +0000
Subject: [PATCH 44/61] fix: PersistentLazySegmentTree::dump yields the leaves
 only and applies pending operations oldest first

---
 .../segment_tree/persistent_lazy_segment_tree.hpp              | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp b/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
index acd8c9b..a1da636 100644
--- a/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
+++ b/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
@@ -194,8 +194,7 @@ namespace suisen {
                     if (is_leaf(cur)) {
                         *it++ = mapping(f, cur->_dat);
                     } else {
-                        *it++ = mapping(f, cur->_dat);
-                        rec(rec, cur->_ch[0], composition(cur->_laz, f)), rec(rec, cur->_ch[1], composition(cur->_laz, f));
+                        rec(rec, cur->_ch[0], composition(f, cur->_laz)), rec(rec, cur->_ch[1], composition(f, cur->_laz));
                     }
                 };
                 rec(rec, node, id());
-- 
2.43.0


From cb8e5ebef8df8bc9d9209173a2ea0676e7ecafc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:01 +0000
Subject: [PATCH 45/61] fix: LazySegmentTree::min_left pushes the ancestors of
 the last leaf, not of the leaf behind it

---
 library/datastructure/segment_tree/lazy_segment_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/segment_tree/lazy_segment_tree.hpp b/library/datastructure/segment_tree/lazy_segment_tree.hpp
index 90af0f9..611fef0 100644
--- a/library/datastructure/segment_tree/lazy_segment_tree.hpp
+++ b/library/datastructure/segment_tree/lazy_segment_tree.hpp
@@ -86,7 +86,7 @@ namespace suisen {
             assert(g(e()));
             if (r == 0) return 0;
             r += m;
-            for (int i = lg; i >= 1; --i) push(r >> i);
+            for (int i = lg; i >= 1; --i) push((r - 1) >> i);
             value_type sum = e();
             do {
                 r--;
-- 
2.43.0


From 5ec1deb0becbb42569632343df5da076244b1cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:23 +0000
Subject: [PATCH 46/61] fix: BinaryTrie is not implicitly copyable (the copy
 freed the same nodes again); it can be moved

---
 library/datastructure/binary_trie.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/library/datastructure/binary_trie.hpp b/library/datastructure/binary_trie.hpp
index b1e2f30..e5d6b19 100644
--- a/library/datastructure/binary_trie.hpp
+++ b/library/datastructure/binary_trie.hpp
@@ -5,6 +5,7 @@
 #include <limits>
 #include <optional>
 #include <string>
+#include <utility>
 #include <vector>
 
 namespace suisen {
@@ -53,6 +54,14 @@ class BinaryTrie {
         BinaryTrie() : root(new Node) {}
         ~BinaryTrie() { delete root; }
 
+        BinaryTrie(const BinaryTrie&) = delete;
+        BinaryTrie& operator=(const BinaryTrie&) = delete;
+        BinaryTrie(BinaryTrie&& other) : BinaryTrie() { std::swap(root, other.root); }
+        BinaryTrie& operator=(BinaryTrie&& other) {
+            std::swap(root, other.root);
+            return *this;
+        }
+
         inline int size() const noexcept { return Node::size(root); }
         inline bool empty() const noexcept { return size() == 0; }
 
-- 
2.43.0


From 1d7f69e714eaa4f62f93b9062bbd94d67f0c975c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:23 +0000
Subject: [PATCH 47/61] fix: BinaryTriePatricia is not implicitly copyable (the
 copy freed the same nodes again); it can be moved

---
 library/datastructure/binary_trie_patricia.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/library/datastructure/binary_trie_patricia.hpp b/library/datastructure/binary_trie_patricia.hpp
index 9852540..0b5c576 100644
--- a/library/datastructure/binary_trie_patricia.hpp
+++ b/library/datastructure/binary_trie_patricia.hpp
@@ -56,6 +56,14 @@ namespace suisen {
             delete _root;
         }
 
+        BinaryTriePatricia(const BinaryTriePatricia&) = delete;
+        BinaryTriePatricia& operator=(const BinaryTriePatricia&) = delete;
+        BinaryTriePatricia(BinaryTriePatricia&& other) { std::swap(_root, other._root); }
+        BinaryTriePatricia& operator=(BinaryTriePatricia&& other) {
+            std::swap(_root, other._root);
+            return *this;
+        }
+
         // number of elements in the set
         int size() const {
             return _root->siz;
-- 
2.43.0


From 8ed8681cec9cb875b18af633133e206405c73648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:07 +0000
Subject: [PATCH 48/61] fix: SortableSegmentTree is not implicitly copyable
 (the copy released the same nodes again); it can be moved

---
 .../datastructure/segment_tree/sortable_segment_tree.hpp  | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/library/datastructure/segment_tree/sortable_segment_tree.hpp b/library/datastructure/segment_tree/sortable_segment_tree.hpp
index 60d3f45..a2158a3 100644
--- a/library/datastructure/segment_tree/sortable_segment_tree.hpp
+++ b/library/datastructure/segment_tree/sortable_segment_tree.hpp
@@ -614,6 +614,14 @@ namespace suisen {
             outer_node::dealloc_all(_root);
         }
 
+        SortableSegmentTree(const SortableSegmentTree&) = delete;
+        SortableSegmentTree& operator=(const SortableSegmentTree&) = delete;
+        SortableSegmentTree(SortableSegmentTree&& other) : SortableSegmentTree(std::exchange(other._root, nullptr)) {}
+        SortableSegmentTree& operator=(SortableSegmentTree&& other) {
+            std::swap(_root, other._root);
+            return *this;
+        }
+
         size_type size() {
             return outer_node::safe_size(_root);
         }
-- 
2.43.0


From 74cac2eaadec32b7833dfcbbfc1bd5c253d13c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:21 +0000
Subject: [PATCH 49/61] fix: ObjectPool is not implicitly copyable (the copy
 handed out the elements of the original)

---
 library/util/object_pool.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/library/util/object_pool.hpp b/library/util/object_pool.hpp
index 3a1012f..01835cc 100644
--- a/library/util/object_pool.hpp
+++ b/library/util/object_pool.hpp
@@ -22,6 +22,12 @@ namespace suisen {
             clear();
         }
 
+        // stock and it refer to this object's own elements: they stay valid when moved, but not when copied
+        ObjectPool(const ObjectPool&) = delete;
+        ObjectPool& operator=(const ObjectPool&) = delete;
+        ObjectPool(ObjectPool&&) = default;
+        ObjectPool& operator=(ObjectPool&&) = default;
+
         int capacity() const { return pool.size(); }
         int size() const { return it - stock.begin(); }
 
-- 
2.43.0


From 14e44b7df5e807375b0fe29c91f166e5d59ad855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:48 +0000
Subject: [PATCH 50/61] fix: BinaryTrie can be moved (its root was declared
 constant, moving did not compile)

---
 library/datastructure/binary_trie.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/binary_trie.hpp b/library/datastructure/binary_trie.hpp
index e5d6b19..ac81cfd 100644
--- a/library/datastructure/binary_trie.hpp
+++ b/library/datastructure/binary_trie.hpp
@@ -152,7 +152,7 @@ class BinaryTrie {
         inline std::string to_string() const noexcept { return root->to_string(); }
         friend std::ostream& operator<<(std::ostream& out, const BinaryTrie &bt) { return out << bt.to_string(); }
     private:
-        Node *const root;
+        Node *root;
         static constexpr bool bit(const U val, const int i) noexcept {
             return (val >> i) & 1;
         }
-- 
2.43.0


From e4edb64a699cc0c11c4e66de16c37a080f963cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:03 +0000
Subject: [PATCH 51/61] fix: persistent trees built after clear_pool() start
 from fresh nodes (reused nodes kept the children and values of the old trees)

---
 library/datastructure/fenwick_tree/persistent_fenwick_tree.hpp  | 2 +-
 .../datastructure/segment_tree/persistent_dual_segment_tree.hpp | 2 +-
 .../datastructure/segment_tree/persistent_lazy_segment_tree.hpp | 2 +-
 library/datastructure/segment_tree/persistent_segment_tree.hpp  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/library/datastructure/fenwick_tree/persistent_fenwick_tree.hpp b/library/datastructure/fenwick_tree/persistent_fenwick_tree.hpp
index e6335f7..a9e8f67 100644
--- a/library/datastructure/fenwick_tree/persistent_fenwick_tree.hpp
+++ b/library/datastructure/fenwick_tree/persistent_fenwick_tree.hpp
@@ -33,7 +33,7 @@ namespace suisen {
                 auto rec = [&](auto rec, int p, int id) -> node_pointer_type {
                     if (p == 0) return nullptr;
                     const int np = p >> 1;
-                    node_pointer_type res = _pool.alloc();
+                    node_pointer_type res = &(*_pool.alloc() = node_type());
                     res->_ch[0] = rec(rec, np, id - np);
                     if (id + 1 <= n) res->_ch[1] = rec(rec, np, id + np);
                     if (id <= n) nodes[id] = res;
diff --git a/library/datastructure/segment_tree/persistent_dual_segment_tree.hpp b/library/datastructure/segment_tree/persistent_dual_segment_tree.hpp
index 7b0ffba..41920b2 100644
--- a/library/datastructure/segment_tree/persistent_dual_segment_tree.hpp
+++ b/library/datastructure/segment_tree/persistent_dual_segment_tree.hpp
@@ -49,7 +49,7 @@ namespace suisen {
 
             static node_pointer_type build(const int n) {
                 auto rec = [&](auto rec, int l, int r) -> node_pointer_type {
-                    node_pointer_type res = _pool.alloc();
+                    node_pointer_type res = &(*_pool.alloc() = node_type());
                     res->_laz = id();
                     if (r - l > 1) {
                         int m = (l + r) >> 1;
diff --git a/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp b/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
index a1da636..ede265f 100644
--- a/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
+++ b/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
@@ -52,7 +52,7 @@ namespace suisen {
 
             static node_pointer_type build(const std::vector<value_type>& dat) {
                 auto rec = [&](auto rec, int l, int r) -> node_pointer_type {
-                    node_pointer_type res = _pool.alloc();
+                    node_pointer_type res = &(*_pool.alloc() = node_type());
                     if (r - l == 1) {
                         res->_dat = dat[l];
                         res->_laz = id();
diff --git a/library/datastructure/segment_tree/persistent_segment_tree.hpp b/library/datastructure/segment_tree/persistent_segment_tree.hpp
index 6245f17..45409b2 100644
--- a/library/datastructure/segment_tree/persistent_segment_tree.hpp
+++ b/library/datastructure/segment_tree/persistent_segment_tree.hpp
@@ -37,7 +37,7 @@ namespace suisen {
 
             static node_pointer_type build(const std::vector<value_type>& dat) {
                 auto rec = [&](auto rec, int l, int r) -> node_pointer_type {
-                    node_pointer_type res = _pool.alloc();
+                    node_pointer_type res = &(*_pool.alloc() = node_type());
                     if (r - l == 1) {
                         res->_dat = dat[l];
                     } else {
-- 
2.43.0


From 6d185999bb7c0b207192ca718d41137e1721b2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:18 +0000
Subject: [PATCH 52/61] fix: ArrayMatrix division compiles (inv() returns a
 matrix, not an optional one; the inverse is an rvalue)

---
 library/linear_algebra/array_matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/linear_algebra/array_matrix.hpp b/library/linear_algebra/array_matrix.hpp
index 9e3092c..15be9f2 100644
--- a/library/linear_algebra/array_matrix.hpp
+++ b/library/linear_algebra/array_matrix.hpp
@@ -71,7 +71,7 @@ namespace suisen {
             for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < M; ++j) A[i][j] = _mul(A[i][j], val);
             return A;
         }
-        friend ArrayMatrix& operator/=(ArrayMatrix& A, const ArrayMatrix& B) { static_assert(is_square_v<>); return A *= *B.inv(); }
+        friend ArrayMatrix& operator/=(ArrayMatrix& A, const ArrayMatrix& B) { static_assert(is_square_v<>); return A *= B.inv(); }
         friend ArrayMatrix& operator/=(ArrayMatrix& A, const T& val) { return A *= _inv(val); }
 
         friend ArrayMatrix operator+(ArrayMatrix A, const ArrayMatrix& B) { A += B; return A; }
@@ -98,7 +98,7 @@ namespace suisen {
         }
         friend ArrayMatrix operator/(ArrayMatrix A, const ArrayMatrix& B) { static_assert(is_square_v<>); return A * B.inv(); }
         friend ArrayMatrix operator/(ArrayMatrix A, const T& val) { A /= val; return A; }
-        friend ArrayMatrix operator/(const T& val, ArrayMatrix A) { return A.inv() *= val; }
+        friend ArrayMatrix operator/(const T& val, ArrayMatrix A) { A = A.inv(); return A *= val; }
 
         ArrayMatrix pow(long long b) const {
             static_assert(is_square_v<>);
-- 
2.43.0


From b6868a62545b74e082ff8b0aacc2b9344e105692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:18 +0000
Subject: [PATCH 53/61] fix: VecSparseFPS negation and product compile

---
 library/polynomial/vec_sparse_fps.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/polynomial/vec_sparse_fps.hpp b/library/polynomial/vec_sparse_fps.hpp
index 18fde2b..43c4732 100644
--- a/library/polynomial/vec_sparse_fps.hpp
+++ b/library/polynomial/vec_sparse_fps.hpp
@@ -35,7 +35,7 @@ namespace suisen {
         VecSparseFPS operator-() const {
             VecSparseFPS res;
             for (const auto &[i, f] : _f) {
-                auto &back = res._f.emplace_back(i, {});
+                auto &back = res._f.emplace_back(i, std::vector<value_type>{});
                 for (const auto &v : f) back.second.push_back(-v);
             }
             return res;
@@ -63,7 +63,7 @@ namespace suisen {
             std::sort(data.begin(), data.end(), [](auto &p1, auto &p2) { return p1.first < p2.first; });
             VecSparseFPS h;
             for (auto &[i, a] : data) {
-                h.add_to_last(i, std::move(a));
+                h.add_to_last({ i, std::move(a) });
             }
             return h;
         }
-- 
2.43.0


From 963e30740fd180722fcde86254f208f7e60359f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:18 +0000
Subject: [PATCH 54/61] fix: SubstringSet iterators can be dereferenced

---
 library/string/substring_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/string/substring_set.hpp b/library/string/substring_set.hpp
index 2bdf394..dccb9b8 100644
--- a/library/string/substring_set.hpp
+++ b/library/string/substring_set.hpp
@@ -119,7 +119,7 @@ class SubstringSet {
             public:
                 SubstringSetIterator(const SubstringSet *st, size_type k) : st(st), k(k) {}
 
-                value_type operator*() const { return st->kth_substring(k); }
+                value_type operator*() const { return st->kth_element(k); }
 
                 auto& operator=(const SubstringSetIterator& other) {
                     st = other.st;
-- 
2.43.0


From 1e67734be9ae6524ece531470c519c0a264e7b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:25 +0000
Subject: [PATCH 55/61] fix: FPS::exp can be called on a constant series

---
 library/polynomial/fps.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/polynomial/fps.hpp b/library/polynomial/fps.hpp
index 002a958..81ca617 100644
--- a/library/polynomial/fps.hpp
+++ b/library/polynomial/fps.hpp
@@ -228,7 +228,7 @@ namespace suisen {
             return res.intg();
         }
         FPS& exp_inplace(int n = -1) { return *this = exp(n); }
-        FPS exp(int n = -1) {
+        FPS exp(int n = -1) const {
             assert(safe_get(0) == 0);
             if (n < 0) n = size();
             if (n < 60) return FPSNaive<mint>(cut_copy(n)).exp(n);
-- 
2.43.0


From 86f4f791060789351f5f7563eacbbbddda7fad25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:50 +0000
Subject: [PATCH 56/61] fix: polynomial_inv and polynomial_gcd return the
 polynomial they compute

---
 library/polynomial/polynomial_gcd.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/polynomial/polynomial_gcd.hpp b/library/polynomial/polynomial_gcd.hpp
index 857b1d3..bb0d3f1 100644
--- a/library/polynomial/polynomial_gcd.hpp
+++ b/library/polynomial/polynomial_gcd.hpp
@@ -87,15 +87,15 @@ namespace suisen {
     }
     // @return x s.t. ax=1 (mod m)
     template <typename Polynomial>
-    std::pair<Polynomial, Polynomial> polynomial_inv(const Polynomial &a, const Polynomial &m) {
+    Polynomial polynomial_inv(const Polynomial &a, const Polynomial &m) {
         auto [x, _, g] = polynomial_ext_gcd(a, m);
         assert(g == Polynomial{1});
         return x;
     }
     // @return gcd(a,b) (monic)
     template <typename Polynomial>
-    std::tuple<Polynomial, Polynomial, Polynomial> polynomial_gcd(const Polynomial &a, const Polynomial &b) {
-        return std::get<2>(ext_gcd(a, b));
+    Polynomial polynomial_gcd(const Polynomial &a, const Polynomial &b) {
+        return std::get<2>(polynomial_ext_gcd(a, b));
     }
 } // namespace suisen
 
-- 
2.43.0


From 0d9d99e40b1c85000043071f80123f40aacd0e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:50 +0000
Subject: [PATCH 57/61] fix: AffineClamp stream operators have their usual
 direction

---
 library/algebra/monoid/affine_clamp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/algebra/monoid/affine_clamp.hpp b/library/algebra/monoid/affine_clamp.hpp
index bb6d5b5..183acf8 100644
--- a/library/algebra/monoid/affine_clamp.hpp
+++ b/library/algebra/monoid/affine_clamp.hpp
@@ -32,8 +32,8 @@ namespace suisen {
         template <typename U = T, typename V = T, typename W = T, typename X = T>
         operator std::tuple<U, V, W, X>() { return { this->a, this->b, l, r }; }
 
-        friend std::istream& operator<<(std::istream& in, AffineClamp<T>& f) { return in >> f.a >> f.b >> f.l >> f.r; }
-        friend std::ostream& operator>>(std::ostream& out, const AffineClamp<T>& f) { return out << f.a << ' ' << f.b << ' ' << f.l << ' ' << f.r; }
+        friend std::istream& operator>>(std::istream& in, AffineClamp<T>& f) { return in >> f.a >> f.b >> f.l >> f.r; }
+        friend std::ostream& operator<<(std::ostream& out, const AffineClamp<T>& f) { return out << f.a << ' ' << f.b << ' ' << f.l << ' ' << f.r; }
     };
 } // namespace suisen
 
-- 
2.43.0


From 69def421803575ad82f0867065b4641be15a4bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:50 +0000
Subject: [PATCH 58/61] fix: a constant static_bitset can be read and printed

---
 library/datastructure/util/static_bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/util/static_bitset.hpp b/library/datastructure/util/static_bitset.hpp
index bff3624..5ff165b 100644
--- a/library/datastructure/util/static_bitset.hpp
+++ b/library/datastructure/util/static_bitset.hpp
@@ -111,7 +111,7 @@ namespace suisen {
         bool operator>=(const static_bitset<N>& rhs) const {
             return not (*this < rhs);
         }
-        bool operator[](std::size_t i) {
+        bool operator[](std::size_t i) const {
             return (_data[outer_index(i)] >> inner_index(i)) & 1;
         }
         operator bool() const {
-- 
2.43.0


From b3ffa5997cf1fd71d461018359e063c16119660e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:50 +0000
Subject: [PATCH 59/61] fix: RangeChMinMaxAddRangeSum::max_right<f>/min_left<f>
 compile

---
 library/range_query/range_chmin_chmax_add_range_sum.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/range_query/range_chmin_chmax_add_range_sum.hpp b/library/range_query/range_chmin_chmax_add_range_sum.hpp
index 2a2ebb2..61bca4e 100644
--- a/library/range_query/range_chmin_chmax_add_range_sum.hpp
+++ b/library/range_query/range_chmin_chmax_add_range_sum.hpp
@@ -66,7 +66,7 @@ namespace suisen {
         }
         template <bool(*pred)(DataType)>
         int max_right(int l) {
-            return seg.max_right<pred>(l);
+            return seg.template max_right<pred>(l);
         }
         template <typename Pred>
         int max_right(int l, Pred &&pred) {
@@ -74,7 +74,7 @@ namespace suisen {
         }
         template <bool(*pred)(DataType)>
         int min_left(int r) {
-            return seg.min_left<pred>(r);
+            return seg.template min_left<pred>(r);
         }
         template <typename Pred>
         int min_left(int r, Pred &&pred) {
-- 
2.43.0


From 63b701ca2ba4b9e8021a42300bfc93ff48bab561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:51 +0000
Subject: [PATCH 60/61] fix: prime_mod_sqrt counts the factors of two of p - 1
 in 64 bits

---
 library/number/mod_sqrt.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/number/mod_sqrt.hpp b/library/number/mod_sqrt.hpp
index 743bc5f..4033c0b 100644
--- a/library/number/mod_sqrt.hpp
+++ b/library/number/mod_sqrt.hpp
@@ -42,7 +42,7 @@ namespace suisen {
             ++b;
         }
 
-        int tlz = __builtin_ctz(p - 1);
+        int tlz = __builtin_ctzll(p - 1);
         long long q = (p - 1) >> tlz;
 
         long long ia = inv_mod64(a, p);
@@ -55,7 +55,7 @@ namespace suisen {
                 return x;
             }
             long long e = mul_mod64(ia, x2, p);
-            if (pow_mod64(e, 1 << (tlz - shift), p) != 1) {
+            if (pow_mod64(e, 1LL << (tlz - shift), p) != 1) {
                 x = mul_mod64(x, b, p);
             }
             b = mul_mod64(b, b, p);
-- 
2.43.0


From e049040531274451997b110fb5e25a8243c359f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:51 +0000
Subject: [PATCH 61/61] fix: OrderMod::is_primitive_root hands moduli from 2^31
 on to the 64-bit modint

---
 library/number/order_Z_mZ.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/number/order_Z_mZ.hpp b/library/number/order_Z_mZ.hpp
index 35a5348..b7ffc50 100644
--- a/library/number/order_Z_mZ.hpp
+++ b/library/number/order_Z_mZ.hpp
@@ -61,7 +61,7 @@ namespace suisen {
         }
 
         bool is_primitive_root(U a) const {
-            if (_mod < 1ULL << 32) {
+            if (_mod < 1ULL << 31) {
                 using mint = atcoder::dynamic_modint<1000000000>;
                 U old_mod = mint::mod();
                 mint::set_mod(_mod);
-- 
2.43.0

