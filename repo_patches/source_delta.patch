From eec7a39ba69e336cab46cf5fcdf68cbe0e1d6ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:06 +0000
Subject: [PATCH 01/17] fix: array::take accepts more elements than there are

The documentation of take() (persistent and transient) promises
min(elems, size()) elements; the implementation asserted, or read past the
end, when elems was larger than the size.
---
 immer/detail/arrays/no_capacity.hpp   | 1 +
 immer/detail/arrays/with_capacity.hpp | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/immer/detail/arrays/no_capacity.hpp b/immer/detail/arrays/no_capacity.hpp
index a24f6da..fe2faa2 100644
--- a/immer/detail/arrays/no_capacity.hpp
+++ b/immer/detail/arrays/no_capacity.hpp
@@ -201,6 +201,7 @@ struct no_capacity
 
     no_capacity take(std::size_t sz) const
     {
+        sz     = std::min(sz, size);
         auto p = node_t::copy_n(sz, ptr, sz);
         return {p, sz};
     }
diff --git a/immer/detail/arrays/with_capacity.hpp b/immer/detail/arrays/with_capacity.hpp
index c80f706..4a65b21 100644
--- a/immer/detail/arrays/with_capacity.hpp
+++ b/immer/detail/arrays/with_capacity.hpp
@@ -292,7 +292,7 @@ struct with_capacity
 
     with_capacity take(std::size_t sz) const
     {
-        assert(sz <= size);
+        sz       = std::min(sz, size);
         auto cap = recommend_down(sz, capacity);
         auto p   = node_t::copy_n(cap, ptr, sz);
         return {p, sz, cap};
@@ -300,7 +300,7 @@ struct with_capacity
 
     void take_mut(edit_t e, std::size_t sz)
     {
-        assert(sz <= size);
+        sz = std::min(sz, size);
         if (ptr->can_mutate(e)) {
             detail::destroy_n(data() + size, size - sz);
             size = sz;
-- 
2.43.0


From bc16a1e33bea91b224f3a642886273f8ee03267a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:06 +0000
Subject: [PATCH 02/17] fix: in-place array take destroys the dropped elements

take_mut() destroyed size - sz objects past the end of the array instead of
the ones it drops, leaking those.
---
 immer/detail/arrays/with_capacity.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/immer/detail/arrays/with_capacity.hpp b/immer/detail/arrays/with_capacity.hpp
index 4a65b21..88ab688 100644
--- a/immer/detail/arrays/with_capacity.hpp
+++ b/immer/detail/arrays/with_capacity.hpp
@@ -302,7 +302,7 @@ struct with_capacity
     {
         sz = std::min(sz, size);
         if (ptr->can_mutate(e)) {
-            detail::destroy_n(data() + size, size - sz);
+            detail::destroy_n(data() + sz, size - sz);
             size = sz;
         } else {
             auto cap = recommend_down(sz, capacity);
-- 
2.43.0


From 26079273970161a4f7fcf1c640f453102b6a09d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:00 +0000
Subject: [PATCH 03/17] fix: prepending an expiring transient with a full tail
 keeps its tail alive

concat_mut_lr_r() makes the left tail a leaf of the result while the left
transient still refers to it, but did not count that second reference, so
that destroying or assigning the moved-from transient released a leaf in
use.  concat_mut_r() already does it.
---
 immer/detail/rbts/rrbtree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/immer/detail/rbts/rrbtree.hpp b/immer/detail/rbts/rrbtree.hpp
index 843921b..1a0bf3d 100644
--- a/immer/detail/rbts/rrbtree.hpp
+++ b/immer/detail/rbts/rrbtree.hpp
@@ -1204,6 +1204,7 @@ struct rrbtree
                 // are tagged with `er`
                 auto res =
                     l.push_tail(l.root, l.shift, tail_offst, l.tail, tail_size);
+                l.tail->inc();
                 r = {l.size + r.size, get<0>(res), get<1>(res), r.tail->inc()};
                 return;
             } else if (tail_size + r.size <= branches<BL>) {
-- 
2.43.0


From 20d44eb3633694e6e3d8e9d62e2392a1e4dda7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:50 +0000
Subject: [PATCH 04/17] fix: erasing a range of an expiring flex_vector
 compiles without transient rvalues

---
 immer/flex_vector.hpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/immer/flex_vector.hpp b/immer/flex_vector.hpp
index f970db9..6ab7251 100644
--- a/immer/flex_vector.hpp
+++ b/immer/flex_vector.hpp
@@ -488,12 +488,7 @@ public:
     }
     IMMER_NODISCARD decltype(auto) erase(size_type pos, size_type lpos) &&
     {
-        if (lpos > pos) {
-            auto rs = drop(lpos);
-            return std::move(*this).take(pos) + std::move(rs);
-        } else {
-            return std::move(*this);
-        }
+        return erase_move(move_t{}, pos, lpos);
     }
 
     /*!
@@ -589,6 +584,20 @@ private:
         return impl_.drop(elems);
     }
 
+    flex_vector&& erase_move(std::true_type, size_type pos, size_type lpos)
+    {
+        if (lpos > pos) {
+            auto rs = drop(lpos);
+            return std::move(*this).take(pos) + std::move(rs);
+        } else {
+            return std::move(*this);
+        }
+    }
+    flex_vector erase_move(std::false_type, size_type pos, size_type lpos)
+    {
+        return lpos > pos ? take(pos) + drop(lpos) : *this;
+    }
+
     static flex_vector&&
     concat_move(std::true_type, flex_vector&& l, const flex_vector& r)
     {
-- 
2.43.0


From 3c888f675b8c44d77846637f0a0c17b4a297e47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:11 +0000
Subject: [PATCH 05/17] fix: persistent() of an array transient of elements
 constructible from anything

---
 immer/array_transient.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/immer/array_transient.hpp b/immer/array_transient.hpp
index 08000b2..6487695 100644
--- a/immer/array_transient.hpp
+++ b/immer/array_transient.hpp
@@ -184,11 +184,11 @@ public:
     IMMER_NODISCARD persistent_type persistent() &
     {
         this->owner_t::operator=(owner_t{});
-        return persistent_type{impl_};
+        return persistent_type(impl_);
     }
     IMMER_NODISCARD persistent_type persistent() &&
     {
-        return persistent_type{std::move(impl_)};
+        return persistent_type(std::move(impl_));
     }
 
 private:
-- 
2.43.0


From af08de89645e5bb87f5183ead825bf6787268cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 06/17] fix: flex_vector equality compares the elements between
 the two tail offsets

---
 immer/detail/rbts/rrbtree.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/immer/detail/rbts/rrbtree.hpp b/immer/detail/rbts/rrbtree.hpp
index 1a0bf3d..de94897 100644
--- a/immer/detail/rbts/rrbtree.hpp
+++ b/immer/detail/rbts/rrbtree.hpp
@@ -320,10 +320,9 @@ struct rrbtree
                    ? make_leaf_sub_pos(tail, tail_size())
                          .visit(equals_visitor{}, other.tail)
                : tail_off > tail_off_other
-                   ? std::equal(tail->leaf(),
-                                tail->leaf() + (size - tail_off),
-                                other.tail->leaf() +
-                                    (tail_off - tail_off_other))
+                   ? std::equal(other.tail->leaf(),
+                                other.tail->leaf() + (size - tail_off_other),
+                                iter_t{*this} + tail_off_other)
                    /* otherwise */
                    : std::equal(tail->leaf(),
                                 tail->leaf() + (size - tail_off),
-- 
2.43.0


From d70949cfd197caeb0a65d87a171b4a31be8a312b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:33 +0000
Subject: [PATCH 07/17] fix: dropping at a leaf boundary in place does not move
 elements onto themselves

---
 immer/detail/rbts/operations.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/immer/detail/rbts/operations.hpp b/immer/detail/rbts/operations.hpp
index d5ff679..81eb0d4 100644
--- a/immer/detail/rbts/operations.hpp
+++ b/immer/detail/rbts/operations.hpp
@@ -1383,8 +1383,10 @@ struct slice_left_mut_visitor
         if (mutate) {
             auto data     = node->leaf();
             auto newcount = count - idx;
-            std::move(data + idx, data + count, data);
-            detail::destroy_n(data + newcount, idx);
+            if (idx > 0) {
+                std::move(data + idx, data + count, data);
+                detail::destroy_n(data + newcount, idx);
+            }
             return std::make_tuple(0, node);
         } else {
             auto newn = node_t::copy_leaf_e(e, node, idx, count);
-- 
2.43.0


From 63e885fde98f853061e9bd06b9e7c650ab8d046e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:21 +0000
Subject: [PATCH 08/17] fix: changing a node in place gets its own size table
 before anything else changes

---
 immer/detail/rbts/operations.hpp | 34 ++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/immer/detail/rbts/operations.hpp b/immer/detail/rbts/operations.hpp
index 81eb0d4..dc35000 100644
--- a/immer/detail/rbts/operations.hpp
+++ b/immer/detail/rbts/operations.hpp
@@ -688,7 +688,15 @@ struct push_tail_mut_visitor
 
         if (new_idx >= branches<B>)
             return nullptr;
-        else if (idx == new_idx) {
+        // getting a size table of our own may throw, so do it before anything
+        // changes below us
+        if (mutate) {
+            auto relaxed = node->ensure_mutable_relaxed(e);
+            if (relaxed != pos.relaxed())
+                return visit_relaxed(
+                    make_relaxed_pos(node, level, relaxed), e, tail, ts);
+        }
+        if (idx == new_idx) {
             new_child =
                 mutate ? pos.last_oh_csh(this_t{}, idx, children, e, tail, ts)
                        : pos.last_oh_csh(
@@ -704,7 +712,7 @@ struct push_tail_mut_visitor
 
         if (mutate) {
             auto count             = new_idx + 1;
-            auto relaxed           = node->ensure_mutable_relaxed_n(e, new_idx);
+            auto relaxed           = node->relaxed();
             node->inner()[new_idx] = new_child;
             relaxed->d.sizes[new_idx] = pos.size() + ts;
             relaxed->d.count          = count;
@@ -920,6 +928,14 @@ struct slice_right_mut_visitor
                 pos.visit(dec_right_visitor{}, count_t{1});
             return res;
         } else {
+            // getting a size table of our own may throw, so do it before
+            // anything changes below us
+            if (mutate) {
+                auto nodr = node->ensure_mutable_relaxed(e);
+                if (nodr != pos.relaxed())
+                    return visit_relaxed(
+                        make_relaxed_pos(node, pos.shift(), nodr), last, e);
+            }
             using std::get;
             auto subs =
                 mutate ? pos.towards_oh(no_collapse_t{}, last, idx, e)
@@ -930,7 +946,7 @@ struct slice_right_mut_visitor
             IMMER_TRY {
                 if (next) {
                     if (mutate) {
-                        auto nodr = node->ensure_mutable_relaxed_n(e, idx);
+                        auto nodr = node->relaxed();
                         pos.each_right(dec_visitor{}, idx + 1);
                         node->inner()[idx] = next;
                         nodr->d.sizes[idx] = last + 1 - ts;
@@ -962,7 +978,7 @@ struct slice_right_mut_visitor
                 } else {
                     if (mutate) {
                         pos.each_right(dec_visitor{}, idx + 1);
-                        node->ensure_mutable_relaxed_n(e, idx)->d.count = idx;
+                        node->relaxed()->d.count = idx;
                         return std::make_tuple(pos.shift(), node, ts, tail);
                     } else {
                         auto newn = node_t::copy_inner_r_e(e, node, idx);
@@ -1260,9 +1276,15 @@ struct slice_left_mut_visitor
                 pos.visit(dec_visitor{});
             return r;
         } else {
+            // the size table that we read must not be one that we have let go
+            if (mutate) {
+                auto nodr = node->ensure_mutable_relaxed(e);
+                if (nodr != pos.relaxed())
+                    return visit_relaxed(
+                        make_relaxed_pos(node, pos.shift(), nodr), first, e);
+            }
             using std::get;
-            auto newn     = mutate ? (node->ensure_mutable_relaxed(e), node)
-                                   : node_t::make_inner_r_e(e);
+            auto newn     = mutate ? node : node_t::make_inner_r_e(e);
             auto newr     = newn->relaxed();
             auto newcount = count - idx;
             auto new_child_size = child_size - child_dropped_size;
-- 
2.43.0


From 69c27378152050c58dfca184ac5da4d9614f761d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:41 +0000
Subject: [PATCH 09/17] fix: a failed concatenation destroys the elements it
 had added to the left tail

---
 immer/detail/rbts/rrbtree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/immer/detail/rbts/rrbtree.hpp b/immer/detail/rbts/rrbtree.hpp
index de94897..37e76e9 100644
--- a/immer/detail/rbts/rrbtree.hpp
+++ b/immer/detail/rbts/rrbtree.hpp
@@ -826,7 +826,7 @@ struct rrbtree
                     }
                 }
                 IMMER_CATCH (...) {
-                    detail::destroy_n(r.tail->leaf() + tail_size, remaining);
+                    detail::destroy_n(l.tail->leaf() + tail_size, remaining);
                     IMMER_RETHROW;
                 }
             }
@@ -1104,7 +1104,7 @@ struct rrbtree
                     }
                 }
                 IMMER_CATCH (...) {
-                    detail::destroy_n(r.tail->leaf() + tail_size, remaining);
+                    detail::destroy_n(l.tail->leaf() + tail_size, remaining);
                     IMMER_RETHROW;
                 }
             }
-- 
2.43.0


From d62e1fa6c64cb1413568b70db07a3f8985f5884b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:39 +0000
Subject: [PATCH 10/17] fix: a failed replacement among collisions does not
 destroy its first element twice

---
 immer/detail/hamts/node.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/immer/detail/hamts/node.hpp b/immer/detail/hamts/node.hpp
index 1801984..d9cc256 100644
--- a/immer/detail/hamts/node.hpp
+++ b/immer/detail/hamts/node.hpp
@@ -503,7 +503,7 @@ struct node
                     detail::uninitialized_copy(pos + 1, srcp + n, dstp);
                 }
                 IMMER_CATCH (...) {
-                    detail::destroy(dst->collisions(), dstp);
+                    detail::destroy(dst->collisions() + 1, dstp);
                     IMMER_RETHROW;
                 }
             }
-- 
2.43.0


From 10a657d3a0c50b1fe0d58a549d420b9e65fc7c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:32 +0000
Subject: [PATCH 11/17] fix: erasing in place from a set, map or table keeps
 the entry that moves up until it has

---
 immer/detail/hamts/champ.hpp | 53 +++++++++---------------------------
 1 file changed, 13 insertions(+), 40 deletions(-)

diff --git a/immer/detail/hamts/champ.hpp b/immer/detail/hamts/champ.hpp
index 0e04d57..5c91fad 100644
--- a/immer/detail/hamts/champ.hpp
+++ b/immer/detail/hamts/champ.hpp
@@ -1314,17 +1314,13 @@ struct champ
         sub_result_mut()
             : kind{kind_t::nothing}
             , mutated{false} {};
-        sub_result_mut(T* x, bool m)
-            : kind{kind_t::singleton}
-            , owned{m}
-            , mutated{m}
-        {
-            data.singleton = x;
-        };
-        sub_result_mut(T* x, bool o, bool m)
+        // A singleton is left where it is, in the tree that it is to replace,
+        // which is only released once that happened (it may throw).  It may
+        // be moved from if nobody else can see that tree.
+        sub_result_mut(T* x, bool o)
             : kind{kind_t::singleton}
             , owned{o}
-            , mutated{m}
+            , mutated{false}
         {
             data.singleton = x;
         };
@@ -1342,8 +1338,7 @@ struct champ
                               node_t* node,
                               const K& k,
                               hash_t hash,
-                              shift_t shift,
-                              void* store) const
+                              shift_t shift) const
     {
         auto mutate = node->can_mutate(e);
         if (shift == max_shift<B>) {
@@ -1352,14 +1347,7 @@ struct champ
             for (auto cur = fst; cur != lst; ++cur) {
                 if (Equal{}(*cur, k)) {
                     if (node->collision_count() <= 2) {
-                        if (mutate) {
-                            auto r = new (store)
-                                T{std::move(node->collisions()[cur == fst])};
-                            node_t::delete_collision(node);
-                            return sub_result_mut{r, true};
-                        } else {
-                            return sub_result_mut{fst + (cur == fst), false};
-                        }
+                        return sub_result_mut{fst + (cur == fst), mutate};
                     } else {
                         auto r = mutate
                                      ? node_t::move_collision_remove(node, cur)
@@ -1377,7 +1365,7 @@ struct champ
                 auto children = node->children();
                 auto child    = children[offset];
                 auto result =
-                    mutate ? do_sub_mut(e, child, k, hash, shift + B, store)
+                    mutate ? do_sub_mut(e, child, k, hash, shift + B)
                            : do_sub(child, k, hash, shift + B);
                 switch (result.kind) {
                 case sub_result::nothing:
@@ -1385,12 +1373,7 @@ struct champ
                 case sub_result::singleton:
                     if (node->datamap() == 0 && node->children_count() == 1 &&
                         shift > 0) {
-                        if (mutate) {
-                            node_t::delete_inner(node);
-                            if (!result.mutated && child->dec())
-                                node_t::delete_deep_shift(child, shift + B);
-                        }
-                        return {result.data.singleton, result.owned, mutate};
+                        return {result.data.singleton, result.owned};
                     } else {
                         auto r =
                             mutate ? node_t::move_inner_replace_inline(
@@ -1406,9 +1389,7 @@ struct champ
                                          bit,
                                          offset,
                                          *result.data.singleton);
-                        if (result.owned)
-                            detail::destroy_at(result.data.singleton);
-                        if (!result.mutated && mutate && child->dec())
+                        if (mutate && child->dec())
                             node_t::delete_deep_shift(child, shift + B);
                         return {node_t::owned_values(r, e), mutate};
                     }
@@ -1445,14 +1426,7 @@ struct champ
                         return {node_t::owned_values_safe(r, e), mutate};
                     } else if (nv == 2) {
                         if (shift > 0) {
-                            if (mutate_values) {
-                                auto r = new (store)
-                                    T{std::move(node->values()[!offset])};
-                                node_t::delete_inner(node);
-                                return {r, true};
-                            } else {
-                                return {node->values() + !offset, false};
-                            }
+                            return {node->values() + !offset, mutate_values};
                         } else {
                             auto& v = node->values()[!offset];
                             auto r  = node_t::make_inner_n(
@@ -1479,9 +1453,8 @@ struct champ
     template <typename K>
     void sub_mut(edit_t e, const K& k)
     {
-        auto store = aligned_storage_for<T>{};
-        auto hash  = Hash{}(k);
-        auto res   = do_sub_mut(e, root, k, hash, 0, &store);
+        auto hash = Hash{}(k);
+        auto res  = do_sub_mut(e, root, k, hash, 0);
         switch (res.kind) {
         case sub_result::nothing:
             break;
-- 
2.43.0


From 8096daafe8efe76a6e4521d2c26e04eeca81581e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:05 +0000
Subject: [PATCH 12/17] fix: element access in trees of more than six levels

---
 immer/config.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/immer/config.hpp b/immer/config.hpp
index af34e5f..1808895 100644
--- a/immer/config.hpp
+++ b/immer/config.hpp
@@ -111,7 +111,7 @@
 // #define IMMER_PREFETCH(p)    __builtin_prefetch(p)
 #endif
 
-#define IMMER_DESCENT_DEEP 0
+#define IMMER_DESCENT_DEEP 1
 
 #ifndef IMMER_ENABLE_DEBUG_SIZE_HEAP
 #ifdef NDEBUG
-- 
2.43.0


From e0bca0f10336caa78bb68cfa05a3cbf9c555a74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:44 +0000
Subject: [PATCH 13/17] fix: taking in place releases whole nodes that turn out
 to be the last reference

---
 immer/detail/rbts/operations.hpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/immer/detail/rbts/operations.hpp b/immer/detail/rbts/operations.hpp
index dc35000..adb7a46 100644
--- a/immer/detail/rbts/operations.hpp
+++ b/immer/detail/rbts/operations.hpp
@@ -924,8 +924,10 @@ struct slice_right_mut_visitor
         if (Collapse && idx == 0) {
             auto res = mutate ? pos.towards_oh(this_t{}, last, idx, e)
                               : pos.towards_oh(no_mut_t{}, last, idx, e);
-            if (Mutating)
+            if (mutate)
                 pos.visit(dec_right_visitor{}, count_t{1});
+            else if (Mutating)
+                pos.visit(dec_visitor{});
             return res;
         } else {
             // getting a size table of our own may throw, so do it before
@@ -965,15 +967,19 @@ struct slice_right_mut_visitor
                         return std::make_tuple(pos.shift(), newn, ts, tail);
                     }
                 } else if (idx == 0) {
-                    if (Mutating)
+                    if (mutate)
                         pos.visit(dec_right_visitor{}, count_t{1});
+                    else if (Mutating)
+                        pos.visit(dec_visitor{});
                     return std::make_tuple(pos.shift(), nullptr, ts, tail);
                 } else if (Collapse && idx == 1 && pos.shift() > BL) {
                     auto newn = pos.node()->inner()[0];
                     if (!mutate)
                         newn->inc();
-                    if (Mutating)
+                    if (mutate)
                         pos.visit(dec_right_visitor{}, count_t{2});
+                    else if (Mutating)
+                        pos.visit(dec_visitor{});
                     return std::make_tuple(pos.shift() - B, newn, ts, tail);
                 } else {
                     if (mutate) {
@@ -1010,8 +1016,10 @@ struct slice_right_mut_visitor
         if (Collapse && idx == 0) {
             auto res = mutate ? pos.towards_oh(this_t{}, last, idx, e)
                               : pos.towards_oh(no_mut_t{}, last, idx, e);
-            if (Mutating)
+            if (mutate)
                 pos.visit(dec_right_visitor{}, count_t{1});
+            else if (Mutating)
+                pos.visit(dec_visitor{});
             return res;
         } else {
             using std::get;
@@ -1035,15 +1043,19 @@ struct slice_right_mut_visitor
                         return std::make_tuple(pos.shift(), newn, ts, tail);
                     }
                 } else if (idx == 0) {
-                    if (Mutating)
+                    if (mutate)
                         pos.visit(dec_right_visitor{}, count_t{1});
+                    else if (Mutating)
+                        pos.visit(dec_visitor{});
                     return std::make_tuple(pos.shift(), nullptr, ts, tail);
                 } else if (Collapse && idx == 1 && pos.shift() > BL) {
                     auto newn = pos.node()->inner()[0];
                     if (!mutate)
                         newn->inc();
-                    if (Mutating)
+                    if (mutate)
                         pos.visit(dec_right_visitor{}, count_t{2});
+                    else if (Mutating)
+                        pos.visit(dec_visitor{});
                     return std::make_tuple(pos.shift() - B, newn, ts, tail);
                 } else {
                     if (mutate) {
-- 
2.43.0


From 7337838f132eb07c1eb7f7cb7c4981bf1c204231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:44 +0000
Subject: [PATCH 14/17] fix: a size table released after being copied goes back
 with its own size

---
 immer/detail/rbts/node.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/immer/detail/rbts/node.hpp b/immer/detail/rbts/node.hpp
index 55a512b..4bcb903 100644
--- a/immer/detail/rbts/node.hpp
+++ b/immer/detail/rbts/node.hpp
@@ -863,6 +863,14 @@ struct node
 
     bool can_relax() const { return !embed_relaxed || relaxed(); }
 
+    static void delete_relaxed(relaxed_t* r)
+    {
+        heap::deallocate(node_t::ownee(r).owned()
+                             ? node_t::max_sizeof_relaxed
+                             : node_t::sizeof_relaxed_n(r->d.count),
+                         r);
+    }
+
     relaxed_t* ensure_mutable_relaxed(edit_t e)
     {
         auto src_r = relaxed();
@@ -880,8 +888,7 @@ struct node
                         std::copy(
                             src_r->d.sizes, src_r->d.sizes + n, dst_r->d.sizes);
                         if (node_t::refs(src_r).dec())
-                            heap::deallocate(node_t::sizeof_inner_r_n(n),
-                                             src_r);
+                            delete_relaxed(src_r);
                     }
                     node_t::ownee(dst_r) = e;
                     return dst_r;
@@ -907,8 +914,7 @@ struct node
                         std::copy(
                             src_r->d.sizes, src_r->d.sizes + n, dst_r->d.sizes);
                         if (node_t::refs(src_r).dec())
-                            heap::deallocate(node_t::sizeof_inner_r_n(n),
-                                             src_r);
+                            delete_relaxed(src_r);
                     }
                     node_t::ownee(dst_r) = ec;
                     return dst_r;
@@ -932,8 +938,7 @@ struct node
                         std::copy(
                             src_r->d.sizes, src_r->d.sizes + n, dst_r->d.sizes);
                         if (node_t::refs(src_r).dec())
-                            heap::deallocate(node_t::sizeof_inner_r_n(n),
-                                             src_r);
+                            delete_relaxed(src_r);
                     }
                     dst_r->d.count                   = n;
                     node_t::ownee(dst_r)             = e;
-- 
2.43.0


From 898804522349304f610cdc911fe00915bf5f90af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:34 +0000
Subject: [PATCH 15/17] fix: setting an element of an array transient makes the
 copy its own

---
 immer/detail/arrays/with_capacity.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/immer/detail/arrays/with_capacity.hpp b/immer/detail/arrays/with_capacity.hpp
index 88ab688..69d7495 100644
--- a/immer/detail/arrays/with_capacity.hpp
+++ b/immer/detail/arrays/with_capacity.hpp
@@ -243,7 +243,7 @@ struct with_capacity
         if (ptr->can_mutate(e)) {
             data()[idx] = std::move(value);
         } else {
-            auto p = node_t::copy_n(capacity, ptr, size);
+            auto p = node_t::copy_e(e, capacity, ptr, size);
             IMMER_TRY {
                 p->data()[idx] = std::move(value);
                 *this          = {p, size, capacity};
-- 
2.43.0


From 4792cb987c35e0f51b781d33e00f6929ad8dc86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:34 +0000
Subject: [PATCH 16/17] fix: taking from a lock-free list does not read or skip
 nodes in use

---
 immer/heap/free_list_heap.hpp | 36 +++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/immer/heap/free_list_heap.hpp b/immer/heap/free_list_heap.hpp
index 15ae01d..93a1335 100644
--- a/immer/heap/free_list_heap.hpp
+++ b/immer/heap/free_list_heap.hpp
@@ -36,14 +36,15 @@ struct free_list_heap : Base
         assert(size <= sizeof(free_list_node) + Size);
         assert(size >= sizeof(free_list_node));
 
-        free_list_node* n;
-        do {
-            n = head().data;
-            if (!n) {
-                auto p = base_t::allocate(Size + sizeof(free_list_node));
-                return static_cast<free_list_node*>(p);
-            }
-        } while (!head().data.compare_exchange_weak(n, n->next));
+        // Take the whole list: as long as a node is reachable from the head
+        // other threads may take it, reuse it and even put it back, so neither
+        // its `next` nor finding it again at the head mean anything.
+        auto n = head().data.exchange(nullptr);
+        if (!n) {
+            auto p = base_t::allocate(Size + sizeof(free_list_node));
+            return static_cast<free_list_node*>(p);
+        }
+        give_back(n->next);
         head().count.fetch_sub(1u, std::memory_order_relaxed);
         return n;
     }
@@ -68,6 +69,25 @@ struct free_list_heap : Base
     }
 
 private:
+    // puts back a list that only this thread knows about
+    static void give_back(free_list_node* rest)
+    {
+        while (rest) {
+            free_list_node* others = nullptr;
+            if (head().data.compare_exchange_weak(others, rest))
+                break;
+            // nodes have been released meanwhile, put them in front
+            others = head().data.exchange(nullptr);
+            if (others) {
+                auto last = others;
+                while (last->next)
+                    last = last->next;
+                last->next = rest;
+                rest       = others;
+            }
+        }
+    }
+
     struct head_t
     {
         std::atomic<free_list_node*> data;
-- 
2.43.0


From 8e0b303923ef36e3592cfda8e5de0bb9b4ed9baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:34 +0000
Subject: [PATCH 17/17] fix: memory released by objects destroyed after a
 thread's free list goes back to the parent heap

---
 immer/heap/thread_local_free_list_heap.hpp | 23 ++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/immer/heap/thread_local_free_list_heap.hpp b/immer/heap/thread_local_free_list_heap.hpp
index b97a7f5..21a0793 100644
--- a/immer/heap/thread_local_free_list_heap.hpp
+++ b/immer/heap/thread_local_free_list_heap.hpp
@@ -11,6 +11,7 @@
 #include <immer/heap/unsafe_free_list_heap.hpp>
 
 #include <cstddef>
+#include <limits>
 
 namespace immer {
 namespace detail {
@@ -18,17 +19,35 @@ namespace detail {
 template <typename Heap>
 struct thread_local_free_list_storage
 {
+    // The head outlives the `guard_t` that clears it, so objects that are
+    // destroyed later in the thread can still release their memory, which is
+    // not kept anymore.
     struct head_t
     {
         free_list_node* data;
         std::size_t count;
+        bool guarded;
+    };
+
+    struct guard_t
+    {
+        head_t& head;
 
-        ~head_t() { Heap::clear(); }
+        ~guard_t()
+        {
+            Heap::clear();
+            head.count = std::numeric_limits<std::size_t>::max();
+        }
     };
 
     static head_t& head()
     {
-        thread_local static head_t head_{nullptr, 0};
+        thread_local static head_t head_{nullptr, 0, false};
+        if (!head_.guarded) {
+            head_.guarded = true;
+            thread_local static guard_t guard_{head_};
+            (void) guard_;
+        }
         return head_;
     }
 };
-- 
2.43.0

