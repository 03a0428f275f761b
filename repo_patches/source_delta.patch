From ee92f1f685a9e91bec0a5823233db11df49df545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 001/199] fix: DimensionTree equality when levels hold
 different numbers of nodes

---
 tensap/tensor_algebra/tensors/dimension_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/dimension_tree.py b/tensap/tensor_algebra/tensors/dimension_tree.py
index 15fc3ad..0228824 100644
--- a/tensap/tensor_algebra/tensors/dimension_tree.py
+++ b/tensap/tensor_algebra/tensors/dimension_tree.py
@@ -154,7 +154,7 @@ class DimensionTree:
                 nodes1 = self.nodes_with_level(level)
                 nodes2 = T.nodes_with_level(level)
                 if len(nodes1) != len(nodes2):
-                    return is_equal
+                    return False
                 dims1 = [self.dims[i] for i in nodes1 - 1]
                 dims2 = [T.dims[i] for i in nodes2 - 1]
                 for i, dim1 in enumerate(dims1):
-- 
2.43.0


From 4f6fdb1e6ac8a0afe358614b67856c240bf6f8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:26 +0000
Subject: [PATCH 002/199] fix: rank of a tree-based tensor multiplied from the
 left by a non-square matrix

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 04074de..9e7fc65 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -347,7 +347,11 @@ class TreeBasedTensor:
             tensor.tensors[root] = tensor.tensors[root].tensor_matrix_product(
                 arg, tensor.tensors[root].order - 1
             )
-            tensor.ranks[root] = arg.shape[1]
+            if arg.shape[0] == 1:
+                tensor.tensors[root] = tensor.tensors[root].squeeze(
+                    tensor.tensors[root].order - 1
+                )
+            tensor = tensor.update_attributes()
         else:
             raise ValueError("Wrong shapes.")
         return tensor
-- 
2.43.0


From d0659adda63db06cf75b83a156d5be42b185a27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:26 +0000
Subject: [PATCH 003/199] fix: cat, kron and product of tree-based tensors with
 different active nodes

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 9e7fc65..7a25acc 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -1306,6 +1306,10 @@ class TreeBasedTensor:
             The concatenated tensors.
 
         """
+        if not np.all(self.is_active_node == tensor2.is_active_node):
+            self = self.activate_nodes(tensor2.active_nodes)
+            tensor2 = tensor2.activate_nodes(self.active_nodes)
+
         tensors = np.array(self.tensors)
         for nod in np.arange(1, self.tree.nb_nodes + 1):
             if self.is_active_node[nod - 1]:
@@ -1329,6 +1333,10 @@ class TreeBasedTensor:
             The tensor resulting from the Kronecker product.
 
         """
+        if not np.all(self.is_active_node == tensor2.is_active_node):
+            self = self.activate_nodes(tensor2.active_nodes)
+            tensor2 = tensor2.activate_nodes(self.active_nodes)
+
         tensors = np.array(self.tensors)
         for nod in np.arange(1, self.tree.nb_nodes + 1):
             if self.is_active_node[nod - 1]:
-- 
2.43.0


From 731686dbbd0c5d0d827fbc6fc4cc6e16ea12d392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:26 +0000
Subject: [PATCH 004/199] fix: rank of a tree-based tensor of order one

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 7a25acc..710c944 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -2472,7 +2472,10 @@ class TreeBasedTensor:
                 self.shape[dim] = self.tensors[parent_nod - 1].shape[ind - 1]
             else:
                 self.shape[dim] = self.tensors[nod - 1].shape[0]
-                self.ranks[nod - 1] = self.tensors[nod - 1].shape[-1]
+                if self.tensors[nod - 1].order > 1:
+                    self.ranks[nod - 1] = self.tensors[nod - 1].shape[-1]
+                else:
+                    self.ranks[nod - 1] = 1
         return self
 
     @staticmethod
-- 
2.43.0


From 49ee598e0aadc5b43aada4dd08f44e7ed1d4391a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:36 +0000
Subject: [PATCH 005/199] fix: is_active_dim of a tree-based tensor for a
 single dimension

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 710c944..b1443f2 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -226,7 +226,7 @@ class TreeBasedTensor:
         """
         result = np.isin(self.tree.dim2ind[dim], self.active_nodes)
         if result.size == 1:
-            result = result[0]
+            result = np.atleast_1d(result)[0]
         return result
 
     def __repr__(self):
-- 
2.43.0


From 3ee64d36822e4953b5754d4971f1969ceac93e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:47 +0000
Subject: [PATCH 006/199] fix: partial eval_diag of a tree-based tensor
 overwrote a core of its operand

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index b1443f2..541808d 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -1271,7 +1271,8 @@ class TreeBasedTensor:
             subtree, nodes = tree.sub_dimension_tree(alpha)
             xs = tensap.TreeBasedTensor(self.tensors[nodes - 1], subtree)
             xs = xs.eval_diag()
-            self.tensors[alpha - 1] = xs
+            tensors = np.array(self.tensors)
+            tensors[alpha - 1] = xs
             # indices of the nodes that are kept
             keep_ind = tensap.fast_setdiff(
                 np.arange(tree.nb_nodes), tree.descendants(alpha) - 1
@@ -1289,7 +1290,7 @@ class TreeBasedTensor:
             mu = np.where(alpha == keep_ind + 1)[0][0] + 1
             dim2ind.insert(0, mu)
             newtree = tensap.DimensionTree(dim2ind, adj)
-            return TreeBasedTensor(self.tensors[keep_ind], newtree)
+            return TreeBasedTensor(tensors[keep_ind], newtree)
 
     def cat(self, tensor2):
         """
-- 
2.43.0


From 387b549a423e24cc3c8d2422110f3f14a5bbc1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:47 +0000
Subject: [PATCH 007/199] fix: partial evaluation of a tree-based tensor at one
 multi-index squeezed the other modes

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 541808d..cb4b096 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -1193,7 +1193,7 @@ class TreeBasedTensor:
 
         sub_tensor = self.sub_tensor(*indices)
         if dims is not None and np.size(dims) > 1 and shape == 1:
-            sub_tensor = sub_tensor.squeeze()
+            sub_tensor = sub_tensor.squeeze(dims)
         elif dims is not None and np.size(dims) > 1:
             sub_tensor = sub_tensor.eval_diag(dims)
         elif dims is None:
-- 
2.43.0


From 2dc561c50fcadcc3f039c9a1f8524c8a826c9bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:19 +0000
Subject: [PATCH 008/199] fix: sub-tensor, evaluation and squeeze of tree-based
 tensors of order one

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index cb4b096..89d6042 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -675,7 +675,7 @@ class TreeBasedTensor:
 
         """
 
-        if isinstance(indices, tuple) and len(indices) == 1:
+        if isinstance(indices, tuple) and len(indices) == 1 and self.order > 1:
             indices = indices[0]
 
         assert len(indices) == self.order, "Wrong number of input arguments."
@@ -1630,6 +1630,9 @@ class TreeBasedTensor:
             The tensor with no unique children.
 
         """
+        if self.tree.nb_nodes == 1:
+            return copy.deepcopy(self)
+
         tree = self.tree
         tensors = self.tensors
         nb_children = np.count_nonzero(tree._children, 0)
-- 
2.43.0


From 3eec93de110ef2b7065ce7254fc9cee8aa21bfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:19 +0000
Subject: [PATCH 009/199] fix: remove_unique_children modified its operand

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 89d6042..1d9a79d 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -1634,10 +1634,10 @@ class TreeBasedTensor:
             return copy.deepcopy(self)
 
         tree = self.tree
-        tensors = self.tensors
+        tensors = np.array(self.tensors)
         nb_children = np.count_nonzero(tree._children, 0)
         unique_children = tree._children[0, (nb_children == 1)]
-        adj = tree.adjacency_matrix
+        adj = np.array(tree.adjacency_matrix)
         dim2ind = np.array(tree.dim2ind)
 
         for level in np.arange(np.max(tree.level), -1, -1):
-- 
2.43.0


From 2f3fa42d68c849c4ad2228e30f89c28c5de13ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:19 +0000
Subject: [PATCH 010/199] fix: change_root of a tree-based tensor with root
 rank greater than one

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 1d9a79d..ab0d65b 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -612,8 +612,12 @@ class TreeBasedTensor:
         assert x.is_active_node[nod - 1], "Can not make an inactive node the root node."
 
         if x.ranks[x.tree.root - 1] > 1:
-            x.tree = x.tree.addChild(x.tree.root)
-            x.tensors = np.concatenate((x.tensors, []))
+            x.tree = x.tree.add_child(x.tree.root)
+            x.order = x.tree.dim2ind.size
+            tensors = np.empty(x.tree.nb_nodes, dtype=object)
+            tensors[:-1] = x.tensors
+            tensors[-1] = tensap.FullTensor([])
+            x.tensors = tensors
             x = x.update_attributes()
             x = x.change_root(nod)
         else:
-- 
2.43.0


From 2989a83698dfc9f04d4c503eb2bc335f8fcbf77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:19 +0000
Subject: [PATCH 011/199] fix: rank detection in orth_at_node

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index ab0d65b..ee68122 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -1842,7 +1842,7 @@ class TreeBasedTensor:
             s_svd = np.sqrt(np.abs(s_svd))
             l_svd = np.matmul(u_svd, np.diag(s_svd))
 
-            rep = np.linalg.matrix_rank(l_svd)
+            rep = np.linalg.matrix_rank(gram)
             if rep == 0:
                 print("Zero alpha-rank, returning the original tensor.")
                 return tensor
-- 
2.43.0


From f7196bcf56e7a1ae246e0ce241682a5785df7e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:11 +0000
Subject: [PATCH 012/199] fix: gramians of several nodes of a tree-based tensor

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index ee68122..92069b1 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -1739,7 +1739,7 @@ class TreeBasedTensor:
                 dtype=alpha.dtype,
             )
             list_nodes = tensap.fast_intersect(
-                list_nodes, np.concatenate((ascendants, alpha))
+                list_nodes, np.unique(np.concatenate((ascendants, alpha)))
             )
 
         for level in range(max_level + 1):
-- 
2.43.0


From 793fc17bbdcff8bc6873f8eaef693f24c6ae3c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:11 +0000
Subject: [PATCH 013/199] fix: admissibility of ranks with several inactive
 leaves

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 92069b1..fc8ddb2 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -451,9 +451,9 @@ class TreeBasedTensor:
             print("Inactive nodes must have an alpha-rank equal to 0.")
         else:
             is_admiss = True
-            ranks[tensap.fast_intersect(tree.dim2ind, self.non_active_nodes) - 1] = (
-                self.shape[self.non_active_dims]
-            )
+            ranks[tree.dim2ind[self.non_active_dims] - 1] = self.shape[
+                self.non_active_dims
+            ]
             for nod in tensap.fast_intersect(tree.internal_nodes, self.active_nodes):
                 children = tree.children(nod)
                 active_ch = tensap.fast_intersect(children, self.active_nodes)
-- 
2.43.0


From f12f97c63aabb2131b391a05fe138dd6a72fb53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 014/199] fix: inner product of tree-based tensors with
 different active nodes

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index fc8ddb2..7c2391e 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -1891,6 +1891,10 @@ class TreeBasedTensor:
             The weighted inner product.
 
         """
+        if not np.all(self.is_active_node == tensor2.is_active_node):
+            self = self.activate_nodes(tensor2.active_nodes)
+            tensor2 = tensor2.activate_nodes(self.active_nodes)
+
         tree = self.tree
         tensors1 = np.array(self.tensors)
         tensors2 = tensor2.tensors
-- 
2.43.0


From 46f09123ba2c4528a645851ab1974cf77cceee15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 015/199] fix: inner product of tree-based tensors of order one

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 7c2391e..bd7ffd4 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -1895,6 +1895,10 @@ class TreeBasedTensor:
             self = self.activate_nodes(tensor2.active_nodes)
             tensor2 = tensor2.activate_nodes(self.active_nodes)
 
+        if self.order == 1:
+            tmp = tensor2.full().tensor_matrix_product(matrices[0], 0)
+            return self.full().tensordot(tmp, 0, 0).numpy()
+
         tree = self.tree
         tensors1 = np.array(self.tensors)
         tensors2 = tensor2.tensors
-- 
2.43.0


From d27352f345c7554e42d0c3f95a9eaf1408ada50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:50 +0000
Subject: [PATCH 016/199] fix: DMRG sensitivities of functional tensors with
 several outputs

---
 tensap/functions/functional_tensor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index 8f48b53..f402575 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -678,7 +678,7 @@ class FunctionalTensor(tensap.Function):
                         fH.tensors[alpha - 1].order + fH.tensors[gamma - 1].order - 2
                     ]
                 perm_3 = []
-                if alpha != tree.root and self.tensor.ranks[tree.root - 1] > 1:
+                if gamma != tree.root and self.tensor.ranks[tree.root - 1] > 1:
                     perm_3 = [grad.order - 1]
                 grad = grad.transpose(
                     np.concatenate(([0], perm_1 + 1, perm_2, perm_3)).astype(int)
@@ -690,8 +690,8 @@ class FunctionalTensor(tensap.Function):
                     # TODO Checks
                     perm_2 = [fH.tensors[gamma - 1].order - 1]
                 perm_3 = []
-                if alpha != tree.root and self.tensor.ranks[tree.root - 1] > 1:
-                    perm_3 = [grad.order - 1]
+                if gamma != tree.root and self.tensor.ranks[tree.root - 1] > 1:
+                    perm_3 = [g_gamma.order - 1]
                 g_gamma = g_gamma.transpose(
                     np.concatenate(([0], perm_1b + 1, perm_2, perm_3)).astype(int)
                 )
-- 
2.43.0


From 0d6bbf24dee3a6930f6d6999bca387bc285ac8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:50 +0000
Subject: [PATCH 017/199] fix: sensitivity to the root of a tensor whose leaves
 are all inactive

---
 .../tensor_algebra/tensors/tree_based_tensor.py  | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index bd7ffd4..f43e468 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -2280,13 +2280,23 @@ class TreeBasedTensor:
         tree = self.tree
         tensors = np.array(self.tensors)
 
-        diag_below = self.eval_diag_below(alpha)
-        diag_above = self.eval_diag_above(diag_below, alpha)
-
         children = tree.children(alpha)
         active_ch = children[self.is_active_node[children - 1]]
         inactive_ch = tensap.fast_setdiff(children, active_ch)
 
+        if alpha == tree.root and active_ch.size == 0 and matrices is not None:
+            # The root is the only active node, there is nothing to contract.
+            out = tensap.FullTensor.ones(np.shape(matrices[0])[0])
+            for child in inactive_ch:
+                ind = np.nonzero(tree.dim2ind == child)[0][0]
+                out = out.outer_product_eval_diag(
+                    tensap.FullTensor(matrices[ind]), 0, 0
+                )
+            return out
+
+        diag_below = self.eval_diag_below(alpha)
+        diag_above = self.eval_diag_above(diag_below, alpha)
+
         if tree.is_leaf[alpha - 1]:
             out = tensap.FullTensor.ones(diag_above.shape[0])
             if matrices is not None:
-- 
2.43.0


From f70b82c948c030096eefbeb438ea9d3674316ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:24 +0000
Subject: [PATCH 018/199] fix: Truncator no longer overwrites its maximal rank

---
 tensap/tensor_algebra/tools/truncator.py | 38 +++++++++++++++++-------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/tensap/tensor_algebra/tools/truncator.py b/tensap/tensor_algebra/tools/truncator.py
index 207a7d7..c1a1400 100644
--- a/tensap/tensor_algebra/tools/truncator.py
+++ b/tensap/tensor_algebra/tools/truncator.py
@@ -133,7 +133,7 @@ class Truncator:
             raise ValueError("Wrong tensor order.")
         return out
 
-    def trunc_svd(self, matrix, tolerance=None, power=2):
+    def trunc_svd(self, matrix, tolerance=None, power=2, max_rank=None):
         """
         Compute the truncated svd of the matrix x with relative precision
         self.tolerance (or tolerance if provided) in Schatten p-norm (with p
@@ -149,6 +149,8 @@ class Truncator:
         power : int or 'inf' or float('inf') or numpy.inf, optional
             The integer p of the Schatten-p norm (1 <= p <= inf, p = 2 for
             Frobenius). The default is 2.
+        max_rank : int, optional
+            The maximal rank. The default is self.max_rank.
 
         Returns
         -------
@@ -158,6 +160,8 @@ class Truncator:
         """
         if tolerance is None:
             tolerance = self.tolerance
+        if max_rank is None:
+            max_rank = self.max_rank
 
         left, sin_val, right = np.linalg.svd(matrix, full_matrices=False)
         if power in ("inf", float("inf"), np.inf):
@@ -175,7 +179,7 @@ class Truncator:
         else:
             ind = np.min(ind) + 1
 
-        ind = int(np.min([ind, self.max_rank]))
+        ind = int(np.min([ind, max_rank]))
         if self.thresholding_parameter is not None and self.thresholding_parameter != 0:
             if self.thresholding_type == "soft":
                 sin_val -= self.thresholding_parameter
@@ -269,8 +273,11 @@ class Truncator:
             if isinstance(tensor, tensap.FullTensor):
                 vec = np.empty(order, dtype=object)
                 for dim in range(order):
-                    self.max_rank = max_rank[dim]
-                    vec[dim] = self.trunc_svd(tensor.matricize(dim).numpy(), local_tol)
+                    vec[dim] = self.trunc_svd(
+                        tensor.matricize(dim).numpy(),
+                        local_tol,
+                        max_rank=max_rank[dim],
+                    )
                     vec[dim] = vec[dim].space[0]
                 core = tensor.tensor_matrix_product(np.transpose(vec[0]), 0)
                 for dim in np.arange(1, order):
@@ -354,8 +361,11 @@ class Truncator:
                         if root_rank_greater_than_one:
                             rep_c = np.concatenate((rep_c, [tensor.order - 1]))
 
-                        self.max_rank = max_rank[nod - 1]
-                        tmp = self.trunc_svd(tensor.matricize(rep).numpy(), local_tol)
+                        tmp = self.trunc_svd(
+                            tensor.matricize(rep).numpy(),
+                            local_tol,
+                            max_rank=max_rank[nod - 1],
+                        )
                         tensors[nod - 1] = tmp.space[0]
                         ranks[nod - 1] = tensors[nod - 1].shape[1]
                         shape_loc = np.hstack((shape[rep], ranks[nod - 1]))
@@ -398,8 +408,12 @@ class Truncator:
                     # Truncation of the Gramian in trace norm for a control
                     # of Frobenius norm of the tensor
                     if gram[nod] is not None:
-                        self.max_rank = max_rank[nod]
-                        tmp = self.trunc_svd(gram[nod], tolerance=local_tol**2, power=1)
+                        tmp = self.trunc_svd(
+                            gram[nod],
+                            tolerance=local_tol**2,
+                            power=1,
+                            max_rank=max_rank[nod],
+                        )
                         shape[nod] = tmp.core.shape[0]
                         mat[nod] = np.transpose(tmp.space[0])
 
@@ -444,8 +458,12 @@ class Truncator:
                     ):
                         # Truncation of the Gramian in trace norm for a control
                         # of Frobenius norm of the tensor
-                        self.max_rank = max_rank[nod - 1]
-                        tmp = self.trunc_svd(gram[nod - 1], local_tol**2, power=1)
+                        tmp = self.trunc_svd(
+                            gram[nod - 1],
+                            local_tol**2,
+                            power=1,
+                            max_rank=max_rank[nod - 1],
+                        )
                         tmp = np.transpose(tmp.space[0])
                         order = out.tensors[nod - 1].order
                         out.tensors[nod - 1] = out.tensors[
-- 
2.43.0


From 9fe584fa5ca7e77910f774bba64874cca98f5af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:24 +0000
Subject: [PATCH 019/199] fix: orthogonality flag of truncated tree-based
 tensors

---
 tensap/tensor_algebra/tools/truncator.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tensap/tensor_algebra/tools/truncator.py b/tensap/tensor_algebra/tools/truncator.py
index c1a1400..b52d3ac 100644
--- a/tensap/tensor_algebra/tools/truncator.py
+++ b/tensap/tensor_algebra/tools/truncator.py
@@ -475,8 +475,7 @@ class Truncator:
                             parent - 1
                         ].tensor_matrix_product(tmp, ch_nb - 1)
                 out = out.update_attributes()
-                out.is_orth = True
-                out.orth_node = tree.root
+                out.is_orth = False
             else:
                 raise ValueError("Wrong value of _hsvd_type.")
         else:
-- 
2.43.0


From cdcb1f285a1e2d6862ae8cf562c365484e052d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:58 +0000
Subject: [PATCH 020/199] fix: matricization of a full tensor with respect to
 all its dimensions

---
 tensap/tensor_algebra/tensors/full_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/full_tensor.py b/tensap/tensor_algebra/tensors/full_tensor.py
index d4a117f..471232f 100644
--- a/tensap/tensor_algebra/tensors/full_tensor.py
+++ b/tensap/tensor_algebra/tensors/full_tensor.py
@@ -1110,7 +1110,7 @@ class FullTensor:
 
         tensor = FullTensor(self)
         tensor = tensor.transpose(np.concatenate((dims1, dims2)))
-        tensor = tensor.reshape([np.prod(shape1), np.prod(shape2)])
+        tensor = tensor.reshape([np.prod(shape1, dtype=int), np.prod(shape2, dtype=int)])
         return FullTensor(tensor)
 
     def outer_product_eval_diag(self, tensor2, dims1, dims2, diag=False):
-- 
2.43.0


From 20096f639edb062b701ffdb3bad592a35f37f927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:58 +0000
Subject: [PATCH 021/199] fix: partial evaluation of a full tensor in several
 dimensions

---
 tensap/tensor_algebra/tensors/full_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/full_tensor.py b/tensap/tensor_algebra/tensors/full_tensor.py
index 471232f..648d10a 100644
--- a/tensap/tensor_algebra/tensors/full_tensor.py
+++ b/tensap/tensor_algebra/tensors/full_tensor.py
@@ -331,7 +331,7 @@ class FullTensor:
         else:
             no_dims = tensap.fast_setdiff(np.arange(self.order), dims)
             indices = np.ravel_multi_index(
-                np.transpose(indices), [self.shape[i] for i in dims]
+                np.transpose(indices), [self.shape[i] for i in dims], order="F"
             )
             evaluations = self.matricize(dims).sub_tensor(indices, ":")
             evaluations = evaluations.reshape(
-- 
2.43.0


From 1a8a5e9c5acb0f08548c1a3f07340279bea69934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:58 +0000
Subject: [PATCH 022/199] fix: Kronecker product of full tensors of different
 orders

---
 tensap/tensor_algebra/tensors/full_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/full_tensor.py b/tensap/tensor_algebra/tensors/full_tensor.py
index 648d10a..bf608a0 100644
--- a/tensap/tensor_algebra/tensors/full_tensor.py
+++ b/tensap/tensor_algebra/tensors/full_tensor.py
@@ -675,7 +675,7 @@ class FullTensor:
             ),
             shape1 * shape2,
         )
-        return FullTensor(data, shape=self.shape * tensor2.shape)
+        return FullTensor(data)
 
     def orth(self, dim=None):
         """
-- 
2.43.0


From 97e40c6e22e8199fd0cc3824b1260356d593136f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:14 +0000
Subject: [PATCH 023/199] fix: inner product of canonical tensors with weights

---
 tensap/tensor_algebra/tensors/diagonal_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/diagonal_tensor.py b/tensap/tensor_algebra/tensors/diagonal_tensor.py
index 5b2cb11..554f9a2 100644
--- a/tensap/tensor_algebra/tensors/diagonal_tensor.py
+++ b/tensap/tensor_algebra/tensors/diagonal_tensor.py
@@ -501,7 +501,7 @@ class DiagonalTensor:
 
         """
         if isinstance(matrix, list):
-            matrix = np.hstack([np.reshape(x, [-1, 1]) for x in matrix])
+            matrix = np.hstack([np.reshape(x, [-1, 1], order="F") for x in matrix])
         matrix = np.reshape(
             np.expand_dims(matrix, 1),
             (self.shape[0], y.shape[0], self.order),
-- 
2.43.0


From 0404bd90cf92d6095f4f9957821e2e519c468680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:14 +0000
Subject: [PATCH 024/199] fix: partial diagonal of a diagonal tensor in
 non-contiguous dimensions

---
 tensap/tensor_algebra/tensors/diagonal_tensor.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/diagonal_tensor.py b/tensap/tensor_algebra/tensors/diagonal_tensor.py
index 554f9a2..4bba59a 100644
--- a/tensap/tensor_algebra/tensors/diagonal_tensor.py
+++ b/tensap/tensor_algebra/tensors/diagonal_tensor.py
@@ -577,9 +577,7 @@ class DiagonalTensor:
             out = np.array(self.data)
         else:
             dims = np.sort(np.atleast_1d(dims))
-            rep = np.concatenate(
-                (np.arange(dims[0] + 1), np.arange(dims[-1] + 1, self.order))
-            )
+            rep = np.setdiff1d(np.arange(self.order), dims[1:])
             out = deepcopy(self)
             out.shape = out.shape[rep]
             out.order = np.size(rep)
-- 
2.43.0


From e0e34c7f00607563c16c1495f4d7f43879342c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:14 +0000
Subject: [PATCH 025/199] fix: eval_diag of a canonical tensor overwrote its
 first factor

---
 tensap/tensor_algebra/tensors/canonical_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/canonical_tensor.py b/tensap/tensor_algebra/tensors/canonical_tensor.py
index 8d9f6cd..9f85886 100644
--- a/tensap/tensor_algebra/tensors/canonical_tensor.py
+++ b/tensap/tensor_algebra/tensors/canonical_tensor.py
@@ -345,7 +345,7 @@ class CanonicalTensor:
 
         out = self.space[dims[0]]
         for k in dims[1:]:
-            out *= self.space[k]
+            out = out * self.space[k]
 
         if is_none or dims.size == self.order:
             out = tensap.FullTensor(np.matmul(out, self.core.data))
-- 
2.43.0


From 06c0ef4ac5369098316b5e19ebf07f6854394bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:14 +0000
Subject: [PATCH 026/199] fix: partial diagonal of a canonical tensor

---
 tensap/tensor_algebra/tensors/canonical_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/canonical_tensor.py b/tensap/tensor_algebra/tensors/canonical_tensor.py
index 9f85886..af511da 100644
--- a/tensap/tensor_algebra/tensors/canonical_tensor.py
+++ b/tensap/tensor_algebra/tensors/canonical_tensor.py
@@ -354,7 +354,7 @@ class CanonicalTensor:
             core = deepcopy(self.core)
 
             space[dims[0]] = out
-            space = space[new_dims]
+            space = [space[k] for k in new_dims]
             core.shape = core.shape[new_dims]
             core.order = new_dims.size
             out = CanonicalTensor(space, core)
-- 
2.43.0


From 34cddb435013397a22d30777206aabda6529a118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:43 +0000
Subject: [PATCH 027/199] fix: sparse tensors with one nonzero entry or one
 dimension

---
 tensap/tensor_algebra/tensors/sparse_tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/sparse_tensor.py b/tensap/tensor_algebra/tensors/sparse_tensor.py
index 28c880b..5e535fc 100644
--- a/tensap/tensor_algebra/tensors/sparse_tensor.py
+++ b/tensap/tensor_algebra/tensors/sparse_tensor.py
@@ -108,8 +108,8 @@ class SparseTensor:
             ), "data and indices must have the same number of elements."
         else:
             raise ValueError("Wrong input arguments.")
-        self.data = np.squeeze(self.data)
-        self.shape = np.squeeze(self.shape)
+        self.data = np.ravel(self.data)
+        self.shape = np.ravel(self.shape)
 
     @property
     def size(self):
-- 
2.43.0


From f6fc9c5f1c4aa33e4608d64c1f797593f270112e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:43 +0000
Subject: [PATCH 028/199] fix: product of a sparse tensor with vectors

---
 tensap/tensor_algebra/tensors/sparse_tensor.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/sparse_tensor.py b/tensap/tensor_algebra/tensors/sparse_tensor.py
index 5e535fc..67a1798 100644
--- a/tensap/tensor_algebra/tensors/sparse_tensor.py
+++ b/tensap/tensor_algebra/tensors/sparse_tensor.py
@@ -308,7 +308,7 @@ class SparseTensor:
             assert len(vectors) == self.order, "len(vectors) must be self.order."
             dims = np.arange(self.order)
         else:
-            dims = np.array(dims)
+            dims = np.array(dims, ndmin=1)
             if not isinstance(vectors, list):
                 vectors = [vectors]
             assert len(vectors) == dims.size, "len(vectors) must be equal to dims.size."
@@ -317,10 +317,7 @@ class SparseTensor:
 
         out = deepcopy(self)
         not_dims = np.setdiff1d(range(out.order), dims)
-        if not_dims.size == 0:
-            out.shape = []
-        else:
-            out.shape = out.shape[not_dims]
+        out.shape = out.shape[not_dims]
 
         for i in range(dims.size):
             a = out.data * vectors[i][out.indices.array[:, dims[i]]]
@@ -329,21 +326,21 @@ class SparseTensor:
                 :, np.setdiff1d(range(out.indices.array.shape[1]), dims[i])
             ]
             out.indices.array = out.indices.array[a != 0, :]
+            a = a[a != 0]
 
             if out.indices.array.size != 0:
                 out.indices.array, ind = np.unique(
                     out.indices.array, axis=0, return_inverse=True
                 )
-
-                a = a[a != 0]
-                out.data = np.bincount(ind, weights=a)
+                a = np.bincount(np.ravel(ind), weights=a)
+            out.data = a
 
             dims -= dims > dims[i]
 
         out.order -= len(vectors)
 
         if np.size(out.shape) == 0:
-            out = out.data
+            out = np.sum(out.data)
 
         return out
 
-- 
2.43.0


From bb3466d3018f3ffe71a6ec863c880246b11af1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:43 +0000
Subject: [PATCH 029/199] fix: product with matrices of sparse tensors of order
 one or without entries

---
 tensap/tensor_algebra/tensors/sparse_tensor.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/sparse_tensor.py b/tensap/tensor_algebra/tensors/sparse_tensor.py
index 67a1798..166ef7b 100644
--- a/tensap/tensor_algebra/tensors/sparse_tensor.py
+++ b/tensap/tensor_algebra/tensors/sparse_tensor.py
@@ -384,25 +384,22 @@ class SparseTensor:
         for mu in dims:
             perm_dims = np.concatenate(([mu], np.setdiff1d(np.arange(out.order), mu)))
             out = out.transpose(perm_dims)
-            if out.order == 1:
-                out.shape[1] = 1
+            n_cols = int(np.prod(out.shape[1:]))
             ind = tensap.MultiIndices(out.indices.array[out.data != 0, :]).sub2ind(
                 out.shape
             )
-            x1, x2 = np.unravel_index(
-                ind, [out.shape[0], np.prod(out.shape[1:])], order="F"
-            )
+            x1, x2 = np.unravel_index(ind, [out.shape[0], n_cols], order="F")
             x2u, x2uind = np.unique(x2, return_inverse=True)
             s = coo_matrix(
                 (out.data[out.data != 0], (x1, x2uind)),
-                shape=(out.shape[0], np.max(x2uind) + 1),
+                shape=(out.shape[0], x2u.size),
             )
             a = np.transpose(s.transpose().dot(np.transpose(matrices[k])))
             y1, y2 = np.nonzero(a)
             out.shape[0] = matrices[k].shape[0]
             ind = np.ravel_multi_index(
                 (y1, np.reshape(x2u[y2], y1.shape)),
-                (out.shape[0], np.prod(out.shape[1:])),
+                (out.shape[0], n_cols),
                 order="F",
             )
             out.indices = tensap.MultiIndices.ind2sub(out.shape, ind)
-- 
2.43.0


From 67f5543b64f2f3258ef9971aa5276961285b59f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:43 +0000
Subject: [PATCH 030/199] fix: product of a sparse tensor with diagonal
 matrices

---
 tensap/tensor_algebra/tensors/sparse_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/sparse_tensor.py b/tensap/tensor_algebra/tensors/sparse_tensor.py
index 166ef7b..3e98f37 100644
--- a/tensap/tensor_algebra/tensors/sparse_tensor.py
+++ b/tensap/tensor_algebra/tensors/sparse_tensor.py
@@ -526,7 +526,7 @@ class SparseTensor:
                 len(matrices) == dims.size
             ), "len(matrices) must be equal to dims.size."
 
-        matrices = [tensap.FullTensor(np.diag(np.reshape(x, [-1]))) for x in matrices]
+        matrices = [np.diag(np.reshape(x, [-1])) for x in matrices]
         return self.tensor_matrix_product(matrices, dims)
 
     def dot(self, y):
-- 
2.43.0


From 2e8520d3c37fb5de4a4c22222cdd63803806b4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:16 +0000
Subject: [PATCH 031/199] fix: empty multi-index sets

---
 tensap/tools/multi_indices.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index 5138081..5ee3424 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -319,7 +319,7 @@ class MultiIndices:
         """
         array = np.vstack((self.array, J.array))
         ind = np.unique(array, axis=0, return_index=True)[1]
-        array = np.array([array[index, :] for index in sorted(ind)])
+        array = array[np.sort(ind), :]
         return MultiIndices(array.astype(int))
 
     def remove_indices(self, J):
@@ -362,7 +362,7 @@ class MultiIndices:
         """
         array = self.array[:, np.setdiff1d(range(self.ndim()), dims)]
         ind = np.unique(array, axis=0, return_index=True)[1]
-        array = np.array([array[index, :] for index in sorted(ind)])
+        array = array[np.sort(ind), :]
         return MultiIndices(array.astype(int))
 
     def intersect_indices(self, J):
@@ -422,7 +422,7 @@ class MultiIndices:
         """
         array = self.array[:, dims]
         ind = np.unique(array, axis=0, return_index=True)[1]
-        array = np.array([array[index, :] for index in sorted(ind)])
+        array = array[np.sort(ind), :]
         return MultiIndices(array.astype(int))
 
     def get_indices(self, k):
@@ -551,7 +551,7 @@ class MultiIndices:
         ind_marg = neighbours[np.setdiff1d(range(neighbours.shape[0]), ind_marg), :]
 
         ind = np.unique(ind_marg, axis=0, return_index=True)[1]
-        ind_marg = np.array([ind_marg[index, :] for index in sorted(ind)])
+        ind_marg = ind_marg[np.sort(ind), :]
 
         return MultiIndices(ind_marg.astype(int))
 
-- 
2.43.0


From 3a6f2303c9a983913a572dbb47e0f4f452a0d4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:10 +0000
Subject: [PATCH 032/199] fix: tensor train with a list of cores and given
 dimensions

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index f43e468..8a17b4d 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -2732,7 +2732,7 @@ class TreeBasedTensor:
         tree = tensap.DimensionTree.linear(order)
         tensors = np.empty(tree.nb_nodes, dtype="object")
         if dims is not None:
-            cores = cores[np.argsort(dims)]
+            cores = [cores[ind] for ind in np.argsort(dims)]
 
         dim2ind = tree.dim2ind
         nod = dim2ind[0]
-- 
2.43.0


From 42a04bfe76e971164c769bd63a9b4c8042b13b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:43 +0000
Subject: [PATCH 033/199] fix: addition of a multi-index set to an integer

---
 tensap/tools/multi_indices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index 5ee3424..b6bc9ea 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -92,13 +92,13 @@ class MultiIndices:
         return MultiIndices(self.array + m)
 
     def __radd__(self, m):
-        self.array += m
+        return self + m
 
     def __sub__(self, m):
         return MultiIndices(self.array - m)
 
     def __rsub__(self, m):
-        self.array -= m
+        return MultiIndices(m - self.array)
 
     def cardinal(self):
         """
-- 
2.43.0


From 89a9e005b0f10e9a07e3392b5355fac4509584ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:43 +0000
Subject: [PATCH 034/199] fix: comparison of multi-index sets modified its
 argument

---
 tensap/tools/multi_indices.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index b6bc9ea..55d9838 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -77,15 +77,11 @@ class MultiIndices:
         if not isinstance(J, MultiIndices):
             ok = False
         else:
-            if J.cardinal() == 1:
-                J.array = np.tile(J.array, (self.cardinal(), 1))
             ok = np.all(self.array == J.array, axis=1)
         return ok
 
     def __le__(self, J):
         assert isinstance(J, MultiIndices), "Must provide a MultiIndices."
-        if J.cardinal() == 1:
-            J.array = np.tile(J.array, (self.cardinal(), 1))
         return np.all(self.array <= J.array, axis=1)
 
     def __add__(self, m):
-- 
2.43.0


From 7077edd4ca7a0bf1d35328098f6df50618609cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:43 +0000
Subject: [PATCH 035/199] fix: named multi-index sets when the margin reduces
 to one admissible index

---
 tensap/tools/multi_indices.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index 55d9838..1097ca3 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -637,7 +637,7 @@ class MultiIndices:
                 M = ind.get_margin()
                 n = M.norm(p)
                 k = np.nonzero(n <= m)[0]
-                if np.all(np.logical_not(k)):
+                if k.size == 0:
                     add = False
                 else:
                     j = np.argsort(n[k])
@@ -847,7 +847,7 @@ class MultiIndices:
             M = M.remove_indices(rem)
             n = np.delete(n, rem)
             k = np.nonzero(n <= m)[0]
-            if np.all(np.logical_not(k)):
+            if k.size == 0:
                 add = False
             else:
                 j = np.argsort(n[k])
@@ -882,7 +882,7 @@ class MultiIndices:
             M = ind.get_margin()
             n = np.prod((M.array + 1) ** w_k, axis=-1)
             k = np.nonzero(n <= p + 1)[0]
-            if np.all(np.logical_not(k)):
+            if k.size == 0:
                 add = False
             else:
                 j = np.argsort(n[k])
-- 
2.43.0


From d0e8a0608b5aa1ff9a5cf58908c9a44725f47d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:43 +0000
Subject: [PATCH 036/199] fix: product of one set of indices with itself

---
 tensap/tools/multi_indices.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index 1097ca3..b6aeebd 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -735,8 +735,11 @@ class MultiIndices:
 
         if d is None:
             d = len(L)
+        L = list(L)
+        if all(np.ndim(x) == 0 and not isinstance(x, MultiIndices) for x in L):
+            L = [L]
         if len(L) == 1 and d > 1:
-            L = list(L) * d
+            L = L * d
 
         for i in range(len(L)):
             if isinstance(L[i], MultiIndices):
-- 
2.43.0


From be84a9fcc9425473cc644c387744f0e860e8c527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:43 +0000
Subject: [PATCH 037/199] fix: descending sort of multi-indices

---
 tensap/tools/multi_indices.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index b6aeebd..8d0f4ff 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -289,12 +289,10 @@ class MultiIndices:
 
         array = np.array(self.array)
         for k in np.flip(columns):
-            if k == columns[-1]:
-                ind = np.argsort(array[:, k])
+            if mode == "descend":
+                ind = np.argsort(-array[:, k], kind="mergesort")
             else:
                 ind = np.argsort(array[:, k], kind="mergesort")
-            if mode == "descend":
-                ind = np.flip(ind)
             array = array[ind, :]
         return MultiIndices(array.astype(int))
 
-- 
2.43.0


From d650007a47184b6faa368229a3c1bbd25c119ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:43 +0000
Subject: [PATCH 038/199] fix: envelope of a sequence given as a list

---
 tensap/tools/multi_indices.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index 8d0f4ff..8eef939 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -491,6 +491,7 @@ class MultiIndices:
             + "of multi-indices."
         )
 
+        u = np.array(u)
         env = np.array(u)
         for i in range(n):
             ind_sup = np.all(array >= np.tile(array[i, :], (n, 1)), axis=1)
-- 
2.43.0


From 428834fe9d6a048274e7af73d43ed7053f807e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:43 +0000
Subject: [PATCH 039/199] fix: removing indices from an empty multi-index set

---
 tensap/tools/multi_indices.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index 8eef939..02e33e5 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -336,7 +336,8 @@ class MultiIndices:
             ind = np.nonzero(np.all(self.array == J.array[:, np.newaxis], axis=2))[1]
         else:
             ind = J
-        array = self.array[np.setdiff1d(range(self.cardinal()), ind), :]
+        ind = np.setdiff1d(np.arange(self.cardinal()), ind)
+        array = self.array[ind, :]
         return MultiIndices(array.astype(int))
 
     def remove_dims(self, dims):
@@ -543,7 +544,7 @@ class MultiIndices:
         ind_marg = np.nonzero(np.all(neighbours == self.array[:, np.newaxis], axis=2))[
             1
         ]
-        ind_marg = neighbours[np.setdiff1d(range(neighbours.shape[0]), ind_marg), :]
+        ind_marg = neighbours[np.setdiff1d(np.arange(neighbours.shape[0]), ind_marg), :]
 
         ind = np.unique(ind_marg, axis=0, return_index=True)[1]
         ind_marg = ind_marg[np.sort(ind), :]
-- 
2.43.0


From 101c1ac09876c3303eda9987269183117ea0f44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:43 +0000
Subject: [PATCH 040/199] fix: multi-indices whose norm equals the bound

---
 tensap/tools/multi_indices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index 02e33e5..20285d6 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -636,7 +636,7 @@ class MultiIndices:
             while add:
                 M = ind.get_margin()
                 n = M.norm(p)
-                k = np.nonzero(n <= m)[0]
+                k = np.nonzero(n <= m * (1 + 1e-12))[0]
                 if k.size == 0:
                     add = False
                 else:
@@ -674,7 +674,7 @@ class MultiIndices:
         ind = [np.arange(int(np.floor(m / x)) + 1) for x in w]
         ind = MultiIndices.product_set(ind)
         n = ind.weighted_norm(p, w)
-        k = np.nonzero(n <= m)[0]
+        k = np.nonzero(n <= m * (1 + 1e-12))[0]
         j = np.argsort(n[k])
         return ind.keep_indices(k[j])
 
-- 
2.43.0


From 6a55cb6c34bb1f38b984e4f024150e5d64248ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:02 +0000
Subject: [PATCH 041/199] fix: weighted hyperbolic cross indices at the bound

---
 tensap/tools/multi_indices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index 20285d6..1c7d638 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -884,7 +884,7 @@ class MultiIndices:
         while add:
             M = ind.get_margin()
             n = np.prod((M.array + 1) ** w_k, axis=-1)
-            k = np.nonzero(n <= p + 1)[0]
+            k = np.nonzero(n <= (p + 1) * (1 + 1e-12))[0]
             if k.size == 0:
                 add = False
             else:
-- 
2.43.0


From e925afe14b6be7251a8528d087d50c1dba42ca1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:45 +0000
Subject: [PATCH 042/199] fix: number of digits of integers in base b

---
 tensap/tools/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensap/tools/utils.py b/tensap/tools/utils.py
index bdb6756..6cc009d 100644
--- a/tensap/tools/utils.py
+++ b/tensap/tools/utils.py
@@ -55,7 +55,9 @@ def integer2baseb(i, b, d=None):
 
     """
     if d is None:
-        d = int(np.ceil(np.log(np.max(i) + 1) / np.log(b)))
+        d = 1
+        while int(b) ** d <= np.max(i):
+            d += 1
 
     I0 = np.unravel_index(np.ravel(i), np.full(d, b), order="F")
     return np.fliplr(np.transpose(np.array(I0)))
-- 
2.43.0


From 05ef748deda34c5f3999da4cff0c967a8351c3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:45 +0000
Subject: [PATCH 043/199] fix: FullTensorGrid modified the list of grids it is
 given

---
 tensap/tools/grids.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensap/tools/grids.py b/tensap/tools/grids.py
index 37950ad..9a4940a 100644
--- a/tensap/tools/grids.py
+++ b/tensap/tools/grids.py
@@ -182,6 +182,7 @@ class FullTensorGrid(TensorGrid):
                 np.ndim(grids) == 1
             ), "The first argument must be a unidimensional grid."
             grids = [np.reshape(grids, (-1, 1))] * dim
+        grids = list(grids)
         for i in range(len(grids)):
             if len(grids[i].shape) == 1:
                 grids[i] = np.reshape(grids[i], (-1, 1))
-- 
2.43.0


From 788dd65bdddb71b17685afa82d42bd2565326752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:45 +0000
Subject: [PATCH 044/199] fix: inverse tensorisation map with a numpy integer
 base

---
 tensap/functions/tensorizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/tensorizer.py b/tensap/functions/tensorizer.py
index 60319eb..67bc76f 100644
--- a/tensap/functions/tensorizer.py
+++ b/tensap/functions/tensorizer.py
@@ -319,4 +319,4 @@ class Tensorizer:
         d = z.shape[1] - 1
         y = z[:, -1]
         i = tensap.baseb2integer(z[:, :-1].astype(int), b)
-        return (y + i) * b ** (-d)
+        return (y + i) * float(b) ** (-d)
-- 
2.43.0


From 41148aaefdc332e1b1d2d4fe3460f4520a44b210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:38 +0000
Subject: [PATCH 045/199] fix: store the moments of a random variable by order

---
 tensap/functions/measures/random_variable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensap/functions/measures/random_variable.py b/tensap/functions/measures/random_variable.py
index fccc011..68a5cba 100644
--- a/tensap/functions/measures/random_variable.py
+++ b/tensap/functions/measures/random_variable.py
@@ -396,7 +396,8 @@ class RandomVariable(tensap.ProbabilityMeasure):
         if nargout == 1:
             return out
         X = deepcopy(self)
-        X.moments = out
+        if np.size(self.moments) - 1 < np.max(ind):
+            X.moments = self.moment(np.arange(np.max(ind) + 1))
         return out, X
 
     def mean(self):
-- 
2.43.0


From 4551f103a9c53a3e2f7fd3899ee0a3427367f547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:38 +0000
Subject: [PATCH 046/199] fix: compare random variables with array parameters

---
 tensap/functions/measures/random_variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/measures/random_variable.py b/tensap/functions/measures/random_variable.py
index 68a5cba..6a783c2 100644
--- a/tensap/functions/measures/random_variable.py
+++ b/tensap/functions/measures/random_variable.py
@@ -75,7 +75,7 @@ class RandomVariable(tensap.ProbabilityMeasure):
             param_1 = self.get_parameters()
             param_2 = rv_2.get_parameters()
             for ind in zip(param_1, param_2):
-                is_equal = is_equal and (ind[0] == ind[1])
+                is_equal = is_equal and np.array_equal(ind[0], ind[1])
         return is_equal
 
     def __neq__(self, rv_2):
-- 
2.43.0


From 3e33250e70177fc36763d8bcbef1ffdd081be0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:38 +0000
Subject: [PATCH 047/199] fix: quantiles of discrete random variables with
 unsorted values

---
 .../measures/discrete_random_variable.py         | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/tensap/functions/measures/discrete_random_variable.py b/tensap/functions/measures/discrete_random_variable.py
index bc7a4a5..1fb3436 100644
--- a/tensap/functions/measures/discrete_random_variable.py
+++ b/tensap/functions/measures/discrete_random_variable.py
@@ -225,15 +225,13 @@ class DiscreteRandomVariable(tensap.RandomVariable):
         """
         p = np.array(p)
         shape = p.shape
-        v = np.vstack(([-np.inf], np.reshape(self.values, (-1, 1))))
-        F = np.vstack(([0], np.reshape(self.probabilities, (-1, 1))))
-
-        M = p.size
-        p = np.tile(np.reshape(p, (1, M)), (F.size, 1))
-        F = np.tile(np.reshape(np.cumsum(F), (-1, 1)), (1, M))
-        return np.reshape(
-            v[np.nonzero(np.cumsum(np.transpose(F >= p), 1) == 1)[1]], shape
-        )
+        ind = np.argsort(np.ravel(self.values), kind="stable")
+        ind = ind[self.probabilities[ind] > 0]
+        v = np.concatenate(([-np.inf], np.ravel(self.values)[ind]))
+        F = np.concatenate(([0], np.cumsum(self.probabilities[ind])))
+        F[-1] = np.maximum(F[-1], 1)
+
+        return np.reshape(v[np.searchsorted(F, np.ravel(p), side="left")], shape)
 
     def mean(self):
         return np.matmul(np.transpose(self.probabilities), self.values)
-- 
2.43.0


From 5f015ab3555d0f468ed39868b7a86f7ce1e1b5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:38 +0000
Subject: [PATCH 048/199] fix: cumulative distribution function of empirical
 random variables

---
 tensap/functions/measures/empirical_random_variable.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tensap/functions/measures/empirical_random_variable.py b/tensap/functions/measures/empirical_random_variable.py
index 941f106..43a8149 100644
--- a/tensap/functions/measures/empirical_random_variable.py
+++ b/tensap/functions/measures/empirical_random_variable.py
@@ -159,8 +159,9 @@ class EmpiricalRandomVariable(tensap.RandomVariable):
         return self.sample, self.bandwidth
 
     def cdf(self, x):
-        kde = scipy.stats.gaussian_kde(self.sample, self.bandwidth)
-        return np.vectorize(lambda z: kde.integrate_box_1d(-np.inf, z))(x)
+        xi, h = self.get_parameters()
+        x = np.asarray(x, dtype=float)
+        return np.mean(scipy.stats.norm.cdf(x[..., np.newaxis], np.ravel(xi), h), -1)
 
     def icdf(self, x, *args, **kwargs):
         """
-- 
2.43.0


From e2632bf3a734a175fcffb70220905e6b069399d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:38 +0000
Subject: [PATCH 049/199] fix: quantiles of empirical random variables

---
 .../measures/empirical_random_variable.py      | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/tensap/functions/measures/empirical_random_variable.py b/tensap/functions/measures/empirical_random_variable.py
index 43a8149..7380cb7 100644
--- a/tensap/functions/measures/empirical_random_variable.py
+++ b/tensap/functions/measures/empirical_random_variable.py
@@ -182,12 +182,22 @@ class EmpiricalRandomVariable(tensap.RandomVariable):
 
         """
         # TODO Optimize the method
-        sup = self.truncated_support()
-        return np.vectorize(
-            lambda p: scipy.optimize.brentq(
+        # Outside of sup, the cdf is equal to 0 or 1 in floating point arithmetic
+        sup = [
+            np.min(self.sample) - 40 * self.bandwidth,
+            np.max(self.sample) + 40 * self.bandwidth,
+        ]
+
+        def quantile(p):
+            if p <= 0:
+                return -np.inf
+            if p >= 1:
+                return np.inf
+            return scipy.optimize.brentq(
                 lambda y: self.cdf(y) - p, sup[0], sup[1], *args, **kwargs
             )
-        )(x)
+
+        return np.vectorize(quantile, otypes=[float])(x)
 
     def pdf(self, x):
         xi, h = self.get_parameters()
-- 
2.43.0


From 4716df909e4b6815573ffb6714319c46760f32c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:38 +0000
Subject: [PATCH 050/199] fix: comparison of product measures

---
 tensap/functions/measures/product_measure.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tensap/functions/measures/product_measure.py b/tensap/functions/measures/product_measure.py
index f3630ba..675068e 100644
--- a/tensap/functions/measures/product_measure.py
+++ b/tensap/functions/measures/product_measure.py
@@ -68,7 +68,11 @@ class ProductMeasure(tensap.Measure):
         )
 
     def __eq__(self, measure_2):
-        return np.all([x == y for x, y in zip(self.measures, measure_2.measures)])
+        return (
+            isinstance(measure_2, (ProductMeasure, tensap.ProductMeasure))
+            and len(self.measures) == len(measure_2.measures)
+            and all(x == y for x, y in zip(self.measures, measure_2.measures))
+        )
 
     def is_discrete(self):
         return np.all([x.is_discrete() for x in self.measures])
-- 
2.43.0


From 706b1c25005bc7fe0fbf9dc8ff94e3a8c6164bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:38 +0000
Subject: [PATCH 051/199] fix: iso-probabilistic grid of a random vector of
 size one

---
 tensap/functions/measures/random_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/measures/random_vector.py b/tensap/functions/measures/random_vector.py
index 08d2edf..b55f155 100644
--- a/tensap/functions/measures/random_vector.py
+++ b/tensap/functions/measures/random_vector.py
@@ -167,7 +167,7 @@ class RandomVector(tensap.ProbabilityMeasure):
         if np.size(n) == 1 and n < 1:
             n = int(np.ceil(n ** (-1 / d)))
 
-        if np.size(n) != d:
+        if np.ndim(n) == 0 or np.size(n) != d:
             n = np.full(d, n)
 
         b = [x.iso_probabilistic_grid(y) for x, y in zip(self.random_variables, n)]
-- 
2.43.0


From fa1a8e8bb1bcde0b9f5bd26261dcdead7fb7387b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:02 +0000
Subject: [PATCH 052/199] fix: iso-probabilistic grid of a random vector of
 size one, list of numbers

---
 tensap/functions/measures/random_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/measures/random_vector.py b/tensap/functions/measures/random_vector.py
index b55f155..c6de893 100644
--- a/tensap/functions/measures/random_vector.py
+++ b/tensap/functions/measures/random_vector.py
@@ -164,7 +164,7 @@ class RandomVector(tensap.ProbabilityMeasure):
         ), "The method only works for independent copulas."
 
         d = self.size
-        if np.size(n) == 1 and n < 1:
+        if np.ndim(n) == 0 and n < 1:
             n = int(np.ceil(n ** (-1 / d)))
 
         if np.ndim(n) == 0 or np.size(n) != d:
-- 
2.43.0


From f6384694fa4610134b9fadfee0fc5edd78af256c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:02 +0000
Subject: [PATCH 053/199] fix: statistics of random vectors mixing discrete and
 continuous variables

---
 tensap/functions/measures/random_vector.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensap/functions/measures/random_vector.py b/tensap/functions/measures/random_vector.py
index c6de893..9b14295 100644
--- a/tensap/functions/measures/random_vector.py
+++ b/tensap/functions/measures/random_vector.py
@@ -301,7 +301,7 @@ class RandomVector(tensap.ProbabilityMeasure):
             The mean of the random variable.
 
         """
-        return np.atleast_1d([x.mean() for x in self.random_variables])
+        return np.concatenate([np.ravel(x.mean()) for x in self.random_variables])
 
     def std(self):
         """
@@ -313,7 +313,7 @@ class RandomVector(tensap.ProbabilityMeasure):
             The standard deviation of the random variable.
 
         """
-        return np.atleast_1d([x.std() for x in self.random_variables])
+        return np.concatenate([np.ravel(x.std()) for x in self.random_variables])
 
     def variance(self):
         """
@@ -325,7 +325,7 @@ class RandomVector(tensap.ProbabilityMeasure):
             The variance of the random variable.
 
         """
-        return np.atleast_1d([x.variance() for x in self.random_variables])
+        return np.concatenate([np.ravel(x.variance()) for x in self.random_variables])
 
     def transfer(self, Y, x):
         """
-- 
2.43.0


From 48b65b8fd76b9fb124a5db80f41cdebbe6e9bc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:02 +0000
Subject: [PATCH 054/199] fix: transfer between empirical random variables of
 different sizes

---
 tensap/functions/measures/empirical_random_variable.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensap/functions/measures/empirical_random_variable.py b/tensap/functions/measures/empirical_random_variable.py
index 7380cb7..4822f0b 100644
--- a/tensap/functions/measures/empirical_random_variable.py
+++ b/tensap/functions/measures/empirical_random_variable.py
@@ -91,6 +91,7 @@ class EmpiricalRandomVariable(tensap.RandomVariable):
         # If Y is the standard random variable associated to X
         if (
             isinstance(Y, (EmpiricalRandomVariable, tensap.EmpiricalRandomVariable))
+            and np.shape(Y.sample) == np.shape(self.sample)
             and np.linalg.norm(
                 Y.sample - (self.sample - np.mean(self.sample)) / np.std(self.sample)
             )
-- 
2.43.0


From a90e5cd4f58e161a27f974f27ed391768d6c917d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:59 +0000
Subject: [PATCH 055/199] fix: dimension of integration rules with points in a
 one-dimensional array

---
 tensap/approximation/integration/integration_rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/integration/integration_rules.py b/tensap/approximation/integration/integration_rules.py
index 22acae2..feaa313 100644
--- a/tensap/approximation/integration/integration_rules.py
+++ b/tensap/approximation/integration/integration_rules.py
@@ -65,7 +65,7 @@ class IntegrationRule:
             The number of integration points.
 
         """
-        return self.points.shape[1]
+        return 1 if np.ndim(self.points) == 1 else self.points.shape[1]
 
     def integrate(self, fun):
         """
-- 
2.43.0


From a4f833e3e3fa47e0364bb006befb5b863a3cb96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:30 +0000
Subject: [PATCH 056/199] fix: normalisation of polynomials orthonormal for
 measures of mass other than one

---
 .../polynomials/orthonormal_polynomials.py         | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/tensap/functions/polynomials/orthonormal_polynomials.py b/tensap/functions/polynomials/orthonormal_polynomials.py
index 0e19241..777c917 100644
--- a/tensap/functions/polynomials/orthonormal_polynomials.py
+++ b/tensap/functions/polynomials/orthonormal_polynomials.py
@@ -56,9 +56,8 @@ class OrthonormalPolynomials(tensap.UnivariatePolynomials):
     def is_orthonormal():
         return True
 
-    @staticmethod
-    def one():
-        return 1, 0
+    def one(self):
+        return np.sqrt(self.measure.mass()), 0
 
     def __eq__(self, poly_2):
         if not isinstance(poly_2, OrthonormalPolynomials):
@@ -109,7 +108,7 @@ class OrthonormalPolynomials(tensap.UnivariatePolynomials):
         ):
             out = np.zeros(ind.shape[0])
             if ind.shape[1] == 1:
-                out[ind[:, 0] == 0] = 1
+                out[ind[:, 0] == 0] = np.sqrt(self.measure.mass())
             else:
                 out[ind[:, 0] == ind[:, 1]] = 1
         else:
@@ -123,7 +122,7 @@ class OrthonormalPolynomials(tensap.UnivariatePolynomials):
         b = recurr[1, : max_ind + 1]
 
         coef = np.zeros([max_ind + 1] * 2)
-        coef[0, 0] = 1
+        coef[0, 0] = 1 / np.sqrt(self.measure.mass())
 
         if max_ind > 0:
             coef[1, 1:] = coef[0, :-1]
@@ -178,10 +177,7 @@ class OrthonormalPolynomials(tensap.UnivariatePolynomials):
             out = np.zeros((x.size, max_ind + 1))
             out[:, 0] = 0
             if max_ind > 0:
-                if k == 1:
-                    out[:, 1] = 1 / np.sqrt(b[1])
-                else:
-                    out[:, 1] = 0
+                out[:, 1] = k * out_0[:, 0] / np.sqrt(b[1])
             for deg in np.arange(2, max_ind + 1):
                 out[:, deg] = (
                     k * out_0[:, deg - 1]
-- 
2.43.0


From 323843d36a63f8d39b7331333d4459e5dcf168a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:31 +0000
Subject: [PATCH 057/199] fix: comparison of orthonormal polynomials

---
 tensap/functions/polynomials/orthonormal_polynomials.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tensap/functions/polynomials/orthonormal_polynomials.py b/tensap/functions/polynomials/orthonormal_polynomials.py
index 777c917..30a5f4c 100644
--- a/tensap/functions/polynomials/orthonormal_polynomials.py
+++ b/tensap/functions/polynomials/orthonormal_polynomials.py
@@ -66,13 +66,14 @@ class OrthonormalPolynomials(tensap.UnivariatePolynomials):
             out = (
                 self.measure == poly_2.measure
                 and np.array_equal(
-                    self._recurrence_coefficients, poly_2._recurrence_coefficients
+                    getattr(self, "_recurrence_coefficients", None),
+                    getattr(poly_2, "_recurrence_coefficients", None),
                 )
                 and np.array_equal(
-                    self._orthogonal_polynomials_norms,
-                    poly_2._orthogonal_polynomials_norms,
+                    getattr(self, "_orthogonal_polynomials_norms", None),
+                    getattr(poly_2, "_orthogonal_polynomials_norms", None),
                 )
-                and self.is_orthonormal == poly_2.is_orthonormal
+                and self.is_orthonormal() == poly_2.is_orthonormal()
             )
         return out
 
-- 
2.43.0


From f61033e6b58d452beef4a19dd6f254b40bfac037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:31 +0000
Subject: [PATCH 058/199] fix: moments and means of shifted polynomials with
 respect to other measures

---
 .../polynomials/orthonormal_polynomials.py       | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/tensap/functions/polynomials/orthonormal_polynomials.py b/tensap/functions/polynomials/orthonormal_polynomials.py
index 30a5f4c..012ba46 100644
--- a/tensap/functions/polynomials/orthonormal_polynomials.py
+++ b/tensap/functions/polynomials/orthonormal_polynomials.py
@@ -345,18 +345,10 @@ class ShiftedOrthonormalPolynomials(tensap.UnivariatePolynomials):
         """
         return self.shift + self.scaling * self.polynomials.truncated_domain()
 
-    def mean(self, ind, *measure):
-        return self.polynomials.mean(ind, *measure)
-
-    def moment(self, ind, *measure):
-        if measure:
-            if measure[0] == self.measure:
-                measure = ()
-            else:
-                measure = tuple(
-                    [measure[0].shift(-self.shift / self.scaling, 1 / self.scaling)]
-                )
-        return self.polynomials.moment(ind, *measure)
+    def moment(self, ind, measure=None):
+        if measure is None or measure == self.measure:
+            return self.polynomials.moment(ind)
+        return super().moment(ind, measure)
 
     def polyval(self, ind, x):
         x = (x - self.shift) / self.scaling
-- 
2.43.0


From c5b1bd28ea1c32781e07633b53fe0d77b9edccbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:31 +0000
Subject: [PATCH 059/199] fix: normalisation of shifted polynomials orthonormal
 for Lebesgue measures

---
 .../polynomials/orthonormal_polynomials.py    | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/tensap/functions/polynomials/orthonormal_polynomials.py b/tensap/functions/polynomials/orthonormal_polynomials.py
index 012ba46..0df54c1 100644
--- a/tensap/functions/polynomials/orthonormal_polynomials.py
+++ b/tensap/functions/polynomials/orthonormal_polynomials.py
@@ -306,9 +306,15 @@ class ShiftedOrthonormalPolynomials(tensap.UnivariatePolynomials):
     def is_orthonormal():
         return True
 
-    @staticmethod
-    def one():
-        return 1, 0
+    def one(self):
+        return np.sqrt(self.measure.mass()), 0
+
+    def _normalization(self):
+        """
+        Return the factor making the polynomials orthonormal with respect to
+        self.measure, whose mass may differ from self.polynomials.measure.
+        """
+        return np.sqrt(self.polynomials.measure.mass() / self.measure.mass())
 
     def __eq__(self, poly_2):
         if not isinstance(poly_2, ShiftedOrthonormalPolynomials):
@@ -347,20 +353,22 @@ class ShiftedOrthonormalPolynomials(tensap.UnivariatePolynomials):
 
     def moment(self, ind, measure=None):
         if measure is None or measure == self.measure:
-            return self.polynomials.moment(ind)
+            nb = np.atleast_2d(ind).shape[1]
+            return self.polynomials.moment(ind) * self._normalization() ** (nb - 2)
         return super().moment(ind, measure)
 
     def polyval(self, ind, x):
         x = (x - self.shift) / self.scaling
-        return self.polynomials.polyval(ind, x)
+        return self._normalization() * self.polynomials.polyval(ind, x)
 
     def d_polyval(self, ind, x):
         x = (x - self.shift) / self.scaling
-        return self.polynomials.d_polyval(ind, x) / self.scaling
+        return self._normalization() * self.polynomials.d_polyval(ind, x) / self.scaling
 
     def dn_polyval(self, n, ind, x):
         x = (x - self.shift) / self.scaling
-        return self.polynomials.dn_polyval(n, ind, x) / (self.scaling**n)
+        out = self.polynomials.dn_polyval(n, ind, x) / (self.scaling**n)
+        return self._normalization() * out
 
     def random(self, ind, n=1, measure=None):
         """
-- 
2.43.0


From e1376762b2aad6742310727b7eb255b5c9d8b796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:31 +0000
Subject: [PATCH 060/199] fix: evaluation of shifted polynomials at a list of
 points

---
 tensap/functions/polynomials/orthonormal_polynomials.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensap/functions/polynomials/orthonormal_polynomials.py b/tensap/functions/polynomials/orthonormal_polynomials.py
index 0df54c1..e63b4af 100644
--- a/tensap/functions/polynomials/orthonormal_polynomials.py
+++ b/tensap/functions/polynomials/orthonormal_polynomials.py
@@ -358,15 +358,15 @@ class ShiftedOrthonormalPolynomials(tensap.UnivariatePolynomials):
         return super().moment(ind, measure)
 
     def polyval(self, ind, x):
-        x = (x - self.shift) / self.scaling
+        x = (np.asarray(x) - self.shift) / self.scaling
         return self._normalization() * self.polynomials.polyval(ind, x)
 
     def d_polyval(self, ind, x):
-        x = (x - self.shift) / self.scaling
+        x = (np.asarray(x) - self.shift) / self.scaling
         return self._normalization() * self.polynomials.d_polyval(ind, x) / self.scaling
 
     def dn_polyval(self, n, ind, x):
-        x = (x - self.shift) / self.scaling
+        x = (np.asarray(x) - self.shift) / self.scaling
         out = self.polynomials.dn_polyval(n, ind, x) / (self.scaling**n)
         return self._normalization() * out
 
-- 
2.43.0


From d2c05924f472c0da099a735e80457973663001a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:31 +0000
Subject: [PATCH 061/199] fix: random evaluations of shifted polynomials with a
 given measure

---
 .../functions/polynomials/orthonormal_polynomials.py  | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tensap/functions/polynomials/orthonormal_polynomials.py b/tensap/functions/polynomials/orthonormal_polynomials.py
index e63b4af..f754a65 100644
--- a/tensap/functions/polynomials/orthonormal_polynomials.py
+++ b/tensap/functions/polynomials/orthonormal_polynomials.py
@@ -395,9 +395,14 @@ class ShiftedOrthonormalPolynomials(tensap.UnivariatePolynomials):
             The randomly drawn input points.
 
         """
-        fx, x = self.polynomials.random(ind, n, measure)
-        x = self.shift + self.scaling * x
-        return fx, x
+        if measure is None:
+            measure = self.measure
+
+        assert isinstance(
+            measure, tensap.ProbabilityMeasure
+        ), "Must provide a ProbabilityMeasure."
+        x = measure.random(int(n))
+        return self.polyval(ind, x), x
 
     def roots(self, n):
         """
-- 
2.43.0


From 3eb5cde8c651d0d7eb17a896c77ce85b7b26ec6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:31 +0000
Subject: [PATCH 062/199] fix: construction of empirical polynomials from a
 sample

---
 tensap/functions/polynomials/orthonormal_polynomials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/polynomials/orthonormal_polynomials.py b/tensap/functions/polynomials/orthonormal_polynomials.py
index f754a65..3d9e1ab 100644
--- a/tensap/functions/polynomials/orthonormal_polynomials.py
+++ b/tensap/functions/polynomials/orthonormal_polynomials.py
@@ -634,7 +634,7 @@ class EmpiricalPolynomials(OrthonormalPolynomials):
             self.measure = sample.get_standard_random_variable()
         else:
             # Standardization of the sample
-            x = np.reshape(self.sample, [-1, 1])
+            x = np.reshape(sample, [-1, 1])
             x = (x - np.tile(np.mean(x, 0), (x.shape[0], 1))) / np.tile(
                 np.std(x, 0), (x.shape[0], 1)
             )
-- 
2.43.0


From 8c435d589b2ca35b4e8f96ee3aef2e50597db8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:09 +0000
Subject: [PATCH 063/199] fix: derivatives of polynomials of order larger than
 their degrees

---
 tensap/functions/polynomials/polynomials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/polynomials/polynomials.py b/tensap/functions/polynomials/polynomials.py
index db54d37..44de866 100644
--- a/tensap/functions/polynomials/polynomials.py
+++ b/tensap/functions/polynomials/polynomials.py
@@ -104,7 +104,7 @@ class UnivariatePolynomials(ABC):
         )
         coef = self.poly_coeff(ind)[:, n:] * np.tile(coef, (len(ind), 1))
         if coef.size == 0:
-            coef = np.zeros(len(ind))
+            coef = np.zeros((len(ind), 1))
         return coef
 
     def d_polyval(self, ind, x):
-- 
2.43.0


From ad39ab4d61d221145706bb647c258276b981ccd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:09 +0000
Subject: [PATCH 064/199] fix: Gauss rules of discrete random variables with
 more points than values

---
 tensap/functions/measures/discrete_random_variable.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tensap/functions/measures/discrete_random_variable.py b/tensap/functions/measures/discrete_random_variable.py
index 1fb3436..14851ac 100644
--- a/tensap/functions/measures/discrete_random_variable.py
+++ b/tensap/functions/measures/discrete_random_variable.py
@@ -167,6 +167,15 @@ class DiscreteRandomVariable(tensap.RandomVariable):
         """
         return tensap.IntegrationRule(self.values, self.probabilities)
 
+    def gauss_integration_rule(self, nb_pts):
+        rep = self.probabilities > 0
+        if nb_pts > np.count_nonzero(rep):
+            # The rule with all the values is exact for any function
+            return tensap.IntegrationRule(
+                np.ravel(self.values)[rep], self.probabilities[rep]
+            )
+        return super().gauss_integration_rule(nb_pts)
+
     def orthonormal_polynomials(self):
         """
         Return orthonormal polynomials associated with
-- 
2.43.0


From cf4f8f480cf6a301b4614351f61d56ac007c23f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:50 +0000
Subject: [PATCH 065/199] fix: coefficients of derivatives of polynomials of
 order exceeding their degrees by two

---
 tensap/functions/polynomials/polynomials.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/tensap/functions/polynomials/polynomials.py b/tensap/functions/polynomials/polynomials.py
index 44de866..dbaad13 100644
--- a/tensap/functions/polynomials/polynomials.py
+++ b/tensap/functions/polynomials/polynomials.py
@@ -95,11 +95,10 @@ class UnivariatePolynomials(ABC):
             of order contained in ind.
 
         """
+        nb_coef = np.maximum(np.max(ind) - n + 1, 0)
         coef = np.prod(
-            np.tile(np.arange(np.max(ind) - n + 1), (n, 1))
-            + np.tile(
-                np.expand_dims(np.arange(1, n + 1), axis=1), (1, np.max(ind) - n + 1)
-            ),
+            np.tile(np.arange(nb_coef), (n, 1))
+            + np.tile(np.expand_dims(np.arange(1, n + 1), axis=1), (1, nb_coef)),
             0,
         )
         coef = self.poly_coeff(ind)[:, n:] * np.tile(coef, (len(ind), 1))
-- 
2.43.0


From 30914815c2028cc01401eb8a47aabc8457587faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:04 +0000
Subject: [PATCH 066/199] fix: eval_jacobian of univariate bases

---
 tensap/approximation/bases/functional_basis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/functional_basis.py b/tensap/approximation/bases/functional_basis.py
index 727db80..bc0c6c9 100644
--- a/tensap/approximation/bases/functional_basis.py
+++ b/tensap/approximation/bases/functional_basis.py
@@ -472,7 +472,8 @@ class FunctionalBasis:
             n = self.ndim() * [0]
             n[ind] = 1
             # add an axis to concatenate
-            dnHx_i = self.eval_derivative(n, x)[:, :, None]
+            order = n if self.ndim() > 1 else 1
+            dnHx_i = self.eval_derivative(order, x)[:, :, None]
             dnHx_lst.append(dnHx_i)
         out = np.concatenate(dnHx_lst, axis=2)
         return out
-- 
2.43.0


From 0c75ddf77863948b64fccdb597f9ee11a3b1649c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:04 +0000
Subject: [PATCH 067/199] fix: orthonormalize compares the Gram matrix with a
 tolerance and leaves the basis unchanged

---
 tensap/approximation/bases/functional_basis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/bases/functional_basis.py b/tensap/approximation/bases/functional_basis.py
index bc0c6c9..272d0c7 100644
--- a/tensap/approximation/bases/functional_basis.py
+++ b/tensap/approximation/bases/functional_basis.py
@@ -21,6 +21,7 @@ Module functional_basis.
 """
 
 from abc import abstractmethod
+from copy import deepcopy
 from scipy.sparse import diags
 import numpy as np
 import tensap
@@ -444,8 +445,8 @@ class FunctionalBasis:
 
         """
         G = self.gram_matrix()
-        out = self
-        if np.linalg.norm(G - np.eye(G.shape[0]), 2):
+        out = deepcopy(self)
+        if np.linalg.norm(G - np.eye(G.shape[0]), 2) > 1e-13 * G.shape[0]:
             A = np.linalg.inv(np.linalg.cholesky(G))
             out = tensap.SubFunctionalBasis(self, np.transpose(A))
         out.is_orthonormal = True
-- 
2.43.0


From 0c78ed2062369a4b3627712e1ed428a337f0a16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:04 +0000
Subject: [PATCH 068/199] fix: FunctionalBasisArray keeps the coefficients of
 several outputs in place

---
 tensap/approximation/bases/functional_basis_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/functional_basis_array.py b/tensap/approximation/bases/functional_basis_array.py
index bbc4228..020a930 100644
--- a/tensap/approximation/bases/functional_basis_array.py
+++ b/tensap/approximation/bases/functional_basis_array.py
@@ -74,7 +74,7 @@ class FunctionalBasisArray(tensap.Function):
         self.shape = np.atleast_1d(shape)
         self.output_shape = self.shape
         self.data = np.reshape(
-            self.data, np.concatenate(([basis.cardinal()], self.shape))
+            self.data, np.concatenate(([basis.cardinal()], self.shape)), order="F"
         )
 
     def __add__(self, g):
-- 
2.43.0


From c9088dd9912f3cab417db3791ad2745798592d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:04 +0000
Subject: [PATCH 069/199] fix: derivative of a polynomial basis for any order
 and measure

---
 .../approximation/bases/polynomial_functional_basis.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tensap/approximation/bases/polynomial_functional_basis.py b/tensap/approximation/bases/polynomial_functional_basis.py
index 97f81fc..3e4b7c4 100644
--- a/tensap/approximation/bases/polynomial_functional_basis.py
+++ b/tensap/approximation/bases/polynomial_functional_basis.py
@@ -168,13 +168,17 @@ class PolynomialFunctionalBasis(tensap.FunctionalBasis):
             assert self.measure is not None, "Must specify a Measure."
             measure = self.measure
 
-        nb_pts = int(np.ceil(np.max(self.indices) - (k - 1) / 2))
+        nb_pts = int(np.max(self.indices)) + 1
         int_rule = measure.gauss_integration_rule(nb_pts)
 
         def fun(x):
             return self.basis.dn_polyval(k, self.indices, x)
 
-        return self.projection(fun, int_rule).sub_functional_basis()
+        if self.is_orthonormal and measure == self.measure:
+            proj = self.quasi_projection(fun, int_rule)
+        else:
+            proj = self.least_squares_projection(fun, int_rule)
+        return proj.sub_functional_basis()
 
     def gradient(self, measure=None):
         """
@@ -196,7 +200,7 @@ class PolynomialFunctionalBasis(tensap.FunctionalBasis):
         """
         return self.derivative(1, measure)
 
-    def hessian(self, measure):
+    def hessian(self, measure=None):
         """
         Compute the second order derivative of the functions of the basis
         projected on itself.
-- 
2.43.0


From eb78013671064811ca39b9dcd70b29743dde1e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:04 +0000
Subject: [PATCH 070/199] fix: product of two polynomial bases

---
 tensap/approximation/bases/polynomial_functional_basis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensap/approximation/bases/polynomial_functional_basis.py b/tensap/approximation/bases/polynomial_functional_basis.py
index 3e4b7c4..e2bb69d 100644
--- a/tensap/approximation/bases/polynomial_functional_basis.py
+++ b/tensap/approximation/bases/polynomial_functional_basis.py
@@ -121,7 +121,7 @@ class PolynomialFunctionalBasis(tensap.FunctionalBasis):
 
     def kron(self, q):
         m = np.max(self.indices) + np.max(q.indices)
-        b = PolynomialFunctionalBasis(self.basis, range(m))
+        b = PolynomialFunctionalBasis(self.basis, range(m + 1))
         b.measure = self.measure
 
         def fun(x):
@@ -136,8 +136,8 @@ class PolynomialFunctionalBasis(tensap.FunctionalBasis):
             )
 
         measure = b.measure
-        int_rule = measure.gauss_integration_rule(2 * m)
-        return tensap.SubFunctionalBasis(b, self.projection(fun, int_rule).data)
+        int_rule = measure.gauss_integration_rule(m + 1)
+        return tensap.SubFunctionalBasis(b, b.projection(fun, int_rule).data)
 
     def derivative(self, k, measure=None):
         """
-- 
2.43.0


From 9ed3cb045ef555f0c191b0324d191603d41c8359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:04 +0000
Subject: [PATCH 071/199] fix: mean of a piecewise polynomial basis

---
 .../bases/piecewise_polynomial_functional_basis.py              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/piecewise_polynomial_functional_basis.py b/tensap/approximation/bases/piecewise_polynomial_functional_basis.py
index 51c855c..188ea21 100644
--- a/tensap/approximation/bases/piecewise_polynomial_functional_basis.py
+++ b/tensap/approximation/bases/piecewise_polynomial_functional_basis.py
@@ -140,7 +140,7 @@ class PiecewisePolynomialFunctionalBasis(tensap.FunctionalBasis):
         p2 = self.points[1:]
         h = p2 - p1
         m = np.zeros(self.cardinal())
-        q = np.cumsum(np.concatenate((0, self.p[:-1] + 1)))
+        q = np.cumsum(np.concatenate(([0], self.p[:-1] + 1)))
         m[q] = np.sqrt(h)
         return m
 
-- 
2.43.0


From 8d31d58d5ac036b721d02be02a141c68c7b9c052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:04 +0000
Subject: [PATCH 072/199] fix: SubFunctionalBasis derivatives

---
 tensap/approximation/bases/sub_functional_basis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/bases/sub_functional_basis.py b/tensap/approximation/bases/sub_functional_basis.py
index 4fceb56..a2cb5ea 100644
--- a/tensap/approximation/bases/sub_functional_basis.py
+++ b/tensap/approximation/bases/sub_functional_basis.py
@@ -140,7 +140,7 @@ class SubFunctionalBasis(tensap.FunctionalBasis):
             self.basis of degrees in self.indices at points x.
 
         """
-        return np.matmul(self.underlying_basis.eval_derivative(x, n), self.basis)
+        return np.matmul(self.underlying_basis.eval_derivative(n, x), self.basis)
 
     def derivative(self, n):
         """
@@ -180,7 +180,7 @@ class SubFunctionalBasis(tensap.FunctionalBasis):
 
         """
         jac = self.underlying_basis.eval_jacobian(x)
-        out = np.einsum("ij,ajk", self.basis, jac)
+        out = np.einsum("ij,aik->ajk", self.basis, jac)
         return out
 
     def mean(self):
-- 
2.43.0


From 6d3e34d86716c5366e3728b5bfa28f322d24571f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:04 +0000
Subject: [PATCH 073/199] fix: SubFunctionalBasis is_orthonormal

---
 tensap/approximation/bases/sub_functional_basis.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tensap/approximation/bases/sub_functional_basis.py b/tensap/approximation/bases/sub_functional_basis.py
index a2cb5ea..95a322c 100644
--- a/tensap/approximation/bases/sub_functional_basis.py
+++ b/tensap/approximation/bases/sub_functional_basis.py
@@ -72,10 +72,10 @@ class SubFunctionalBasis(tensap.FunctionalBasis):
             if (
                 underlying_basis.is_orthonormal
                 and np.linalg.norm(
-                    np.matmul(np.transpose(basis), basis) - np.eye(basis.shape[1])
+                    np.matmul(np.transpose(self.basis), self.basis)
+                    - np.eye(self.basis.shape[1])
                 )
-                / np.sqrt(basis.shape[1])
-                < 1e-15
+                <= 1e-13 * np.sqrt(self.basis.shape[1])
             ):
                 self.is_orthonormal = True
 
@@ -161,6 +161,7 @@ class SubFunctionalBasis(tensap.FunctionalBasis):
         """
         d_f = deepcopy(self)
         d_f.underlying_basis = self.underlying_basis.derivative(n)
+        d_f.is_orthonormal = False
         return d_f
 
     def eval_jacobian(self, x):
-- 
2.43.0


From 54a1dab9f5081c761fe32aa4ce18a1ae6d4e2adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:04 +0000
Subject: [PATCH 074/199] fix: SubFunctionalBasis mean and gram_matrix with
 respect to a measure

---
 tensap/approximation/bases/sub_functional_basis.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tensap/approximation/bases/sub_functional_basis.py b/tensap/approximation/bases/sub_functional_basis.py
index 95a322c..347de01 100644
--- a/tensap/approximation/bases/sub_functional_basis.py
+++ b/tensap/approximation/bases/sub_functional_basis.py
@@ -184,11 +184,11 @@ class SubFunctionalBasis(tensap.FunctionalBasis):
         out = np.einsum("ij,aik->ajk", self.basis, jac)
         return out
 
-    def mean(self):
-        return np.matmul(self.underlying_basis.mean(), self.basis)
+    def mean(self, *args):
+        return np.matmul(np.ravel(self.underlying_basis.mean(*args)), self.basis)
 
-    def gram_matrix(self):
-        return self.basis.T @ self.underlying_basis.gram_matrix() @ self.basis
+    def gram_matrix(self, *args):
+        return self.basis.T @ self.underlying_basis.gram_matrix(*args) @ self.basis
 
     def gram_matrix_h1_0(self):
         return self.basis.T @ self.underlying_basis.gram_matrix_h1_0() @ self.basis
-- 
2.43.0


From e2f8745e6741e8e3ff9005321fba23302a17565d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:04 +0000
Subject: [PATCH 075/199] fix: DeltaFunctionalBasis cardinal and dimension

---
 tensap/approximation/bases/delta_functional_basis.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tensap/approximation/bases/delta_functional_basis.py b/tensap/approximation/bases/delta_functional_basis.py
index 99dce90..528c281 100755
--- a/tensap/approximation/bases/delta_functional_basis.py
+++ b/tensap/approximation/bases/delta_functional_basis.py
@@ -80,11 +80,10 @@ class DeltaFunctionalBasis(tensap.FunctionalBasis):
         if measure is not None:
             self.input_dimension = measure.ndim()
         else:
-            self.input_dimension = 1
+            self.input_dimension = 1 if values is None else values.shape[1]
 
     def eval(self, x):
         x = np.atleast_1d(x)
-        print(x)
         dim = self.values.shape[0]
         out = np.zeros((np.shape(x)[0], dim))
         for mu in range(dim):
@@ -99,4 +98,4 @@ class DeltaFunctionalBasis(tensap.FunctionalBasis):
         return self.input_dimension
 
     def cardinal(self):
-        return self.values.shape[1]
+        return self.values.shape[0]
-- 
2.43.0


From fd6e837cdef702d64c062a36da2dec67c452aa44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:04 +0000
Subject: [PATCH 076/199] fix: B-splines with repeated knots

---
 .../bases/BSplines_functional_basis.py        | 28 +++++++++++--------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/tensap/approximation/bases/BSplines_functional_basis.py b/tensap/approximation/bases/BSplines_functional_basis.py
index 8a7df1e..5716d67 100644
--- a/tensap/approximation/bases/BSplines_functional_basis.py
+++ b/tensap/approximation/bases/BSplines_functional_basis.py
@@ -101,9 +101,14 @@ class BSplinesFunctionalBasis(tensap.FunctionalBasis):
 
         for j in np.arange(1, self.degree + 1):
             for i in range(m - 1 - j):
-                Bx[:, i, j] = (x - t[i]) / (t[i + j] - t[i]) * Bx[:, i, j - 1] + (
-                    t[i + j + 1] - x
-                ) / (t[i + j + 1] - t[i + 1]) * Bx[:, i + 1, j - 1]
+                if t[i + j] > t[i]:
+                    Bx[:, i, j] += (x - t[i]) / (t[i + j] - t[i]) * Bx[:, i, j - 1]
+                if t[i + j + 1] > t[i + 1]:
+                    Bx[:, i, j] += (
+                        (t[i + j + 1] - x)
+                        / (t[i + j + 1] - t[i + 1])
+                        * Bx[:, i + 1, j - 1]
+                    )
 
         return Bx
 
@@ -155,14 +160,15 @@ class BSplinesFunctionalBasis(tensap.FunctionalBasis):
 
             for j in np.arange(1, self.degree + 1):
                 for i in range(t.size - 1 - j):
-                    dBx[:, i, j] = (
-                        k / (t[i + j] - t[i]) * dBx_old[:, i, j - 1]
-                        - k / (t[i + j + 1] - t[i + 1]) * dBx_old[:, i + 1, j - 1]
-                        + (x - t[i]) / (t[i + j] - t[i]) * dBx[:, i, j - 1]
-                        + (t[i + j + 1] - x)
-                        / (t[i + j + 1] - t[i + 1])
-                        * dBx[:, i + 1, j - 1]
-                    )
+                    if t[i + j] > t[i]:
+                        dBx[:, i, j] += (
+                            k * dBx_old[:, i, j - 1] + (x - t[i]) * dBx[:, i, j - 1]
+                        ) / (t[i + j] - t[i])
+                    if t[i + j + 1] > t[i + 1]:
+                        dBx[:, i, j] += (
+                            -k * dBx_old[:, i + 1, j - 1]
+                            + (t[i + j + 1] - x) * dBx[:, i + 1, j - 1]
+                        ) / (t[i + j + 1] - t[i + 1])
 
         dBx = dBx[:, : t.size - 1 - self.degree, -1]
         return dBx
-- 
2.43.0


From 184e2519078c1a8e9da026366d0bf0e922508f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:04 +0000
Subject: [PATCH 077/199] fix: DilatedBSplinesFunctionalBasis has ndim and
 keeps the caller's indices

---
 .../approximation/bases/BSplines_functional_basis.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tensap/approximation/bases/BSplines_functional_basis.py b/tensap/approximation/bases/BSplines_functional_basis.py
index 5716d67..4d8e90c 100644
--- a/tensap/approximation/bases/BSplines_functional_basis.py
+++ b/tensap/approximation/bases/BSplines_functional_basis.py
@@ -365,13 +365,10 @@ class DilatedBSplinesFunctionalBasis(tensap.FunctionalBasis):
         if not isinstance(B, DilatedBSplines):
             raise ValueError("must provide a DilatedBSplines")
 
-        if isinstance(Ind, tuple):
-            Ind = list(Ind)
-        elif not isinstance(Ind, list):
+        if not isinstance(Ind, (list, tuple)):
             raise ValueError("must provide a list or tuple")
 
-        Ind[0] = np.ravel(Ind[0])
-        Ind[1] = np.ravel(Ind[1])
+        Ind = [np.ravel(Ind[0]), np.ravel(Ind[1])]
 
         self.basis = B
         self.indices = Ind
@@ -382,9 +379,12 @@ class DilatedBSplinesFunctionalBasis(tensap.FunctionalBasis):
     def cardinal(self):
         return self.indices[0].size
 
-    def ndims(self):
+    def ndim(self):
         return 1
 
+    def ndims(self):
+        return self.ndim()
+
     def eval_derivative(self, k, x):
         """
         Evaluates the k-th derivative of the functional basis at points x
-- 
2.43.0


From 583163c68a10a3bff3b7c733d3bb0d056974b1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:27 +0000
Subject: [PATCH 078/199] fix: selecting and permuting bases updates the
 measure

---
 tensap/approximation/bases/functional_bases.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tensap/approximation/bases/functional_bases.py b/tensap/approximation/bases/functional_bases.py
index 1739018..705ae7a 100644
--- a/tensap/approximation/bases/functional_bases.py
+++ b/tensap/approximation/bases/functional_bases.py
@@ -193,7 +193,8 @@ class FunctionalBases:
 
         """
         out = deepcopy(self)
-        out.bases = np.delete(self.bases, ind)
+        out.bases = np.delete(out.bases, ind)
+        out.measure = tensap.ProductMeasure([x.measure for x in out.bases])
         return out
 
     def keep_bases(self, ind):
@@ -212,7 +213,8 @@ class FunctionalBases:
 
         """
         out = deepcopy(self)
-        out.bases = out.bases[ind]
+        out.bases = out.bases[np.atleast_1d(ind)]
+        out.measure = tensap.ProductMeasure([x.measure for x in out.bases])
         return out
 
     def transpose(self, perm):
@@ -231,7 +233,8 @@ class FunctionalBases:
 
         """
         out = deepcopy(self)
-        out.bases = out.bases[perm]
+        out.bases = out.bases[np.atleast_1d(perm)]
+        out.measure = tensap.ProductMeasure([x.measure for x in out.bases])
         return out
 
     def __eq__(self, bases_2):
-- 
2.43.0


From da5ca96678a75eaa46c15662458d9d955361641b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:27 +0000
Subject: [PATCH 079/199] fix: equality of bases of different lengths

---
 tensap/approximation/bases/functional_bases.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/functional_bases.py b/tensap/approximation/bases/functional_bases.py
index 705ae7a..2f2fa39 100644
--- a/tensap/approximation/bases/functional_bases.py
+++ b/tensap/approximation/bases/functional_bases.py
@@ -242,7 +242,8 @@ class FunctionalBases:
             out = False
         else:
             out = (
-                np.all([x == y for x, y in zip(self.bases, bases_2.bases)])
+                len(self) == len(bases_2)
+                and np.all([x == y for x, y in zip(self.bases, bases_2.bases)])
                 and self.measure == bases_2.measure
             )
         return out
-- 
2.43.0


From 3d139a48d7f641c3b02e1fd2618b442bdd56d1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:27 +0000
Subject: [PATCH 080/199] fix: kron of bases

---
 tensap/approximation/bases/functional_bases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/functional_bases.py b/tensap/approximation/bases/functional_bases.py
index 2f2fa39..b63414c 100644
--- a/tensap/approximation/bases/functional_bases.py
+++ b/tensap/approximation/bases/functional_bases.py
@@ -174,7 +174,7 @@ class FunctionalBases:
 
         """
         out = deepcopy(self)
-        out.bases = [x.kron(y) for x, y in zip(self.bases, g.bases)]
+        out.bases = np.array([x.kron(y) for x, y in zip(self.bases, g.bases)])
         return out
 
     def remove_bases(self, ind):
-- 
2.43.0


From dfc615c134a7d647e5604a257d9a4fff34f8896c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:27 +0000
Subject: [PATCH 081/199] fix: cardinal of one basis

---
 tensap/approximation/bases/functional_bases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/functional_bases.py b/tensap/approximation/bases/functional_bases.py
index b63414c..961b639 100644
--- a/tensap/approximation/bases/functional_bases.py
+++ b/tensap/approximation/bases/functional_bases.py
@@ -119,7 +119,7 @@ class FunctionalBases:
         if ind is None:
             card = [x.cardinal() for x in self.bases]
         else:
-            card = [x.cardinal() for x in self.bases[ind]]
+            card = [x.cardinal() for x in self.bases[np.atleast_1d(ind)]]
         return np.array(card)
 
     def ndim(self):
-- 
2.43.0


From 06141f199213901f0f75a2b39064253231320fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:27 +0000
Subject: [PATCH 082/199] fix: derivative of tensor-product bases with one
 factor

---
 tensap/approximation/bases/functional_bases.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensap/approximation/bases/functional_bases.py b/tensap/approximation/bases/functional_bases.py
index 961b639..c27b5e7 100644
--- a/tensap/approximation/bases/functional_bases.py
+++ b/tensap/approximation/bases/functional_bases.py
@@ -331,6 +331,7 @@ class FunctionalBases:
             ind = np.atleast_1d(self.ndim())
             x = np.hsplit(x, np.cumsum(ind[dims])[:-1])
 
+        n = np.atleast_1d(n)
         assert len(n) == len(dims), "n and dims should have the same length"
         out = [y.eval_derivative(m, z) for y, m, z in zip(self.bases[dims], n, x)]
         if nargout == 1:
-- 
2.43.0


From 7308901cd4ddc14a8a684db55f1798fc12f3ea41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:27 +0000
Subject: [PATCH 083/199] fix: random evaluations of bases

---
 tensap/approximation/bases/functional_bases.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tensap/approximation/bases/functional_bases.py b/tensap/approximation/bases/functional_bases.py
index c27b5e7..9ff1551 100644
--- a/tensap/approximation/bases/functional_bases.py
+++ b/tensap/approximation/bases/functional_bases.py
@@ -403,6 +403,8 @@ class FunctionalBases:
 
         """
         if measure is not None:
+            if isinstance(measure, tensap.ProductMeasure):
+                measure = measure.random_vector()
             assert isinstance(
                 measure, tensap.ProbabilityMeasure
             ), "Must provide a ProbabilityMeasure."
@@ -431,6 +433,8 @@ class FunctionalBases:
             measure = self.measure
         elif isinstance(self.measure, tensap.ProbabilityMeasure):
             measure = self.measure.random_vector()
+        elif isinstance(self.measure, tensap.ProductMeasure):
+            measure = self.measure.random_vector()
         else:
             measure = None
         return measure
-- 
2.43.0


From 3f25115f1d689e0b6f9c0f12bf48b6d37a6e1f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:27 +0000
Subject: [PATCH 084/199] fix: random evaluations of tensor-product bases

---
 tensap/approximation/bases/functional_basis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tensap/approximation/bases/functional_basis.py b/tensap/approximation/bases/functional_basis.py
index 272d0c7..70c7ffc 100644
--- a/tensap/approximation/bases/functional_basis.py
+++ b/tensap/approximation/bases/functional_basis.py
@@ -82,6 +82,8 @@ class FunctionalBasis:
         """
         if measure is None:
             measure = self.measure
+        if isinstance(measure, tensap.ProductMeasure):
+            measure = measure.random_vector()
         if not isinstance(measure, tensap.ProbabilityMeasure):
             raise ValueError("Must provide a ProbabilityMeasure.")
 
-- 
2.43.0


From d881e1065184f71b253ca6f21647248869e058d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:27 +0000
Subject: [PATCH 085/199] fix: means of some bases with respect to a measure

---
 tensap/approximation/bases/functional_bases.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tensap/approximation/bases/functional_bases.py b/tensap/approximation/bases/functional_bases.py
index 9ff1551..2cccf72 100644
--- a/tensap/approximation/bases/functional_bases.py
+++ b/tensap/approximation/bases/functional_bases.py
@@ -517,10 +517,14 @@ class FunctionalBases:
         if dims is None:
             dims = np.arange(self.length())
 
-        if isinstance(measure, tensap.RandomVector):
-            out = [
-                x.mean(y) for x, y in zip(self.bases[dims], measure.random_variables)
-            ]
+        if isinstance(measure, (tensap.RandomVector, tensap.ProductMeasure)):
+            if isinstance(measure, tensap.RandomVector):
+                marginals = measure.random_variables
+            else:
+                marginals = measure.measures
+            if len(marginals) == len(self):
+                marginals = [marginals[k] for k in dims]
+            out = [x.mean(y) for x, y in zip(self.bases[dims], marginals)]
         elif isinstance(measure, tensap.RandomVariable):
             out = [x.mean(measure) for x in self.bases[dims]]
         else:
-- 
2.43.0


From 84302ce3889d5c3d99efca7be152a288e6504a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:27 +0000
Subject: [PATCH 086/199] fix: mean of a full tensor-product basis in the order
 of its functions

---
 .../approximation/bases/full_tensor_product_functional_basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/full_tensor_product_functional_basis.py b/tensap/approximation/bases/full_tensor_product_functional_basis.py
index 41e62db..c70e618 100644
--- a/tensap/approximation/bases/full_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/full_tensor_product_functional_basis.py
@@ -167,7 +167,7 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
     def mean(self, *args):
         H = self.bases.mean(None, *args)
         H = tensap.CanonicalTensor([np.reshape(x, [-1, 1]) for x in H], [1])
-        return np.ravel(H.full().numpy())
+        return np.ravel(H.full().numpy(), order="F")
 
     def conditional_expectation(self, dims, *args):
         ind = tensap.MultiIndices.bounded_by(self.bases.cardinals() - 1)
-- 
2.43.0


From 81f636936d4d0cbca52e04a6ccdedaa683a94da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:27 +0000
Subject: [PATCH 087/199] fix: selecting and permuting the factors of a full
 tensor-product basis

---
 .../bases/full_tensor_product_functional_basis.py          | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tensap/approximation/bases/full_tensor_product_functional_basis.py b/tensap/approximation/bases/full_tensor_product_functional_basis.py
index c70e618..6942d1b 100644
--- a/tensap/approximation/bases/full_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/full_tensor_product_functional_basis.py
@@ -97,6 +97,7 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
     def orthonormalize(self):
         out = deepcopy(self)
         out.bases = out.bases.orthonormalize()
+        out.is_orthonormal = np.all([x.is_orthonormal for x in out.bases.bases])
         return out
 
     def remove_bases(self, ind):
@@ -116,6 +117,8 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
         """
         out = deepcopy(self)
         out.bases = out.bases.remove_bases(ind)
+        out.measure = out.bases.measure
+        out.is_orthonormal = np.all([x.is_orthonormal for x in out.bases.bases])
         return out
 
     def keep_bases(self, ind):
@@ -135,6 +138,8 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
         """
         out = deepcopy(self)
         out.bases = out.bases.keep_bases(ind)
+        out.measure = out.bases.measure
+        out.is_orthonormal = np.all([x.is_orthonormal for x in out.bases.bases])
         return out
 
     def remove_mapping(self, ind):
@@ -162,6 +167,8 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
         """
         out = deepcopy(self)
         out.bases = out.bases.transpose(perm)
+        out.measure = out.bases.measure
+        out.is_orthonormal = np.all([x.is_orthonormal for x in out.bases.bases])
         return out
 
     def mean(self, *args):
-- 
2.43.0


From 07ac1d94fa59179f5088951d44d6ec99063d39e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:27 +0000
Subject: [PATCH 088/199] fix: selecting and permuting the factors of a sparse
 tensor-product basis

---
 .../bases/sparse_tensor_product_functional_basis.py    | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
index 66bfa28..789d387 100644
--- a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
@@ -117,6 +117,10 @@ class SparseTensorProductFunctionalBasis(tensap.FunctionalBasis):
         """
         out = deepcopy(self)
         out.bases = out.bases.remove_bases(ind)
+        keep = np.delete(np.arange(len(self)), ind)
+        out.indices = self.indices.keep_dims(keep)
+        out.measure = out.bases.measure
+        out.is_orthonormal = np.all([x.is_orthonormal for x in out.bases.bases])
         return out
 
     def keep_bases(self, ind):
@@ -136,6 +140,9 @@ class SparseTensorProductFunctionalBasis(tensap.FunctionalBasis):
         """
         out = deepcopy(self)
         out.bases = out.bases.keep_bases(ind)
+        out.indices = self.indices.keep_dims(np.atleast_1d(ind))
+        out.measure = out.bases.measure
+        out.is_orthonormal = np.all([x.is_orthonormal for x in out.bases.bases])
         return out
 
     def remove_mapping(self, ind):
@@ -163,6 +170,9 @@ class SparseTensorProductFunctionalBasis(tensap.FunctionalBasis):
         """
         out = deepcopy(self)
         out.bases = out.bases.transpose(perm)
+        out.indices = self.indices.keep_dims(np.atleast_1d(perm))
+        out.measure = out.bases.measure
+        out.is_orthonormal = np.all([x.is_orthonormal for x in out.bases.bases])
         return out
 
     def mean(self, *args):
-- 
2.43.0


From bb6bfe549786a383e74e545934b4f43fd6292296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:27 +0000
Subject: [PATCH 089/199] fix: input dimension of a sparse tensor-product basis

---
 .../bases/sparse_tensor_product_functional_basis.py         | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
index 789d387..7deee47 100644
--- a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
@@ -95,7 +95,7 @@ class SparseTensorProductFunctionalBasis(tensap.FunctionalBasis):
         return self.indices.cardinal()
 
     def ndim(self):
-        return self.indices.ndim()
+        return np.sum(self.bases.ndim())
 
     def domain(self):
         return self.bases.domain()
@@ -187,7 +187,7 @@ class SparseTensorProductFunctionalBasis(tensap.FunctionalBasis):
         if np.all([isinstance(x, bool) for x in dims]):
             dims = np.nonzero(dims)[0]
 
-        dims_C = np.setdiff1d(range(self.ndim()), dims)
+        dims_C = np.setdiff1d(range(len(self)), dims)
 
         if dims_C.size != 0:
             M = self.bases.mean(dims_C, *args)
@@ -307,7 +307,7 @@ class SparseTensorProductFunctionalBasis(tensap.FunctionalBasis):
             The gram matrix of the basis with respect to the L2(H1_0) inner product.
 
         """
-        ndim, cardinal = self.ndim(), self.cardinal()
+        ndim, cardinal = len(self), self.cardinal()
         G = np.zeros((cardinal, cardinal))
         for i in range(ndim):
             didB = self.derivative([1 * (j == i) for j in range(ndim)])
-- 
2.43.0


From de619e9756833d08fc38b1f43d83b35941130386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:27 +0000
Subject: [PATCH 090/199] fix: equality of sparse tensor-product bases

---
 .../bases/sparse_tensor_product_functional_basis.py           | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
index 7deee47..c44eec9 100644
--- a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
@@ -73,7 +73,9 @@ class SparseTensorProductFunctionalBasis(tensap.FunctionalBasis):
         if not isinstance(G, SparseTensorProductFunctionalBasis):
             out = False
         else:
-            out = np.all(self.bases == G.bases) and np.all(self.indices == G.indices)
+            out = self.bases == G.bases and np.array_equal(
+                self.indices.array, G.indices.array
+            )
         return out
 
     def length(self):
-- 
2.43.0


From 3b51623c6dfa4b2bc3ff7f4a32a51d38a356a50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:22 +0000
Subject: [PATCH 091/199] fix: conditional expectation operator of sparse
 tensor bases for masks, all variables and permutations

---
 .../sparse_tensor_product_functional_basis.py | 40 ++++++++-----------
 1 file changed, 16 insertions(+), 24 deletions(-)

diff --git a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
index c44eec9..505a9b9 100644
--- a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
@@ -186,40 +186,32 @@ class SparseTensorProductFunctionalBasis(tensap.FunctionalBasis):
 
     def conditional_expectation(self, dims, *args):
         dims = np.atleast_1d(dims)
-        if np.all([isinstance(x, bool) for x in dims]):
+        if np.all([isinstance(x, (bool, np.bool_)) for x in dims]):
             dims = np.nonzero(dims)[0]
 
         dims_C = np.setdiff1d(range(len(self)), dims)
 
+        I0 = self.indices
+        m = np.ones(I0.cardinal())
         if dims_C.size != 0:
             M = self.bases.mean(dims_C, *args)
-            I0 = self.indices
-            J = I0.keep_dims(dims)
-            m = M[0][I0.array[:, dims_C[0]]]
-            for i in np.arange(1, len(M)):
-                m *= M[i][I0.array[:, dims_C[i]]]
+            for i in range(len(M)):
+                m *= np.ravel(M[i])[I0.array[:, dims_C[i]]]
 
-            if dims.size == 0:
-                return m
+        if dims.size == 0:
+            return m
 
-            ind = np.nonzero(
-                np.all(J.array == I0.array[:, dims][:, np.newaxis], axis=2)
-            )[1]
+        J = I0.keep_dims(dims)
+        ind = np.nonzero(np.all(J.array == I0.array[:, dims][:, np.newaxis], axis=2))[1]
 
-            d = np.zeros((J.cardinal(), I0.cardinal()))
-            d[ind, range(I0.cardinal())] = m
+        d = np.zeros((J.cardinal(), I0.cardinal()))
+        d[ind, range(I0.cardinal())] = m
 
-            h = self.keep_bases(dims)
-            # TODO Uncomment when the mappings are implemented
-            # h = self.keep_mapping(dims)
-            h.indices = J
-            h = tensap.FunctionalBasisArray(d, h, I0.cardinal())
-
-        else:
-            h = tensap.FunctionalBasisArray(
-                np.eye(self.cardinal()), self, [self.cardinal(), 1]
-            )
-        return h
+        h = self.keep_bases(dims)
+        # TODO Uncomment when the mappings are implemented
+        # h = self.keep_mapping(dims)
+        h.indices = J
+        return tensap.FunctionalBasisArray(d, h, I0.cardinal())
 
     def get_random_vector(self):
         """
-- 
2.43.0


From 107b35ae1f8f168c6703bb268dc11ddc6aecdb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:22 +0000
Subject: [PATCH 092/199] fix: conditional expectation of functions given by
 coefficients

---
 .../bases/functional_basis_array.py           | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/tensap/approximation/bases/functional_basis_array.py b/tensap/approximation/bases/functional_basis_array.py
index 020a930..9d2724f 100644
--- a/tensap/approximation/bases/functional_basis_array.py
+++ b/tensap/approximation/bases/functional_basis_array.py
@@ -357,14 +357,21 @@ class FunctionalBasisArray(tensap.Function):
 
         """
         h = self.basis.conditional_expectation(dims, *args)
+        data = np.reshape(
+            self.data, [self.basis.cardinal(), np.prod(self.shape)], order="F"
+        )
+        if not isinstance(h, FunctionalBasisArray):
+            # No variable is kept: h contains the means of the basis functions
+            return np.reshape(
+                np.matmul(np.atleast_2d(h), data),
+                np.concatenate(([1], self.shape)),
+                order="F",
+            )
         f = deepcopy(self)
-        f.data = np.matmul(
-            h.data,
-            np.reshape(
-                self.data, [self.basis.cardinal(), np.prod(self.shape)], order="F"
-            ),
+        data = np.matmul(h.data, data)
+        f.data = np.reshape(
+            data, np.concatenate(([data.shape[0]], self.shape)), order="F"
         )
-        f.data = np.reshape(f.data, (f.data.shape[0], f.shape), order="F")
         f.basis = h.basis
         return f
 
-- 
2.43.0


From d078e550dca035941b27d15b2ece9329f31b3035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:22 +0000
Subject: [PATCH 093/199] fix: mean of functions on a basis whose mean takes no
 measure

---
 tensap/approximation/bases/functional_basis_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/functional_basis_array.py b/tensap/approximation/bases/functional_basis_array.py
index 9d2724f..c99cabd 100644
--- a/tensap/approximation/bases/functional_basis_array.py
+++ b/tensap/approximation/bases/functional_basis_array.py
@@ -204,7 +204,7 @@ class FunctionalBasisArray(tensap.Function):
             The expectation of the function.
 
         """
-        M = self.basis.mean(measure)
+        M = self.basis.mean() if measure is None else self.basis.mean(measure)
         M = np.tile(np.ravel(M), np.concatenate((self.shape, [1])))
         M = np.transpose(M, np.concatenate(([np.ndim(M) - 1], range(np.ndim(M) - 1))))
         return np.sum(self.data * M, 0, keepdims=True)
-- 
2.43.0


From d2f637fcd80b7a862d3470d3d952a1596c899cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:22 +0000
Subject: [PATCH 094/199] fix: inner products of functions use the measure and
 the Gram matrix of the basis

---
 .../full_tensor_product_functional_basis.py   | 20 +++++++++++++++++++
 .../approximation/bases/functional_bases.py   | 15 ++++++++++++--
 .../bases/functional_basis_array.py           | 15 ++++++++++----
 .../sparse_tensor_product_functional_basis.py |  8 +++-----
 4 files changed, 47 insertions(+), 11 deletions(-)

diff --git a/tensap/approximation/bases/full_tensor_product_functional_basis.py b/tensap/approximation/bases/full_tensor_product_functional_basis.py
index 6942d1b..e0aa5d9 100644
--- a/tensap/approximation/bases/full_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/full_tensor_product_functional_basis.py
@@ -189,6 +189,26 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
             y *= Hx[i][:, ind.array[:, i]]
         return y
 
+    def gram_matrix(self, measure=None):
+        """
+        Return the gram matrix of the basis.
+
+        Parameters
+        ----------
+        measure : tensap.Measure, optional
+            The measure defining the inner product. The default is None,
+            indicating to use the measure of the basis.
+
+        Returns
+        -------
+        numpy.ndarray
+            The Gram matrix.
+
+        """
+        ind = tensap.MultiIndices.bounded_by(self.bases.cardinals() - 1)
+        h = tensap.SparseTensorProductFunctionalBasis(self.bases, ind)
+        return h.gram_matrix(measure)
+
     def gram_matrices(self, dims=None):
         """
         Return the gram matrices of each basis of self, or of a selection of
diff --git a/tensap/approximation/bases/functional_bases.py b/tensap/approximation/bases/functional_bases.py
index 2cccf72..5b9e05a 100644
--- a/tensap/approximation/bases/functional_bases.py
+++ b/tensap/approximation/bases/functional_bases.py
@@ -460,7 +460,7 @@ class FunctionalBases:
             dims = range(len(self))
         return [x.one() for x in self.bases[dims]]
 
-    def gram_matrices(self, dims=None):
+    def gram_matrices(self, dims=None, measure=None):
         """
         Return the gram matrices of each basis of self, or of a selection of
         them if dims is provided.
@@ -479,7 +479,18 @@ class FunctionalBases:
         """
         if dims is None:
             dims = range(len(self))
-        return [x.gram_matrix() for x in self.bases[dims]]
+        if measure is None:
+            return [x.gram_matrix() for x in self.bases[dims]]
+
+        if isinstance(measure, tensap.RandomVector):
+            marginals = measure.random_variables
+        elif isinstance(measure, tensap.ProductMeasure):
+            marginals = measure.measures
+        else:
+            marginals = [measure] * len(self)
+        if len(marginals) == len(self):
+            marginals = [marginals[k] for k in dims]
+        return [x.gram_matrix(y) for x, y in zip(self.bases[dims], marginals)]
 
     def storage(self):
         """
diff --git a/tensap/approximation/bases/functional_basis_array.py b/tensap/approximation/bases/functional_basis_array.py
index c99cabd..a12c6e5 100644
--- a/tensap/approximation/bases/functional_basis_array.py
+++ b/tensap/approximation/bases/functional_basis_array.py
@@ -307,12 +307,19 @@ class FunctionalBasisArray(tensap.Function):
             The result of the dot product.
 
         """
-        if dims is None:
-            dims = range(self.basis.cardinal())
-        if not (self.basis == g.basis) or not self.basis.is_orthonormal:
+        if not (self.basis == g.basis):
             raise NotImplementedError("Method not implemented.")
 
-        return self.dot(g, 0)
+        if measure is None and self.basis.is_orthonormal:
+            return self.dot(g, 0)
+
+        if measure is None:
+            G = self.basis.gram_matrix()
+        else:
+            G = self.basis.gram_matrix(measure)
+        if hasattr(G, "toarray"):
+            G = G.toarray()
+        return np.sum(self.data * np.tensordot(G, g.data, 1), 0, keepdims=True)
 
     def norm_expectation(self, measure=None):
         """
diff --git a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
index 505a9b9..2541f1c 100644
--- a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
@@ -268,9 +268,7 @@ class SparseTensorProductFunctionalBasis(tensap.FunctionalBasis):
             P[n <= n_unique[k], k] = True
         return P
 
-    def gram_matrix(
-        self,
-    ):
+    def gram_matrix(self, measure=None):
         """
         Return the gram matrix of the basis.
 
@@ -280,10 +278,10 @@ class SparseTensorProductFunctionalBasis(tensap.FunctionalBasis):
             The gram matrix of the basis.
 
         """
-        if self.is_orthonormal:
+        if self.is_orthonormal and measure is None:
             M = speye(self.indices.cardinal())
         else:
-            G = self.bases.gram_matrices()
+            G = self.bases.gram_matrices(None, measure)
             ind = self.indices.array
             M = G[0][np.ix_(ind[:, 0], ind[:, 0])]
             for i in np.arange(1, ind.shape[1]):
-- 
2.43.0


From 3caa9ef46b39c9cadbc705331dabfcf69cbdd364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:22 +0000
Subject: [PATCH 095/199] fix: variance of conditional expectations for boolean
 masks

---
 tensap/approximation/bases/functional_basis_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/functional_basis_array.py b/tensap/approximation/bases/functional_basis_array.py
index a12c6e5..1ff3a61 100644
--- a/tensap/approximation/bases/functional_basis_array.py
+++ b/tensap/approximation/bases/functional_basis_array.py
@@ -404,7 +404,7 @@ class FunctionalBasisArray(tensap.Function):
         v = np.zeros((np.shape(alpha)[0], np.prod(self.shape)))
         for i in range(np.shape(alpha)[0]):
             u = alpha[i, :]
-            if np.all([isinstance(x, bool) for x in u]):
+            if np.all([isinstance(x, (bool, np.bool_)) for x in u]):
                 u = np.nonzero(u)[0]
 
             if np.size(u) == 0:
-- 
2.43.0


From df80fe82a637a63da214190ffa7b2b10d72cc316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:23 +0000
Subject: [PATCH 096/199] fix: basis of the components of an array-valued
 function

---
 tensap/approximation/bases/functional_basis_array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/functional_basis_array.py b/tensap/approximation/bases/functional_basis_array.py
index 1ff3a61..9989c46 100644
--- a/tensap/approximation/bases/functional_basis_array.py
+++ b/tensap/approximation/bases/functional_basis_array.py
@@ -654,7 +654,8 @@ class FunctionalBasisArray(tensap.Function):
             The FunctionalBasisArray as a tensap.SubFunctionalbasis.
 
         """
-        return tensap.SubFunctionalBasis(self.basis, self.data)
+        data = np.reshape(self.data, [self.basis.cardinal(), -1], order="F")
+        return tensap.SubFunctionalBasis(self.basis, data)
 
     def get_coefficients(self):
         """
-- 
2.43.0


From af57e6f5a774f4de3dda41df921d43ad78c18352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:23 +0000
Subject: [PATCH 097/199] fix: projection of a function on a larger basis

---
 tensap/approximation/bases/functional_basis_array.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/tensap/approximation/bases/functional_basis_array.py b/tensap/approximation/bases/functional_basis_array.py
index 9989c46..bb86513 100644
--- a/tensap/approximation/bases/functional_basis_array.py
+++ b/tensap/approximation/bases/functional_basis_array.py
@@ -629,14 +629,12 @@ class FunctionalBasisArray(tensap.Function):
             self.basis.ndim() == basis.ndim()
             and self.basis.cardinal() <= basis.cardinal()
         ):
-            d = np.zeros((basis.cardinal(), np.prod(self.shape)))
+            d = np.zeros(np.concatenate(([basis.cardinal()], self.shape)))
             _, ia, ib = self.basis.indices.intersect_indices(indices)
-            d[ib, :] = self.data[ia, :]
-            if np.ndim(self.data) != np.ndim(d):
-                d = np.reshape(d, [basis.cardinal(), self.shape], order="F")
+            d[ib] = self.data[ia]
 
             if isinstance(basis, tensap.FullTensorProductFunctionalBasis):
-                H = tensap.FullTensorProductIntegrationRule(basis.bases)
+                H = tensap.FullTensorProductFunctionalBasis(basis.bases)
             elif isinstance(basis, tensap.SparseTensorProductFunctionalBasis):
                 H = tensap.SparseTensorProductFunctionalBasis(basis.bases, indices)
             g = FunctionalBasisArray(d, H, self.shape)
-- 
2.43.0


From cc481688e7b8fac1e173e63e1d4240806b299fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:19 +0000
Subject: [PATCH 098/199] fix: order of the variances of conditional
 expectations of matrix-valued functions

---
 tensap/approximation/bases/functional_basis_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/functional_basis_array.py b/tensap/approximation/bases/functional_basis_array.py
index bb86513..f37ee87 100644
--- a/tensap/approximation/bases/functional_basis_array.py
+++ b/tensap/approximation/bases/functional_basis_array.py
@@ -412,7 +412,7 @@ class FunctionalBasisArray(tensap.Function):
             else:
                 mi = self.conditional_expectation(u)
                 vi = mi.dot_product_expectation(mi) - m**2
-                v[i, :] = np.ravel(vi)
+                v[i, :] = np.ravel(vi, order="F")
 
         return np.reshape(
             v, np.concatenate(([np.shape(alpha)[0]], self.shape)), order="F"
-- 
2.43.0


From 8e1e49443a74974daa431c9038113ef0f224e722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:58 +0000
Subject: [PATCH 099/199] fix: sum of functional tensors

---
 tensap/functions/functional_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index f402575..12f9b46 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -97,7 +97,7 @@ class FunctionalTensor(tensap.Function):
             self.measure = self.bases.measure
             self.dim = np.sum(self.bases.ndim())
 
-    def __plus__(self, y):
+    def __add__(self, y):
         if isinstance(y, FunctionalTensor) and self.bases == y.bases:
             tensor = self.tensor + y.tensor
         else:
-- 
2.43.0


From 83c1301e87dd3ac17ba022997fa8dde0b7e71b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:58 +0000
Subject: [PATCH 100/199] fix: functional tensors on probability measures are
 random

---
 tensap/functions/functional_tensor.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index 12f9b46..a624468 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -114,7 +114,12 @@ class FunctionalTensor(tensap.Function):
             Boolean indicating if if self is random.
 
         """
-        return isinstance(self.bases.measure, tensap.ProbabilityMeasure)
+        measure = self.bases.measure
+        if isinstance(measure, tensap.ProductMeasure):
+            return all(
+                isinstance(x, tensap.ProbabilityMeasure) for x in measure.measures
+            )
+        return isinstance(measure, tensap.ProbabilityMeasure)
 
     def mean(self, *measure):
         """
-- 
2.43.0


From af0bb4d985e384aba966e0907e6bf5ccab7791e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:58 +0000
Subject: [PATCH 101/199] fix: inner products and norms of functional tensors

---
 tensap/functions/functional_tensor.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index a624468..779d902 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -240,14 +240,15 @@ class FunctionalTensor(tensap.Function):
         """
         if fdims is None:
             if self.tensor.order == f_2.tensor.order:
-                fdims = range(self.tensor.order)
+                fdims = self.fdims
             else:
                 raise ValueError(
                     "Tensors u and v do not have the same "
                     + "order, must specify fdims."
                 )
         if self.bases == f_2.bases:
-            gram_matrix = self.bases.gram_matrix(fdims, *measure)
+            ind = [np.nonzero(self.fdims == k)[0][0] for k in fdims]
+            gram_matrix = self.bases.gram_matrices(ind, *measure)
         else:
             raise NotImplementedError("Method not implemented.")
         tensor = self.tensor.tensor_matrix_product(gram_matrix, fdims)
@@ -274,12 +275,10 @@ class FunctionalTensor(tensap.Function):
 
         """
         if not self.evaluated_bases:
-            gram_matrix = self.bases.gram_matrix(range(self.tensor.order), *measure)
+            gram_matrix = self.bases.gram_matrices(None, *measure)
         else:
             gram_matrix = [np.eye(x.shape[1]) for x in self.bases]
-        tensor = self.tensor.tensor_matrix_product(
-            gram_matrix, range(self.tensor.order)
-        )
+        tensor = self.tensor.tensor_matrix_product(gram_matrix, self.fdims)
         return np.sqrt(tensor.dot(self.tensor))
 
     def conditional_expectation(self, dims, *args):
-- 
2.43.0


From b3e8e06240bc749c7958bab36e3554ef2ea631b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:58 +0000
Subject: [PATCH 102/199] fix: gradient of functional tensors

---
 tensap/functions/functional_tensor.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index 779d902..f19dd91 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -754,13 +754,12 @@ class FunctionalTensor(tensap.Function):
         """
         g = []
         for ind in range(self.bases.length()):
-            n = self.length() * [0]
+            n = self.bases.length() * [0]
             n[ind] = 1
             dHx = self.bases.eval_derivative(n, x)
             y = self.eval_with_bases_evals(dHx)
-            g.append(y)
-        out = np.concatenate(g, axis=1)
-        return out
+            g.append(y if isinstance(y, np.ndarray) else y.numpy())
+        return np.stack(g, axis=1)
 
     def derivative(self, n):
         """
-- 
2.43.0


From 3f67dd3a80e62fb88dd6ce8cefcf2cf525898fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:58 +0000
Subject: [PATCH 103/199] fix: conditional expectations of functional tensors
 for boolean arrays

---
 tensap/functions/functional_tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index f19dd91..e7b0380 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -310,7 +310,7 @@ class FunctionalTensor(tensap.Function):
 
         """
         dims = np.atleast_1d(dims)
-        if np.all([isinstance(x, bool) for x in dims]):
+        if np.all([isinstance(x, (bool, np.bool_)) for x in dims]):
             dims = np.nonzero(dims)[0]
 
         d = self.tensor.order
@@ -362,7 +362,7 @@ class FunctionalTensor(tensap.Function):
         v = np.zeros(alpha.shape[0])
         for i in range(alpha.shape[0]):
             u = alpha[i, :]
-            if np.all([isinstance(x, bool) for x in u]):
+            if np.all([isinstance(x, (bool, np.bool_)) for x in u]):
                 u = np.nonzero(u)[0]
             if u.size == 0:
                 v[i] = 0
-- 
2.43.0


From 6779b9a7edd13a53e212648a126d87d0865b16d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:23 +0000
Subject: [PATCH 104/199] fix: product of a canonical tensor by a scalar

---
 tensap/tensor_algebra/tensors/canonical_tensor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tensap/tensor_algebra/tensors/canonical_tensor.py b/tensap/tensor_algebra/tensors/canonical_tensor.py
index af511da..28f2382 100644
--- a/tensap/tensor_algebra/tensors/canonical_tensor.py
+++ b/tensap/tensor_algebra/tensors/canonical_tensor.py
@@ -91,6 +91,9 @@ class CanonicalTensor:
     def __rsub__(self, arg):
         return -self + arg
 
+    def __mul__(self, arg):
+        return CanonicalTensor(list(self.space), self.core.data * arg)
+
     def __neg__(self):
         return CanonicalTensor(list(self.space), -self.core.data)
 
-- 
2.43.0


From 7aee06ab08d96b195fda50cffd41f8710cc12ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:23 +0000
Subject: [PATCH 105/199] fix: mean of tensor-valued functional tensors

---
 tensap/functions/functional_tensor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index e7b0380..8e2b42b 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -139,7 +139,8 @@ class FunctionalTensor(tensap.Function):
 
         """
         bases_eval = self.bases.mean(None, *measure)
-        return self.tensor.tensor_vector_product(bases_eval, self.fdims).tolist()
+        out = self.tensor.tensor_vector_product(bases_eval, self.fdims)
+        return out.tolist() if hasattr(out, "tolist") else out
 
     def expectation(self, *measure):
         """
-- 
2.43.0


From f90a29ff7d66f18958a41088518b0f95d054e4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:23 +0000
Subject: [PATCH 106/199] fix: evaluations of functional tensors in a part of
 the dimensions

---
 tensap/functions/functional_tensor.py | 32 ++++++++++++++-------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index 8e2b42b..d762a36 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -885,23 +885,25 @@ class FunctionalTensor(tensap.Function):
         if len(dims) == self.tensor.order:
             out = self.tensor.tensor_matrix_product_eval_diag(bases_eval).numpy()
         else:
+            fdims_eval = self.fdims[dims]
+            tensor = self.tensor.tensor_matrix_product_eval_diag(bases_eval, fdims_eval)
+            # Axis of the evaluations, in the tensor of the remaining dimensions
+            if isinstance(self.tensor, tensap.FullTensor):
+                axis = 0
+            else:
+                axis = np.min(fdims_eval)
+            if len(fdims_eval) == len(self.fdims):
+                return np.moveaxis(tensor.numpy(), axis, 0)
+
+            old_dims = np.setdiff1d(range(self.tensor.order), fdims_eval)
+            if tensor.shape[axis] == 1:
+                tensor = tensor.squeeze(axis)
+            else:
+                old_dims = np.insert(old_dims, axis, -1)
             out = deepcopy(self)
-            fdims_eval = out.fdims[dims]
-            out.tensor = out.tensor.tensor_matrix_product_eval_diag(
-                bases_eval, fdims_eval
-            )
-            fdims_eval.sort()
-            old_dims = np.setdiff1d(range(self.tensor.order), fdims_eval[2:])
-            if out.tensor.shape[fdims_eval[0]] == 1:
-                out.tensor = out.tensor.squeeze(fdims_eval[0])
-                old_dims = np.delete(old_dims, fdims_eval[0])
+            out.tensor = tensor
             out.bases = out.bases.remove_bases(dims)
-            out.fdims = np.delete(out.fdims, dims)
-            out.fdims = np.nonzero(np.isin(old_dims, out.fdims))[0]
-            if out.fdims.size == 0:
-                out = out.tensor
-                if out.order == 1:
-                    out = out.numpy()
+            out.fdims = np.nonzero(np.isin(old_dims, np.delete(self.fdims, dims)))[0]
         return out
 
     def storage(self):
-- 
2.43.0


From 1b4485b5399a0090729ad6dc54660bec3f52ea60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:23 +0000
Subject: [PATCH 107/199] fix: partial evaluation of a tree-based tensor at one
 point

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 8a17b4d..98c0f9a 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -1550,9 +1550,9 @@ class TreeBasedTensor:
         else:
             data = self.tensor_matrix_product(matrices, dims)
             dims = np.atleast_1d(dims)
-            if np.all([self.shape[d] == 1 for d in dims]):
+            if np.all([data.shape[d] == 1 for d in dims]):
                 if dims.size > 1:
-                    data = data.squeeze(dims[1:]).full()
+                    data = data.squeeze(np.sort(dims)[1:]).full()
             else:
                 raise NotImplementedError("Method not implemented.")
         return data
-- 
2.43.0


From f86d77f9b7cc364b4f0daba95cf0fce5c0d31868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:25 +0000
Subject: [PATCH 108/199] fix: evaluation of functional tensors on grids in a
 part of the dimensions

---
 tensap/functions/functional_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index d762a36..b5e47f8 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -810,7 +810,7 @@ class FunctionalTensor(tensap.Function):
             out = deepcopy(self)
             out.tensor = self.tensor.tensor_matrix_product(H, dims)
             out.bases = out.bases.remove_bases(dims)
-            out.fdims = out.fdims[np.setdiff1d(np.range(np.size(out.fdims)), dims)]
+            out.fdims = out.fdims[np.setdiff1d(range(np.size(out.fdims)), dims)]
             if np.size(out.fdims) == 0:
                 out = out.tensor
         return out
-- 
2.43.0


From 761677d798e80cb442c733534d0c5a92cef29a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:46 +0000
Subject: [PATCH 109/199] fix: product of vector-valued functional tensors

---
 tensap/functions/functional_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index b5e47f8..3b8f46e 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -420,7 +420,7 @@ class FunctionalTensor(tensap.Function):
                     c = out.tensor.tensors[root - 1]
                     n = self.tensor.ranks[root - 1]
                     s = [":"] * c.order
-                    s[-1] = np.arange(n**2, step=n)
+                    s[-1] = np.arange(0, n**2, n + 1)
                     c = c.sub_tensor(*s)
                     out.tensor.tensors[root - 1] = c
                     out.tensor.ranks[root - 1] = n
-- 
2.43.0


From b430e5de141c117b77a5d5aa30a3c42c811bb80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:46 +0000
Subject: [PATCH 110/199] fix: Gram matrices of orthonormal bases

---
 tensap/approximation/bases/functional_bases.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/functional_bases.py b/tensap/approximation/bases/functional_bases.py
index 5b9e05a..cdab3c3 100644
--- a/tensap/approximation/bases/functional_bases.py
+++ b/tensap/approximation/bases/functional_bases.py
@@ -480,7 +480,10 @@ class FunctionalBases:
         if dims is None:
             dims = range(len(self))
         if measure is None:
-            return [x.gram_matrix() for x in self.bases[dims]]
+            return [
+                np.eye(x.cardinal()) if x.is_orthonormal else x.gram_matrix()
+                for x in self.bases[dims]
+            ]
 
         if isinstance(measure, tensap.RandomVector):
             marginals = measure.random_variables
-- 
2.43.0


From 750bbf93800cce3affcbab01530067327ed79d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:02 +0000
Subject: [PATCH 111/199] fix: order of the products of two polynomial bases

---
 tensap/approximation/bases/polynomial_functional_basis.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tensap/approximation/bases/polynomial_functional_basis.py b/tensap/approximation/bases/polynomial_functional_basis.py
index e2bb69d..8b77326 100644
--- a/tensap/approximation/bases/polynomial_functional_basis.py
+++ b/tensap/approximation/bases/polynomial_functional_basis.py
@@ -132,7 +132,6 @@ class PolynomialFunctionalBasis(tensap.FunctionalBasis):
                     (1, self.cardinal(), 1),
                 ),
                 (np.shape(x)[0], self.cardinal() * q.cardinal()),
-                order="F",
             )
 
         measure = b.measure
-- 
2.43.0


From 4580894186dbe2603ae80a004b9ab57a0c4d446d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:38 +0000
Subject: [PATCH 112/199] fix: Gram matrices of full tensor-product bases with
 an integration rule

---
 .../bases/full_tensor_product_functional_basis.py         | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tensap/approximation/bases/full_tensor_product_functional_basis.py b/tensap/approximation/bases/full_tensor_product_functional_basis.py
index e0aa5d9..37ecf75 100644
--- a/tensap/approximation/bases/full_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/full_tensor_product_functional_basis.py
@@ -195,9 +195,9 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
 
         Parameters
         ----------
-        measure : tensap.Measure, optional
-            The measure defining the inner product. The default is None,
-            indicating to use the measure of the basis.
+        measure : tensap.Measure or tensap.IntegrationRule, optional
+            The measure or the integration rule defining the inner product.
+            The default is None, indicating to use the measure of the basis.
 
         Returns
         -------
@@ -205,6 +205,8 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
             The Gram matrix.
 
         """
+        if isinstance(measure, tensap.IntegrationRule):
+            return tensap.FunctionalBasis.gram_matrix(self, measure)
         ind = tensap.MultiIndices.bounded_by(self.bases.cardinals() - 1)
         h = tensap.SparseTensorProductFunctionalBasis(self.bases, ind)
         return h.gram_matrix(measure)
-- 
2.43.0


From 1e1528253466f875955f66d34d6730a984e52330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:48 +0000
Subject: [PATCH 113/199] fix: call of a function with storage of its
 evaluations

---
 tensap/functions/function.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/tensap/functions/function.py b/tensap/functions/function.py
index cd7bcda..d33a105 100644
--- a/tensap/functions/function.py
+++ b/tensap/functions/function.py
@@ -66,18 +66,15 @@ class Function:
             x = np.expand_dims(x, 1)
 
         if self.store:
-            y = self.store_eval(x)
-            if np.ndim(y) == 2 and np.shape(y)[1] == 1:
-                y = np.squeeze(y, axis=1)
-            return y
+            y, f = self.store_eval(x)
         else:
             y = self.eval(x)
-            if np.ndim(y) == 2 and np.shape(y)[1] == 1:
-                y = np.squeeze(y, axis=1)
             f = self
-            if return_f:
-                return y, f
-            return y
+        if np.ndim(y) == 2 and np.shape(y)[1] == 1:
+            y = np.squeeze(y, axis=1)
+        if return_f:
+            return y, f
+        return y
 
     def store_eval(self, x):
         """
-- 
2.43.0


From 35fa3ca6f480dc2c5e0bd30dce43c9ce7f80f9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:48 +0000
Subject: [PATCH 114/199] fix: stored evaluations of tensor-valued functions

---
 tensap/functions/function.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tensap/functions/function.py b/tensap/functions/function.py
index d33a105..b074d00 100644
--- a/tensap/functions/function.py
+++ b/tensap/functions/function.py
@@ -104,7 +104,7 @@ class Function:
 
             if np.prod(self.output_shape) != 1:
                 self._y_stored = np.reshape(
-                    self._y_stored, (self._y_stored.shape[0], -1), order="F"
+                    self._y_stored, (self._y_stored.shape[0], -1)
                 )
 
             y = np.zeros((x.shape[0], self._y_stored.shape[1]))
@@ -123,7 +123,6 @@ class Function:
             y = np.reshape(
                 y,
                 np.concatenate(([y.shape[0]], np.atleast_1d(self.output_shape))),
-                order="F",
             )
             if np.prod(self.output_shape) != 1:
                 self._y_stored = np.reshape(
@@ -131,7 +130,6 @@ class Function:
                     np.concatenate(
                         ([self._y_stored.shape[0]], np.atleast_1d(self.output_shape))
                     ),
-                    order="F",
                 )
         else:
             y = self.eval(x)
-- 
2.43.0


From 707d6d39b3d6f95cbb3fabc48c7abcf6718b3248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:48 +0000
Subject: [PATCH 115/199] fix: shape of stored evaluations at one point

---
 tensap/functions/function.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensap/functions/function.py b/tensap/functions/function.py
index b074d00..a28e716 100644
--- a/tensap/functions/function.py
+++ b/tensap/functions/function.py
@@ -140,7 +140,9 @@ class Function:
             self._x_stored = x
             self._y_stored = y
 
-        return np.squeeze(y), self
+        if np.ndim(y) == 2 and np.shape(y)[1] == 1:
+            y = np.squeeze(y, axis=1)
+        return y, self
 
     def fplot(self, support=None, n_points=100, *args, **kwargs):
         """
-- 
2.43.0


From 5c47bb5cb073567b7f38c649e899cfd314a4146e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:48 +0000
Subject: [PATCH 116/199] fix: stored evaluations shared with the caller

---
 tensap/functions/function.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/functions/function.py b/tensap/functions/function.py
index a28e716..d0e76a8 100644
--- a/tensap/functions/function.py
+++ b/tensap/functions/function.py
@@ -137,8 +137,8 @@ class Function:
                 y = np.reshape(y, [np.size(y), 1])
 
             self.store = True
-            self._x_stored = x
-            self._y_stored = y
+            self._x_stored = np.array(x)
+            self._y_stored = np.array(y)
 
         if np.ndim(y) == 2 and np.shape(y)[1] == 1:
             y = np.squeeze(y, axis=1)
-- 
2.43.0


From d4059d7c27639e16028ff4467d39323da1647c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:48 +0000
Subject: [PATCH 117/199] fix: partial evaluation without measure

---
 tensap/functions/function.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensap/functions/function.py b/tensap/functions/function.py
index d0e76a8..b45635d 100644
--- a/tensap/functions/function.py
+++ b/tensap/functions/function.py
@@ -269,7 +269,8 @@ class Function:
         f_alpha = tensap.UserDefinedFunction(fun, alpha.size)
         f_alpha.store = self.store
         f_alpha.evaluation_at_multiple_points = self.evaluation_at_multiple_points
-        f_alpha.measure = self.measure.marginal(alpha)
+        if self.measure is not None:
+            f_alpha.measure = self.measure.marginal(alpha)
 
         return f_alpha
 
-- 
2.43.0


From 8b9dd82e7fd305e2225926feadab04b7f62b690e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:48 +0000
Subject: [PATCH 118/199] fix: partial evaluation of vector-valued functions

---
 tensap/functions/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/function.py b/tensap/functions/function.py
index b45635d..c7fe8de 100644
--- a/tensap/functions/function.py
+++ b/tensap/functions/function.py
@@ -266,7 +266,7 @@ class Function:
             grid = tensap.FullTensorGrid([x_alpha, x_not_alpha])
             return self.eval(grid.array()[:, ind])
 
-        f_alpha = tensap.UserDefinedFunction(fun, alpha.size)
+        f_alpha = tensap.UserDefinedFunction(fun, alpha.size, self.output_shape)
         f_alpha.store = self.store
         f_alpha.evaluation_at_multiple_points = self.evaluation_at_multiple_points
         if self.measure is not None:
-- 
2.43.0


From ab6487c8e3d7e34b1f534c26e2544c28c0213fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:48 +0000
Subject: [PATCH 119/199] fix: random evaluations with a given measure

---
 tensap/functions/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/function.py b/tensap/functions/function.py
index c7fe8de..de3179f 100644
--- a/tensap/functions/function.py
+++ b/tensap/functions/function.py
@@ -305,7 +305,7 @@ class Function:
                 measure = self.measure
             else:
                 raise ValueError("Must provide a ProbabilityMeasure.")
-        elif not isinstance(self.measure, tensap.ProbabilityMeasure):
+        elif not isinstance(measure, tensap.ProbabilityMeasure):
             raise ValueError("Must provide a ProbabilityMeasure.")
 
         x = measure.random(n)
-- 
2.43.0


From 7ab517d605517edc1a675a0fcc35e76c74a0719b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:48 +0000
Subject: [PATCH 120/199] fix: test error with one test point in dimension one

---
 tensap/functions/function.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/functions/function.py b/tensap/functions/function.py
index de3179f..7ca6e48 100644
--- a/tensap/functions/function.py
+++ b/tensap/functions/function.py
@@ -388,13 +388,13 @@ class Function:
             g_x_test = g.eval(x_test)
             err_l2, err_linf = self.test_error(g_x_test, x_test)
         else:
-            if isinstance(g, tensap.Function) and np.size(n) == 1:
+            if isinstance(g, tensap.Function) and np.ndim(n) == 0:
                 if self.measure is not None:
                     measure = self.measure
                 else:
                     measure = g.measure
                 err_l2, err_linf = self.test_error(g, n, measure)
-            elif np.size(n) != 1:
+            elif np.ndim(n) != 0:
                 x_test = n
                 n = np.shape(x_test)[0]
                 f_x_test = self.eval(x_test)
-- 
2.43.0


From 6e3d0b78d155dce6b9fcfe7e58d1c65d9fb4e8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:48 +0000
Subject: [PATCH 121/199] fix: name of the benchmark 'sin_of_a_sum'

---
 tensap/functions/multivariate_functions_benchmark.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/multivariate_functions_benchmark.py b/tensap/functions/multivariate_functions_benchmark.py
index 2cacad7..eb6a0bd 100644
--- a/tensap/functions/multivariate_functions_benchmark.py
+++ b/tensap/functions/multivariate_functions_benchmark.py
@@ -110,7 +110,7 @@ def multivariate_functions_benchmark(case, *args):
                 + b * x[:, 2] ** 4 * np.sin(x[:, 0])
             )
 
-    elif case == "sin_of_asum":
+    elif case in ("sin_of_a_sum", "sin_of_asum"):
         if len(args) == 0:
             d = 3
         else:
-- 
2.43.0


From 93a48353dec07d58573674f5fefa4556d8faae08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:48 +0000
Subject: [PATCH 122/199] fix: benchmark 'product_peak'

---
 tensap/functions/multivariate_functions_benchmark.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/multivariate_functions_benchmark.py b/tensap/functions/multivariate_functions_benchmark.py
index eb6a0bd..d0156b4 100644
--- a/tensap/functions/multivariate_functions_benchmark.py
+++ b/tensap/functions/multivariate_functions_benchmark.py
@@ -243,7 +243,7 @@ def multivariate_functions_benchmark(case, *args):
 
             def fun(x):
                 return 1 / np.prod(
-                    np.tile(x ** (-2), (np.shape(x)[0], 1))
+                    np.tile(c ** (-2), (np.shape(x)[0], 1))
                     + (x + np.tile(w, (np.shape(x)[0], 1))) ** 2,
                     1,
                 )
-- 
2.43.0


From 0cfae0a829fae5498b456cebbc5bbd966f623513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:48 +0000
Subject: [PATCH 123/199] fix: benchmarks 'gaussian' and 'continuous'

---
 tensap/functions/multivariate_functions_benchmark.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tensap/functions/multivariate_functions_benchmark.py b/tensap/functions/multivariate_functions_benchmark.py
index d0156b4..e9c6c04 100644
--- a/tensap/functions/multivariate_functions_benchmark.py
+++ b/tensap/functions/multivariate_functions_benchmark.py
@@ -259,8 +259,8 @@ def multivariate_functions_benchmark(case, *args):
         elif case == "gaussian":
 
             def fun(x):
-                return np.matmul(
-                    np.exp(
+                return np.exp(
+                    np.matmul(
                         -((x - np.tile(w, (np.shape(x)[0], 1))) ** 2),
                         np.transpose(c) ** 2,
                     )
@@ -269,8 +269,8 @@ def multivariate_functions_benchmark(case, *args):
         elif case == "continuous":
 
             def fun(x):
-                return np.matmul(
-                    np.exp(
+                return np.exp(
+                    np.matmul(
                         -np.abs(x - np.tile(w, (np.shape(x)[0], 1))),
                         np.transpose(c) ** 2,
                     )
-- 
2.43.0


From 9ddae790e885f9526ebab156af83b34cf8409882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:05 +0000
Subject: [PATCH 124/199] fix: benchmark 'oscillatory'

---
 tensap/functions/multivariate_functions_benchmark.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/multivariate_functions_benchmark.py b/tensap/functions/multivariate_functions_benchmark.py
index e9c6c04..bca4c5d 100644
--- a/tensap/functions/multivariate_functions_benchmark.py
+++ b/tensap/functions/multivariate_functions_benchmark.py
@@ -237,7 +237,7 @@ def multivariate_functions_benchmark(case, *args):
         if case == "oscillatory":
 
             def fun(x):
-                return np.cos(w[0] * 2 * np.pi + np.matmul(x, np.transpose(c)))
+                return np.cos(w[0, 0] * 2 * np.pi + np.matmul(x, np.transpose(c)))
 
         elif case == "product_peak":
 
-- 
2.43.0


From 29974189a6498e8d3d116772084c784586128cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:19 +0000
Subject: [PATCH 125/199] fix: evaluation of a basis expansion on a tensor grid

---
 tensap/functions/function.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tensap/functions/function.py b/tensap/functions/function.py
index 7ca6e48..9968434 100644
--- a/tensap/functions/function.py
+++ b/tensap/functions/function.py
@@ -344,8 +344,7 @@ class Function:
         elif isinstance(x, tensap.FullTensorGrid):
             if np.all(self.output_shape == 1):
                 shape = x.shape
-                if self.dim > 1:
-                    fx = np.reshape(fx, shape, order="F")
+                fx = np.reshape(fx, shape, order="F")
             else:
                 shape = np.concatenate(
                     (np.atleast_1d(x.shape), np.atleast_1d(self.output_shape))
-- 
2.43.0


From 95db8a8b628305c8ea1c06b0b75da504f30aab68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:48 +0000
Subject: [PATCH 126/199] fix: penalty path with tied models

---
 tensap/approximation/tools/model_selection.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tensap/approximation/tools/model_selection.py b/tensap/approximation/tools/model_selection.py
index 9c05a7b..668036c 100644
--- a/tensap/approximation/tools/model_selection.py
+++ b/tensap/approximation/tools/model_selection.py
@@ -93,19 +93,20 @@ class ModelSelection:
         """
         comp = np.array(self.data["complexity"])
         risk = np.array(self.data["empirical_risk"])
+        pen = self.pen_shape(comp)
 
         path = []
         m_path = []
         lambda_0 = 0
         lambda_current = 0
-        ind = np.argmin(risk)
+        ind_min = np.lexsort((pen, risk))[0]
+        ind = ind_min
         ok = True
 
         while ok:
             with np.errstate(all="ignore"):
-                lambda_current = (risk - risk[ind]) / (
-                    self.pen_shape(comp[ind]) - self.pen_shape(comp)
-                )
+                lambda_current = (risk - risk[ind]) / (pen[ind] - pen)
+                lambda_current[pen >= pen[ind]] = np.nan
                 lambda_current[lambda_current <= lambda_0] = np.nan
                 lambda_current[lambda_current == np.inf] = np.nan
 
@@ -113,7 +114,8 @@ class ModelSelection:
             if ok:
                 lambda_0 = np.nanmin(lambda_current)
                 if not np.isnan(lambda_0):
-                    ind = np.nanargmin(lambda_current)
+                    ties = np.nonzero(lambda_current == lambda_0)[0]
+                    ind = ties[np.argmin(pen[ties])]
                     path.append(lambda_0)
                     m_path.append(ind)
 
@@ -123,7 +125,6 @@ class ModelSelection:
         else:
             path = np.atleast_1d(path)
             m_path = np.atleast_1d(m_path)
-            ind_min = np.argmin(risk)
             path = np.concatenate(([path[0] / 2], path, [path[-1] * 2]))
             m_path = np.concatenate(([ind_min], m_path, [m_path[-1]]))
         return np.array(path), np.array(m_path)
-- 
2.43.0


From 4e4c8f375e02cf3f284de8a4bfad99edb5e41242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:48 +0000
Subject: [PATCH 127/199] fix: penalty path with a single selected model

---
 tensap/approximation/tools/model_selection.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/tools/model_selection.py b/tensap/approximation/tools/model_selection.py
index 668036c..757adba 100644
--- a/tensap/approximation/tools/model_selection.py
+++ b/tensap/approximation/tools/model_selection.py
@@ -120,8 +120,8 @@ class ModelSelection:
                     m_path.append(ind)
 
         if path == []:
-            path = 0
-            m_path = 0
+            path = [0]
+            m_path = [ind_min]
         else:
             path = np.atleast_1d(path)
             m_path = np.atleast_1d(m_path)
@@ -171,6 +171,9 @@ class ModelSelection:
 
         if lambda_path is None and m_path is None:
             lambda_path, m_path = self.lambda_path()
+        # If the same model is selected for every penalization factor
+        if np.size(lambda_path) == 1:
+            return 0, np.ravel(m_path)[0], lambda_path, m_path
         l_mid = (lambda_path[:-1] + lambda_path[1:]) / 2
         gaps = comp[self.m_lambda(l_mid[:-1])] - comp[self.m_lambda(l_mid[1:])]
         ind = np.argmax(gaps)
-- 
2.43.0


From 0b780d0599f6fcd68ffbdc772583eb7d07f57893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:48 +0000
Subject: [PATCH 128/199] fix: complexity of basis expansions with a given
 storage function

---
 tensap/approximation/tools/model_selection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/tools/model_selection.py b/tensap/approximation/tools/model_selection.py
index 757adba..01264d4 100644
--- a/tensap/approximation/tools/model_selection.py
+++ b/tensap/approximation/tools/model_selection.py
@@ -212,7 +212,7 @@ class ModelSelection:
         if isinstance(x, (list, np.ndarray)):
             return [ModelSelection.complexity(y, *args, **kwargs) for y in x]
         if isinstance(x, tensap.FunctionalBasisArray):
-            return np.size(x.data)
+            return ModelSelection.complexity_functional_basis_array(x, *args, **kwargs)
         if isinstance(x, tensap.FunctionalTensor):
             return ModelSelection.complexity(x.tensor, *args, **kwargs)
         if isinstance(x, tensap.TreeBasedTensor):
-- 
2.43.0


From b55001761ff021cad1ec135c7641f8c52d0e67e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:41 +0000
Subject: [PATCH 129/199] fix: optimisation of a tree without admissible
 permutation

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 98c0f9a..3fa0470 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -766,6 +766,9 @@ class TreeBasedTensor:
 
         nodes = tensap.fast_setdiff(np.arange(1, nb_nodes + 1), self.tree.root)
 
+        if not np.any([self.nodes_permutation_cost(x) for x in nodes]):
+            return tensor_star
+
         proba_m = 1 / np.arange(1, self.order + 1) ** 2
 
         c_star = self.storage()
-- 
2.43.0


From 2f6c939f71dd53bcb105b2168a3f9164391fd953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:41 +0000
Subject: [PATCH 130/199] fix: nodes_permutation_cost modified the ranks of the
 tensor

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 3fa0470..14e33ab 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -714,10 +714,9 @@ class TreeBasedTensor:
 
         """
         tree = self.tree
-        ranks = self.ranks
-        ranks[self.non_active_nodes - 1] = self.shape[
-            np.logical_not(self.is_active_node[tree.dim2ind - 1])
-        ]
+        ranks = np.array(self.ranks)
+        non_active_dims = np.logical_not(self.is_active_node[tree.dim2ind - 1])
+        ranks[tree.dim2ind[non_active_dims] - 1] = self.shape[non_active_dims]
 
         cost = np.zeros(tree.nb_nodes)
         for beta in np.arange(1, tree.nb_nodes + 1):
-- 
2.43.0


From 12376a3d4fe2c5c1180ac07a10159170b8927b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:16 +0000
Subject: [PATCH 131/199] fix: arithmetic of canonical tensors shared its
 operands' factors

---
 tensap/tensor_algebra/tensors/canonical_tensor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/canonical_tensor.py b/tensap/tensor_algebra/tensors/canonical_tensor.py
index 28f2382..dd40125 100644
--- a/tensap/tensor_algebra/tensors/canonical_tensor.py
+++ b/tensap/tensor_algebra/tensors/canonical_tensor.py
@@ -92,10 +92,10 @@ class CanonicalTensor:
         return -self + arg
 
     def __mul__(self, arg):
-        return CanonicalTensor(list(self.space), self.core.data * arg)
+        return CanonicalTensor(deepcopy(list(self.space)), self.core.data * arg)
 
     def __neg__(self):
-        return CanonicalTensor(list(self.space), -self.core.data)
+        return CanonicalTensor(deepcopy(list(self.space)), -self.core.data)
 
     def __repr__(self):
         return (
@@ -241,7 +241,7 @@ class CanonicalTensor:
             space = list(self.space)
             for i, dim in enumerate(dims):
                 core = core * space[dim]
-            space = [space[i] for i in remaining_dims.tolist()]
+            space = [np.array(space[i]) for i in remaining_dims.tolist()]
             tensor = CanonicalTensor(space, core)
 
         return tensor
-- 
2.43.0


From 1b8b866b4d8bf86df06b2c4b49ab5253796ecc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:16 +0000
Subject: [PATCH 132/199] fix: permute_leaves modified the given permutation

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 14e33ab..9269158 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -1063,7 +1063,7 @@ class TreeBasedTensor:
 
         """
         tensor = self
-        perm = np.atleast_1d(perm)
+        perm = np.array(perm, ndmin=1)
         if not np.array_equal(perm, np.sort(perm)):
             # Decomposition of the permutation into a sequence of elementary
             # permutations of two dimensions
-- 
2.43.0


From 23e29e4bd04ef3fbbb352dadc8e706ec579ecf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:16 +0000
Subject: [PATCH 133/199] fix: reduce_sum and reduce_mean over a list of
 dimensions

---
 tensap/tensor_algebra/tensors/full_tensor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tensap/tensor_algebra/tensors/full_tensor.py b/tensap/tensor_algebra/tensors/full_tensor.py
index bf608a0..df5f21c 100644
--- a/tensap/tensor_algebra/tensors/full_tensor.py
+++ b/tensap/tensor_algebra/tensors/full_tensor.py
@@ -614,6 +614,8 @@ class FullTensor:
             The reduced tensor.
 
         """
+        if dims is not None:
+            dims = tuple(np.atleast_1d(dims).tolist())
         return FullTensor(np.sum(self.data, dims, keepdims=True))
 
     def reduce_mean(self, dims=None):
@@ -634,6 +636,8 @@ class FullTensor:
             The reduced tensor.
 
         """
+        if dims is not None:
+            dims = tuple(np.atleast_1d(dims).tolist())
         return FullTensor(np.mean(self.data, dims, keepdims=True))
 
     def kron(self, tensor2):
-- 
2.43.0


From ca4cf1de288f20261dcb93a6466428902f51b150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:31 +0000
Subject: [PATCH 134/199] fix: tensor-product interpolation of a tensor

---
 .../bases/full_tensor_product_functional_basis.py         | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/bases/full_tensor_product_functional_basis.py b/tensap/approximation/bases/full_tensor_product_functional_basis.py
index 37ecf75..13fea88 100644
--- a/tensap/approximation/bases/full_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/full_tensor_product_functional_basis.py
@@ -332,8 +332,12 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
         # TODO Create an empty class Tensor for when using isinstance?
         elif isinstance(
             fun,
-            (tensap.FullTensor, tensap.CanonicalTensor, tensap.TreeBasedTensor),
-            tensap.DiagonalTensor,
+            (
+                tensap.FullTensor,
+                tensap.CanonicalTensor,
+                tensap.TreeBasedTensor,
+                tensap.DiagonalTensor,
+            ),
         ):
             y = fun
         else:
-- 
2.43.0


From 3894b46ca2c61aa34116f7c8c65f1d72acdf75c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:31 +0000
Subject: [PATCH 135/199] fix: interpolation on a full tensor-product basis
 without points

---
 tensap/approximation/bases/functional_basis.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tensap/approximation/bases/functional_basis.py b/tensap/approximation/bases/functional_basis.py
index 70c7ffc..9926a3c 100644
--- a/tensap/approximation/bases/functional_basis.py
+++ b/tensap/approximation/bases/functional_basis.py
@@ -139,6 +139,9 @@ class FunctionalBasis:
         """
         if x is None:
             x = self.interpolation_points()
+            if isinstance(x, tuple):
+                # Points and grids of a full tensor product basis
+                x = x[0]
         try:
             y = y(x)
         except Exception:
-- 
2.43.0


From b07f55810b8fcea10107046def1b857b7359b5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:31 +0000
Subject: [PATCH 136/199] fix: projection of given values

---
 tensap/approximation/bases/functional_basis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/bases/functional_basis.py b/tensap/approximation/bases/functional_basis.py
index 9926a3c..ad50c01 100644
--- a/tensap/approximation/bases/functional_basis.py
+++ b/tensap/approximation/bases/functional_basis.py
@@ -297,7 +297,7 @@ class FunctionalBasis:
         try:
             y = fun(G.points)
         except Exception:
-            pass
+            y = fun
 
         A = self.eval(G.points)
         W = diags(np.sqrt(G.weights))
@@ -335,7 +335,7 @@ class FunctionalBasis:
         try:
             y = fun(G.points)
         except Exception:
-            pass
+            y = fun
 
         u = np.matmul(np.transpose(A), W.dot(y))
 
-- 
2.43.0


From add5bad54b758ed02a1c18e8a2b18c3edb5315cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:31 +0000
Subject: [PATCH 137/199] fix: interpolation points of piecewise polynomials
 among given points

---
 .../piecewise_polynomial_functional_basis.py     | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/tensap/approximation/bases/piecewise_polynomial_functional_basis.py b/tensap/approximation/bases/piecewise_polynomial_functional_basis.py
index 188ea21..0ef6bc5 100644
--- a/tensap/approximation/bases/piecewise_polynomial_functional_basis.py
+++ b/tensap/approximation/bases/piecewise_polynomial_functional_basis.py
@@ -144,11 +144,15 @@ class PiecewisePolynomialFunctionalBasis(tensap.FunctionalBasis):
         m[q] = np.sqrt(h)
         return m
 
-    def interpolation_points(self):
+    def interpolation_points(self, *args):
         """
         Returns interpolation points for the
-        PiecewisePolynomialFunctionalBasis.
+        PiecewisePolynomialFunctionalBasis, selected among the given points if
+        any.
         """
+        if args:
+            return super().interpolation_points(*args)
+
         unique_p = np.unique(self.p)
         u = [0.5 * (1 + tensap.chebyshev_points(p + 1)) for p in unique_p]
 
@@ -165,10 +169,14 @@ class PiecewisePolynomialFunctionalBasis(tensap.FunctionalBasis):
 
         return x
 
-    def magic_points(self):
+    def magic_points(self, *args):
         """
-        Returns magic points for the PiecewisePolynomialFunctionalBasis.
+        Returns magic points for the PiecewisePolynomialFunctionalBasis. If
+        points are given, see tensap.FunctionalBasis.magic_points.
         """
+        if args:
+            return super().magic_points(*args)
+
         unique_p = np.unique(self.p)
         u = []
         for i in range(unique_p.size):
-- 
2.43.0


From 464f084a36ef679e77b17331fcf4219d5e3de10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:42 +0000
Subject: [PATCH 138/199] fix: projection with rules of different sizes

---
 .../approximation/bases/full_tensor_product_functional_basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/full_tensor_product_functional_basis.py b/tensap/approximation/bases/full_tensor_product_functional_basis.py
index 13fea88..bc43100 100644
--- a/tensap/approximation/bases/full_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/full_tensor_product_functional_basis.py
@@ -264,7 +264,7 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
 
         u = fun.eval_on_tensor_grid(I0.points)
         output = {"number_of_evaluations": u.storage()}
-        Hx = self.bases.eval(np.hstack(I0.points.grids))
+        Hx = self.bases.eval(I0.points.grids)
 
         Mx = [
             np.matmul(np.transpose(x), np.matmul(np.diag(y), x))
-- 
2.43.0


From 5d38c394fd9faa437984cbfeedf42ce1018c56c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:25 +0000
Subject: [PATCH 139/199] fix: solving a least-squares problem altered the
 training data

---
 .../linear_model_learning_square_loss.py      | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index d5c355a..daa881c 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -76,6 +76,29 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
         Solution (Ordinary or Regularized) of the Least-Squares problem and
         cross-validation procedure.
 
+        Returns
+        -------
+        sol : numpy.ndarray or tensap.FunctionalBasisArray
+            The solution of the minimization problem.
+        output : dict
+            Outputs of the algorithm.
+
+        """
+        basis_eval, basis_eval_test = self.basis_eval, self.basis_eval_test
+        training_data = self.training_data
+        self.training_data = list(training_data)
+        try:
+            return self._solve()
+        finally:
+            self.training_data = training_data
+            self.basis_eval = basis_eval
+            self.basis_eval_test = basis_eval_test
+
+    def _solve(self):
+        """
+        Solution of the Least-Squares problem, possibly modifying basis_eval
+        and training_data.
+
         Returns
         -------
         sol : numpy.ndarray or tensap.FunctionalBasisArray
-- 
2.43.0


From bd67c6f3f9d954d493ee1a6c327a6af5ab39b8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:25 +0000
Subject: [PATCH 140/199] fix: density estimation kept evaluations of the basis
 at old points

---
 .../linear_model_learning_density_l2.py       | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/tensap/approximation/learning/linear_model_learning_density_l2.py b/tensap/approximation/learning/linear_model_learning_density_l2.py
index 68a2af4..9f947c5 100644
--- a/tensap/approximation/learning/linear_model_learning_density_l2.py
+++ b/tensap/approximation/learning/linear_model_learning_density_l2.py
@@ -54,6 +54,25 @@ class LinearModelLearningDensityL2(tensap.LinearModelLearning):
         Solution (Ordinary or Regularized) of the minimization problem and
         cross-validation procedure.
 
+        Returns
+        -------
+        sol : numpy.ndarray  or tensap.FunctionalBasisArray
+            The solution of the minimization problem.
+        output : dict
+            Outputs of the algorithm.
+
+        """
+        basis_eval, basis_eval_test = self.basis_eval, self.basis_eval_test
+        try:
+            return self._solve()
+        finally:
+            self.basis_eval = basis_eval
+            self.basis_eval_test = basis_eval_test
+
+    def _solve(self):
+        """
+        Solution of the minimization problem, possibly modifying basis_eval.
+
         Returns
         -------
         sol : numpy.ndarray  or tensap.FunctionalBasisArray
-- 
2.43.0


From 70c0085e8750c7db898a023ff8a1c95606b419b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:25 +0000
Subject: [PATCH 141/199] fix: weights of least squares

---
 .../learning/linear_model_learning_square_loss.py           | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index daa881c..2b86b61 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -132,8 +132,10 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
 
         if self.weights is not None:
             weights = diags(np.sqrt(self.weights))
-            A = np.matmul(weights, A)
-            y = np.matmul(weights, y)
+            A = weights @ A
+            y = weights @ y
+            self.basis_eval = A
+            self.training_data[1] = y
 
         if not self.basis_adaptation:
             if not self.regularization:
-- 
2.43.0


From 1f3b6e569171e4089c837ddc070ebb9b2ae3545c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:25 +0000
Subject: [PATCH 142/199] fix: leave-one-out error of several outputs

---
 .../learning/linear_model_learning_square_loss.py             | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index 2b86b61..dda6b03 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -595,7 +595,9 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                 T = np.sum(q_A**2, 1)
 
             with np.errstate(divide="ignore", invalid="ignore"):
-                delta = (y - np.matmul(A, sol)) / (1 - np.reshape(T, y.shape))
+                delta = (y - np.matmul(A, sol)) / (
+                    1 - np.reshape(T, (N,) + (1,) * (np.ndim(y) - 1))
+                )
             delta = np.squeeze(delta)
             # Compute the absolute cross-validation error
             err = np.mean(delta**2, 0)
-- 
2.43.0


From ab97c0fa4d1f4807e50598a51e8805fd18a509d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:25 +0000
Subject: [PATCH 143/199] fix: k-fold error of several outputs

---
 .../learning/linear_model_learning_square_loss.py             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index dda6b03..594b9ee 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -638,14 +638,14 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                 )
                 # Compute the absolute cross-validation error for the current
                 # fold
-                errors.append(np.mean(delta_loc**2))
+                errors.append(np.mean(delta_loc**2, 0))
                 if n == 1:
                     delta[test] = delta_loc
                 else:
                     delta[test, :] = delta_loc
 
             # Average over the folds
-            err = np.mean(errors)
+            err = np.mean(errors, 0)
             delta = np.squeeze(delta)
         else:
             raise NotImplementedError(
-- 
2.43.0


From 91b739c30700f6013b715ae0f4e03e52434c1c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:25 +0000
Subject: [PATCH 144/199] fix: cross-validation changed the options of the
 solver

---
 .../linear_model_learning_square_loss.py      | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index 594b9ee..8eb8c02 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -552,11 +552,13 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
         err = np.zeros(n)
         delta = np.zeros(y.shape)
 
-        if self.error_estimation_type == "k_fold":
-            if "number_of_folds" not in self.error_estimation_options:
-                self.error_estimation_options["number_of_folds"] = np.min([10, N])
-            if self.error_estimation_options["number_of_folds"] == N:
-                self.error_estimation_type = "leave_out"
+        error_estimation_type = self.error_estimation_type
+        if error_estimation_type == "k_fold":
+            n_folds = self.error_estimation_options.get(
+                "number_of_folds", np.min([10, N])
+            )
+            if n_folds == N:
+                error_estimation_type = "leave_out"
 
         if not args and linear_solver is None:
             if P > N:
@@ -578,7 +580,7 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
         # estimate of the mean-squared error), also called mean predicted
         # residual sum of squares (PRESS) or empirical mean-squared predicted
         # residual
-        if self.error_estimation_type == "leave_out":
+        if error_estimation_type == "leave_out":
             if N - 1 < P:
                 err = np.full(err.shape, np.inf)
                 delta = np.squeeze(np.full(delta.shape, np.inf))
@@ -601,10 +603,10 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
             delta = np.squeeze(delta)
             # Compute the absolute cross-validation error
             err = np.mean(delta**2, 0)
-        elif self.error_estimation_type == "k_fold":
+        elif error_estimation_type == "k_fold":
             from sklearn.model_selection import KFold
 
-            n_folds = np.min((N, self.error_estimation_options["number_of_folds"]))
+            n_folds = np.min((N, n_folds))
 
             if N * (1 - 1 / n_folds) < P:
                 # print('Not enough samples for performing OLS on the ' +
@@ -649,7 +651,7 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
             delta = np.squeeze(delta)
         else:
             raise NotImplementedError(
-                "Cross-validation {} not implemented".format(self.error_estimation_type)
+                "Cross-validation {} not implemented".format(error_estimation_type)
             )
 
         # Compute the relative cross-validation error
-- 
2.43.0


From fcdaf9622a22f06b9b5f53814121434ef5820e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:15 +0000
Subject: [PATCH 145/199] fix: least squares with dependent columns

---
 .../learning/linear_model_learning_square_loss.py  | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index 8eb8c02..07948be 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -204,15 +204,15 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
 
         if self.linear_solver == "solve":
             B = np.matmul(np.transpose(A), A)
-            try:
+            if np.linalg.matrix_rank(A) == A.shape[1]:
                 sol = np.linalg.solve(B, np.matmul(np.transpose(A), y))
-            except Exception:
-                sol = np.linalg.lstsq(B, np.matmul(np.transpose(A), y), None)[0]
+            else:
+                sol = np.linalg.lstsq(A, y, None)[0]
         elif self.linear_solver == "qr":
             q_A, r_A = np.linalg.qr(A)
-            try:
+            if np.linalg.matrix_rank(r_A) == A.shape[1]:
                 sol = np.linalg.solve(r_A, np.matmul(np.transpose(q_A), y))
-            except Exception:
+            else:
                 sol = np.linalg.lstsq(r_A, np.matmul(np.transpose(q_A), y), None)[0]
 
         if self.error_estimation:
@@ -442,9 +442,9 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
 
             if self.linear_solver == "qr":
                 q_A, r_A = np.linalg.qr(A_red)
-                try:
+                if np.linalg.matrix_rank(r_A) == A_red.shape[1]:
                     sol_red = np.linalg.solve(r_A, np.matmul(np.transpose(q_A), y))
-                except Exception:
+                else:
                     sol_red = np.linalg.lstsq(
                         r_A, np.matmul(np.transpose(q_A), y), None
                     )[0]
-- 
2.43.0


From 7cc3c12dba9d795a6823fc3e76830c8ecc62d251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:15 +0000
Subject: [PATCH 146/199] fix: Gram matrix along a path of supports

---
 .../learning/linear_model_learning_square_loss.py         | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index 07948be..53c47c6 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -433,7 +433,9 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
 
             A_red = A[:, ind]
             if "gram_matrix" in self.error_estimation_options:
-                self.error_estimation_options["gram_matrix"] = gram_matrix[ind, ind]
+                self.error_estimation_options["gram_matrix"] = gram_matrix[
+                    np.ix_(ind, ind)
+                ]
 
             if A_red.shape[1] > A_red.shape[0]:
                 self.linear_solver = "solve"
@@ -474,6 +476,10 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                 err[i + 1:] = np.inf
                 delta[:, i + 1:] = np.inf
 
+        if "gram_matrix" in self.error_estimation_options:
+            self.error_estimation_options["gram_matrix"] = gram_matrix
+        self.linear_solver = linear_solver
+
         ind = np.argmin(err)
 
         output["error"] = err[ind]
-- 
2.43.0


From a754d1f811ff79448e7923cefa07d46745ba36cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:15 +0000
Subject: [PATCH 147/199] fix: cross-validation error when a fold determines a
 coefficient

---
 .../learning/linear_model_learning_square_loss.py   | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index 53c47c6..76c43c3 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -606,6 +606,8 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                 delta = (y - np.matmul(A, sol)) / (
                     1 - np.reshape(T, (N,) + (1,) * (np.ndim(y) - 1))
                 )
+            # Samples whose removal makes the problem underdetermined
+            delta[1 - T <= 10 * N * np.finfo(float).eps] = np.inf
             delta = np.squeeze(delta)
             # Compute the absolute cross-validation error
             err = np.mean(delta**2, 0)
@@ -640,10 +642,13 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                     y_loc = y[test]
                 else:
                     y_loc = y[test, :]
-                delta_loc = np.linalg.solve(
-                    np.eye(len(test)) - H[np.ix_(test, test)],
-                    y_loc - np.matmul(A[test, :], sol),
-                )
+                M_loc = np.eye(len(test)) - H[np.ix_(test, test)]
+                delta_loc = y_loc - np.matmul(A[test, :], sol)
+                if np.linalg.norm(M_loc, -2) > 10 * N * np.finfo(float).eps:
+                    delta_loc = np.linalg.solve(M_loc, delta_loc)
+                else:
+                    # Underdetermined problem without the current fold
+                    delta_loc = np.full(delta_loc.shape, np.inf)
                 # Compute the absolute cross-validation error for the current
                 # fold
                 errors.append(np.mean(delta_loc**2, 0))
-- 
2.43.0


From 058e94f97e62c58858192f7751ad490a433afb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:15 +0000
Subject: [PATCH 148/199] fix: l0 regularization

---
 .../learning/linear_model_learning_square_loss.py         | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index 76c43c3..8ca44e5 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -263,9 +263,9 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
 
         options = self.regularization_options
         if self.regularization_type == "l0":
-            options_loc = {i: output[i] for i in output if i != "alpha"}
+            options_loc = {i: options[i] for i in options if i != "alpha"}
             D = np.linalg.norm(A, axis=0)
-            A_omp = np.matmul(A, diags(1 / D))
+            A_omp = A / D
             solpath = linear_model.orthogonal_mp(
                 A_omp,
                 y,
@@ -274,8 +274,8 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                 return_path=True,
                 **options_loc
             )
-            solpath = np.atleast_2d(solpath)
-            sol = np.matmul(diags(1 / D), solpath[:, -1])
+            solpath = np.reshape(solpath, (P, -1)) / D[:, np.newaxis]
+            sol = solpath[:, -1]
         elif self.regularization_type == "l1":
             reg = linear_model.LassoLars(copy_X=True, fit_intercept=False, **options)
             reg.fit(A, y)
-- 
2.43.0


From 5b53f4fc282fd3879083b171094c873dc61bcf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:15 +0000
Subject: [PATCH 149/199] fix: non-zero blocks of regularization paths

---
 .../approximation/learning/linear_model_learning_square_loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index 8ca44e5..d199b1b 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -291,7 +291,7 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
         if (self.model_selection and np.linalg.norm(
                 solpath) != 0) and solpath.shape[1] > 1:
             if "non_zero_blocks" in self.options:
-                rep = np.true(solpath.shape[1])
+                rep = np.full(solpath.shape[1], True)
                 rep = np.logical_and(rep, np.any(solpath, 0))
                 for block in self.options["non_zero_blocks"]:
                     rep = np.logical_and(rep, np.any(solpath[block, :], 0))
-- 
2.43.0


From 3c476db4c656567cfba76403b2d1c5619131d244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:15 +0000
Subject: [PATCH 150/199] fix: regularization of several outputs without error
 estimation

---
 .../learning/linear_model_learning_square_loss.py             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index d199b1b..5b567a4 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -150,7 +150,7 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                     for ind in range(n):
                         self.training_data[1] = y[:, ind]
                         sol[:, ind], output_tmp = self._solve_regularized_ls()
-                        output["error"][ind] = output_tmp["error"]
+                        output["error"][ind] = output_tmp.get("error", np.nan)
                         output["outputs"][ind] = output_tmp
         else:
             if n == 1:
@@ -162,7 +162,7 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                 for ind in range(n):
                     self.training_data[1] = y[:, ind]
                     sol[:, ind], output_tmp = self._solve_basis_adaptation()
-                    output["error"][ind] = output_tmp["error"]
+                    output["error"][ind] = output_tmp.get("error", np.nan)
                     output["outputs"][ind] = output_tmp
 
         if self.test_error:
-- 
2.43.0


From c1fa78c2ba517b4ed2a254fc0ff3759b3cb29e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:15 +0000
Subject: [PATCH 151/199] fix: stop_if_error_increase of least squares

---
 .../approximation/learning/linear_model_learning_square_loss.py  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index 5b567a4..66ad4db 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -475,6 +475,7 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                 print("stop_if_error_increase")
                 err[i + 1:] = np.inf
                 delta[:, i + 1:] = np.inf
+                break
 
         if "gram_matrix" in self.error_estimation_options:
             self.error_estimation_options["gram_matrix"] = gram_matrix
-- 
2.43.0


From d998e66b8f1e52d3ea779c6ea6fa4c791328e9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:15 +0000
Subject: [PATCH 152/199] fix: stop_if_error_increase of density estimation

---
 .../approximation/learning/linear_model_learning_density_l2.py   | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensap/approximation/learning/linear_model_learning_density_l2.py b/tensap/approximation/learning/linear_model_learning_density_l2.py
index 9f947c5..2c0d9a5 100644
--- a/tensap/approximation/learning/linear_model_learning_density_l2.py
+++ b/tensap/approximation/learning/linear_model_learning_density_l2.py
@@ -376,6 +376,7 @@ class LinearModelLearningDensityL2(tensap.LinearModelLearning):
             ):
                 print("stop_if_error_increase")
                 err[i + 1:] = np.inf
+                break
 
         ind = np.argmin(err)
 
-- 
2.43.0


From 2819a18ed54aca7561fcf03999f829f902ac153f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:15 +0000
Subject: [PATCH 153/199] fix: test error of several outputs

---
 .../learning/linear_model_learning_square_loss.py             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index 66ad4db..c4dd98d 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -172,12 +172,12 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                     f_eval, self.test_data
                 )
             else:
-                output["test_error"] = np.zeros([1, n])
+                output["test_error"] = np.zeros(n)
                 f_eval = np.matmul(self.basis_eval_test, sol)
                 for ind in range(n):
                     test_data = [self.test_data[0], self.test_data[1][:, ind]]
                     output["test_error"][ind] = self.loss_function.test_error(
-                        f_eval, test_data
+                        f_eval[:, ind], test_data
                     )
 
         if self.basis is not None:
-- 
2.43.0


From 299a8ba595476ac0837aabe0d34136d1f28fd56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:15 +0000
Subject: [PATCH 154/199] fix: test error of density estimation

---
 .../learning/linear_model_learning_density_l2.py              | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/learning/linear_model_learning_density_l2.py b/tensap/approximation/learning/linear_model_learning_density_l2.py
index 2c0d9a5..462fd88 100644
--- a/tensap/approximation/learning/linear_model_learning_density_l2.py
+++ b/tensap/approximation/learning/linear_model_learning_density_l2.py
@@ -45,7 +45,7 @@ class LinearModelLearningDensityL2(tensap.LinearModelLearning):
         None.
 
         """
-        super().__init__(tensap.SquareLossFunction())
+        super().__init__(tensap.DensityL2LossFunction())
 
         self.is_basis_orthonormal = True
 
@@ -93,7 +93,7 @@ class LinearModelLearningDensityL2(tensap.LinearModelLearning):
         if self.test_error:
             f_eval = np.matmul(self.basis_eval_test, sol)
             output["test_error"] = self.loss_function.test_error(
-                f_eval, self.test_data, sol.norm() ** 2
+                f_eval, self.test_data, np.linalg.norm(sol)
             )
 
         if self.basis is not None:
-- 
2.43.0


From 944aecca6d0a2ceb509136b2cdef4a4329e7ffb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:15 +0000
Subject: [PATCH 155/199] fix: regularized density estimation with included
 coefficients and a linear part

---
 .../approximation/learning/linear_model_learning_density_l2.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/learning/linear_model_learning_density_l2.py b/tensap/approximation/learning/linear_model_learning_density_l2.py
index 462fd88..a45ade7 100644
--- a/tensap/approximation/learning/linear_model_learning_density_l2.py
+++ b/tensap/approximation/learning/linear_model_learning_density_l2.py
@@ -207,7 +207,7 @@ class LinearModelLearningDensityL2(tensap.LinearModelLearning):
                     / (N * (N - 1) ** 2)
                     * np.sum(np.ravel(A_square_sum)[incl_coef])
                     - 2 / (N - 1) * np.sum(np.matmul(A, sol_incl_coef))
-                    + 2 * np.sum(sol_incl_coef * b_incl_coef)
+                    + 2 * np.sum(sol_incl_coef[incl_coef] * b_incl_coef)
                 )
 
         if list_sort.size == 0:
-- 
2.43.0


From 5bfbb3fa3e0f3a48aac1efe4d081e17b76e1c14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:15 +0000
Subject: [PATCH 156/199] fix: square loss of one-dimensional values

---
 tensap/approximation/learning/loss_functions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/learning/loss_functions.py b/tensap/approximation/learning/loss_functions.py
index d1f1105..0512b22 100644
--- a/tensap/approximation/learning/loss_functions.py
+++ b/tensap/approximation/learning/loss_functions.py
@@ -163,8 +163,12 @@ class SquareLossFunction(LossFunction):
             except Exception:
                 y_pred = fun
 
-        y_pred = np.atleast_2d(y_pred)
-        y_true = np.atleast_2d(sample[1])
+        y_pred, y_true = np.atleast_1d(y_pred), np.atleast_1d(sample[1])
+        # One-dimensional arrays contain one value for each sample
+        if y_pred.ndim == 1:
+            y_pred = y_pred[:, np.newaxis]
+        if y_true.ndim == 1:
+            y_true = y_true[:, np.newaxis]
         loss = np.sum((y_pred - y_true) ** 2, 1)
 
         if nargout == 1:
-- 
2.43.0


From 689f635e8af0ba06b078893bdad1bacaeec73b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:15 +0000
Subject: [PATCH 157/199] fix: density loss on an array of samples

---
 tensap/approximation/learning/loss_functions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/learning/loss_functions.py b/tensap/approximation/learning/loss_functions.py
index 0512b22..46030fb 100644
--- a/tensap/approximation/learning/loss_functions.py
+++ b/tensap/approximation/learning/loss_functions.py
@@ -215,11 +215,12 @@ class DensityL2LossFunction(LossFunction):
         self.error_type = "risk"
 
     def eval(self, fun, sample, *args, nargout=1):
+        x = sample[0] if isinstance(sample, list) else sample
         try:
-            y_pred = fun.eval(sample[0])
+            y_pred = fun.eval(x)
         except Exception:
             try:
-                y_pred = fun(sample[0])
+                y_pred = fun(x)
             except Exception:
                 y_pred = fun
 
-- 
2.43.0


From bcfb88fa5062bccde476a9e197b04198f0b5389d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:43 +0000
Subject: [PATCH 158/199] fix: normal equations with a singular matrix

---
 .../approximation/learning/linear_model_learning_square_loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index c4dd98d..3ca42ed 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -204,7 +204,7 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
 
         if self.linear_solver == "solve":
             B = np.matmul(np.transpose(A), A)
-            if np.linalg.matrix_rank(A) == A.shape[1]:
+            if np.linalg.matrix_rank(B) == B.shape[0]:
                 sol = np.linalg.solve(B, np.matmul(np.transpose(A), y))
             else:
                 sol = np.linalg.lstsq(A, y, None)[0]
-- 
2.43.0


From 389ee073cafa84b1203f3415146db1142bd73baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:57 +0000
Subject: [PATCH 159/199] fix: iterates of learning with evaluated bases

---
 .../tensor_learning/tensor_learning.py                    | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
index bd6fbb0..d7817ef 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
@@ -473,7 +473,9 @@ class TensorLearning(tensap.Learning):
                         tensap.FunctionalTensor(f.tensor, self.bases)
                     )
                 else:
-                    output["iterates"].append(f)
+                    output["iterates"].append(
+                        tensap.FunctionalTensor(f.tensor, self.bases_eval)
+                    )
 
             if "error" in output_tmp:
                 output["error"] = output_tmp["error"]
@@ -605,7 +607,9 @@ class TensorLearning(tensap.Learning):
                 if isinstance(self.bases, tensap.FunctionalBases):
                     iterates[iteration] = tensap.FunctionalTensor(f.tensor, self.bases)
                 else:
-                    iterates[iteration] = f
+                    iterates[iteration] = tensap.FunctionalTensor(
+                        f.tensor, self.bases_eval
+                    )
 
             if self.display:
                 if self.alternating_minimization_parameters["display"]:
-- 
2.43.0


From 795e9dc842366a6453f17132a67cc6d8e81c4c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:57 +0000
Subject: [PATCH 160/199] fix: iterates of inner rank adaptation with evaluated
 bases

---
 .../tensor_learning/tree_based_tensor_learning.py             | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index 36a9778..dba29ab 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -996,7 +996,9 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
                         tensap.FunctionalTensor(f.tensor, self.bases)
                     )
                 else:
-                    output["iterates"].append(f)
+                    output["iterates"].append(
+                        tensap.FunctionalTensor(f.tensor, self.bases_eval)
+                    )
 
             if "error" in output_tmp:
                 output["error"] = output_tmp["error"]
-- 
2.43.0


From a945206d6d90778dfe7b260731dae76c716d0709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:57 +0000
Subject: [PATCH 161/199] fix: mean initialisation from evaluated bases

---
 .../tensor_learning/tree_based_tensor_learning.py               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index dba29ab..d217dc2 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -118,7 +118,7 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
             if isinstance(self.bases, tensap.FunctionalBases):
                 means = self.bases.mean()
             else:
-                means = [np.mean(x) for x in self.bases_eval]
+                means = [np.mean(x, 0) for x in self.bases_eval]
             if self.initialization_type == "mean_randomized":
                 means = [x + 0.01 * np.random.randn(*x.shape) for x in means]
             means = [tensap.FullTensor(x, 2, [x.shape[0], 1]) for x in means]
-- 
2.43.0


From 16c29e792bd679c37afe40693b6adc2ad22aa0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:57 +0000
Subject: [PATCH 162/199] fix: random exploration strategy

---
 .../tensor_learning/tree_based_tensor_learning.py     | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index d217dc2..d12f362 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -186,14 +186,11 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
         return self, f
 
     def randomize_exploration_strategy(self):
-        strategy = np.zeros(self._number_of_parameters)
+        strategy = np.array(self._exploration_strategy)
         for level in np.arange(np.max(self.tree.level), -1, -1):
-            active_nodes = np.intersect1d(
-                self.tree.nodes_with_level(level), np.nonzero(self.is_active_node)[0]
-            )
-            _, ind = np.intersect1d(
-                self._exploration_strategy, active_nodes, return_indices=True
-            )
+            ind = np.nonzero(
+                np.isin(self._exploration_strategy, self.tree.nodes_with_level(level))
+            )[0]
             strategy[ind] = self._exploration_strategy[np.random.permutation(ind)]
         return strategy
 
-- 
2.43.0


From f54334fb4b11cf9d79ccd3e6f209265c68009cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:57 +0000
Subject: [PATCH 163/199] fix: rank adaptation without rank-one correction

---
 .../tensor_learning/tree_based_tensor_learning.py             | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index d12f362..9fdd717 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -488,8 +488,10 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
             s_local.display = False
             s_local.alternating_minimization_parameters["display"] = False
             tensor_for_selection = s_local.solve()[0].tensor
+            rank_for_selection = s_local.rank
         else:
             tensor_for_selection = f.tensor
+            rank_for_selection = f.tensor.ranks
 
         sin_val = tensor_for_selection.singular_values()
 
@@ -502,7 +504,7 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
         dim2ind = np.intersect1d(f.tensor.tree.dim2ind, f.tensor.active_nodes)
         ind = [len(set(x.size)) == 1 for x in f.tensor.tensors[dim2ind - 1]]
         sin_val[dim2ind[ind] - 1] = np.nan
-        sin_val[s_local.rank != tensor_for_selection.ranks] = np.nan
+        sin_val[rank_for_selection != tensor_for_selection.ranks] = np.nan
 
         sin_val_min = np.array([np.min(x) for x in sin_val])
         sin_val_min[
-- 
2.43.0


From ac479db454248380b018967f3f052b71f0a9afee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:57 +0000
Subject: [PATCH 164/199] fix: greedy solver

---
 .../tensor_learning/canonical_tensor_learning.py       | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
index da8472a..51879ee 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
@@ -354,6 +354,8 @@ class CanonicalTensorLearning(tensap.TensorLearning):
         bases_eval = self.bases_eval
         output = {}
         output["sequence"] = np.empty(self.rank, dtype=object)
+        output["test_error_iterations"] = []
+        self._number_of_parameters = self.order + 1
 
         # Replication of the LinearModelLearning objects
         if self.linear_model_learning_parameters[
@@ -390,14 +392,14 @@ class CanonicalTensorLearning(tensap.TensorLearning):
 
         f = tensap.CanonicalTensor.zeros(0, [x.shape[1] for x in bases_eval])
         f_0 = deepcopy(f)
-        stagnation = np.zeros((1, self.rank))
+        stagnation = np.zeros(self.rank)
 
         ls_local = deepcopy(
             s_local.linear_model_learning[self._number_of_parameters - 1]
         )
 
         is_error = False
-        error = np.ones((1, self.rank))
+        error = np.ones(self.rank)
         pure_greedy = False
         if not pure_greedy:
             for linear_solver in self.linear_model_learning:
@@ -474,9 +476,9 @@ class CanonicalTensorLearning(tensap.TensorLearning):
                         output["test_error"],
                     )
 
-        output["stagnation"] = stagnation[: k - 1]
+        output["stagnation"] = stagnation[:k]
         if is_error:
-            output["errors"] = error[: k - 1]
+            output["errors"] = error[:k]
             K = np.argmin(output["errors"])
             f = output["sequence"][K]
             output["selected_iterate"] = K
-- 
2.43.0


From c8497d94231b86ed4c0bb613c52f21a971692787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:57 +0000
Subject: [PATCH 165/199] fix: update of one factor at a time

---
 .../tensor_learning/canonical_tensor_learning.py                 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
index 51879ee..b2cfb37 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
@@ -69,6 +69,7 @@ class CanonicalTensorLearning(tensap.TensorLearning):
             and self.alternating_minimization_parameters["one_by_one_factor"]
             and self.rank != 1
         ):
+            self.alternating_minimization_parameters.setdefault("inner_loops", 1)
             self._exploration_strategy = np.arange(
                 1,
                 self.alternating_minimization_parameters["inner_loops"]
-- 
2.43.0


From 7c9775be496840a8f54e372d1bb33b6f0da6b233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:13 +0000
Subject: [PATCH 166/199] fix: canonical initial guess left as it was

---
 .../tensor_learning/canonical_tensor_learning.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
index b2cfb37..d4404f1 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
@@ -89,7 +89,7 @@ class CanonicalTensorLearning(tensap.TensorLearning):
         elif self.initialization_type == "ones":
             f = tensap.CanonicalTensor.ones(self.rank, shape)
         elif self.initialization_type == "initial_guess":
-            f = self.initial_guess
+            f = deepcopy(self.initial_guess)
         elif (
             self.initialization_type == "mean"
             or self.initialization_type == "mean_randomized"
-- 
2.43.0


From 7e83d475cf68ad486bb4575d2c1b00c3ccc64f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:13 +0000
Subject: [PATCH 167/199] fix: tree-based initial guess left as it was

---
 .../tensor_learning/tree_based_tensor_learning.py               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index 9fdd717..f5dc7df 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -95,7 +95,7 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
                 self.tree, self.rank, shape, self.is_active_node
             )
         elif self.initialization_type == "initial_guess":
-            f = self.initial_guess
+            f = deepcopy(self.initial_guess)
             if not np.all(f.ranks == self.rank):
                 tr = tensap.Truncator(tolerance=np.finfo(float).eps, max_rank=self.rank)
                 f = tr.truncate(f)
-- 
2.43.0


From 0b0b898b1fe194c1a8f825e052b0f128c3deac4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:13 +0000
Subject: [PATCH 168/199] fix: iterates of the canonical learning

---
 .../tensor_approximation/tensor_learning/tensor_learning.py   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
index d7817ef..5b029bc 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
@@ -470,11 +470,11 @@ class TensorLearning(tensap.Learning):
             if self.store_iterates:
                 if isinstance(self.bases, tensap.FunctionalBases):
                     output["iterates"].append(
-                        tensap.FunctionalTensor(f.tensor, self.bases)
+                        tensap.FunctionalTensor(deepcopy(f.tensor), self.bases)
                     )
                 else:
                     output["iterates"].append(
-                        tensap.FunctionalTensor(f.tensor, self.bases_eval)
+                        tensap.FunctionalTensor(deepcopy(f.tensor), self.bases_eval)
                     )
 
             if "error" in output_tmp:
-- 
2.43.0


From 613d32866d595ffa6ff4148f319e18a98c236603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:13 +0000
Subject: [PATCH 169/199] fix: function returned by the greedy solver without
 bases

---
 .../tensor_learning/canonical_tensor_learning.py                | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
index d4404f1..97d95a1 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
@@ -487,5 +487,7 @@ class CanonicalTensorLearning(tensap.TensorLearning):
 
         if isinstance(self.bases, tensap.FunctionalBases):
             f = tensap.FunctionalTensor(f, self.bases)
+        else:
+            f = tensap.FunctionalTensor(f, bases_eval)
 
         return f, output
-- 
2.43.0


From de9e0a9c1aa335aa7b77a9b437167cf697f69ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:13 +0000
Subject: [PATCH 170/199] fix: attributes of tensors in inner rank adaptation

---
 .../tensor_learning/tree_based_tensor_learning.py               | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index f5dc7df..1cbe6a4 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -732,6 +732,7 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
                 alpha_list = self._exploration_strategy
 
             tree = f.tensor.tree
+            output_tmp = {}
             for alpha in alpha_list:
                 if self.linear_model_learning[alpha - 1].basis_adaptation:
                     if np.isin(alpha, tree.internal_nodes):
@@ -951,6 +952,7 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
                 f.tensor.tensors[gamma - 1] = tensap.FullTensor(
                     a_gamma, np.size(sz_2), sz_2
                 )
+                f.tensor = f.tensor.update_attributes()
 
             if self.rank_adaptation_options["post_alternating_minimization"]:
                 print("\t\tPost alternating minimization.")
-- 
2.43.0


From 61be9028ee31258a454659cc562e1dc11775fbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:25 +0000
Subject: [PATCH 171/199] fix: mean initialisation with inactive nodes

---
 .../tensor_learning/tree_based_tensor_learning.py           | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index 1cbe6a4..5be2a5d 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -103,7 +103,7 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
             self.initialization_type == "mean"
             or self.initialization_type == "mean_randomized"
         ):
-            if not np.all(self.rank == 1):
+            if not np.all(np.asarray(self.rank)[self.is_active_node] == 1):
                 raise NotImplementedError(
                     "Initialization only implemented " + "if np.all(self.rank == 1)."
                 )
@@ -123,7 +123,9 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
                 means = [x + 0.01 * np.random.randn(*x.shape) for x in means]
             means = [tensap.FullTensor(x, 2, [x.shape[0], 1]) for x in means]
 
-            f = tensap.TreeBasedTensor.ones(self.tree, self.rank, shape)
+            f = tensap.TreeBasedTensor.ones(
+                self.tree, np.ones(self.tree.nb_nodes, dtype=int), shape
+            )
             f.tensors[self.tree.dim2ind - 1] = means
             nb_child = len(self.tree.children(self.tree.root))
             if np.ndim(self.training_data[1]) == 2:
-- 
2.43.0


From 7d320b86954e4fca4560d1eec5107d9db7a035a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:17 +0000
Subject: [PATCH 172/199] fix: one-by-one updates after the truncation of the
 initial guess

---
 .../canonical_tensor_learning.py              | 38 +++++++++----------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
index 97d95a1..e82b6d0 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
@@ -64,25 +64,6 @@ class CanonicalTensorLearning(tensap.TensorLearning):
             print("tree_adaptation not defined for CanonicalTensorLearning.")
             self.tree_adaptation = False
 
-        if (
-            "one_by_one_factor" in self.alternating_minimization_parameters
-            and self.alternating_minimization_parameters["one_by_one_factor"]
-            and self.rank != 1
-        ):
-            self.alternating_minimization_parameters.setdefault("inner_loops", 1)
-            self._exploration_strategy = np.arange(
-                1,
-                self.alternating_minimization_parameters["inner_loops"]
-                * self.rank
-                * self.order
-                + 2,
-            )
-            self._number_of_parameters = self._exploration_strategy.size
-        else:
-            self.alternating_minimization_parameters["one_by_one_factor"] = False
-            self._exploration_strategy = np.arange(1, self.order + 2)
-            self._number_of_parameters = self.order + 1
-
         shape = [x.shape[1] for x in self.bases_eval]
         if self.initialization_type == "random":
             f = tensap.CanonicalTensor.randn(self.rank, shape)
@@ -164,6 +145,25 @@ class CanonicalTensorLearning(tensap.TensorLearning):
                 f = tr.truncate(f)
                 f = tensap.CanonicalTensor(f.space, f.core.data)
                 self.rank = len(f.core.data)
+
+        if (
+            "one_by_one_factor" in self.alternating_minimization_parameters
+            and self.alternating_minimization_parameters["one_by_one_factor"]
+            and self.rank != 1
+        ):
+            self.alternating_minimization_parameters.setdefault("inner_loops", 1)
+            self._exploration_strategy = np.arange(
+                1,
+                self.alternating_minimization_parameters["inner_loops"]
+                * self.rank
+                * self.order
+                + 2,
+            )
+            self._number_of_parameters = self._exploration_strategy.size
+        else:
+            self.alternating_minimization_parameters["one_by_one_factor"] = False
+            self._exploration_strategy = np.arange(1, self.order + 2)
+            self._number_of_parameters = self.order + 1
         return self, f
 
     def pre_processing(self, f):
-- 
2.43.0


From 05caa3fdc5f6f78b98bcbde0a09b3506bb1147bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:14 +0000
Subject: [PATCH 173/199] fix: solvers used for several problems

---
 .../tensor_learning/tensor_learning.py        | 48 +++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
index 5b029bc..5b5871c 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
@@ -147,6 +147,54 @@ class TensorLearning(tensap.Learning):
         """
         Solver for the learning problem with tensor formats.
 
+        Parameters
+        ----------
+        *args : misc
+            Additional arguments, if needed.
+
+        Raises
+        ------
+        NotImplementedError
+            If the required solver is not implemented.
+        ValueError
+            If the required data is not provided.
+
+        Returns
+        -------
+        f : tensap.FunctionalTensor
+            The learned approximation.
+        output : dict
+            The outputs of the solver.
+
+        """
+        # Attributes modified by the solver, restored at the end so that the
+        # solver can be used with other data
+        attributes = {
+            x: getattr(self, x)
+            for x in (
+                "bases_eval",
+                "bases_eval_test",
+                "bases_adaptation_path",
+                "linear_model_learning",
+                "rank",
+                "output_dimension",
+                "tree",
+                "is_active_node",
+            )
+            if hasattr(self, x)
+        }
+        self.linear_model_learning = deepcopy(self.linear_model_learning)
+        self.rank = deepcopy(self.rank)
+        try:
+            return self._solve(*args)
+        finally:
+            for x, value in attributes.items():
+                setattr(self, x, value)
+
+    def _solve(self, *args):
+        """
+        Solver for the learning problem with tensor formats.
+
         Parameters
         ----------
         *args : misc
-- 
2.43.0


From 44dfd764adf3e58de8cccbda0560b2e6e01fedba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:26 +0000
Subject: [PATCH 174/199] fix: nodes enriched randomly

---
 .../tensor_learning/tree_based_tensor_learning.py               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index 5be2a5d..75378b0 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -1245,7 +1245,7 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
         """
         f.is_orth = False
         tree = f.tree
-        enriched_dims = np.nonzero(new_rank > f.ranks)[0]
+        enriched_dims = np.nonzero(new_rank > f.ranks)[0] + 1
 
         for level in np.arange(1, np.max(tree.level) + 1):
             nod_lvl = np.intersect1d(tree.nodes_with_level(level), enriched_dims)
-- 
2.43.0


From 26740435d2a11399a67269527d04fe00481f5e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:09 +0000
Subject: [PATCH 175/199] fix: samples of the adaptive principal component
 analysis

---
 .../tensor_principal_component_analysis.py                     | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tensap/approximation/tensor_approximation/principal_component_analysis/tensor_principal_component_analysis.py b/tensap/approximation/tensor_approximation/principal_component_analysis/tensor_principal_component_analysis.py
index 8393e4f..8aac272 100644
--- a/tensap/approximation/tensor_approximation/principal_component_analysis/tensor_principal_component_analysis.py
+++ b/tensap/approximation/tensor_approximation/principal_component_analysis/tensor_principal_component_analysis.py
@@ -147,11 +147,13 @@ class TensorPrincipalComponentAnalysis:
             A = tensap.FullTensor(
                 np.zeros((I_alpha.shape[0], 0)), 2, [I_alpha.shape[0], 0]
             )
+            product_grids = []
             for k in range(N):
                 product_grid = tensap.FullTensorGrid(
                     [I_alpha, np.reshape(I_not_alpha[k, :], (1, -1))]
                 ).array()
 
+                product_grids.append(product_grid)
                 A_k = np.linalg.solve(B_alpha, fun(product_grid[:, ind]))
                 A.data = np.column_stack((A.data, A_k))
                 pc, sin_val = A.principal_components(tol)
@@ -159,6 +161,7 @@ class TensorPrincipalComponentAnalysis:
                     (k + 1) / self.pca_sampling_factor
                 ):
                     break
+            product_grid = np.vstack(product_grids)
             output["number_of_evaluations"] = I_alpha.shape[0] * (k + 1)
         else:
             product_grid = tensap.FullTensorGrid([I_alpha, I_not_alpha]).array()
-- 
2.43.0


From ae89cc8f6a8c7351ec694b9ea8c90dc70da2cca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:09 +0000
Subject: [PATCH 176/199] fix: tolerance given as a list of length one

---
 .../tensor_principal_component_analysis.py                    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/principal_component_analysis/tensor_principal_component_analysis.py b/tensap/approximation/tensor_approximation/principal_component_analysis/tensor_principal_component_analysis.py
index 8aac272..b306e2f 100644
--- a/tensap/approximation/tensor_approximation/principal_component_analysis/tensor_principal_component_analysis.py
+++ b/tensap/approximation/tensor_approximation/principal_component_analysis/tensor_principal_component_analysis.py
@@ -404,8 +404,8 @@ class TensorPrincipalComponentAnalysis:
         if is_active_node is None:
             is_active_node = np.full(tree.nb_nodes, True)
 
-        if (np.ndim(self.tol) == 0 or len(self.tol) == 1) and self.tol < 1:
-            solver.tol /= np.sqrt(np.count_nonzero(is_active_node) - 1)
+        if np.size(self.tol) == 1 and np.ravel(self.tol)[0] < 1:
+            solver.tol = np.ravel(self.tol)[0] / np.sqrt(np.count_nonzero(is_active_node) - 1)
 
         if np.ndim(self.tol) == 0 or len(self.tol) == 1:
             solver.tol = np.full(tree.nb_nodes, solver.tol)
-- 
2.43.0


From 76603ad1eee6581a91e3451a3bf88296d037e9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:29 +0000
Subject: [PATCH 177/199] fix: tree adaptation in the inner rank adaptation
 without error estimation

---
 .../tensor_learning/tree_based_tensor_learning.py      | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index 75378b0..d08b7b6 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -1055,7 +1055,7 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
             if self.tree_adaptation and iteration > 0:
                 C_old = f.tensor.storage()
                 self, f, output = self.adapt_tree(
-                    f, output["error"], None, output, iteration
+                    f, output.get("error"), None, output, iteration
                 )
                 adapted_tree = output["adapted_tree"]
                 if adapted_tree:
@@ -1070,13 +1070,13 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
                         )
                     if self.test_error:
                         f_eval_test = tensap.FunctionalTensor(f, self.bases_eval_test)
+                        output["test_error"] = self.loss_function.test_error(
+                            f_eval_test, self.test_data
+                        )
                         if self.display:
                             print(
                                 "\t\tTest error after permutation "
-                                + "= %2.5e"
-                                % self.loss_function.test_error(
-                                    f_eval_test, self.test_data
-                                )
+                                + "= %2.5e" % output["test_error"]
                             )
 
                     if self.alternating_minimization_parameters["display"]:
-- 
2.43.0


From 13751980faca0dcf65b6d3bb02aed349126edc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:32 +0000
Subject: [PATCH 178/199] fix: joint density of a random vector with a copula

---
 tensap/functions/measures/random_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/measures/random_vector.py b/tensap/functions/measures/random_vector.py
index 9b14295..84bbf9e 100644
--- a/tensap/functions/measures/random_vector.py
+++ b/tensap/functions/measures/random_vector.py
@@ -230,7 +230,7 @@ class RandomVector(tensap.ProbabilityMeasure):
             u = np.zeros(x.shape)
             for i in range(self.size):
                 u[:, i] = np.ravel(self.random_variables[i].cdf(x[:, i]))
-            p = p * self.copula.pdf(u)
+            p = p * np.ravel(self.copula.pdf(u))
 
         return p
 
-- 
2.43.0


From 610f533e859185696a48b0b96d682b074d0d5254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:32 +0000
Subject: [PATCH 179/199] fix: copula of a random vector made from another one

---
 tensap/functions/measures/random_vector.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tensap/functions/measures/random_vector.py b/tensap/functions/measures/random_vector.py
index 84bbf9e..945e18e 100644
--- a/tensap/functions/measures/random_vector.py
+++ b/tensap/functions/measures/random_vector.py
@@ -37,15 +37,17 @@ class RandomVector(tensap.ProbabilityMeasure):
 
     """
 
-    def __init__(self, random_variables, order=None, copula=tensap.IndependentCopula()):
+    def __init__(self, random_variables, order=None, copula=None):
         if isinstance(random_variables, tensap.RandomVector):
+            if copula is None:
+                copula = random_variables.copula
             random_variables = random_variables.random_variables
 
         if order is not None and isinstance(random_variables, tensap.RandomVariable):
             random_variables = [random_variables] * order
 
         self.random_variables = np.atleast_1d(deepcopy(random_variables))
-        self.copula = copula
+        self.copula = tensap.IndependentCopula() if copula is None else copula
 
     def __repr__(self):
         return (
@@ -137,7 +139,8 @@ class RandomVector(tensap.ProbabilityMeasure):
 
         """
         return RandomVector(
-            [x.get_standard_random_variable() for x in self.random_variables]
+            [x.get_standard_random_variable() for x in self.random_variables],
+            copula=self.copula,
         )
 
     def iso_probabilistic_grid(self, n):
-- 
2.43.0


From 7a4fd1477207c3f059f62f4fd98e610f8af341b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:32 +0000
Subject: [PATCH 180/199] fix: intervals given to random_multi_indices

---
 tensap/functions/measures/random_multi_indices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/measures/random_multi_indices.py b/tensap/functions/measures/random_multi_indices.py
index f8eff61..a059149 100644
--- a/tensap/functions/measures/random_multi_indices.py
+++ b/tensap/functions/measures/random_multi_indices.py
@@ -44,7 +44,7 @@ def random_multi_indices(shape):
     order = len(shape)
 
     if np.all([isinstance(x, (list, np.ndarray)) for x in shape]):
-        ind = shape
+        ind = list(shape)
     else:
         ind = []
         for dim in range(order):
-- 
2.43.0


From ec268c600eee70e1ec98fd52125ce96cbcd23b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:32 +0000
Subject: [PATCH 181/199] fix: degree of the orthonormal polynomials of a
 random vector

---
 tensap/functions/measures/normal_random_variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/measures/normal_random_variable.py b/tensap/functions/measures/normal_random_variable.py
index 5f4b2fa..0229e19 100644
--- a/tensap/functions/measures/normal_random_variable.py
+++ b/tensap/functions/measures/normal_random_variable.py
@@ -174,7 +174,7 @@ class NormalRandomVariable(tensap.RandomVariable):
         """
         return array([-inf, inf])
 
-    def orthonormal_polynomials(self):
+    def orthonormal_polynomials(self, *max_degree):
         """
         Return orthonormal polynomials associated with
         the NormalRandomVariable.
-- 
2.43.0


From 45df0c9482e6eb5a86a08b185b0511e53f58dcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:32 +0000
Subject: [PATCH 182/199] fix: degree of the orthonormal polynomials of a
 discrete variable

---
 tensap/functions/measures/discrete_random_variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/measures/discrete_random_variable.py b/tensap/functions/measures/discrete_random_variable.py
index 14851ac..21c7c95 100644
--- a/tensap/functions/measures/discrete_random_variable.py
+++ b/tensap/functions/measures/discrete_random_variable.py
@@ -176,7 +176,7 @@ class DiscreteRandomVariable(tensap.RandomVariable):
             )
         return super().gauss_integration_rule(nb_pts)
 
-    def orthonormal_polynomials(self):
+    def orthonormal_polynomials(self, *max_degree):
         """
         Return orthonormal polynomials associated with
         the DiscreteRandomVariable.
-- 
2.43.0


From bf609d328c4098790eebeb01acfe39ee45a6fab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:48 +0000
Subject: [PATCH 183/199] fix: error estimate of a sparse solution without
 model selection

---
 .../learning/linear_model_learning_square_loss.py     | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index 3ca42ed..95abfb6 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -309,10 +309,18 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                 error = np.mean(delta ** 2, 0) / second_moment
             else:
                 # if len(sol) > 1:
-                if np.all(sol != 0):
+                error_options = self.error_estimation_options
+                if np.any(sol != 0):
                     ind = np.nonzero(sol)[0]
                     A_red = A[:, ind]
                     sol_ind = sol[ind]
+                    if "gram_matrix" in error_options:
+                        self.error_estimation_options = {
+                            **error_options,
+                            "gram_matrix": error_options["gram_matrix"][
+                                np.ix_(ind, ind)
+                            ],
+                        }
                 else:
                     # ind = 0
                     A_red = A
@@ -331,6 +339,7 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                     error, delta = self._compute_cv_error(
                         y, second_moment, A_red, sol_ind, self.linear_solver, q_A, r_A
                     )
+                self.error_estimation_options = error_options
             output["error"] = error
             output["delta"] = delta
 
-- 
2.43.0


From 1d5b25aa0a019b414d0f773af12f487257179802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:41 +0000
Subject: [PATCH 184/199] fix: diagonal of the gradient of a tree-based tensor
 with the default identity matrices

---
 .../tensors/tree_based_tensor.py              | 87 +++++--------------
 1 file changed, 23 insertions(+), 64 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 9269158..9effa39 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -2280,13 +2280,14 @@ class TreeBasedTensor:
 
         """
         tree = self.tree
-        tensors = np.array(self.tensors)
+        if matrices is None:
+            matrices = [np.eye(n) for n in self.shape]
 
         children = tree.children(alpha)
         active_ch = children[self.is_active_node[children - 1]]
         inactive_ch = tensap.fast_setdiff(children, active_ch)
 
-        if alpha == tree.root and active_ch.size == 0 and matrices is not None:
+        if alpha == tree.root and active_ch.size == 0:
             # The root is the only active node, there is nothing to contract.
             out = tensap.FullTensor.ones(np.shape(matrices[0])[0])
             for child in inactive_ch:
@@ -2301,18 +2302,8 @@ class TreeBasedTensor:
 
         if tree.is_leaf[alpha - 1]:
             out = tensap.FullTensor.ones(diag_above.shape[0])
-            if matrices is not None:
-                ind = np.nonzero(tree.dim2ind == alpha)[0][0]
-                out = out.outer_product_eval_diag(
-                    tensap.FullTensor(matrices[ind]), 0, 0
-                )
-            else:
-                out = out.outer_product_eval_diag(
-                    tensap.FullTensor(np.eye(diag_below[alpha - 1].shape[0])),
-                    [],
-                    [],
-                    True,
-                )
+            ind = np.nonzero(tree.dim2ind == alpha)[0][0]
+            out = out.outer_product_eval_diag(tensap.FullTensor(matrices[ind]), 0, 0)
             # out = out.squeeze()
 
             # ind = np.array([[np.nonzero(tree.dim2ind == alpha)[0][0]], [1]])
@@ -2326,19 +2317,10 @@ class TreeBasedTensor:
             if inactive_ch.size != 0:
                 tmp = tensap.FullTensor.ones(diag_above.shape[0])
                 for child in inactive_ch:
-                    if matrices is not None:
-                        ind = np.nonzero(tree.dim2ind == child)[0][0]
-                        tmp = tmp.outer_product_eval_diag(
-                            tensap.FullTensor(matrices[ind]), 0, 0
-                        )
-                    else:
-                        ind = tree.child_number(child) - 1
-                        tmp = tmp.outer_product_eval_diag(
-                            tensap.FullTensor(np.eye(tensors[alpha - 1].shape[ind])),
-                            [],
-                            [],
-                            True,
-                        )
+                    ind = np.nonzero(tree.dim2ind == child)[0][0]
+                    tmp = tmp.outer_product_eval_diag(
+                        tensap.FullTensor(matrices[ind]), 0, 0
+                    )
                 # tmp = tmp.squeeze()
                 if active_ch.size != 0:
                     out = out.outer_product_eval_diag(tmp, 0, 0)
@@ -2375,6 +2357,8 @@ class TreeBasedTensor:
 
         """
         tree = self.tree
+        if matrices is None:
+            matrices = [np.eye(n) for n in self.shape]
 
         gamma = tree.parent(alpha)
         u_gamma = self.eval_diag_below(gamma, alpha)
@@ -2393,19 +2377,10 @@ class TreeBasedTensor:
         if inactive_ch.size != 0:
             tmp = tensap.FullTensor.ones(w_gamma.shape[0])
             for child in inactive_ch:
-                if matrices is not None:
-                    ind = np.nonzero(tree.dim2ind == child)[0][0]
-                    tmp = tmp.outer_product_eval_diag(
-                        tensap.FullTensor(matrices[ind]), 0, 0
-                    )
-                else:
-                    ind = tree.child_number(child) - 1
-                    tmp = tmp.outer_product_eval_diag(
-                        tensap.FullTensor(np.eye(self.tensors[gamma - 1].shape[ind])),
-                        [],
-                        [],
-                        True,
-                    )
+                ind = np.nonzero(tree.dim2ind == child)[0][0]
+                tmp = tmp.outer_product_eval_diag(
+                    tensap.FullTensor(matrices[ind]), 0, 0
+                )
             # tmp = tmp.squeeze()
             if active_ch.size != 0:
                 g_gamma = g_gamma.outer_product_eval_diag(tmp, 0, 0)
@@ -2422,15 +2397,10 @@ class TreeBasedTensor:
         inactive_ch = tensap.fast_setdiff(children, active_ch)
         if tree.is_leaf[alpha - 1]:
             g_alpha = tensap.FullTensor.ones(w_gamma.shape[0])
-            if matrices is not None:
-                ind = np.nonzero(tree.dim2ind == alpha)[0][0]
-                g_alpha = g_alpha.outer_product_eval_diag(
-                    tensap.FullTensor(matrices[ind]), 0, 0
-                )
-            else:
-                g_alpha = g_alpha.outer_product_eval_diag(
-                    tensap.FullTensor(np.eye(u_alpha[alpha - 1].shape[0])), [], [], True
-                )
+            ind = np.nonzero(tree.dim2ind == alpha)[0][0]
+            g_alpha = g_alpha.outer_product_eval_diag(
+                tensap.FullTensor(matrices[ind]), 0, 0
+            )
             # g_alpha = g_alpha.squeeze()
         else:
             if active_ch.size != 0:
@@ -2442,21 +2412,10 @@ class TreeBasedTensor:
             if inactive_ch.size != 0:
                 tmp = tensap.FullTensor.ones(w_gamma.shape[0])
                 for child in inactive_ch:
-                    if matrices is not None:
-                        ind = np.nonzero(tree.dim2ind == child)[0][0]
-                        tmp = tmp.outer_product_eval_diag(
-                            tensap.FullTensor(matrices[ind]), 0, 0
-                        )
-                    else:
-                        ind = tree.child_number(child) - 1
-                        tmp = tmp.outer_product_eval_diag(
-                            tensap.FullTensor(
-                                np.eye(self.tensors[alpha - 1].shape[ind])
-                            ),
-                            [],
-                            [],
-                            True,
-                        )
+                    ind = np.nonzero(tree.dim2ind == child)[0][0]
+                    tmp = tmp.outer_product_eval_diag(
+                        tensap.FullTensor(matrices[ind]), 0, 0
+                    )
                 # tmp = tmp.squeeze()
                 if active_ch.size != 0:
                     g_alpha = g_alpha.outer_product_eval_diag(tmp, 0, 0)
-- 
2.43.0


From cb5f7ac526bf0454b298326f4817f6dccf8b3ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:41 +0000
Subject: [PATCH 185/199] fix: diagonal of the gradient of a canonical tensor
 with the default identity matrices

---
 tensap/tensor_algebra/tensors/canonical_tensor.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/canonical_tensor.py b/tensap/tensor_algebra/tensors/canonical_tensor.py
index dd40125..03b89cf 100644
--- a/tensap/tensor_algebra/tensors/canonical_tensor.py
+++ b/tensap/tensor_algebra/tensors/canonical_tensor.py
@@ -478,14 +478,11 @@ class CanonicalTensor:
             f_mu = np.ones((N, rank))
             for nu in no_mu:
                 f_mu *= self.space[nu - 1]
-            if matrices is not None:
-                out = tensap.FullTensor(f_mu).outer_product_eval_diag(
-                    tensap.FullTensor(matrices[mu - 1]), 0, 0
-                )
-            else:
-                out = tensap.FullTensor(f_mu).outer_product_eval_diag(
-                    tensap.FullTensor(np.eye(self.shape[mu - 1])), [], [], True
-                )
+            if matrices is None:
+                matrices = [np.eye(n) for n in self.shape]
+            out = tensap.FullTensor(f_mu).outer_product_eval_diag(
+                tensap.FullTensor(matrices[mu - 1]), 0, 0
+            )
         return out
 
     def reduce_sum(self, dims=None):
-- 
2.43.0


From 56c178e48c7b507fb12b9b74a1c3a14589b8ae18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:48 +0000
Subject: [PATCH 186/199] fix: learn the correction of a density for any ranks
 and active nodes

---
 .../tree_based_tensor_learning.py             | 22 ++++++-------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index d08b7b6..48431cc 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -239,22 +239,14 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
                 y = self.training_data[1]
                 if isinstance(y, tensap.FunctionalTensor):
                     y = y.tensor
-                y = y.orth()
-                if tree.is_leaf[mu - 1]:
-                    a = deepcopy(y)
-                    for nod in tree.internal_nodes:
-                        a.tensors[nod - 1] = tensap.FullTensor(
-                            y.tensors[nod - 1].data * f.tensor.tensors[nod - 1].data,
-                            shape=y.tensors[nod - 1].shape,
-                        )
-                    ind = np.setdiff1d(
-                        range(self.order), np.nonzero(tree.dim2ind == mu)[0]
+                # Inner products of y with the derivatives of f
+                a = deepcopy(f.tensor)
+                b = np.zeros(np.size(a.tensors[mu - 1].data))
+                for ind, e_ind in enumerate(np.eye(b.size)):
+                    a.tensors[mu - 1] = tensap.FullTensor(
+                        e_ind, shape=f.tensor.tensors[mu - 1].shape
                     )
-                    C = [x.data for x in f.tensor.tensors[tree.dim2ind - 1]]
-                    b = a.tensor_vector_product([C[x] for x in ind], ind)
-                    b = b.tensors[0].data
-                else:
-                    b = f.tensor.dot(y) / f.tensor.tensors[mu - 1].data
+                    b[ind] = a.dot(y)
             else:
                 b = []
         elif isinstance(self.training_data, list) and len(self.training_data) == 2:
-- 
2.43.0


From c4cca099204f571a2a7d6681eb6818612a3c6baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:48 +0000
Subject: [PATCH 187/199] fix: rank-one and canonical corrections of no
 function, for densities

---
 .../tensor_learning/tree_based_tensor_learning.py      | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index 48431cc..7b0954d 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -342,7 +342,10 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
         solver = deepcopy(self)
         if isinstance(solver.training_data, list) and len(solver.training_data) == 2:
             solver.training_data[1] -= fx
-        elif isinstance(solver.loss_function, tensap.DensityL2LossFunction):
+        elif (
+            isinstance(solver.loss_function, tensap.DensityL2LossFunction)
+            and f is not None
+        ):
             solver.training_data = [solver.training_data, f]
 
         f_add = solver.canonical_initialization(rank)
@@ -385,7 +388,10 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
         solver.model_selection = False
         if isinstance(solver.training_data, list) and len(solver.training_data) == 2:
             solver.training_data[1] -= fx
-        elif isinstance(solver.loss_function, tensap.DensityL2LossFunction):
+        elif (
+            isinstance(solver.loss_function, tensap.DensityL2LossFunction)
+            and f is not None
+        ):
             solver.training_data = [solver.training_data, f]
         solver.rank_adaptation = False
         solver.tree_adaptation = False
-- 
2.43.0


From da33358d027824c08d91133e10b37fc10241fb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:48 +0000
Subject: [PATCH 188/199] fix: scalar outputs given as a column

---
 .../tensor_learning/tensor_learning.py                    | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
index 5b5871c..9ea08a8 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
@@ -175,6 +175,7 @@ class TensorLearning(tensap.Learning):
                 "bases_eval",
                 "bases_eval_test",
                 "bases_adaptation_path",
+                "training_data",
                 "linear_model_learning",
                 "rank",
                 "output_dimension",
@@ -222,6 +223,13 @@ class TensorLearning(tensap.Learning):
             and np.ndim(self.training_data[1]) == 2
         ):
             self.output_dimension = self.training_data[1].shape[1]
+            if self.output_dimension == 1 and isinstance(
+                self.loss_function, tensap.SquareLossFunction
+            ):
+                self.training_data = [
+                    self.training_data[0],
+                    np.ravel(self.training_data[1]),
+                ]
         if self.output_dimension > 1 and (
             not isinstance(self, tensap.TreeBasedTensorLearning)
             or not isinstance(
-- 
2.43.0


From 020c8d147b381cd525f7fd4bb87bc16038e4c9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:48 +0000
Subject: [PATCH 189/199] fix: greedy initialisation with one linear solver per
 parameter

---
 .../tensor_learning/canonical_tensor_learning.py            | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
index e82b6d0..f3f9915 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
@@ -100,7 +100,8 @@ class CanonicalTensorLearning(tensap.TensorLearning):
             s_ini.algorithm = "greedy"
             s_ini.initialization_type = "mean"
             s_ini.alternating_minimization_parameters["display"] = False
-            s_ini.linear_model_learning.error_estimation = False
+            for x in np.ravel(s_ini.linear_model_learning):
+                x.error_estimation = False
             s_ini.test_error = False
             s_ini.display = False
             f, output_ini = s_ini.solve()
@@ -125,7 +126,8 @@ class CanonicalTensorLearning(tensap.TensorLearning):
             s_ini.initialization_type = "greedy"
             s_ini.rank = self.rank - len(f.core.data)
             s_ini.alternating_minimization_parameters["display"] = False
-            s_ini.linear_model_learning.error_estimation = False
+            for x in np.ravel(s_ini.linear_model_learning):
+                x.error_estimation = False
             s_ini.test_error = False
             s_ini.display = False
             if isinstance(s_ini.training_data, list) and len(s_ini.training_data) == 2:
-- 
2.43.0


From 877c0765ddbc67fa5cf9673f716a26740e18b87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:05 +0000
Subject: [PATCH 190/199] fix: keep the options of a tensor learning solver
 after solve

---
 .../tensor_approximation/tensor_learning/tensor_learning.py  | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
index 9ea08a8..78a2934 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
@@ -179,6 +179,11 @@ class TensorLearning(tensap.Learning):
                 "linear_model_learning",
                 "rank",
                 "output_dimension",
+                "test_error",
+                "model_selection",
+                "error_estimation",
+                "store_iterates",
+                "tree_adaptation",
                 "tree",
                 "is_active_node",
             )
-- 
2.43.0


From 687f7dbcaebc1b897cce108a974efc05352bbaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:09 +0000
Subject: [PATCH 191/199] fix: colour nodes given as a list

---
 tensap/tensor_algebra/tensors/dimension_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/dimension_tree.py b/tensap/tensor_algebra/tensors/dimension_tree.py
index 0228824..780cca8 100644
--- a/tensap/tensor_algebra/tensors/dimension_tree.py
+++ b/tensap/tensor_algebra/tensors/dimension_tree.py
@@ -590,7 +590,7 @@ class DimensionTree:
             nx.draw_networkx_nodes(
                 g,
                 pos,
-                nodelist=colored_nodes - 1,
+                nodelist=np.asarray(colored_nodes) - 1,
                 node_color=node_color,
                 edgecolors="k",
                 node_size=100,
-- 
2.43.0


From 93a6ebd1dd77931091df68082372f76b1e934445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:09 +0000
Subject: [PATCH 192/199] fix: plot the dimensions of some leaves

---
 tensap/tensor_algebra/tensors/dimension_tree.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/dimension_tree.py b/tensap/tensor_algebra/tensors/dimension_tree.py
index 780cca8..c924e81 100644
--- a/tensap/tensor_algebra/tensors/dimension_tree.py
+++ b/tensap/tensor_algebra/tensors/dimension_tree.py
@@ -640,7 +640,11 @@ class DimensionTree:
         if nodes is None:
             nodes = self.dim2ind
         labels = [
-            np.nonzero(nodes == i + 1)[0][0] if self.is_leaf[i] else None
+            (
+                np.nonzero(self.dim2ind == i + 1)[0][0]
+                if self.is_leaf[i] and i + 1 in nodes
+                else None
+            )
             for i in range(self.nb_nodes)
         ]
         self.plot_with_labels_at_nodes(labels=labels, **args)
-- 
2.43.0


From 5ad0e100aca9f7c9032e5056afa04435c59ba645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:09 +0000
Subject: [PATCH 193/199] fix: plot of the cdf of a discrete variable with
 unsorted values

---
 tensap/functions/measures/discrete_random_variable.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tensap/functions/measures/discrete_random_variable.py b/tensap/functions/measures/discrete_random_variable.py
index 21c7c95..f67454b 100644
--- a/tensap/functions/measures/discrete_random_variable.py
+++ b/tensap/functions/measures/discrete_random_variable.py
@@ -131,8 +131,9 @@ class DiscreteRandomVariable(tensap.RandomVariable):
         ax = [np.min(x) - delta / 10, np.max(x) + delta / 10]
 
         if quantity == "cdf":
-            x = np.concatenate(([ax[0]], x, [ax[1]]))
-            y = np.concatenate(([0, 0], np.cumsum(y)))
+            ind = np.argsort(x)
+            x = np.concatenate(([ax[0]], x[ind], [ax[1]]))
+            y = np.concatenate(([0, 0], np.cumsum(y[ind])))
             plt.step(x, y, *args)
             plt.xlim(*ax)
             plt.ylim(0, 1.1 * np.max(y))
-- 
2.43.0


From 834253fe65f2b50dd706e33f2736241ce18e0c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:25 +0000
Subject: [PATCH 194/199] fix: MultiIndices.with_bounded_norm accepts any real
 bound

---
 tensap/tools/multi_indices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index 1c7d638..7c9297b 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -625,10 +625,10 @@ class MultiIndices:
 
         """
         if p == np.inf:
-            ind = MultiIndices.product_set(np.arange(m + 1), d)
+            ind = MultiIndices.product_set(np.arange(int(np.floor(m)) + 1), d)
         elif p == 1:
             ind = MultiIndices(np.zeros(d, dtype=int))
-            for _ in range(m):
+            for _ in range(int(np.floor(m))):
                 ind = ind.add_indices(ind.get_margin())
         else:
             ind = MultiIndices(np.zeros(d, dtype=int))
-- 
2.43.0


From e43b6a3ec56d6cbaa1bba349280a1f0ecbc38ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:25 +0000
Subject: [PATCH 195/199] fix: MultiIndices.with_bounded_weighted_norm keeps
 the multi-indices on the bound of each dimension

---
 tensap/tools/multi_indices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index 7c9297b..7b30b42 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -671,7 +671,7 @@ class MultiIndices:
 
         """
         assert d == len(w), "Length of w must be equal to the dimension d"
-        ind = [np.arange(int(np.floor(m / x)) + 1) for x in w]
+        ind = [np.arange(int(np.floor(m / x * (1 + 1e-12))) + 1) for x in w]
         ind = MultiIndices.product_set(ind)
         n = ind.weighted_norm(p, w)
         k = np.nonzero(n <= m * (1 + 1e-12))[0]
-- 
2.43.0


From 399541e5ab6f8367db04ae69e19e659da5862cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:41 +0000
Subject: [PATCH 196/199] fix: Function.surf draws the values at their points

---
 tensap/functions/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/function.py b/tensap/functions/function.py
index 9968434..b077a06 100644
--- a/tensap/functions/function.py
+++ b/tensap/functions/function.py
@@ -221,7 +221,7 @@ class Function:
 
         fig = plt.figure()
         ax = fig.add_subplot(111, projection="3d")
-        x, y = np.meshgrid(grids[0], grids[1])
+        x, y = np.meshgrid(grids[0], grids[1], indexing="ij")
         ax.plot_surface(x, y, fg.data, *args)
         plt.show()
 
-- 
2.43.0


From b920a4752976f29bc772978ad0fe333119ed1d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:30 +0000
Subject: [PATCH 197/199] fix: rank adaptation with integer outputs

---
 .../tensor_learning/tree_based_tensor_learning.py             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index 7b0954d..b566d58 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -341,7 +341,7 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
 
         solver = deepcopy(self)
         if isinstance(solver.training_data, list) and len(solver.training_data) == 2:
-            solver.training_data[1] -= fx
+            solver.training_data[1] = solver.training_data[1] - fx
         elif (
             isinstance(solver.loss_function, tensap.DensityL2LossFunction)
             and f is not None
@@ -387,7 +387,7 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
         solver = deepcopy(self)
         solver.model_selection = False
         if isinstance(solver.training_data, list) and len(solver.training_data) == 2:
-            solver.training_data[1] -= fx
+            solver.training_data[1] = solver.training_data[1] - fx
         elif (
             isinstance(solver.loss_function, tensap.DensityL2LossFunction)
             and f is not None
-- 
2.43.0


From 1af33db0d3de5033fef417647611501ba7017b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:30 +0000
Subject: [PATCH 198/199] fix: canonical rank adaptation with integer outputs

---
 .../tensor_learning/canonical_tensor_learning.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
index f3f9915..17f6f01 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
@@ -131,7 +131,7 @@ class CanonicalTensorLearning(tensap.TensorLearning):
             s_ini.test_error = False
             s_ini.display = False
             if isinstance(s_ini.training_data, list) and len(s_ini.training_data) == 2:
-                s_ini.training_data[1] -= fx
+                s_ini.training_data[1] = s_ini.training_data[1] - fx
             elif isinstance(s_ini.loss_function, tensap.DensityL2LossFunction):
                 s_ini.training_data = [s_ini.training_data, fx]
 
-- 
2.43.0


From bbe0ebb450b62ba967e6f1a045ba2275e290c822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:10 +0000
Subject: [PATCH 199/199] fix: measure and dimension of a partially evaluated
 functional tensor

---
 tensap/functions/functional_tensor.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index 3b8f46e..0abd7d6 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -813,6 +813,9 @@ class FunctionalTensor(tensap.Function):
             out.fdims = out.fdims[np.setdiff1d(range(np.size(out.fdims)), dims)]
             if np.size(out.fdims) == 0:
                 out = out.tensor
+            else:
+                out.measure = out.bases.measure
+                out.dim = np.sum(out.bases.ndim())
         return out
 
     def random(self, *args, **kwargs):
@@ -903,6 +906,8 @@ class FunctionalTensor(tensap.Function):
             out = deepcopy(self)
             out.tensor = tensor
             out.bases = out.bases.remove_bases(dims)
+            out.measure = out.bases.measure
+            out.dim = np.sum(out.bases.ndim())
             out.fdims = np.nonzero(np.isin(old_dims, np.delete(self.fdims, dims)))[0]
         return out
 
-- 
2.43.0

