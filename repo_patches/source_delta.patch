From 3f54f3a5ca807209ba1964b17e5b90c9f4d75879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:42 +0000
Subject: [PATCH 01/57] fix: DiGraph.reverse_direction must invalidate cached
 views

---
 dhg/structure/graphs/directed_graph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dhg/structure/graphs/directed_graph.py b/dhg/structure/graphs/directed_graph.py
index 645f652..683f635 100644
--- a/dhg/structure/graphs/directed_graph.py
+++ b/dhg/structure/graphs/directed_graph.py
@@ -298,6 +298,7 @@ class DiGraph(BaseGraph):
         r"""Reverse the direction of edges in directed graph.
         """
         self._raw_e_dict = {(dst, src): w for (src, dst), w in self._raw_e_dict.items()}
+        self._clear_cache()
 
     def drop_edges(self, drop_rate: float, ord: str = "uniform"):
         r"""Randomly drop edges from the directed graph. This function will return a new directed graph with non-dropped edges.
-- 
2.43.0


From 9d0a132a3abd8d9c17ef390fce950ee00da565d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:42 +0000
Subject: [PATCH 02/57] fix: Graph.v2v softmax_then_sum without edge weights
 called sparse.mm instead of sparse.softmax

---
 dhg/structure/graphs/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/structure/graphs/graph.py b/dhg/structure/graphs/graph.py
index 82fb6e4..1efceac 100644
--- a/dhg/structure/graphs/graph.py
+++ b/dhg/structure/graphs/graph.py
@@ -677,7 +677,7 @@ class Graph(BaseGraph):
             elif aggr == "sum":
                 X = torch.sparse.mm(P, X)
             elif aggr == "softmax_then_sum":
-                P = torch.sparse.mm(P, dim=1)
+                P = torch.sparse.softmax(P, dim=1)
                 X = torch.sparse.mm(P, X)
             else:
                 pass
-- 
2.43.0


From 78990e74665e2d28c048c1cadcd574edda989d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:42 +0000
Subject: [PATCH 03/57] fix: mean aggregation with given weights must divide by
 the sum of weights

---
 dhg/structure/graphs/bipartite_graph.py | 4 ++--
 dhg/structure/graphs/directed_graph.py  | 4 ++--
 dhg/structure/graphs/graph.py           | 2 +-
 dhg/structure/hypergraphs/hypergraph.py | 8 ++++----
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/dhg/structure/graphs/bipartite_graph.py b/dhg/structure/graphs/bipartite_graph.py
index 7c81f53..4399bcf 100644
--- a/dhg/structure/graphs/bipartite_graph.py
+++ b/dhg/structure/graphs/bipartite_graph.py
@@ -681,7 +681,7 @@ class BiGraph(BaseGraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** -1
                 D_v_neg_1[torch.isinf(D_v_neg_1)] = 0
                 X = D_v_neg_1 * X
             elif aggr == "sum":
@@ -734,7 +734,7 @@ class BiGraph(BaseGraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_u_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                D_u_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** -1
                 D_u_neg_1[torch.isinf(D_u_neg_1)] = 0
                 X = D_u_neg_1 * X
             elif aggr == "sum":
diff --git a/dhg/structure/graphs/directed_graph.py b/dhg/structure/graphs/directed_graph.py
index 683f635..f6c68bb 100644
--- a/dhg/structure/graphs/directed_graph.py
+++ b/dhg/structure/graphs/directed_graph.py
@@ -585,7 +585,7 @@ class DiGraph(BaseGraph):
                 # message passing
                 if aggr == "mean":
                     X = torch.sparse.mm(P, X)
-                    D_v_in_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                    D_v_in_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** -1
                     D_v_in_neg_1[torch.isinf(D_v_in_neg_1)] = 0
                     X = D_v_in_neg_1 * X
                 elif aggr == "sum":
@@ -627,7 +627,7 @@ class DiGraph(BaseGraph):
                 # message passing
                 if aggr == "mean":
                     X = torch.sparse.mm(P, X)
-                    D_v_in_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                    D_v_in_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** -1
                     D_v_in_neg_1[torch.isinf(D_v_in_neg_1)] = 0
                     X = D_v_in_neg_1 * X
                 elif aggr == "sum":
diff --git a/dhg/structure/graphs/graph.py b/dhg/structure/graphs/graph.py
index 1efceac..3f7c6cd 100644
--- a/dhg/structure/graphs/graph.py
+++ b/dhg/structure/graphs/graph.py
@@ -692,7 +692,7 @@ class Graph(BaseGraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** -1
                 D_v_neg_1[torch.isinf(D_v_neg_1)] = 0
                 X = D_v_neg_1 * X
             elif aggr == "sum":
diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index 2390ede..8ae2c9b 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -1283,7 +1283,7 @@ class Hypergraph(BaseHypergraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_e_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                D_e_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** -1
                 D_e_neg_1[torch.isinf(D_e_neg_1)] = 0
                 X = D_e_neg_1 * X
             elif aggr == "sum":
@@ -1347,7 +1347,7 @@ class Hypergraph(BaseHypergraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_e_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                D_e_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** -1
                 D_e_neg_1[torch.isinf(D_e_neg_1)] = 0
                 X = D_e_neg_1 * X
             elif aggr == "sum":
@@ -1482,7 +1482,7 @@ class Hypergraph(BaseHypergraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** -1
                 D_v_neg_1[torch.isinf(D_v_neg_1)] = 0
                 X = D_v_neg_1 * X
             elif aggr == "sum":
@@ -1546,7 +1546,7 @@ class Hypergraph(BaseHypergraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** -1
                 D_v_neg_1[torch.isinf(D_v_neg_1)] = 0
                 X = D_v_neg_1 * X
             elif aggr == "sum":
-- 
2.43.0


From d68170fc9a4cd910ddaf69115416e95746c4e22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:42 +0000
Subject: [PATCH 04/57] fix: adjacency values are floating point also for
 integer or float64 edge weights

---
 dhg/structure/graphs/bipartite_graph.py | 2 +-
 dhg/structure/graphs/directed_graph.py  | 2 +-
 dhg/structure/graphs/graph.py           | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dhg/structure/graphs/bipartite_graph.py b/dhg/structure/graphs/bipartite_graph.py
index 4399bcf..d9469a0 100644
--- a/dhg/structure/graphs/bipartite_graph.py
+++ b/dhg/structure/graphs/bipartite_graph.py
@@ -488,7 +488,7 @@ class BiGraph(BaseGraph):
                 e_list, e_weight = self.e
                 self.cache["B"] = torch.sparse_coo_tensor(
                     indices=torch.tensor(e_list).t(),
-                    values=torch.tensor(e_weight),
+                    values=torch.tensor(e_weight, dtype=torch.float),
                     size=(self.num_u, self.num_v),
                     device=self.device,
                 ).coalesce()
diff --git a/dhg/structure/graphs/directed_graph.py b/dhg/structure/graphs/directed_graph.py
index f6c68bb..186b54f 100644
--- a/dhg/structure/graphs/directed_graph.py
+++ b/dhg/structure/graphs/directed_graph.py
@@ -423,7 +423,7 @@ class DiGraph(BaseGraph):
                 e_list, e_weight = self.e
                 self.cache["A"] = torch.sparse_coo_tensor(
                     indices=torch.tensor(e_list).t(),
-                    values=torch.tensor(e_weight),
+                    values=torch.tensor(e_weight, dtype=torch.float),
                     size=(self.num_v, self.num_v),
                     device=self.device,
                 ).coalesce()
diff --git a/dhg/structure/graphs/graph.py b/dhg/structure/graphs/graph.py
index 3f7c6cd..fa18b98 100644
--- a/dhg/structure/graphs/graph.py
+++ b/dhg/structure/graphs/graph.py
@@ -476,7 +476,7 @@ class Graph(BaseGraph):
                 e_list, e_weight = self.e_both_side
                 self.cache["A"] = torch.sparse_coo_tensor(
                     indices=torch.tensor(e_list).t(),
-                    values=torch.tensor(e_weight),
+                    values=torch.tensor(e_weight, dtype=torch.float),
                     size=(self.num_v, self.num_v),
                     device=self.device,
                 ).coalesce()
-- 
2.43.0


From 597b870e536c5fafe95670afeca67aabc8b49254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:42 +0000
Subject: [PATCH 05/57] fix: missing comma in Hypergraph.vars_for_DL

---
 dhg/structure/hypergraphs/hypergraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index 8ae2c9b..fa1544a 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -672,7 +672,8 @@ class Hypergraph(BaseHypergraph):
             "D_e_neg_1",
             "v2e_src",
             "v2e_dst",
-            "v2e_weight" "e2v_src",
+            "v2e_weight",
+            "e2v_src",
             "e2v_dst",
             "e2v_weight",
         ]
-- 
2.43.0


From b486a78cf057946678d84c3eac48b566e8a262c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:42 +0000
Subject: [PATCH 06/57] fix: Graph.from_hypergraph_clique ignored its miu
 argument

---
 dhg/structure/graphs/graph.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dhg/structure/graphs/graph.py b/dhg/structure/graphs/graph.py
index fa18b98..ab3bed3 100644
--- a/dhg/structure/graphs/graph.py
+++ b/dhg/structure/graphs/graph.py
@@ -243,7 +243,6 @@ class Graph(BaseGraph):
             ``device`` (``torch.device``): The device to store the graph. Defaults to ``torch.device("cpu")``.
         """
         num_v = hypergraph.num_v
-        miu = 1.0
         adj = miu * hypergraph.H.mm(hypergraph.H_T).coalesce().cpu().clone()
         src_idx, dst_idx = adj._indices()
         edge_mask = src_idx < dst_idx
-- 
2.43.0


From bc5b99e9a63bbd7489a58b9cf3e16ff43a0671cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:11 +0000
Subject: [PATCH 07/57] fix: Hypergraph vertex weights survive clone, state
 dict, save/load, dropping and clear

---
 dhg/structure/hypergraphs/hypergraph.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index fa1544a..d35d868 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -42,7 +42,7 @@ class Hypergraph(BaseHypergraph):
             self._v_weight = [1.0] * self.num_v
         else:
             assert len(v_weight) == self.num_v, "The length of vertex weight is not equal to the number of vertices."
-            self._v_weight = v_weight
+            self._v_weight = list(v_weight)
         # init hyperedges
         if e_list is not None:
             self.add_hyperedges(e_list, e_weight, merge_op=merge_op)
@@ -56,7 +56,7 @@ class Hypergraph(BaseHypergraph):
     def state_dict(self) -> Dict[str, Any]:
         r"""Get the state dict of the hypergraph.
         """
-        return {"num_v": self.num_v, "raw_groups": self._raw_groups}
+        return {"num_v": self.num_v, "v_weight": self.v_weight, "raw_groups": self._raw_groups}
 
     def save(self, file_path: Union[str, Path]):
         r"""Save the DHG's hypergraph structure a file.
@@ -148,7 +148,7 @@ class Hypergraph(BaseHypergraph):
     def clone(self) -> "Hypergraph":
         r"""Return a copy of the hypergraph.
         """
-        hg = Hypergraph(self.num_v, device=self.device)
+        hg = Hypergraph(self.num_v, v_weight=self.v_weight, device=self.device)
         hg._raw_groups = deepcopy(self._raw_groups)
         hg.cache = deepcopy(self.cache)
         hg.group_cache = deepcopy(self.group_cache)
@@ -171,7 +171,7 @@ class Hypergraph(BaseHypergraph):
         Args:
             ``state_dict`` (``dict``): The state dict to load the hypergraph.
         """
-        _hg = Hypergraph(state_dict["num_v"])
+        _hg = Hypergraph(state_dict["num_v"], v_weight=state_dict.get("v_weight"))
         _hg._raw_groups = deepcopy(state_dict["raw_groups"])
         return _hg
 
@@ -461,6 +461,7 @@ class Hypergraph(BaseHypergraph):
                 _raw_groups[name] = {k: v for k, v in self._raw_groups[name].items() if random.random() > drop_rate}
             state_dict = {
                 "num_v": self.num_v,
+                "v_weight": self.v_weight,
                 "raw_groups": _raw_groups,
             }
             _hg = Hypergraph.from_state_dict(state_dict)
@@ -488,6 +489,7 @@ class Hypergraph(BaseHypergraph):
                     _raw_groups[name] = self._raw_groups[name]
             state_dict = {
                 "num_v": self.num_v,
+                "v_weight": self.v_weight,
                 "raw_groups": _raw_groups,
             }
             _hg = Hypergraph.from_state_dict(state_dict)
@@ -508,7 +510,7 @@ class Hypergraph(BaseHypergraph):
     def v_weight(self) -> List[float]:
         r"""Return the list of vertex weights.
         """
-        return self._v_weight
+        return super().v_weight
 
     @property
     def e(self) -> Tuple[List[List[int]], List[float]]:
-- 
2.43.0


From 189ee90c1a22de7c7c971f115022eaee265c2ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:11 +0000
Subject: [PATCH 08/57] fix: formatting hyperedges no longer rewrites the
 caller's list in place

---
 dhg/structure/base.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/dhg/structure/base.py b/dhg/structure/base.py
index 80b853d..443d202 100644
--- a/dhg/structure/base.py
+++ b/dhg/structure/base.py
@@ -499,9 +499,7 @@ class BaseHypergraph:
             pass
         else:
             raise TypeError("e_list must be List[int] or List[List[int]].")
-        for _idx in range(len(e_list)):
-            e_list[_idx] = tuple(sorted(e_list[_idx]))
-        return e_list
+        return [tuple(sorted(e)) for e in e_list]
 
     @staticmethod
     def _format_e_list_and_w_on_them(
-- 
2.43.0


From b607187fce491f6c32059ea5c5d472686d993183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:11 +0000
Subject: [PATCH 09/57] fix: removing an empty list of edges is a no-op, as
 adding one is

---
 dhg/structure/graphs/bipartite_graph.py | 2 ++
 dhg/structure/graphs/directed_graph.py  | 2 ++
 dhg/structure/graphs/graph.py           | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/dhg/structure/graphs/bipartite_graph.py b/dhg/structure/graphs/bipartite_graph.py
index d9469a0..ede63e5 100644
--- a/dhg/structure/graphs/bipartite_graph.py
+++ b/dhg/structure/graphs/bipartite_graph.py
@@ -328,6 +328,8 @@ class BiGraph(BaseGraph):
         Args:
             ``e_list`` (``Union[List[int], List[List[int]]]``): Edges to be removed.
         """
+        if len(e_list) == 0:
+            return
         e_list, _ = self._format_edges(e_list)
         for src, dst in e_list:
             self._remove_edge(src, dst)
diff --git a/dhg/structure/graphs/directed_graph.py b/dhg/structure/graphs/directed_graph.py
index 186b54f..f87b3d6 100644
--- a/dhg/structure/graphs/directed_graph.py
+++ b/dhg/structure/graphs/directed_graph.py
@@ -274,6 +274,8 @@ class DiGraph(BaseGraph):
         Args:
             ``e_list`` (``Union[List[int], List[List[int]]]``): Edges to be removed.
         """
+        if len(e_list) == 0:
+            return
         e_list, _ = self._format_edges(e_list)
         for src, dst in e_list:
             self._remove_edge(src, dst)
diff --git a/dhg/structure/graphs/graph.py b/dhg/structure/graphs/graph.py
index ab3bed3..46cb357 100644
--- a/dhg/structure/graphs/graph.py
+++ b/dhg/structure/graphs/graph.py
@@ -330,6 +330,8 @@ class Graph(BaseGraph):
         Args:
             ``e_list`` (``Union[List[int], List[List[int]]]``): Edges to be removed.
         """
+        if len(e_list) == 0:
+            return
         e_list, _ = self._format_edges(e_list)
         for src, dst in e_list:
             if src > dst:
-- 
2.43.0


From c2876181f2fabca563103a6cf26da6b61fa795cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:36 +0000
Subject: [PATCH 10/57] fix: views of a hypergraph without any hyperedge group
 are empty instead of raising

---
 dhg/structure/base.py                   |  6 ++++--
 dhg/structure/hypergraphs/hypergraph.py | 11 +++++++----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/dhg/structure/base.py b/dhg/structure/base.py
index 443d202..5e44baa 100644
--- a/dhg/structure/base.py
+++ b/dhg/structure/base.py
@@ -918,7 +918,8 @@ class BaseHypergraph:
         r"""Return the hypergraph incidence matrix with ``sparse matrix`` format.
         """
         if self.cache.get("H_v2e") is None:
-            _tmp = [self.H_v2e_of_group(name) for name in self.group_names]
+            _tmp = [torch.sparse_coo_tensor(size=(self.num_v, 0), device=self.device)]
+            _tmp += [self.H_v2e_of_group(name) for name in self.group_names]
             self.cache["H_v2e"] = torch.cat(_tmp, dim=1)
         return self.cache["H_v2e"]
 
@@ -938,7 +939,8 @@ class BaseHypergraph:
         r"""Return the hypergraph incidence matrix with ``sparse matrix`` format.
         """
         if self.cache.get("H_e2v") is None:
-            _tmp = [self.H_e2v_of_group(name) for name in self.group_names]
+            _tmp = [torch.sparse_coo_tensor(size=(self.num_v, 0), device=self.device)]
+            _tmp += [self.H_e2v_of_group(name) for name in self.group_names]
             self.cache["H_e2v"] = torch.cat(_tmp, dim=1)
         return self.cache["H_e2v"]
 
diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index d35d868..dfd0510 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -828,7 +828,8 @@ class Hypergraph(BaseHypergraph):
         r"""Return the weight matrix :math:`\mathbf{W}_e` of hyperedges with ``torch.sparse_coo_tensor`` format.
         """
         if self.cache.get("W_e") is None:
-            _tmp = [self.W_e_of_group(name)._values().clone() for name in self.group_names]
+            _tmp = [torch.zeros(0, device=self.device)]
+            _tmp += [self.W_e_of_group(name)._values().clone() for name in self.group_names]
             _tmp = torch.cat(_tmp, dim=0).view(-1)
             _num_e = _tmp.size(0)
             self.cache["W_e"] = torch.sparse_coo_tensor(
@@ -862,7 +863,8 @@ class Hypergraph(BaseHypergraph):
         r"""Return the vertex degree matrix :math:`\mathbf{D}_v` with ``torch.sparse_coo_tensor`` format.
         """
         if self.cache.get("D_v") is None:
-            _tmp = [self.D_v_of_group(name)._values().clone() for name in self.group_names]
+            _tmp = [torch.zeros(self.num_v, device=self.device)]
+            _tmp += [self.D_v_of_group(name)._values().clone() for name in self.group_names]
             _tmp = torch.vstack(_tmp).sum(dim=0).view(-1)
             self.cache["D_v"] = torch.sparse_coo_tensor(
                 torch.arange(0, self.num_v, device=self.device).view(1, -1).repeat(2, 1),
@@ -957,7 +959,8 @@ class Hypergraph(BaseHypergraph):
         r"""Return the hyperedge degree matrix :math:`\mathbf{D}_e` with ``torch.sparse_coo_tensor`` format.
         """
         if self.cache.get("D_e") is None:
-            _tmp = [self.D_e_of_group(name)._values().clone() for name in self.group_names]
+            _tmp = [torch.zeros(0, device=self.device)]
+            _tmp += [self.D_e_of_group(name)._values().clone() for name in self.group_names]
             _tmp = torch.cat(_tmp, dim=0).view(-1)
             _num_e = _tmp.size(0)
             self.cache["D_e"] = torch.sparse_coo_tensor(
@@ -1025,7 +1028,7 @@ class Hypergraph(BaseHypergraph):
             ``v_idx`` (``int``): The index of the vertex.
         """
         assert v_idx < self.num_v
-        _tmp, e_bias = [], 0
+        _tmp, e_bias = [torch.zeros(0, dtype=torch.long, device=self.device)], 0
         for name in self.group_names:
             _tmp.append(self.N_e_of_group(v_idx, name) + e_bias)
             e_bias += self.num_e_of_group(name)
-- 
2.43.0


From c7577aae6b79e6ba3609f14aa1736f08905a843c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:36 +0000
Subject: [PATCH 11/57] fix: DiGraph.from_feature_kNN with include_center and
 k=1 indexed a 1-D query result

---
 dhg/structure/graphs/directed_graph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dhg/structure/graphs/directed_graph.py b/dhg/structure/graphs/directed_graph.py
index f87b3d6..da6d0bb 100644
--- a/dhg/structure/graphs/directed_graph.py
+++ b/dhg/structure/graphs/directed_graph.py
@@ -231,6 +231,7 @@ class DiGraph(BaseGraph):
         else:
             find_tk = k + 1
         nbr_dist, nbr_idx = tree.query(features, k=find_tk, p=p)
+        nbr_dist, nbr_idx = nbr_dist.reshape(num_v, find_tk), nbr_idx.reshape(num_v, find_tk)
         center_idx = np.arange(num_v).reshape(-1, 1).repeat(find_tk - 1, 1)
         nbr_dist = nbr_dist[:, 1:]
         nbr_idx = nbr_idx[:, 1:]
-- 
2.43.0


From dca4b45b8997ebb4dea73cf8a4c58c4b06324df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:36 +0000
Subject: [PATCH 12/57] fix: HyperGCN reduction with mediators must also
 connect the two extreme vertices

---
 dhg/structure/graphs/graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dhg/structure/graphs/graph.py b/dhg/structure/graphs/graph.py
index 46cb357..686cd07 100644
--- a/dhg/structure/graphs/graph.py
+++ b/dhg/structure/graphs/graph.py
@@ -285,6 +285,8 @@ class Graph(BaseGraph):
                 new_e_weight.append(1.0 / num_v_in_e)
             else:
                 w = 1.0 / (2 * num_v_in_e - 3)
+                new_e_list.append([e[v_a_idx], e[v_b_idx]])
+                new_e_weight.append(w)
                 for mid_v_idx in range(num_v_in_e):
                     if mid_v_idx != v_a_idx and mid_v_idx != v_b_idx:
                         new_e_list.append([e[v_a_idx], e[mid_v_idx]])
-- 
2.43.0


From 9d256f36bffb17e22b7e080d7d19c1f355bb2db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:36 +0000
Subject: [PATCH 13/57] fix: HyperGCN reduction of a hypergraph without
 hyperedges

---
 dhg/structure/graphs/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/structure/graphs/graph.py b/dhg/structure/graphs/graph.py
index 686cd07..d35e34f 100644
--- a/dhg/structure/graphs/graph.py
+++ b/dhg/structure/graphs/graph.py
@@ -295,7 +295,7 @@ class Graph(BaseGraph):
                         new_e_weight.append(w)
         # remove selfloop
         if remove_selfloop:
-            new_e_list = torch.tensor(new_e_list, dtype=torch.long)
+            new_e_list = torch.tensor(new_e_list, dtype=torch.long).view(-1, 2)
             new_e_weight = torch.tensor(new_e_weight, dtype=torch.float)
             e_mask = (new_e_list[:, 0] != new_e_list[:, 1]).bool()
             new_e_list = new_e_list[e_mask].numpy().tolist()
-- 
2.43.0


From 28f7868edca5f379883b6142098bfb8941d26bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:45 +0000
Subject: [PATCH 14/57] fix: graph_Gnm and digraph_Gnm rejected the complete
 graph

---
 dhg/random/graphs/directed_graph.py | 2 +-
 dhg/random/graphs/graph.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dhg/random/graphs/directed_graph.py b/dhg/random/graphs/directed_graph.py
index 1861253..f3f236a 100644
--- a/dhg/random/graphs/directed_graph.py
+++ b/dhg/random/graphs/directed_graph.py
@@ -84,7 +84,7 @@ def digraph_Gnm(num_v: int, num_e: int):
     """
 
     assert num_v > 1, "num_v must be greater than 1"
-    assert num_e < num_v * (
+    assert num_e <= num_v * (
         num_v - 1
     ), "the specified num_e is larger than the possible number of edges"
 
diff --git a/dhg/random/graphs/graph.py b/dhg/random/graphs/graph.py
index 5977b52..b4766f6 100644
--- a/dhg/random/graphs/graph.py
+++ b/dhg/random/graphs/graph.py
@@ -74,7 +74,7 @@ def graph_Gnm(num_v: int, num_e: int):
     """
     assert num_v > 1, "num_v must be greater than 1"
     assert (
-        num_e < num_v * (num_v - 1) // 2
+        num_e <= num_v * (num_v - 1) // 2
     ), "the specified num_e is larger than the possible number of edges"
 
     v_list = list(range(num_v))
-- 
2.43.0


From afbe8232737bdecde1bc739c56a08089dfcd5188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:45 +0000
Subject: [PATCH 15/57] fix: graph_Gnp_fast and digraph_Gnp_fast fail for
 probability 0 and 1

---
 dhg/random/graphs/directed_graph.py | 4 +++-
 dhg/random/graphs/graph.py          | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/dhg/random/graphs/directed_graph.py b/dhg/random/graphs/directed_graph.py
index f3f236a..35106e6 100644
--- a/dhg/random/graphs/directed_graph.py
+++ b/dhg/random/graphs/directed_graph.py
@@ -43,7 +43,9 @@ def digraph_Gnp_fast(num_v: int, prob: float):
     assert num_v > 1, "num_v must be greater than 1"
     assert prob >= 0 and prob <= 1, "prob must be between 0 and 1"
 
-    lp = math.log(1.0 - prob)
+    if prob == 0:
+        return DiGraph(num_v)
+    lp = math.log(1.0 - prob) if prob < 1 else -math.inf
     e_list = []
     # w -> v
     v, w = 1, -1
diff --git a/dhg/random/graphs/graph.py b/dhg/random/graphs/graph.py
index b4766f6..0fc38bb 100644
--- a/dhg/random/graphs/graph.py
+++ b/dhg/random/graphs/graph.py
@@ -45,7 +45,9 @@ def graph_Gnp_fast(num_v: int, prob: float):
     assert prob >= 0 and prob <= 1, "prob must be between 0 and 1"
 
     e_list = []
-    lp = math.log(1.0 - prob)
+    if prob == 0:
+        return Graph(num_v)
+    lp = math.log(1.0 - prob) if prob < 1 else -math.inf
     v, w = 1, -1
     while v < num_v:
         lr = math.log(1.0 - random.random())
-- 
2.43.0


From 5a161b919b9d70a1e581caeb1a628a9d69b5d12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:45 +0000
Subject: [PATCH 16/57] fix: hypergraph generators loop forever when more
 hyperedges are requested than exist

---
 dhg/random/hypergraphs/hypergraph.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dhg/random/hypergraphs/hypergraph.py b/dhg/random/hypergraphs/hypergraph.py
index a0948b7..97ce481 100644
--- a/dhg/random/hypergraphs/hypergraph.py
+++ b/dhg/random/hypergraphs/hypergraph.py
@@ -1,3 +1,4 @@
+import math
 import random
 import itertools
 from typing import Optional, List
@@ -52,6 +53,7 @@ def uniform_hypergraph_Gnm(k: int, num_v: int, num_e: int):
     assert num_v > 1, "num_v must be greater than 1"
     assert num_e > 0, "num_e must be greater than 0"
 
+    assert num_e <= math.comb(num_v, k), "the specified num_e is larger than the possible number of hyperedges"
     edges = set()
     while len(edges) < num_e:
         e = random.sample(range(num_v), k)
@@ -108,6 +110,9 @@ def hypergraph_Gnm(num_v: int, num_e: int, method:str="low_order_first", prob_k_
     else:
         raise ValueError(f"Unknown method: {method}")
 
+    assert num_e <= sum(
+        math.comb(num_v, k) for k, prob_k in zip(deg_e_list, prob_k_list) if prob_k > 0
+    ), "the specified num_e is larger than the possible number of hyperedges"
     edges = set()
     while len(edges) < num_e:
         k = random.choices(deg_e_list, weights=prob_k_list)[0]
-- 
2.43.0


From 507feb8ed5942f2fe389b9da1c59248dac9972d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:45 +0000
Subject: [PATCH 17/57] fix: vertex splits lost all vertices of classes whose
 labels are not contiguous

---
 dhg/utils/dataset_split.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dhg/utils/dataset_split.py b/dhg/utils/dataset_split.py
index 9309661..bd6b7a5 100644
--- a/dhg/utils/dataset_split.py
+++ b/dhg/utils/dataset_split.py
@@ -57,7 +57,6 @@ def split_by_num(
     assert v_label.ndim == 1
     if v_label.min() == 1:
         v_label -= 1
-    num_classes = np.unique(v_label).shape[0]
 
     train_idx, test_idx = [], []
     val_num = val_num if val_num is not None else 0
@@ -66,7 +65,7 @@ def split_by_num(
     else:
         val_idx = None
 
-    for lbl_idx in range(num_classes):
+    for lbl_idx in np.unique(v_label):
         lbl_v_idx = np.where(v_label == lbl_idx)[0]
         random.shuffle(lbl_v_idx)
         train_idx.extend(lbl_v_idx[:train_num])
@@ -118,7 +117,6 @@ def split_by_ratio(
     assert v_label.ndim == 1
     if v_label.min() == 1:
         v_label -= 1
-    num_classes = np.unique(v_label).shape[0]
 
     val_ratio = val_ratio if val_ratio is not None else 0
     if test_ratio is not None:
@@ -132,7 +130,7 @@ def split_by_ratio(
     else:
         val_idx = None
 
-    for lbl_idx in range(num_classes):
+    for lbl_idx in np.unique(v_label):
         lbl_v_idx = np.where(v_label == lbl_idx)[0]
         _num = lbl_v_idx.shape[0]
         random.shuffle(lbl_v_idx)
-- 
2.43.0


From 8e6431a3f29f0bfa8d784f054a35e2ec7d11a7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:02 +0000
Subject: [PATCH 18/57] fix: remap_adj_list(s) raised KeyError for a source
 without neighbours

---
 dhg/utils/structure.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dhg/utils/structure.py b/dhg/utils/structure.py
index 207d4e5..bb250ad 100644
--- a/dhg/utils/structure.py
+++ b/dhg/utils/structure.py
@@ -157,7 +157,7 @@ def remap_adj_list(
     if bipartite_graph:
         u_set, v_set = set(), set()
         for line in adj_list:
-            if len(line) <= 1:
+            if len(line) == 0:
                 continue
             u_set.add(line[0])
             for v in line[1:]:
@@ -177,7 +177,7 @@ def remap_adj_list(
     else:
         v_set = set()
         for line in adj_list:
-            if len(line) <= 1:
+            if len(line) == 0:
                 continue
             for v in line:
                 v_set.add(v)
@@ -210,7 +210,7 @@ def remap_adj_lists(
         u_set, v_set = set(), set()
         for adj_list in adj_lists:
             for line in adj_list:
-                if len(line) <= 1:
+                if len(line) == 0:
                     continue
                 u_set.add(line[0])
                 for v in line[1:]:
@@ -232,7 +232,7 @@ def remap_adj_lists(
         v_set = set()
         for adj_list in adj_lists:
             for line in adj_list:
-                if len(line) <= 1:
+                if len(line) == 0:
                     continue
                 for v in line:
                     v_set.add(v)
-- 
2.43.0


From 67aa968d0b1347a92d42379ea5223bc71931d66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:39 +0000
Subject: [PATCH 19/57] fix: recommender metrics with a ratio cut-off raised
 NameError (numpy not imported)

---
 dhg/metrics/recommender.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dhg/metrics/recommender.py b/dhg/metrics/recommender.py
index 6264a82..3da7d28 100644
--- a/dhg/metrics/recommender.py
+++ b/dhg/metrics/recommender.py
@@ -1,5 +1,6 @@
 from typing import Optional, Union, Tuple, List, Dict
 
+import numpy as np
 import torch
 
 
-- 
2.43.0


From 1018f2f2a5bb7c479d0c1687a08517b0fdd6bae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:40 +0000
Subject: [PATCH 20/57] fix: precision and recall rejected a batch without any
 relevant item as non-binary

---
 dhg/metrics/recommender.py | 4 ++--
 dhg/metrics/retrieval.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dhg/metrics/recommender.py b/dhg/metrics/recommender.py
index 3da7d28..9cbab20 100644
--- a/dhg/metrics/recommender.py
+++ b/dhg/metrics/recommender.py
@@ -76,7 +76,7 @@ def precision(
         0.5
     """
     y_true, y_pred, k = _format_inputs(y_true, y_pred, k, ratio=ratio)
-    assert y_true.max() == 1, "The input y_true must be binary."
+    assert ((y_true == 0) | (y_true == 1)).all(), "The input y_true must be binary."
     pred_seq = y_true.gather(1, torch.argsort(y_pred, dim=-1, descending=True))[:, :k]
     res_list = (pred_seq.sum(dim=1) / k).detach().cpu()
     if ret_batch:
@@ -110,7 +110,7 @@ def recall(
         0.6666666666666666
     """
     y_true, y_pred, k = _format_inputs(y_true, y_pred, k, ratio=ratio)
-    assert y_true.max() == 1, "The input y_true must be binary."
+    assert ((y_true == 0) | (y_true == 1)).all(), "The input y_true must be binary."
     pred_seq = y_true.gather(1, torch.argsort(y_pred, dim=-1, descending=True))[:, :k]
     num_true = y_true.sum(dim=1)
     res_list = (pred_seq.sum(dim=1) / num_true).cpu()
diff --git a/dhg/metrics/retrieval.py b/dhg/metrics/retrieval.py
index 5efc906..6227d26 100644
--- a/dhg/metrics/retrieval.py
+++ b/dhg/metrics/retrieval.py
@@ -67,7 +67,7 @@ def precision(
         0.5
     """
     y_true, y_pred, k = _format_inputs(y_true, y_pred, k, ratio=ratio)
-    assert y_true.max() == 1, "The input y_true must be binary."
+    assert ((y_true == 0) | (y_true == 1)).all(), "The input y_true must be binary."
     pred_seq = y_true.gather(1, torch.argsort(y_pred, dim=-1, descending=True))[:, :k]
     res_list = (pred_seq.sum(dim=1) / k).detach().cpu()
     if ret_batch:
@@ -101,7 +101,7 @@ def recall(
         0.6666666666666666
     """
     y_true, y_pred, k = _format_inputs(y_true, y_pred, k, ratio=ratio)
-    assert y_true.max() == 1, "The input y_true must be binary."
+    assert ((y_true == 0) | (y_true == 1)).all(), "The input y_true must be binary."
     pred_seq = y_true.gather(1, torch.argsort(y_pred, dim=-1, descending=True))[:, :k]
     num_true = y_true.sum(dim=1)
     res_list = (pred_seq.sum(dim=1) / num_true).cpu()
-- 
2.43.0


From 96f7fe4c18d901810e0b5161beae26b9ee3c1372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:40 +0000
Subject: [PATCH 21/57] fix: average precision ignored the cut-off k and was
 NaN without relevant items

---
 dhg/metrics/retrieval.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dhg/metrics/retrieval.py b/dhg/metrics/retrieval.py
index 6227d26..9c28917 100644
--- a/dhg/metrics/retrieval.py
+++ b/dhg/metrics/retrieval.py
@@ -149,8 +149,10 @@ def ap(
     else:
         k = min(k, max_k) if k is not None else max_k
 
-    pred_seq = y_true[torch.argsort(y_pred, descending=True)]
-    pred_index = torch.arange(1, len(y_true) + 1, device=y_true.device)[pred_seq > 0]
+    pred_seq = y_true[torch.argsort(y_pred, descending=True)][:k]
+    pred_index = torch.arange(1, len(pred_seq) + 1, device=y_true.device)[pred_seq > 0]
+    if len(pred_index) == 0:
+        return 0.0
     recall_seq = torch.arange(1, len(pred_index) + 1, device=y_true.device)
     res = recall_seq / pred_index
     if method == "pascal_voc":
-- 
2.43.0


From 68a675f71ac1609f1738b37fe875f529728a2ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:40 +0000
Subject: [PATCH 22/57] fix: reciprocal rank is that of the first relevant
 item, and 0 without any

---
 dhg/metrics/retrieval.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dhg/metrics/retrieval.py b/dhg/metrics/retrieval.py
index 9c28917..20a6d45 100644
--- a/dhg/metrics/retrieval.py
+++ b/dhg/metrics/retrieval.py
@@ -294,8 +294,9 @@ def rr(y_true: torch.Tensor, y_pred: torch.Tensor, k: Optional[int] = None, rati
 
     pred_seq = y_true[torch.argsort(y_pred, dim=-1, descending=True)][:k]
     pred_index = torch.nonzero(pred_seq).view(-1)
-    res = (1 / (pred_index + 1)).mean().cpu()
-    return res.mean().item()
+    if len(pred_index) == 0:
+        return 0.0
+    return (1 / (pred_index[0] + 1)).item()
 
 
 def mrr(
-- 
2.43.0


From 91d43c75c9c12ef7170be0bbfe1df9d1482550ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:40 +0000
Subject: [PATCH 23/57] fix: precision-recall curve ignored the cut-off k and
 failed without relevant items

---
 dhg/metrics/retrieval.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/dhg/metrics/retrieval.py b/dhg/metrics/retrieval.py
index 20a6d45..ff46853 100644
--- a/dhg/metrics/retrieval.py
+++ b/dhg/metrics/retrieval.py
@@ -373,18 +373,23 @@ def _pr_curve(
     else:
         k = min(k, max_k) if k is not None else max_k
 
-    pred_seq = y_true[torch.argsort(y_pred, descending=True)]
-    pred_index = torch.arange(1, len(y_true) + 1, device=y_true.device)[pred_seq > 0]
+    pred_seq = y_true[torch.argsort(y_pred, descending=True)][:k]
+    pred_index = torch.arange(1, len(pred_seq) + 1, device=y_true.device)[pred_seq > 0]
     recall_seq = torch.arange(1, len(pred_index) + 1, device=y_true.device)
     res = recall_seq / pred_index
     if method == "pascal_voc":
         res = torch.flip(res, dims=(0,))
         res = torch.cummax(res, dim=0)[0]
         res = torch.flip(res, dims=(0,))
-    res = res.cpu().numpy()
     recall_coor = np.linspace(0, 1, n_points)
-    recall_index = (recall_coor * (torch.sum(y_true).item() - 1)).astype(int)
-    precision_coor = res[recall_index]
+    num_true = int(torch.sum(y_true).item())
+    if num_true == 0:
+        return [0.0] * n_points, recall_coor.tolist()
+    # recall levels that are not reached within the top-k have zero precision
+    precision_seq = np.zeros(num_true)
+    precision_seq[: len(res)] = res.cpu().numpy()
+    recall_index = (recall_coor * (num_true - 1)).astype(int)
+    precision_coor = precision_seq[recall_index]
     return precision_coor.tolist(), recall_coor.tolist()
 
 
-- 
2.43.0


From 97f35339a06d38a4ef72f94a424b300331abefc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:40 +0000
Subject: [PATCH 24/57] fix: test epoch results of different epochs shared one
 dictionary

---
 dhg/metrics/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dhg/metrics/base.py b/dhg/metrics/base.py
index 5dbdfa6..a467385 100644
--- a/dhg/metrics/base.py
+++ b/dhg/metrics/base.py
@@ -93,7 +93,7 @@ class BaseEvaluator:
         # init batch data containers
         self.validate_res = []
         self.test_res_dict = defaultdict(list)
-        self.last_validate_res, self.last_test_res = None, {}
+        self.last_validate_res, self.last_test_res = None, None
 
     @abc.abstractmethod
     def __repr__(self) -> str:
@@ -153,6 +153,7 @@ class BaseEvaluator:
         if self.test_res_dict == {} and self.last_test_res is not None:
             return self.last_test_res
         assert self.test_res_dict != {}, "No batch data added for testing."
+        self.last_test_res = {}
         for name, res_list in self.test_res_dict.items():
             if not isinstance(res_list[0], list):
                 self.last_test_res[name] = np.vstack(res_list).mean(0).squeeze().tolist()
-- 
2.43.0


From 6e188f7442002e71ff97ac77aefd85745ecf02d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:07 +0000
Subject: [PATCH 25/57] fix: remap_adj_list(s) of bipartite graphs failed on an
 empty line

---
 dhg/utils/structure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dhg/utils/structure.py b/dhg/utils/structure.py
index bb250ad..126db86 100644
--- a/dhg/utils/structure.py
+++ b/dhg/utils/structure.py
@@ -168,7 +168,7 @@ def remap_adj_list(
             {raw_v: new_v for new_v, raw_v in enumerate(v_list)},
         )
         adj_list = [
-            [u_map[line[0]]] + [v_map[v] for v in line[1:]] for line in adj_list
+            [u_map[v] for v in line[:1]] + [v_map[v] for v in line[1:]] for line in adj_list
         ]
         if ret_map:
             return adj_list, u_map, v_map
@@ -221,7 +221,7 @@ def remap_adj_lists(
             {raw_v: new_v for new_v, raw_v in enumerate(v_list)},
         )
         adj_lists = [
-            [[u_map[line[0]]] + [v_map[v] for v in line[1:]] for line in adj_list]
+            [[u_map[v] for v in line[:1]] + [v_map[v] for v in line[1:]] for line in adj_list]
             for adj_list in adj_lists
         ]
         if ret_map:
-- 
2.43.0


From e81f5db64e3953f15eb1e4c05976cffac255d37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:35 +0000
Subject: [PATCH 26/57] fix: a vertex named twice in a hyperedge (e.g. a
 self-loop turned into a hyperedge) counted twice

---
 dhg/structure/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dhg/structure/base.py b/dhg/structure/base.py
index 5e44baa..9708927 100644
--- a/dhg/structure/base.py
+++ b/dhg/structure/base.py
@@ -492,14 +492,14 @@ class BaseHypergraph:
             ``e_list`` (``List[int]`` or ``List[List[int]]``): The hyperedge list.
         """
         if len(e_list) > 0 and type(e_list[0]) in (int, float):
-            return [tuple(sorted(e_list))]
+            return [tuple(sorted(set(e_list)))]
         elif type(e_list) == tuple:
             e_list = list(e_list)
         elif type(e_list) == list:
             pass
         else:
             raise TypeError("e_list must be List[int] or List[List[int]].")
-        return [tuple(sorted(e)) for e in e_list]
+        return [tuple(sorted(set(e))) for e in e_list]
 
     @staticmethod
     def _format_e_list_and_w_on_them(
-- 
2.43.0


From f52856f75a2d1ccc5f04c5029c44af9bd631976d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:13 +0000
Subject: [PATCH 27/57] fix: attention layers failed on a structure with a
 single message path

---
 dhg/nn/convs/graphs/gat_conv.py         | 2 +-
 dhg/nn/convs/hypergraphs/unignn_conv.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dhg/nn/convs/graphs/gat_conv.py b/dhg/nn/convs/graphs/gat_conv.py
index 91996f6..74d1274 100644
--- a/dhg/nn/convs/graphs/gat_conv.py
+++ b/dhg/nn/convs/graphs/gat_conv.py
@@ -48,7 +48,7 @@ class GATConv(nn.Module):
         x_for_src = self.atten_src(X)
         x_for_dst = self.atten_dst(X)
         e_atten_score = x_for_src[g.e_src] + x_for_dst[g.e_dst]
-        e_atten_score = self.atten_dropout(self.atten_act(e_atten_score).squeeze())
+        e_atten_score = self.atten_dropout(self.atten_act(e_atten_score).squeeze(-1))
         # ================================================================================
         # We suggest to add a clamp on attention weight to avoid Nan error in training.
         e_atten_score = torch.clamp(e_atten_score, min=0.001, max=5)
diff --git a/dhg/nn/convs/hypergraphs/unignn_conv.py b/dhg/nn/convs/hypergraphs/unignn_conv.py
index cc67be8..7dfb6e8 100644
--- a/dhg/nn/convs/hypergraphs/unignn_conv.py
+++ b/dhg/nn/convs/hypergraphs/unignn_conv.py
@@ -136,7 +136,7 @@ class UniGATConv(nn.Module):
         # ===============================================
         alpha_e = self.atten_e(Y)
         e_atten_score = alpha_e[hg.e2v_src]
-        e_atten_score = self.atten_dropout(self.atten_act(e_atten_score).squeeze())
+        e_atten_score = self.atten_dropout(self.atten_act(e_atten_score).squeeze(-1))
         # ================================================================================
         # We suggest to add a clamp on attention weight to avoid Nan error in training.
         e_atten_score = torch.clamp(e_atten_score, min=0.001, max=5)
-- 
2.43.0


From 234c92b82b11bb910f4838b5321f64756a1a2188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:45 +0000
Subject: [PATCH 28/57] fix: BPRLoss returned inf (and NaN gradients) for
 strongly mis-ranked pairs

---
 dhg/nn/loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/nn/loss.py b/dhg/nn/loss.py
index 98ffd47..b231e81 100644
--- a/dhg/nn/loss.py
+++ b/dhg/nn/loss.py
@@ -26,7 +26,7 @@ class BPRLoss(nn.Module):
             ``neg_scores`` (``torch.Tensor``): The negative scores.
         """
         if self.activation == "sigmoid_then_log":
-            loss = -(self.alpha * pos_scores - self.beta * neg_scores).sigmoid().log()
+            loss = -F.logsigmoid(self.alpha * pos_scores - self.beta * neg_scores)
         elif self.activation == "softplus":
             loss = F.softplus(self.beta * neg_scores - self.alpha * pos_scores)
         else:
-- 
2.43.0


From c50a0e5d26e75a650f0a754675764df2c9545ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:58 +0000
Subject: [PATCH 29/57] fix: EmbeddingRegularization rewarded negative entries
 for odd powers

---
 dhg/nn/regularization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/nn/regularization.py b/dhg/nn/regularization.py
index ca88bdb..9e3fd4b 100644
--- a/dhg/nn/regularization.py
+++ b/dhg/nn/regularization.py
@@ -25,5 +25,5 @@ class EmbeddingRegularization(nn.Module):
         """
         loss = 0
         for emb in embs:
-            loss += 1 / self.p * emb.pow(self.p).sum(dim=1).mean()
+            loss += 1 / self.p * emb.abs().pow(self.p).sum(dim=1).mean()
         return self.weight_decay * loss
-- 
2.43.0


From 0813d7f5ba8b619f9becd15a87e204af1517edb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:36 +0000
Subject: [PATCH 30/57] fix: splitting a single vertex was rejected

---
 dhg/utils/dataset_split.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dhg/utils/dataset_split.py b/dhg/utils/dataset_split.py
index bd6b7a5..b0e33be 100644
--- a/dhg/utils/dataset_split.py
+++ b/dhg/utils/dataset_split.py
@@ -53,7 +53,7 @@ def split_by_num(
     if isinstance(v_label, torch.Tensor):
         v_label = v_label.detach().cpu().numpy()
     assert isinstance(v_label, np.ndarray)
-    v_label = v_label.squeeze().astype(int)
+    v_label = np.atleast_1d(v_label.squeeze()).astype(int)
     assert v_label.ndim == 1
     if v_label.min() == 1:
         v_label -= 1
@@ -113,7 +113,7 @@ def split_by_ratio(
     if isinstance(v_label, torch.Tensor):
         v_label = v_label.detach().cpu().numpy()
     assert isinstance(v_label, np.ndarray)
-    v_label = v_label.squeeze().astype(int)
+    v_label = np.atleast_1d(v_label.squeeze()).astype(int)
     assert v_label.ndim == 1
     if v_label.min() == 1:
         v_label -= 1
-- 
2.43.0


From abd46e66843fc7acf8f4ba20d98edb74a2edc1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:44 +0000
Subject: [PATCH 31/57] fix: downloading to a user-specified data root failed
 with ValueError

---
 dhg/utils/download.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dhg/utils/download.py b/dhg/utils/download.py
index b7c0f6c..0862da9 100644
--- a/dhg/utils/download.py
+++ b/dhg/utils/download.py
@@ -68,8 +68,9 @@ def _try_migrate_from_legacy_cache(file_path: Path, md5: str) -> bool:
     from dhg._global import CACHE_ROOT
     LEGACY_CACHE_ROOT = Path.home() / ".dhg"
 
+    if CACHE_ROOT not in file_path.parents: return False # A user-specified data root has no legacy cache
     legacy_path = LEGACY_CACHE_ROOT / file_path.relative_to(CACHE_ROOT)
-    if legacy_path is None or not legacy_path.exists(): return False
+    if not legacy_path.exists(): return False
     file_path.parent.mkdir(parents=True, exist_ok=True)
     shutil.move(legacy_path, file_path)
     try:
-- 
2.43.0


From 83969582e1086d7a3755fde4920bd3ec634a4d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:45 +0000
Subject: [PATCH 32/57] fix: download_and_check did not retry corrupted files
 and network failures

---
 dhg/utils/download.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/utils/download.py b/dhg/utils/download.py
index 0862da9..f4bf825 100644
--- a/dhg/utils/download.py
+++ b/dhg/utils/download.py
@@ -80,7 +80,7 @@ def _try_migrate_from_legacy_cache(file_path: Path, md5: str) -> bool:
     return True
 
 
-@_retry(3)
+@_retry(3, (requests.RequestException, ValueError))
 def download_and_check(url: str, file_path: Path, md5: str):
     r""" Download a file from a url and check its integrity.
 
-- 
2.43.0


From 29ac050ccf4e97a80da0e0b9aba852e649cd9688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:45 +0000
Subject: [PATCH 33/57] fix: a failed download left a partial file behind

---
 dhg/utils/download.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/dhg/utils/download.py b/dhg/utils/download.py
index f4bf825..e9233a6 100644
--- a/dhg/utils/download.py
+++ b/dhg/utils/download.py
@@ -17,10 +17,15 @@ def download_file(url: str, file_path: Path):
     r = requests.get(url, stream=True, verify=True)
     if r.status_code != 200:
         raise requests.HTTPError(f"{url} is not accessible.")
-    with open(file_path, 'wb') as f:
-        for chunk in r.iter_content(chunk_size=1024):
-            if chunk:
-                f.write(chunk)
+    try:
+        with open(file_path, 'wb') as f:
+            for chunk in r.iter_content(chunk_size=1024):
+                if chunk:
+                    f.write(chunk)
+    except BaseException:
+        if file_path.exists():
+            file_path.unlink() # never leave a partially downloaded file behind
+        raise
 
 
 def check_file(file_path: Path, md5: str):
-- 
2.43.0


From 492bac38a986cf2cf5abdbb9b156fb1e480b85c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:11 +0000
Subject: [PATCH 34/57] fix: min_max_scaler raised ZeroDivisionError for a
 constant input

---
 dhg/datapipe/normalize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dhg/datapipe/normalize.py b/dhg/datapipe/normalize.py
index f8a2b4e..50ce7db 100644
--- a/dhg/datapipe/normalize.py
+++ b/dhg/datapipe/normalize.py
@@ -63,7 +63,8 @@ def min_max_scaler(X: torch.Tensor, ft_min: float, ft_max: float) -> torch.Tenso
     assert ft_min < ft_max, "The minimum value of the feature should be less than the maximum value."
     X_min, X_max = X.min().item(), X.max().item()
     X_range = X_max - X_min
-    scale_ = (ft_max - ft_min) / X_range
+    # a constant input has no range to scale and is mapped to ``ft_min``
+    scale_ = (ft_max - ft_min) / X_range if X_range != 0 else 0.0
     min_ = ft_min - X_min * scale_
     X = X * scale_ + min_
     return X
-- 
2.43.0


From 8ca638af64ab508f668ca96144f850e79a22c88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:12 +0000
Subject: [PATCH 35/57] fix: font_size was ignored when drawing graphs,
 digraphs and hypergraphs

---
 dhg/visualization/structure/draw.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dhg/visualization/structure/draw.py b/dhg/visualization/structure/draw.py
index 339fbae..d76eb51 100644
--- a/dhg/visualization/structure/draw.py
+++ b/dhg/visualization/structure/draw.py
@@ -63,7 +63,9 @@ def draw_graph(
     num_v, e_list = g.num_v, deepcopy(g.e[0])
     # default configures
     v_color, e_color, e_fill_color = default_style(g.num_v, g.num_e, v_color, e_color, e_fill_color)
-    v_size, v_line_width, e_line_width, font_size = default_size(num_v, e_list, v_size, v_line_width, e_line_width)
+    v_size, v_line_width, e_line_width, font_size = default_size(
+        num_v, e_list, v_size, v_line_width, e_line_width, font_size
+    )
     (push_v_strength, push_e_strength, pull_e_strength, pull_center_strength,) = default_strength(
         num_v, e_list, push_v_strength, push_e_strength, pull_e_strength, pull_center_strength,
     )
@@ -130,7 +132,9 @@ def draw_digraph(
     num_v, e_list = g.num_v, deepcopy(g.e[0])
     # default configures
     v_color, e_color, _ = default_style(g.num_v, g.num_e, v_color, e_color, None)
-    v_size, v_line_width, e_line_width, font_size = default_size(num_v, e_list, v_size, v_line_width, e_line_width)
+    v_size, v_line_width, e_line_width, font_size = default_size(
+        num_v, e_list, v_size, v_line_width, e_line_width, font_size
+    )
     (push_v_strength, push_e_strength, pull_e_strength, pull_center_strength,) = default_strength(
         num_v, e_list, push_v_strength, push_e_strength, pull_e_strength, pull_center_strength,
     )
@@ -313,7 +317,9 @@ def draw_hypergraph(
     num_v, e_list = hg.num_v, deepcopy(hg.e[0])
     # default configures
     v_color, e_color, e_fill_color = default_hypergraph_style(hg.num_v, hg.num_e, v_color, e_color, e_fill_color)
-    v_size, v_line_width, e_line_width, font_size = default_size(num_v, e_list, v_size, v_line_width, e_line_width)
+    v_size, v_line_width, e_line_width, font_size = default_size(
+        num_v, e_list, v_size, v_line_width, e_line_width, font_size
+    )
     (push_v_strength, push_e_strength, pull_e_strength, pull_center_strength,) = default_hypergraph_strength(
         num_v, e_list, push_v_strength, push_e_strength, pull_e_strength, pull_center_strength,
     )
-- 
2.43.0


From 02eeec13c6789c7810c2e271aefd736c2e3e1d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:12 +0000
Subject: [PATCH 36/57] fix: v_line_width was ignored when drawing

---
 dhg/visualization/structure/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dhg/visualization/structure/utils.py b/dhg/visualization/structure/utils.py
index ac0af3b..48e35f5 100644
--- a/dhg/visualization/structure/utils.py
+++ b/dhg/visualization/structure/utils.py
@@ -133,9 +133,8 @@ def draw_vertex(
     n = v_coor.shape[0]
     if v_label is None:
         v_label = [""] * n
-    for coor, label, size, width in zip(v_coor.tolist(), v_label, v_size, v_line_width):
+    for coor, label, size in zip(v_coor.tolist(), v_label, v_size):
         circle = Circle(coor, size)
-        circle.lineWidth = width
         # circle.label = label
         if label != '':
             x, y = coor[0], coor[1]
@@ -144,7 +143,7 @@ def draw_vertex(
             y += offset[1]
             ax.text(x, y, label, fontsize=font_size, fontfamily=font_family, ha='center', va='top')
         patches.append(circle)
-    p = PatchCollection(patches, facecolors=v_color, edgecolors="black")
+    p = PatchCollection(patches, facecolors=v_color, edgecolors="black", linewidths=v_line_width)
     ax.add_collection(p)
 
 
-- 
2.43.0


From 37757b46078344fa3d1ca51658cf873b0d86f3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:12 +0000
Subject: [PATCH 37/57] fix: wrong-length labels dropped vertices, one-sided
 bigraph labels were ignored

---
 dhg/visualization/structure/draw.py  |  7 +++++--
 dhg/visualization/structure/utils.py | 10 ++++++----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/dhg/visualization/structure/draw.py b/dhg/visualization/structure/draw.py
index d76eb51..056f18b 100644
--- a/dhg/visualization/structure/draw.py
+++ b/dhg/visualization/structure/draw.py
@@ -249,6 +249,9 @@ def draw_bigraph(
 
     # preprocess
     e_list = [(u, v + num_u) for u, v in e_list]
+    u_label = [""] * num_u if u_label is None else list(u_label)
+    v_label = [""] * num_v if v_label is None else list(v_label)
+    assert len(u_label) == num_u and len(v_label) == num_v, "The specified label list has the wrong length."
     if e_style == "line":
         draw_line_edge(
             ax, np.vstack([u_coor, v_coor]), u_size + v_size, e_list, False, e_color, e_line_width,
@@ -259,8 +262,8 @@ def draw_bigraph(
     draw_vertex(
         ax,
         np.vstack([u_coor, v_coor]),
-        list(u_label) + list(v_label) if u_label is not None and v_label is not None else None,
-        u_font_size + v_font_size,
+        u_label + v_label,
+        [u_font_size] * num_u + [v_font_size] * num_v,
         font_family,
         u_size + v_size,
         u_color + v_color,
diff --git a/dhg/visualization/structure/utils.py b/dhg/visualization/structure/utils.py
index 48e35f5..8e8a926 100644
--- a/dhg/visualization/structure/utils.py
+++ b/dhg/visualization/structure/utils.py
@@ -1,5 +1,5 @@
 from itertools import chain
-from typing import Optional, List, Tuple
+from typing import Optional, List, Tuple, Union
 
 import matplotlib
 import numpy as np
@@ -123,7 +123,7 @@ def draw_vertex(
     ax: matplotlib.axes.Axes,
     v_coor: List[Tuple[float, float]],
     v_label: Optional[List[str]],
-    font_size: int,
+    font_size: Union[float, list],
     font_family: str,
     v_size: list,
     v_color: list,
@@ -133,7 +133,9 @@ def draw_vertex(
     n = v_coor.shape[0]
     if v_label is None:
         v_label = [""] * n
-    for coor, label, size in zip(v_coor.tolist(), v_label, v_size):
+    assert len(v_label) == n, "The specified label list has the wrong length."
+    font_size = font_size if isinstance(font_size, list) else [font_size] * n
+    for coor, label, size, fsize in zip(v_coor.tolist(), v_label, v_size, font_size):
         circle = Circle(coor, size)
         # circle.label = label
         if label != '':
@@ -141,7 +143,7 @@ def draw_vertex(
             offset = 0, -1.3 * size
             x += offset[0]
             y += offset[1]
-            ax.text(x, y, label, fontsize=font_size, fontfamily=font_family, ha='center', va='top')
+            ax.text(x, y, label, fontsize=fsize, fontfamily=font_family, ha='center', va='top')
         patches.append(circle)
     p = PatchCollection(patches, facecolors=v_color, edgecolors="black", linewidths=v_line_width)
     ax.add_collection(p)
-- 
2.43.0


From 2583348fc8dc2b0717f0932b4c02eebfe0635112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:12 +0000
Subject: [PATCH 38/57] fix: drawing a single vertex gave NaN coordinates

---
 dhg/visualization/structure/layout.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/dhg/visualization/structure/layout.py b/dhg/visualization/structure/layout.py
index c1c4600..89e599e 100644
--- a/dhg/visualization/structure/layout.py
+++ b/dhg/visualization/structure/layout.py
@@ -6,6 +6,16 @@ from .simulator import Simulator
 from .utils import edge_list_to_incidence_matrix, init_pos
 
 
+def _normalize(coor: np.ndarray):
+    r"""Scale the coordinates into [0.1, 0.9]. Vertices sharing a coordinate are centered.
+    """
+    span = coor.max(0) - coor.min(0)
+    if (span == 0).any():
+        coor = np.where(span == 0, 0.5, (coor - coor.min(0)) / np.where(span == 0, 1, span))
+        return coor * 0.8 + 0.1
+    return (coor - coor.min(0)) / span * 0.8 + 0.1
+
+
 def force_layout(
     num_v: int,
     e_list: List[tuple],
@@ -28,8 +38,7 @@ def force_layout(
         centers=centers,
     )
     v_coor = sim.simulate(v_coor, edge_list_to_incidence_matrix(num_v, e_list))
-    v_coor = (v_coor - v_coor.min(0)) / (v_coor.max(0) - v_coor.min(0)) * 0.8 + 0.1
-    return v_coor
+    return _normalize(v_coor)
 
 
 def bipartite_force_layout(
@@ -59,5 +68,5 @@ def bipartite_force_layout(
     )
     pos = sim.simulate(pos, edge_list_to_incidence_matrix(num_v + num_u, e_list))
     # pos = (pos - np.mean(pos, axis=0)) / np.std(pos, axis=0)
-    pos = (pos - pos.min(0)) / (pos.max(0) - pos.min(0)) * 0.8 + 0.1
+    pos = _normalize(pos)
     return pos[:num_u], pos[num_u:]
-- 
2.43.0


From 6291186d54d3e5dd6adc3f1d3a276dcdf081efbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:12 +0000
Subject: [PATCH 39/57] fix: self-loops were drawn at NaN coordinates or
 crashed

---
 dhg/visualization/structure/utils.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/dhg/visualization/structure/utils.py b/dhg/visualization/structure/utils.py
index 8e8a926..176304a 100644
--- a/dhg/visualization/structure/utils.py
+++ b/dhg/visualization/structure/utils.py
@@ -37,6 +37,14 @@ def draw_line_edge(
     arrow_head_width = [0.015 * w for w in e_line_width] if show_arrow else [0] * len(e_list)
 
     for eidx, e in enumerate(e_list):
+        if e[0] == e[1]:
+            # a self-loop has no direction, it is drawn as a circle on top of the vertex
+            x, y = v_coor[e[0]]
+            r = v_size[e[0]]
+            ax.add_patch(
+                Circle((x, y + r), r, fill=False, edgecolor=e_color[eidx], linewidth=e_line_width[eidx])
+            )
+            continue
         start_pos = v_coor[e[0]]
         end_pos = v_coor[e[1]]
 
@@ -159,13 +167,13 @@ def hull_layout(n_v, e_list, pos, v_size, radius_increment=0.3):
     vertices_increased_radius = vertices_radius * radius_increment
     vertices_radius += vertices_increased_radius
 
-    e_degree = [len(e) for e in e_list]
+    e_degree = [len(set(e)) for e in e_list]
     e_idxs = np.argsort(np.array(e_degree))
 
     # for edge in e_list:
     for e_idx in e_idxs:
 
-        edge = list(e_list[e_idx])
+        edge = sorted(set(e_list[e_idx]))
 
         line_path_for_e = []
         arc_path_for_e = []
-- 
2.43.0


From 0a99bd1f6f48551361b8303d7867c4df140cc534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:12 +0000
Subject: [PATCH 40/57] fix: drawing a hypergraph with one hyperedge in two
 groups failed

---
 dhg/visualization/structure/simulator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dhg/visualization/structure/simulator.py b/dhg/visualization/structure/simulator.py
index 8a061d2..1d70fc6 100644
--- a/dhg/visualization/structure/simulator.py
+++ b/dhg/visualization/structure/simulator.py
@@ -141,6 +141,7 @@ class Simulator:
         f_scale = k / (dist ** 2)  # (m, m)
         f_dir = e_center[:, np.newaxis, :] - e_center[np.newaxis, :, :]  # (m, 1, 2) - (1, m, 2) -> (m, m, 2)
         f_dir_len = np.linalg.norm(f_dir, axis=2)  # (m, m)
+        f_scale[f_dir_len == 0] = 0  # edges with the same center (e.g. the same vertices) do not repulse
         f_dir_len[r, c] = np.inf
         # f_dir = f_dir / f_dir_len[:, :, np.newaxis]  # (m, m, 2)
         f_dir = safe_div(f_dir, f_dir_len[:, :, np.newaxis])  # (m, m, 2)
-- 
2.43.0


From 469c0053f5107752067d55bcd484b5a765fcf00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:12 +0000
Subject: [PATCH 41/57] fix: color lists of the wrong length were accepted when
 drawing

---
 dhg/visualization/structure/defaults.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dhg/visualization/structure/defaults.py b/dhg/visualization/structure/defaults.py
index 05ccf97..7239c59 100644
--- a/dhg/visualization/structure/defaults.py
+++ b/dhg/visualization/structure/defaults.py
@@ -196,6 +196,7 @@ def fill_color(custom_color: Optional[Union[str, list]], default_color: Any, len
         return [default_color] * length
     elif isinstance(custom_color, list):
         if isinstance(custom_color[0], str) or isinstance(custom_color[0], tuple) or isinstance(custom_color[0], list):
+            assert len(custom_color) == length, "The specified color list has the wrong length."
             return custom_color
         else:
             return [custom_color] * length
-- 
2.43.0


From 1afe3fc60d6c6853d3d6e5d7da01855a82bd44b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:12 +0000
Subject: [PATCH 42/57] fix: bigraph layout attracted the wrong vertices

---
 dhg/visualization/structure/draw.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dhg/visualization/structure/draw.py b/dhg/visualization/structure/draw.py
index 056f18b..f58ce29 100644
--- a/dhg/visualization/structure/draw.py
+++ b/dhg/visualization/structure/draw.py
@@ -234,6 +234,8 @@ def draw_bigraph(
         pull_u_center_strength,
         pull_v_center_strength,
     )
+    # preprocess
+    e_list = [(u, v + num_u) for u, v in e_list]
     # layout
     u_coor, v_coor = bipartite_force_layout(
         num_u,
@@ -247,8 +249,6 @@ def draw_bigraph(
         pull_v_center_strength,
     )
 
-    # preprocess
-    e_list = [(u, v + num_u) for u, v in e_list]
     u_label = [""] * num_u if u_label is None else list(u_label)
     v_label = [""] * num_v if v_label is None else list(v_label)
     assert len(u_label) == num_u and len(v_label) == num_v, "The specified label list has the wrong length."
-- 
2.43.0


From f038562770e34deebca82f271e182099f3704f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:52 +0000
Subject: [PATCH 43/57] fix: a zero embedding made project_to_poincare_ball
 fail

---
 dhg/visualization/feature/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dhg/visualization/feature/utils.py b/dhg/visualization/feature/utils.py
index fa69183..1c23163 100644
--- a/dhg/visualization/feature/utils.py
+++ b/dhg/visualization/feature/utils.py
@@ -156,7 +156,8 @@ def project_to_poincare_ball(embeddings: np.ndarray, dim: int = 2, reduce_method
     assert reduce_method in ["pca", "tsne"], "reduce_method must be pca or tsne."
     # Curvature
     c = 2.0
-    embeddings = embeddings / LA.norm(embeddings, axis=1, keepdims=True)
+    norm = LA.norm(embeddings, axis=1, keepdims=True)
+    embeddings = embeddings / np.where(norm == 0, 1, norm)  # zero embeddings stay at the origin
     o = np.zeros_like(embeddings)
     embeddings = np.concatenate([o[:, 0:1], embeddings], axis=1)
     # H encoder Pre-stage
-- 
2.43.0


From 5854dd859ae78c83930e9182d82864b7b4d98abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:52 +0000
Subject: [PATCH 44/57] fix: embeddings that coincide along an axis were
 projected and drawn at NaN

---
 dhg/visualization/feature/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dhg/visualization/feature/utils.py b/dhg/visualization/feature/utils.py
index 1c23163..f664001 100644
--- a/dhg/visualization/feature/utils.py
+++ b/dhg/visualization/feature/utils.py
@@ -83,7 +83,8 @@ def plot_3d_embedding(embeddings: np.ndarray, label: Optional[np.ndarray] = None
 
 # normalization
 def normalize(coor):
-    return (coor - coor.min(0)) / (coor.max(0) - coor.min(0)) * 0.8 + 0.1
+    span = coor.max(0) - coor.min(0)
+    return (coor - coor.min(0)) / np.where(span == 0, 1, span) * 0.8 + 0.1
 
 
 # for poincare_ball
@@ -173,7 +174,8 @@ def project_to_poincare_ball(embeddings: np.ndarray, dim: int = 2, reduce_method
         raise ValueError("reduce_method must be pca or tsne.")
     x_min, x_max = np.min(emb_low, 0), np.max(emb_low, 0)
     # Normalisation
-    emb_low = (emb_low - x_min) / (x_max - x_min)
+    x_span = x_max - x_min
+    emb_low = (emb_low - x_min) / np.where(x_span == 0, 1, x_span)
     min_max_scaler = preprocessing.MinMaxScaler(feature_range=(-2, 2))
     emb_low = min_max_scaler.fit_transform(emb_low)
     # Important step
-- 
2.43.0


From 660192540c57a0956c35d2a62049fe7fa0cc0f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:27 +0000
Subject: [PATCH 45/57] fix: numerically coinciding embedding axes were blown
 up to full range

---
 dhg/visualization/feature/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dhg/visualization/feature/utils.py b/dhg/visualization/feature/utils.py
index f664001..97d7597 100644
--- a/dhg/visualization/feature/utils.py
+++ b/dhg/visualization/feature/utils.py
@@ -175,7 +175,8 @@ def project_to_poincare_ball(embeddings: np.ndarray, dim: int = 2, reduce_method
     x_min, x_max = np.min(emb_low, 0), np.max(emb_low, 0)
     # Normalisation
     x_span = x_max - x_min
-    emb_low = (emb_low - x_min) / np.where(x_span == 0, 1, x_span)
+    flat = x_span <= 1000 * np.finfo(emb_low.dtype).eps  # the embeddings coincide along these axes
+    emb_low = np.where(flat, 0, (emb_low - x_min) / np.where(flat, 1, x_span))
     min_max_scaler = preprocessing.MinMaxScaler(feature_range=(-2, 2))
     emb_low = min_max_scaler.fit_transform(emb_low)
     # Important step
-- 
2.43.0


From cc45012154a4fb8dea97fe240c1469d13c638b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:46 +0000
Subject: [PATCH 46/57] fix: experiments never kept a model when minimizing

---
 dhg/experiments/base.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dhg/experiments/base.py b/dhg/experiments/base.py
index 211286f..a375313 100644
--- a/dhg/experiments/base.py
+++ b/dhg/experiments/base.py
@@ -106,10 +106,9 @@ class BaseTask:
                 raise optuna.exceptions.TrialPruned()
             if scheduler is not None:
                 scheduler.step()
-            if self.direction == "maximize":
-                if val_res > best_score:
-                    best_score = val_res
-                    best_model = deepcopy(model)
+            if best_model is None or (val_res > best_score if self.direction == "maximize" else val_res < best_score):
+                best_score = val_res
+                best_model = deepcopy(model)
         with open(self.cache_root / f"{trial.number}_model.pth", "wb") as f:
             torch.save(best_model.cpu().state_dict(), f)
         self.data["structure"].save(self.cache_root / f"{trial.number}_structure.dhg")
-- 
2.43.0


From 4aff2860078a4f7f26cd89e2cdfbb7b12f823d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:46 +0000
Subject: [PATCH 47/57] fix: experiment runs failed on metrics that are not a
 single number

---
 dhg/experiments/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/experiments/base.py b/dhg/experiments/base.py
index a375313..94641e9 100644
--- a/dhg/experiments/base.py
+++ b/dhg/experiments/base.py
@@ -152,7 +152,7 @@ class BaseTask:
         test_res = self.test()
         self.logger.info(f"Final test results:")
         for key, value in test_res.items():
-            self.logger.info(f"\t{key} |-> {value:.3f}")
+            self.logger.info(f"\t{key} |-> {value:.3f}" if isinstance(value, float) else f"\t{key} |-> {value}")
 
     @abc.abstractmethod
     def train(
-- 
2.43.0


From 2507df1d241645038adad71390bb2a1cf844b033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:46 +0000
Subject: [PATCH 48/57] fix: experiment tasks without a structure failed

---
 dhg/experiments/base.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dhg/experiments/base.py b/dhg/experiments/base.py
index 94641e9..79bcf93 100644
--- a/dhg/experiments/base.py
+++ b/dhg/experiments/base.py
@@ -111,7 +111,8 @@ class BaseTask:
                 best_model = deepcopy(model)
         with open(self.cache_root / f"{trial.number}_model.pth", "wb") as f:
             torch.save(best_model.cpu().state_dict(), f)
-        self.data["structure"].save(self.cache_root / f"{trial.number}_structure.dhg")
+        if self.data.get("structure", None) is not None:
+            self.data["structure"].save(self.cache_root / f"{trial.number}_structure.dhg")
         return best_score
 
     def _remove_cached_data(self):
@@ -139,9 +140,11 @@ class BaseTask:
         self._remove_cached_data()
         self.best_model = self.model_builder(self.study.best_trial)
         self.best_model.load_state_dict(torch.load(f"{self.cache_root}/{self.study.best_trial.number}_model.pth"))
-        self.best_structure = load_structure(f"{self.cache_root}/{self.study.best_trial.number}_structure.dhg")
         self.best_model = self.best_model.to(self.device)
-        self.best_structure = self.best_structure.to(self.device)
+        self.best_structure = None
+        if self.data.get("structure", None) is not None:
+            self.best_structure = load_structure(f"{self.cache_root}/{self.study.best_trial.number}_structure.dhg")
+            self.best_structure = self.best_structure.to(self.device)
 
         self.logger.info("Best trial:")
         self.best_trial = self.study.best_trial
-- 
2.43.0


From 248b182fee52c45c84f88e15a3b240777cb0d107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:58 +0000
Subject: [PATCH 49/57] fix: kNN hyperedges of more than 25 vertices lost their
 neighbours to rounding

---
 dhg/structure/hypergraphs/hypergraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index dfd0510..a66e0f5 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -187,7 +187,7 @@ class Hypergraph(BaseHypergraph):
         assert (
             k <= features.shape[0]
         ), "The number of nearest neighbors should be less than or equal to the number of vertices."
-        dist_matrix = torch.cdist(features, features)
+        dist_matrix = torch.cdist(features, features, compute_mode="donot_use_mm_for_euclid_dist")
         _, nbr_indices = torch.topk(dist_matrix, k, largest=False)
         return nbr_indices.tolist()
 
-- 
2.43.0


From d542d1246e7a081de6795aa63d9511a0b3ab829c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:12 +0000
Subject: [PATCH 50/57] fix: moving a BiGraph to another device also moves its
 cached L_GCN

---
 dhg/structure/graphs/bipartite_graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dhg/structure/graphs/bipartite_graph.py b/dhg/structure/graphs/bipartite_graph.py
index ede63e5..26ad705 100644
--- a/dhg/structure/graphs/bipartite_graph.py
+++ b/dhg/structure/graphs/bipartite_graph.py
@@ -442,7 +442,7 @@ class BiGraph(BaseGraph):
         Sparse Matrices:
 
         .. math::
-            \mathbf{A}, \mathbf{B}, \mathbf{B}^\top
+            \mathbf{A}, \mathbf{B}, \mathbf{B}^\top, \mathcal{L}_{GCN}
 
         Sparse Diagnal Matrices:
 
@@ -458,6 +458,7 @@ class BiGraph(BaseGraph):
             "A",
             "B",
             "B_T",
+            "L_GCN",
             "D_u",
             "D_v",
             "D_u_neg_1",
-- 
2.43.0


From e1e63d64ae0b29f23a3acc5a96327f3daf6c71e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:07 +0000
Subject: [PATCH 51/57] fix: moving a Hypergraph to another device also moves
 its cached directed incidence matrices

---
 dhg/structure/hypergraphs/hypergraph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index a66e0f5..5d04ab2 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -661,6 +661,8 @@ class Hypergraph(BaseHypergraph):
         """
         return [
             "H",
+            "H_v2e",
+            "H_e2v",
             "H_T",
             "L_sym",
             "L_rw",
-- 
2.43.0


From ea8a31c90911103fa00924dd14dcd992121e403c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:12 +0000
Subject: [PATCH 52/57] fix: the adjacency matrix of an empty DiGraph or
 BiGraph is on the graph's device

---
 dhg/structure/graphs/bipartite_graph.py | 2 +-
 dhg/structure/graphs/directed_graph.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dhg/structure/graphs/bipartite_graph.py b/dhg/structure/graphs/bipartite_graph.py
index 26ad705..e827708 100644
--- a/dhg/structure/graphs/bipartite_graph.py
+++ b/dhg/structure/graphs/bipartite_graph.py
@@ -486,7 +486,7 @@ class BiGraph(BaseGraph):
         """
         if self.cache.get("B", None) is None:
             if self.num_e == 0:
-                self.cache["B"] = torch.sparse_coo_tensor(size=(self.num_u, self.num_v))
+                self.cache["B"] = torch.sparse_coo_tensor(size=(self.num_u, self.num_v), device=self.device)
             else:
                 e_list, e_weight = self.e
                 self.cache["B"] = torch.sparse_coo_tensor(
diff --git a/dhg/structure/graphs/directed_graph.py b/dhg/structure/graphs/directed_graph.py
index da6d0bb..4e30d1e 100644
--- a/dhg/structure/graphs/directed_graph.py
+++ b/dhg/structure/graphs/directed_graph.py
@@ -421,7 +421,7 @@ class DiGraph(BaseGraph):
         """
         if self.cache.get("A", None) is None:
             if self.num_e == 0:
-                self.cache["A"] = torch.sparse_coo_tensor(size=(self.num_v, self.num_v))
+                self.cache["A"] = torch.sparse_coo_tensor(size=(self.num_v, self.num_v), device=self.device)
             else:
                 e_list, e_weight = self.e
                 self.cache["A"] = torch.sparse_coo_tensor(
-- 
2.43.0


From 80992a5f4208b1778293d3c63a3e48f4719a0d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:49 +0000
Subject: [PATCH 53/57] fix: testing a recommender task moves the train mask to
 the task's device

---
 dhg/experiments/recommender.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dhg/experiments/recommender.py b/dhg/experiments/recommender.py
index af405f1..f9626bd 100644
--- a/dhg/experiments/recommender.py
+++ b/dhg/experiments/recommender.py
@@ -163,6 +163,7 @@ class UserItemRecommenderTask(BaseTask):
         model.eval()
         for users, train_mask, true_rating in test_loader:
             users = users.to(self.device)
+            train_mask = train_mask.to(self.device)
             true_rating = true_rating.to(self.device)
             if structure is not None:
                 emb_u, emb_i = model(structure)
-- 
2.43.0


From 1d9f97ccef0d0178b486ebb78482f8778efa8ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:44 +0000
Subject: [PATCH 54/57] fix: metrics rank double-precision and integer scores
 without rounding them to single precision

---
 dhg/metrics/recommender.py | 2 +-
 dhg/metrics/retrieval.py   | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/dhg/metrics/recommender.py b/dhg/metrics/recommender.py
index 9cbab20..644085e 100644
--- a/dhg/metrics/recommender.py
+++ b/dhg/metrics/recommender.py
@@ -42,7 +42,7 @@ def _format_inputs(
         y_true = y_true.unsqueeze(0)
     if y_pred.dim() == 1:
         y_pred = y_pred.unsqueeze(0)
-    y_true, y_pred = y_true.detach().float(), y_pred.detach().float()
+    y_true, y_pred = y_true.detach().float(), y_pred.detach()
     max_k = y_true.shape[1]
     if ratio is not None:
         k = int(np.ceil(max_k * ratio))
diff --git a/dhg/metrics/retrieval.py b/dhg/metrics/retrieval.py
index ff46853..ce9fc2a 100644
--- a/dhg/metrics/retrieval.py
+++ b/dhg/metrics/retrieval.py
@@ -33,7 +33,7 @@ def _format_inputs(
         y_true = y_true.unsqueeze(0)
     if y_pred.dim() == 1:
         y_pred = y_pred.unsqueeze(0)
-    y_true, y_pred = y_true.detach().float(), y_pred.detach().float()
+    y_true, y_pred = y_true.detach().float(), y_pred.detach()
     max_k = y_true.shape[1]
     if ratio is not None:
         k = int(np.ceil(max_k * ratio))
@@ -142,7 +142,7 @@ def ap(
     assert y_true.shape == y_pred.shape, "The shape of y_true and y_pred must be the same."
     assert y_true.dim() == 1, "The input y_true must be 1-D."
     assert y_pred.dim() == 1, "The input y_pred must be 1-D."
-    y_true, y_pred = y_true.detach().float(), y_pred.detach().float()
+    y_true, y_pred = y_true.detach().float(), y_pred.detach()
     max_k = y_true.shape[0]
     if ratio is not None:
         k = int(np.ceil(max_k * ratio))
@@ -285,7 +285,7 @@ def rr(y_true: torch.Tensor, y_pred: torch.Tensor, k: Optional[int] = None, rati
     assert y_true.shape == y_pred.shape
     assert y_true.dim() == 1, "The input y_true must be a 1-D tensor."
     assert y_pred.dim() == 1, "The input y_pred must be a 1-D tensor."
-    y_true, y_pred = y_true.detach().float(), y_pred.detach().float()
+    y_true, y_pred = y_true.detach().float(), y_pred.detach()
     max_k = y_true.shape[0]
     if ratio is not None:
         k = int(np.ceil(max_k * ratio))
@@ -366,7 +366,7 @@ def _pr_curve(
     assert y_true.shape == y_pred.shape, "The shape of y_true and y_pred must be the same."
     assert y_true.dim() == 1, "The input y_true must be 1-D."
     assert y_pred.dim() == 1, "The input y_pred must be 1-D."
-    y_true, y_pred = y_true.detach().float(), y_pred.detach().float()
+    y_true, y_pred = y_true.detach().float(), y_pred.detach()
     max_k = y_true.shape[0]
     if ratio is not None:
         k = int(np.ceil(max_k * ratio))
-- 
2.43.0


From 3366005ef20babae55f7a8459e965543943ea3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:30 +0000
Subject: [PATCH 55/57] fix: sparse_dropout turned infinite entries and fill
 values into NaN

---
 dhg/utils/sparse.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dhg/utils/sparse.py b/dhg/utils/sparse.py
index c69dfbc..8e34abe 100644
--- a/dhg/utils/sparse.py
+++ b/dhg/utils/sparse.py
@@ -16,10 +16,9 @@ def sparse_dropout(sp_mat: torch.Tensor, p: float, fill_value: float = 0.0) -> t
         return sp_mat
     p = torch.ones(sp_mat._nnz(), device=device) * p
     keep_mask = torch.bernoulli(1 - p).to(device)
-    fill_values = torch.logical_not(keep_mask) * fill_value
     new_sp_mat = torch.sparse_coo_tensor(
         sp_mat._indices(),
-        sp_mat._values() * keep_mask + fill_values,
+        sp_mat._values().masked_fill(keep_mask == 0, fill_value),
         size=sp_mat.size(),
         device=sp_mat.device,
         dtype=sp_mat.dtype,
-- 
2.43.0


From 810d68f797fb0e0f909c4e51129f442222ba4ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:30 +0000
Subject: [PATCH 56/57] fix: min_max_scaler left the requested range for a
 spread small against the offset

---
 dhg/datapipe/normalize.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dhg/datapipe/normalize.py b/dhg/datapipe/normalize.py
index 50ce7db..126ed74 100644
--- a/dhg/datapipe/normalize.py
+++ b/dhg/datapipe/normalize.py
@@ -65,7 +65,6 @@ def min_max_scaler(X: torch.Tensor, ft_min: float, ft_max: float) -> torch.Tenso
     X_range = X_max - X_min
     # a constant input has no range to scale and is mapped to ``ft_min``
     scale_ = (ft_max - ft_min) / X_range if X_range != 0 else 0.0
-    min_ = ft_min - X_min * scale_
-    X = X * scale_ + min_
-    return X
+    # shift before scaling: a spread that is small against the offset keeps its precision
+    return (X - float(X_min)) * scale_ + ft_min
 
-- 
2.43.0


From 03e1ba70b2a486b8472740451afbbef42871c098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:47 +0000
Subject: [PATCH 57/57] fix: UniGINConv weighted the aggregated messages
 instead of the vertex's own features with 1 + eps

---
 dhg/nn/convs/hypergraphs/unignn_conv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/nn/convs/hypergraphs/unignn_conv.py b/dhg/nn/convs/hypergraphs/unignn_conv.py
index 7dfb6e8..a01388f 100644
--- a/dhg/nn/convs/hypergraphs/unignn_conv.py
+++ b/dhg/nn/convs/hypergraphs/unignn_conv.py
@@ -272,7 +272,7 @@ class UniGINConv(nn.Module):
         """
         X = self.theta(X)
         Y = hg.v2e(X, aggr="mean")
-        X = (1 + self.eps) * hg.e2v(Y, aggr="sum") + X
+        X = (1 + self.eps) * X + hg.e2v(Y, aggr="sum")
         if not self.is_last:
             X = self.act(X)
             if self.bn is not None:
-- 
2.43.0

