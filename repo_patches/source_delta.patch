From f07571962ea1d3f6aa09c7180e946c5e267547f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:11 +0000
Subject: [PATCH 01/52] fix: ignore NaN in tally updates as in the initial
 tally, and tally every part

---
 gerrychain/updaters/tally.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/gerrychain/updaters/tally.py b/gerrychain/updaters/tally.py
index 97305b3..80ed4b8 100644
--- a/gerrychain/updaters/tally.py
+++ b/gerrychain/updaters/tally.py
@@ -1,4 +1,3 @@
-import collections
 import math
 import warnings
 
@@ -7,6 +6,10 @@ from typing import Dict, Union, List, Optional, Type
 import pandas
 
 
+def _without_nans(values):
+    return (value for value in values if not math.isnan(value))
+
+
 class DataTally:
     """
     An updater for tallying numerical data that is not necessarily stored as
@@ -40,7 +43,7 @@ class DataTally:
                 attribute = self.data
                 self.data = {node: nodes[node][attribute] for node in nodes}
 
-            tally = collections.defaultdict(int)
+            tally = {part: 0 for part in partition.parts}
             for node, part in partition.assignment.items():
                 add = self.data[node]
 
@@ -52,12 +55,12 @@ class DataTally:
                     )
                 else:
                     tally[part] += add
-            return dict(tally)
+            return tally
 
         @on_flow(initialize_tally, alias=alias)
         def update_tally(partition, previous, new_nodes, old_nodes):
-            inflow = sum(self.data[node] for node in new_nodes)
-            outflow = sum(self.data[node] for node in old_nodes)
+            inflow = sum(_without_nans(self.data[node] for node in new_nodes))
+            outflow = sum(_without_nans(self.data[node] for node in old_nodes))
             return previous + inflow - outflow
 
         self._call = update_tally
@@ -127,7 +130,7 @@ class Tally:
             being the sum of the "field" attribute of nodes in that part.
         :rtype: Dict
         """
-        tally = collections.defaultdict(self.dtype)
+        tally = {part: self.dtype() for part in partition.parts}
         for node, part in partition.assignment.items():
             add = self._get_tally_from_node(partition, node)
 
@@ -138,7 +141,7 @@ class Tally:
                 )
             else:
                 tally[part] += add
-        return dict(tally)
+        return tally
 
     def _update_tally(self, partition):
         """
@@ -185,7 +188,11 @@ def compute_out_flow(graph, fields: Union[str, List[str]], flow: Dict) -> int:
     :returns: The sum of the "field" attribute of nodes in the "out" set of the flow.
     :rtype: int
     """
-    return sum(graph.lookup(node, field) for node in flow["out"] for field in fields)
+    return sum(
+        _without_nans(
+            sum(graph.lookup(node, field) for field in fields) for node in flow["out"]
+        )
+    )
 
 
 def compute_in_flow(graph, fields: Union[str, List[str]], flow: Dict) -> int:
@@ -203,4 +210,8 @@ def compute_in_flow(graph, fields: Union[str, List[str]], flow: Dict) -> int:
     :returns: The sum of the "field" attribute of nodes in the "in" set of the flow.
     :rtype: int
     """
-    return sum(graph.lookup(node, field) for node in flow["in"] for field in fields)
+    return sum(
+        _without_nans(
+            sum(graph.lookup(node, field) for field in fields) for node in flow["in"]
+        )
+    )
-- 
2.43.0


From 44e18ba94d208ac73d564aede992b6b0f1539f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:49 +0000
Subject: [PATCH 02/52] fix: DataTally on a node attribute reads the attribute
 of the partition's own graph

---
 gerrychain/updaters/tally.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/gerrychain/updaters/tally.py b/gerrychain/updaters/tally.py
index 80ed4b8..14b90b4 100644
--- a/gerrychain/updaters/tally.py
+++ b/gerrychain/updaters/tally.py
@@ -37,15 +37,15 @@ class DataTally:
         self.data = data
         self.alias = alias
 
-        def initialize_tally(partition):
+        def value(partition, node):
             if isinstance(self.data, str):
-                nodes = partition.graph.nodes
-                attribute = self.data
-                self.data = {node: nodes[node][attribute] for node in nodes}
+                return partition.graph.lookup(node, self.data)
+            return self.data[node]
 
+        def initialize_tally(partition):
             tally = {part: 0 for part in partition.parts}
             for node, part in partition.assignment.items():
-                add = self.data[node]
+                add = value(partition, node)
 
                 if math.isnan(add):
                     warnings.warn(
@@ -59,8 +59,8 @@ class DataTally:
 
         @on_flow(initialize_tally, alias=alias)
         def update_tally(partition, previous, new_nodes, old_nodes):
-            inflow = sum(_without_nans(self.data[node] for node in new_nodes))
-            outflow = sum(_without_nans(self.data[node] for node in old_nodes))
+            inflow = sum(_without_nans(value(partition, node) for node in new_nodes))
+            outflow = sum(_without_nans(value(partition, node) for node in old_nodes))
             return previous + inflow - outflow
 
         self._call = update_tally
-- 
2.43.0


From 9e52a64b9d9d4181eeab30b44c093091941e3412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:49 +0000
Subject: [PATCH 03/52] fix: report a county split in the parent as OLD_SPLIT
 even when the parent split it

---
 gerrychain/updaters/county_splits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerrychain/updaters/county_splits.py b/gerrychain/updaters/county_splits.py
index fad28f4..4732d39 100644
--- a/gerrychain/updaters/county_splits.py
+++ b/gerrychain/updaters/county_splits.py
@@ -107,7 +107,7 @@ def compute_county_splits(
         split = CountySplit.NOT_SPLIT
 
         if len(seen) > 1:
-            if county_info.split != CountySplit.OLD_SPLIT:
+            if county_info.split == CountySplit.NOT_SPLIT:
                 split = CountySplit.NEW_SPLIT
             else:
                 split = CountySplit.OLD_SPLIT
-- 
2.43.0


From 573b4fd1a8a457a9f205e1e543c718f1ac6d519c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:49 +0000
Subject: [PATCH 04/52] fix: locality entropies look localities up by their own
 label, not its string

---
 gerrychain/updaters/locality_split_scores.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerrychain/updaters/locality_split_scores.py b/gerrychain/updaters/locality_split_scores.py
index 28720b2..c5b009a 100644
--- a/gerrychain/updaters/locality_split_scores.py
+++ b/gerrychain/updaters/locality_split_scores.py
@@ -307,7 +307,7 @@ class LocalitySplits:
                 # counter = dict(locality_splits[district+1])
                 count = dict(v)
                 if locality_j in count:
-                    intersection = count[str(locality_j)]
+                    intersection = count[locality_j]
                     p = intersection / tot_county_vtds
 
                     if p != 0:
@@ -350,7 +350,7 @@ class LocalitySplits:
                 # counter = dict(locality_splits[district+1])
                 count = dict(v)
                 if locality_j in count:
-                    intersection = count[str(locality_j)]
+                    intersection = count[locality_j]
                     p = intersection / tot_county_vtds
 
                     if p != 0:
-- 
2.43.0


From 75a8e9bb151f1a5ba4d161c5c0d83e6e6aa9a013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:49 +0000
Subject: [PATCH 05/52] fix: LocalitySplits returns a fresh dict so earlier
 partitions keep their scores

---
 gerrychain/updaters/locality_split_scores.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerrychain/updaters/locality_split_scores.py b/gerrychain/updaters/locality_split_scores.py
index c5b009a..d0d4587 100644
--- a/gerrychain/updaters/locality_split_scores.py
+++ b/gerrychain/updaters/locality_split_scores.py
@@ -195,7 +195,7 @@ class LocalitySplits:
             if s == "num_split_localities":
                 self.scores[s] = self.num_split_localities(partition)
 
-        return self.scores
+        return dict(self.scores)
 
     def num_parts(self, partition) -> int:
         """
-- 
2.43.0


From a4e2b63fdeb8233c94535a3085b1c8ee47739129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:50 +0000
Subject: [PATCH 06/52] fix: num_spanning_trees counts trees of single-node
 districts and ignores edge weights

---
 gerrychain/updaters/spanning_trees.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerrychain/updaters/spanning_trees.py b/gerrychain/updaters/spanning_trees.py
index 307daf4..ad52931 100644
--- a/gerrychain/updaters/spanning_trees.py
+++ b/gerrychain/updaters/spanning_trees.py
@@ -25,8 +25,8 @@ def _num_spanning_trees_in_district(partition, district: int) -> int:
     :rtype: int
     """
     graph = partition.subgraphs[district]
-    laplacian = networkx.laplacian_matrix(graph)
-    L = numpy.delete(numpy.delete(laplacian.todense(), 0, 0), 1, 1)
+    laplacian = networkx.laplacian_matrix(graph, weight=None)
+    L = numpy.delete(numpy.delete(laplacian.todense(), 0, 0), 0, 1)
     return math.exp(numpy.linalg.slogdet(L)[1])
 
 
-- 
2.43.0


From f7966f77467950206d0a300eedd01e8d1b01ebd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:50 +0000
Subject: [PATCH 07/52] fix: balanced edge cuts of a two-node spanning tree

---
 gerrychain/tree.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gerrychain/tree.py b/gerrychain/tree.py
index 06ce843..cde6884 100644
--- a/gerrychain/tree.py
+++ b/gerrychain/tree.py
@@ -261,12 +261,12 @@ def find_balanced_edge_cuts_contraction(
     :rtype: List[Cut]
     """
 
-    root = choice([x for x in h if h.degree(x) > 1])
+    root = choice([x for x in h if h.degree(x) > 1] or list(h))
     # BFS predecessors for iteratively contracting leaves
     pred = predecessors(h.graph, root)
 
     cuts = []
-    leaves = deque(x for x in h if h.degree(x) == 1)
+    leaves = deque(x for x in h if h.degree(x) == 1 and x != root)
     while len(leaves) > 0:
         leaf = leaves.popleft()
         if h.has_ideal_population(leaf, one_sided_cut=one_sided_cut):
@@ -374,7 +374,7 @@ def find_balanced_edge_cuts_memoization(
     :rtype: List[Cut]
     """
 
-    root = choice([x for x in h if h.degree(x) > 1])
+    root = choice([x for x in h if h.degree(x) > 1] or list(h))
     pred = predecessors(h.graph, root)
     succ = successors(h.graph, root)
     total_pop = h.tot_pop
-- 
2.43.0


From bd1407a248b4e2cfc043b6abef57628af0cb16d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:50 +0000
Subject: [PATCH 08/52] fix: bipartition_tree_random honours one_sided_cut

---
 gerrychain/tree.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gerrychain/tree.py b/gerrychain/tree.py
index cde6884..548037c 100644
--- a/gerrychain/tree.py
+++ b/gerrychain/tree.py
@@ -866,7 +866,7 @@ def bipartition_tree_random(
     :rtype: Union[Set[Any], None]
     """
     if "one_sided_cut" in signature(balance_edge_fn).parameters:
-        balance_edge_fn = partial(balance_edge_fn, one_sided_cut=True)
+        balance_edge_fn = partial(balance_edge_fn, one_sided_cut=one_sided_cut)
 
     possible_cuts = _bipartition_tree_random_all(
         graph=graph,
@@ -1093,7 +1093,9 @@ def get_seed_chunks(
     pop_col: str,
     epsilon: float,
     node_repeats: int = 1,
-    method: Callable = partial(bipartition_tree_random, max_attempts=10000),
+    method: Callable = partial(
+        bipartition_tree_random, max_attempts=10000, one_sided_cut=True
+    ),
 ) -> List[List[int]]:
     """
     Helper function for recursive_seed_part. Partitions the graph into ``num_chunks`` chunks,
-- 
2.43.0


From 9a97d1a1d838d388be068573f5814c254d12fbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:47 +0000
Subject: [PATCH 09/52] fix: Validator keeps enforcing constraints given as a
 one-shot iterable

---
 gerrychain/constraints/validity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerrychain/constraints/validity.py b/gerrychain/constraints/validity.py
index c93d74f..9aebef3 100644
--- a/gerrychain/constraints/validity.py
+++ b/gerrychain/constraints/validity.py
@@ -27,7 +27,8 @@ class Validator:
         :param constraints: List of validator functions that will check partitions.
         :type constraints: List[Callable]
         """
-        self.constraints = constraints
+        # A list, so that a one-shot iterable is not used up by the first check
+        self.constraints = list(constraints)
 
     def __call__(self, partition: Partition) -> bool:
         """
-- 
2.43.0


From 9d3f0e52b1c3e1d23f3730a0634d2446ac59fcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:47 +0000
Subject: [PATCH 10/52] fix: report an invalid initial state when a failed
 constraint has no __name__

---
 gerrychain/chain.py                | 4 ++--
 gerrychain/constraints/validity.py | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/gerrychain/chain.py b/gerrychain/chain.py
index 9b63f8a..811e21e 100644
--- a/gerrychain/chain.py
+++ b/gerrychain/chain.py
@@ -89,7 +89,7 @@ class MarkovChain:
             ]
             message = (
                 "The given initial_state is not valid according is_valid. "
-                "The failed constraints were: " + ",".join([f.__name__ for f in failed])
+                "The failed constraints were: " + ",".join([getattr(f, "__name__", repr(f)) for f in failed])
             )
             raise ValueError(message)
 
@@ -143,7 +143,7 @@ class MarkovChain:
             ]
             message = (
                 "The given initial_state is not valid according to the new constraints. "
-                "The failed constraints were: " + ",".join([f.__name__ for f in failed])
+                "The failed constraints were: " + ",".join([getattr(f, "__name__", repr(f)) for f in failed])
             )
             raise ValueError(message)
 
diff --git a/gerrychain/constraints/validity.py b/gerrychain/constraints/validity.py
index 9aebef3..f1ed00e 100644
--- a/gerrychain/constraints/validity.py
+++ b/gerrychain/constraints/validity.py
@@ -57,7 +57,10 @@ class Validator:
         return True
 
     def __repr__(self) -> str:
-        constraint_names = [constraint.__name__ for constraint in self.constraints]
+        constraint_names = [
+            getattr(constraint, "__name__", repr(constraint))
+            for constraint in self.constraints
+        ]
         return f"Validator(constraints={constraint_names})"
 
 
-- 
2.43.0


From f3aa24a401c3cc281cc7abb92055afdd4a1474ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:47 +0000
Subject: [PATCH 11/52] fix: self-configuring bounds stay fixed when the
 initial bound is zero or negative

---
 gerrychain/constraints/bounds.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/gerrychain/constraints/bounds.py b/gerrychain/constraints/bounds.py
index 88dd8a6..ffd89df 100644
--- a/gerrychain/constraints/bounds.py
+++ b/gerrychain/constraints/bounds.py
@@ -116,7 +116,7 @@ class SelfConfiguringUpperBound:
         self.bound = None
 
     def __call__(self, partition: Partition) -> bool:
-        if not self.bound:
+        if self.bound is None:
             self.bound = self.func(partition)
         return self.func(partition) <= self.bound
 
@@ -153,7 +153,7 @@ class SelfConfiguringLowerBound:
         self.epsilon = epsilon
 
     def __call__(self, partition: Partition) -> bool:
-        if not self.bound:
+        if self.bound is None:
             self.bound = self.func(partition) - self.epsilon
         return self.func(partition) >= self.bound
 
@@ -196,9 +196,11 @@ class WithinPercentRangeOfBounds:
         self.ubound = None
 
     def __call__(self, partition: Partition) -> bool:
-        if not (self.lbound and self.ubound):
-            self.lbound = self.func(partition) * (1.0 - self.percent)
-            self.ubound = self.func(partition) * (1.0 + self.percent)
+        if self.lbound is None or self.ubound is None:
+            value = self.func(partition)
+            self.lbound, self.ubound = sorted(
+                (value * (1.0 - self.percent), value * (1.0 + self.percent))
+            )
             return True
         else:
             return self.lbound <= self.func(partition) <= self.ubound
-- 
2.43.0


From 66413bcdbcc05ccfbd8eefc45c46c077fcaad58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:47 +0000
Subject: [PATCH 12/52] fix: contiguity checks report an emptied district as
 not contiguous instead of raising

---
 gerrychain/constraints/contiguity.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/gerrychain/constraints/contiguity.py b/gerrychain/constraints/contiguity.py
index e1077e4..b637676 100644
--- a/gerrychain/constraints/contiguity.py
+++ b/gerrychain/constraints/contiguity.py
@@ -166,6 +166,11 @@ def affected_parts(partition: Partition) -> Set[int]:
     return affected
 
 
+def _is_connected(subgraph) -> bool:
+    # We consider the empty district to be disconnected.
+    return len(subgraph) > 0 and nx.is_connected(subgraph)
+
+
 def contiguous(partition: Partition) -> bool:
     """
     Check if the parts of a partition are connected using :func:`networkx.is_connected`.
@@ -177,7 +182,7 @@ def contiguous(partition: Partition) -> bool:
     :rtype: bool
     """
     return all(
-        nx.is_connected(partition.subgraphs[part]) for part in affected_parts(partition)
+        _is_connected(partition.subgraphs[part]) for part in affected_parts(partition)
     )
 
 
@@ -213,7 +218,7 @@ def number_of_contiguous_parts(partition: Partition) -> int:
     :rtype: int
     """
     parts = partition.assignment.parts
-    return sum(1 for part in parts if nx.is_connected(partition.subgraphs[part]))
+    return sum(1 for part in parts if _is_connected(partition.subgraphs[part]))
 
 
 # Create an instance of SelfConfiguringLowerBound using the number_of_contiguous_parts function.
@@ -252,9 +257,14 @@ def _bfs(graph: Dict[int, list]) -> bool:
     :returns: is this graph connected?
     :rtype: bool
     """
+    total_vertices = len(graph)
+
+    # We consider the empty district to be disconnected.
+    if total_vertices == 0:
+        return False
+
     q = [next(iter(graph))]
     visited = set()
-    total_vertices = len(graph)
 
     # Check if the district has a single vertex. If it does, then simply return
     # `True`, as it's trivially connected.
-- 
2.43.0


From a77317e89f2794656cea4f015643f5e3d86107c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:47 +0000
Subject: [PATCH 13/52] fix: contiguity checks look at every part when there is
 no parent to compare with

---
 gerrychain/constraints/contiguity.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/gerrychain/constraints/contiguity.py b/gerrychain/constraints/contiguity.py
index b637676..8317eec 100644
--- a/gerrychain/constraints/contiguity.py
+++ b/gerrychain/constraints/contiguity.py
@@ -152,12 +152,9 @@ def affected_parts(partition: Partition) -> Set[int]:
     flips = partition.flips
     parent = partition.parent
 
-    if flips is None:
+    if flips is None or parent is None:
         return partition.parts
 
-    if parent is None:
-        return set(flips.values())
-
     affected = set()
     for node, part in flips.items():
         affected.add(part)
-- 
2.43.0


From 558d7b29015c65c3670ab3f301c9589c3e65df92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:17 +0000
Subject: [PATCH 14/52] fix: recom gives up with MetagraphError once every
 adjacent pair has failed

---
 gerrychain/proposals/tree_proposals.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gerrychain/proposals/tree_proposals.py b/gerrychain/proposals/tree_proposals.py
index e66a718..4067449 100644
--- a/gerrychain/proposals/tree_proposals.py
+++ b/gerrychain/proposals/tree_proposals.py
@@ -93,8 +93,13 @@ def recom(
     """
 
     bad_district_pairs = set()
-    n_parts = len(partition)
-    tot_pairs = n_parts * (n_parts - 1) / 2  # n choose 2
+    # Only adjacent districts can be merged
+    tot_pairs = len(
+        {
+            frozenset(partition.assignment.mapping[node] for node in edge)
+            for edge in partition["cut_edges"]
+        }
+    )
 
     # Try to add the region aware in if the method accepts the surcharge dictionary
     if "region_surcharge" in signature(method).parameters:
-- 
2.43.0


From 9e99dd5c8add6ffc8c02ace9ae12d62d6f3e4924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:17 +0000
Subject: [PATCH 15/52] fix: slow_reversible_propose_bi can flip a node with no
 neighbour in its own part

---
 gerrychain/proposals/proposals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerrychain/proposals/proposals.py b/gerrychain/proposals/proposals.py
index 988c746..3eaeb86 100644
--- a/gerrychain/proposals/proposals.py
+++ b/gerrychain/proposals/proposals.py
@@ -123,8 +123,8 @@ def slow_reversible_propose_bi(partition: Partition) -> Partition:
                 for neighbor in partition.graph.neighbors(flip)
             ]
         )
+        - {partition.assignment.mapping[flip]}
     )
-    neighbor_assignments.remove(partition.assignment.mapping[flip])
     flips = {flip: random.choice(neighbor_assignments)}
 
     return partition.flip(flips)
-- 
2.43.0


From ba55b7f3ea583f7be3a03021afb53055ae567c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:18 +0000
Subject: [PATCH 16/52] fix: propose_flip_every_district skips districts that
 have no cut edges

---
 gerrychain/proposals/proposals.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gerrychain/proposals/proposals.py b/gerrychain/proposals/proposals.py
index 3eaeb86..1520af6 100644
--- a/gerrychain/proposals/proposals.py
+++ b/gerrychain/proposals/proposals.py
@@ -35,6 +35,8 @@ def propose_flip_every_district(partition: Partition) -> Partition:
     flips = dict()
 
     for dist_edges in partition["cut_edges_by_part"].values():
+        if not dist_edges:
+            continue
         edge = random.choice(tuple(dist_edges))
 
         index = random.choice((0, 1))
-- 
2.43.0


From fd413dbfbc239452eae71f0a94a8308181aab58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:18 +0000
Subject: [PATCH 17/52] fix: spectral_recom with random weights no longer
 overwrites the graph's edge weights

---
 gerrychain/proposals/spectral_proposals.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gerrychain/proposals/spectral_proposals.py b/gerrychain/proposals/spectral_proposals.py
index 3c213a9..01b2462 100644
--- a/gerrychain/proposals/spectral_proposals.py
+++ b/gerrychain/proposals/spectral_proposals.py
@@ -31,15 +31,18 @@ def spectral_cut(
     nlist = list(graph.nodes())
     n = len(nlist)
 
+    weight = "weight"
     if weight_type == "random":
+        # The edge data is shared with the whole graph: leave its weights alone
+        weight = "random_weight"
         for edge in graph.edge_indices:
-            graph.edges[edge]["weight"] = random.random()
+            graph.edges[edge][weight] = random.random()
 
     if lap_type == "normalized":
-        LAP = (nx.normalized_laplacian_matrix(graph)).todense()
+        LAP = (nx.normalized_laplacian_matrix(graph, weight=weight)).todense()
 
     else:
-        LAP = (nx.laplacian_matrix(graph)).todense()
+        LAP = (nx.laplacian_matrix(graph, weight=weight)).todense()
 
     NLMva, NLMve = LA.eigh(LAP)
     NFv = NLMve[:, 1]
-- 
2.43.0


From e81fc865257820bf647c171d9fae9f650ac3d027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:18 +0000
Subject: [PATCH 18/52] fix: cut_edge_accept accepts a proposal without cut
 edges instead of dividing by zero

---
 gerrychain/accept.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerrychain/accept.py b/gerrychain/accept.py
index 92d3b5c..7601a0c 100644
--- a/gerrychain/accept.py
+++ b/gerrychain/accept.py
@@ -29,7 +29,7 @@ def cut_edge_accept(partition: Partition) -> bool:
     """
     bound = 1.0
 
-    if partition.parent is not None:
+    if partition.parent is not None and len(partition["cut_edges"]) > 0:
         bound = min(1, len(partition.parent["cut_edges"]) / len(partition["cut_edges"]))
 
     return random.random() < bound
-- 
2.43.0


From f57f9b6c29e70cd32f38724a01a73d130b06a900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:18 +0000
Subject: [PATCH 19/52] fix: simulated annealing does not overflow on a large
 improvement

---
 gerrychain/optimization/optimization.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gerrychain/optimization/optimization.py b/gerrychain/optimization/optimization.py
index 5b45e3c..016cbc8 100644
--- a/gerrychain/optimization/optimization.py
+++ b/gerrychain/optimization/optimization.py
@@ -179,7 +179,10 @@ class SingleMetricOptimizer:
             beta = beta_function(part[self._step_indexer])
             if self._maximize:
                 score_delta *= -1
-            return random.random() < math.exp(-beta * beta_magnitude * score_delta)
+            # Improvements are always accepted, and exp could overflow on them
+            return random.random() < math.exp(
+                min(0, -beta * beta_magnitude * score_delta)
+            )
 
         return simulated_annealing_acceptance_function
 
-- 
2.43.0


From 332f1efb8c9df8d45ce4df00d5af7fefa4218ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:18 +0000
Subject: [PATCH 20/52] fix: Gingleator scores of a plan whose districts all
 reach the threshold

---
 gerrychain/optimization/gingleator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gerrychain/optimization/gingleator.py b/gerrychain/optimization/gingleator.py
index 77399b3..2b61b89 100755
--- a/gerrychain/optimization/gingleator.py
+++ b/gerrychain/optimization/gingleator.py
@@ -141,7 +141,7 @@ class Gingleator(SingleMetricOptimizer):
         """
         dist_percs = part[minority_perc_col].values()
         num_opport_dists = sum(list(map(lambda v: v >= threshold, dist_percs)))
-        next_dist = max(i for i in dist_percs if i < threshold)
+        next_dist = max((i for i in dist_percs if i < threshold), default=0)
         return num_opport_dists + next_dist
 
     @classmethod
@@ -168,9 +168,9 @@ class Gingleator(SingleMetricOptimizer):
         """
         dist_percs = part[minority_perc_col].values()
         num_opport_dists = sum(list(map(lambda v: v >= threshold, dist_percs)))
-        next_dist = max(i for i in dist_percs if i < threshold)
+        next_dist = max((i for i in dist_percs if i < threshold), default=None)
 
-        if next_dist < threshold - 0.1:
+        if next_dist is None or next_dist < threshold - 0.1:
             return num_opport_dists
         else:
             return num_opport_dists + (next_dist - threshold + 0.1) * 10
-- 
2.43.0


From 0bc235ff96db7a0837c0118b81d50f6b82bb24d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:18 +0000
Subject: [PATCH 21/52] fix: count each neighbouring state of the metagraph
 once

---
 gerrychain/metagraph.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gerrychain/metagraph.py b/gerrychain/metagraph.py
index 438af20..ee5a18d 100644
--- a/gerrychain/metagraph.py
+++ b/gerrychain/metagraph.py
@@ -27,8 +27,13 @@ def all_cut_edge_flips(partition: Partition) -> Iterator[Dict]:
     :returns: An iterator that yields dictionaries representing the flipped edges.
     :rtype: Iterator[Dict]
     """
-    for edge, index in product(partition.cut_edges, (0, 1)):
-        yield {edge[index]: partition.assignment.mapping[edge[1 - index]]}
+    # A dict, to list a flip once even if several cut edges give it
+    flips = {
+        (edge[index], partition.assignment.mapping[edge[1 - index]]): None
+        for edge, index in product(partition.cut_edges, (0, 1))
+    }
+    for node, part in flips:
+        yield {node: part}
 
 
 def all_valid_states_one_flip_away(
-- 
2.43.0


From f3f63611788a2a626ee5cafc0bbd3c0728810317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:48 +0000
Subject: [PATCH 22/52] fix: Graph.add_data adds only the requested columns

---
 gerrychain/graph/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerrychain/graph/graph.py b/gerrychain/graph/graph.py
index fdd905a..3247eb3 100644
--- a/gerrychain/graph/graph.py
+++ b/gerrychain/graph/graph.py
@@ -326,7 +326,7 @@ class Graph(networkx.Graph):
 
         check_dataframe(df[columns])
 
-        column_dictionaries = df.to_dict("index")
+        column_dictionaries = df[columns].to_dict("index")
         networkx.set_node_attributes(self, column_dictionaries)
 
         if hasattr(self, "data"):
-- 
2.43.0


From 4b3e9c9d949985ffd30d4597e4f01ac01d569b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:48 +0000
Subject: [PATCH 23/52] fix: check reprojected geometries unless errors are to
 be ignored

---
 gerrychain/graph/graph.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gerrychain/graph/graph.py b/gerrychain/graph/graph.py
index 3247eb3..562ecf0 100644
--- a/gerrychain/graph/graph.py
+++ b/gerrychain/graph/graph.py
@@ -237,9 +237,8 @@ class Graph(networkx.Graph):
         # explicitly told not to.
         if reproject:
             df = reprojected(dataframe)
-            if ignore_errors:
+            if not ignore_errors:
                 invalid_reproj = invalid_geometries(df)
-                print(invalid_reproj)
                 if len(invalid_reproj) > 0:
                     raise GeometryError(
                         "Invalid geometries at rows {} after "
-- 
2.43.0


From a436b78129fd91669c9766645f784f9d6d0e2a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:48 +0000
Subject: [PATCH 24/52] fix: Graph.from_file records the CRS its areas and
 lengths were computed in

---
 gerrychain/graph/graph.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/gerrychain/graph/graph.py b/gerrychain/graph/graph.py
index 562ecf0..f69bcc9 100644
--- a/gerrychain/graph/graph.py
+++ b/gerrychain/graph/graph.py
@@ -171,7 +171,6 @@ class Graph(networkx.Graph):
             reproject=reproject,
             ignore_errors=ignore_errors,
         )
-        graph.graph["crs"] = df.crs.to_json()
         return graph
 
     @classmethod
-- 
2.43.0


From 6609f395eba47377eb1f61a26f09dd2b444ec1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:48 +0000
Subject: [PATCH 25/52] fix: crs_override does not change the caller's
 GeoDataFrame

---
 gerrychain/graph/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerrychain/graph/graph.py b/gerrychain/graph/graph.py
index f69bcc9..39a4b5c 100644
--- a/gerrychain/graph/graph.py
+++ b/gerrychain/graph/graph.py
@@ -267,7 +267,7 @@ class Graph(networkx.Graph):
         graph.add_data(df, columns=cols_to_add)
 
         if crs_override is not None:
-            df.set_crs(crs_override, inplace=True)
+            df = df.set_crs(crs_override)
 
         if df.crs is None:
             warnings.warn(
-- 
2.43.0


From c6f5977b3c85a86e8bf52244767ea49b037e1eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:48 +0000
Subject: [PATCH 26/52] fix: boundary perimeter of the nodes of a grid that is
 one node wide

---
 gerrychain/grid.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/gerrychain/grid.py b/gerrychain/grid.py
index b635c80..c00b74d 100644
--- a/gerrychain/grid.py
+++ b/gerrychain/grid.py
@@ -235,12 +235,9 @@ def get_boundary_perim(node: Tuple[int, int], dimensions: Tuple[int, int]) -> in
     :rtype: int
     """
     m, n = dimensions
-    if node in [(0, 0), (m - 1, 0), (0, n - 1), (m - 1, n - 1)]:
-        return 2
-    elif node[0] in [0, m - 1] or node[1] in [0, n - 1]:
-        return 1
-    else:
-        return 0
+    return sum(
+        (node[0] == 0, node[0] == m - 1, node[1] == 0, node[1] == n - 1)
+    )
 
 
 def color_half(node: Tuple[int, int], threshold: int) -> int:
-- 
2.43.0


From 82f15956251383899e4c2bbbddb5abba956893cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:48 +0000
Subject: [PATCH 27/52] fix: Grid uses the updaters it is given and leaves the
 caller's dict alone

---
 gerrychain/grid.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/gerrychain/grid.py b/gerrychain/grid.py
index c00b74d..5d301e5 100644
--- a/gerrychain/grid.py
+++ b/gerrychain/grid.py
@@ -105,9 +105,7 @@ class Grid(Partition):
                     node: color_quadrants(node, thresholds) for node in graph.nodes  # type: ignore
                 }
 
-            if not updaters:
-                updaters = dict()
-            updaters.update(self.default_updaters)
+            updaters = {**self.default_updaters, **(updaters or {})}
 
             super().__init__(graph, assignment, updaters)
         elif parent:
-- 
2.43.0


From 5989eb4dbb4f03af13af3874a2619e04f25f7755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:48 +0000
Subject: [PATCH 28/52] fix: longitude 180 lies in UTM zone 60, there is no
 zone 61

---
 gerrychain/vendor/utm/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerrychain/vendor/utm/conversion.py b/gerrychain/vendor/utm/conversion.py
index 827a7a1..51ad455 100644
--- a/gerrychain/vendor/utm/conversion.py
+++ b/gerrychain/vendor/utm/conversion.py
@@ -316,7 +316,7 @@ def latlon_to_zone_number(latitude, longitude):
         elif longitude < 42:
             return 37
 
-    return int((longitude + 180) / 6) + 1
+    return min(int((longitude + 180) / 6) + 1, 60)
 
 
 def zone_number_to_central_longitude(zone_number):
-- 
2.43.0


From f0fc8dca30e7318b370a7d1fae1c4ccf72b37ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:36 +0000
Subject: [PATCH 29/52] fix: LocalitySplits reads the localities of the
 partition's own graph

---
 gerrychain/updaters/locality_split_scores.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gerrychain/updaters/locality_split_scores.py b/gerrychain/updaters/locality_split_scores.py
index d0d4587..c006dd2 100644
--- a/gerrychain/updaters/locality_split_scores.py
+++ b/gerrychain/updaters/locality_split_scores.py
@@ -134,9 +134,8 @@ class LocalitySplits:
 
     def __call__(self, partition):
 
-        if self.localities == []:
-            self.localitydict = dict(partition.graph.nodes(data=self.col_id))
-            self.localities = set(list(self.localitydict.values()))
+        self.localitydict = dict(partition.graph.nodes(data=self.col_id))
+        self.localities = set(list(self.localitydict.values()))
 
         locality_splits = {
             k: [self.localitydict[v] for v in d]
-- 
2.43.0


From d03ed32d74016ee1cc14a1046f227888f6682034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:36 +0000
Subject: [PATCH 30/52] fix: to_json keeps numpy floats and booleans instead of
 writing null

---
 gerrychain/graph/graph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gerrychain/graph/graph.py b/gerrychain/graph/graph.py
index 39a4b5c..902abcb 100644
--- a/gerrychain/graph/graph.py
+++ b/gerrychain/graph/graph.py
@@ -19,6 +19,7 @@ import warnings
 import networkx
 from networkx.classes.function import frozen
 from networkx.readwrite import json_graph
+import numpy
 import pandas as pd
 
 from .adjacency import neighbors
@@ -45,6 +46,9 @@ def json_serialize(input_object: Any) -> Optional[int]:
     if pd.api.types.is_integer_dtype(input_object):  # handle int64
         return int(input_object)
 
+    if isinstance(input_object, numpy.generic):  # other numpy scalars
+        return input_object.item()
+
     return None
 
 
-- 
2.43.0


From 2d974b81a37704dc75179d17c37937bd28e78c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:45 +0000
Subject: [PATCH 31/52] fix: symmetric_entropy with unpopulated districts or
 localities

A district or locality without population contributes nothing to the score,
but dividing by its population raised ZeroDivisionError.
---
 gerrychain/updaters/locality_split_scores.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gerrychain/updaters/locality_split_scores.py b/gerrychain/updaters/locality_split_scores.py
index c006dd2..37adea6 100644
--- a/gerrychain/updaters/locality_split_scores.py
+++ b/gerrychain/updaters/locality_split_scores.py
@@ -394,6 +394,8 @@ class LocalitySplits:
         for district in district_dict.keys():
             localities_and_pops = district_dict[district]
             total = sum(localities_and_pops.values())
+            if total == 0:
+                continue
             fractional_sum = 0
             for locality in localities_and_pops.keys():
                 fractional_sum += math.sqrt(localities_and_pops[locality] / total)
@@ -403,6 +405,8 @@ class LocalitySplits:
         for locality in district_dict_inv.keys():
             districts_and_pops = district_dict_inv[locality]
             total = sum(districts_and_pops.values())
+            if total == 0:
+                continue
             fractional_sum = 0
             for district in districts_and_pops.keys():
                 fractional_sum += math.sqrt(districts_and_pops[district] / total)
-- 
2.43.0


From 0f256bd7e682e9eb8067513acae7958f2fe13cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:08 +0000
Subject: [PATCH 32/52] fix: geometry columns not called "geometry"

The active geometry column of a GeoDataFrame can have any name.
---
 gerrychain/graph/geo.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gerrychain/graph/geo.py b/gerrychain/graph/geo.py
index 0fc0199..6e307d8 100644
--- a/gerrychain/graph/geo.py
+++ b/gerrychain/graph/geo.py
@@ -26,7 +26,7 @@ def identify_utm_zone(df: GeoDataFrame) -> int:
     number for the centroid of the geometries in the dataframe.
     """
     wgs_df = df.to_crs("+proj=longlat +ellps=WGS84 +datum=WGS84 +no_defs")
-    utm_counts = Counter(utm_of_point(point) for point in wgs_df["geometry"].centroid)
+    utm_counts = Counter(utm_of_point(point) for point in wgs_df.geometry.centroid)
     # most_common returns a list of tuples, and we want the 0,0th entry
     most_common = utm_counts.most_common(1)[0][0]
     return most_common
@@ -61,8 +61,8 @@ def invalid_geometries(df):
     :rtype: list of int
     """
     invalid = []
-    for idx, row in df.iterrows():
-        validity = explain_validity(row.geometry)
+    for idx, geometry in df.geometry.items():
+        validity = explain_validity(geometry)
         if validity != "Valid Geometry":
             invalid.append(idx)
     return invalid
-- 
2.43.0


From accfb571e6447030f34cd69d718e38617c6c7fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:02 +0000
Subject: [PATCH 33/52] fix: best_part and best_score include the plan just
 yielded

The optimizers yielded each plan before comparing it with the best one, so
that during a run (and after a run that is stopped early) best_score could
be worse than the score of a plan already observed.
---
 gerrychain/optimization/optimization.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gerrychain/optimization/optimization.py b/gerrychain/optimization/optimization.py
index 016cbc8..e4f2437 100644
--- a/gerrychain/optimization/optimization.py
+++ b/gerrychain/optimization/optimization.py
@@ -420,12 +420,12 @@ class SingleMetricOptimizer:
             )
 
             for part in chain:
-                yield part
                 part_score = self.score(part)
 
                 if self._is_improvement(part_score, self._best_score):
                     self._best_part = part
                     self._best_score = part_score
+                yield part
 
     def simulated_annealing(
         self,
@@ -469,11 +469,11 @@ class SingleMetricOptimizer:
         chain_generator = tqdm(chain) if with_progress_bar else chain
 
         for part in chain_generator:
-            yield part
             part_score = self.score(part)
             if self._is_improvement(part_score, self._best_score):
                 self._best_part = part
                 self._best_score = part_score
+            yield part
 
     def tilted_short_bursts(
         self,
@@ -556,7 +556,6 @@ class SingleMetricOptimizer:
                 self._proposal, self._constraints, accept, self._best_part, burst_length
             )
             for part in chain:
-                yield part
                 part_score = self.score(part)
                 if self._is_improvement(part_score, self._best_score):
                     self._best_part = part
@@ -564,6 +563,7 @@ class SingleMetricOptimizer:
                     time_stuck = 0
                 else:
                     time_stuck += 1
+                yield part
 
                 i += 1
                 if i >= num_steps:
@@ -602,9 +602,9 @@ class SingleMetricOptimizer:
         chain_generator = tqdm(chain) if with_progress_bar else chain
 
         for part in chain_generator:
-            yield part
             part_score = self.score(part)
 
             if self._is_improvement(part_score, self._best_score):
                 self._best_part = part
                 self._best_score = part_score
+            yield part
-- 
2.43.0


From 679c595aa2077d5dcd875f946345b512db4b4b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:02 +0000
Subject: [PATCH 34/52] fix: variable_length_short_bursts lengthens bursts when
 stuck

Each burst starts at the best plan, which tied with the best score and so
reset the counter: the burst length never grew beyond 2.  Count the bursts of
the current length without a better score, as documented.
---
 gerrychain/optimization/optimization.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/gerrychain/optimization/optimization.py b/gerrychain/optimization/optimization.py
index e4f2437..244ad8c 100644
--- a/gerrychain/optimization/optimization.py
+++ b/gerrychain/optimization/optimization.py
@@ -547,7 +547,7 @@ class SingleMetricOptimizer:
 
         self._best_part = self._initial_part
         self._best_score = self.score(self._best_part)
-        time_stuck = 0
+        bursts_stuck = 0
         burst_length = 2
         i = 0
 
@@ -555,22 +555,24 @@ class SingleMetricOptimizer:
             chain = MarkovChain(
                 self._proposal, self._constraints, accept, self._best_part, burst_length
             )
+            improved = False
             for part in chain:
                 part_score = self.score(part)
                 if self._is_improvement(part_score, self._best_score):
+                    # Ties, such as the plan the burst starts at, are not progress
+                    improved = improved or part_score != self._best_score
                     self._best_part = part
                     self._best_score = part_score
-                    time_stuck = 0
-                else:
-                    time_stuck += 1
                 yield part
 
                 i += 1
                 if i >= num_steps:
                     break
 
-            if time_stuck >= stuck_buffer * burst_length:
+            bursts_stuck = 0 if improved else bursts_stuck + 1
+            if bursts_stuck >= stuck_buffer:
                 burst_length *= 2
+                bursts_stuck = 0
 
     def tilted_run(self, num_steps: int, p: float, with_progress_bar: bool = False):
         """
-- 
2.43.0


From d03957636c3a20dfc85183a23ac2eabaa7d8fd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:31 +0000
Subject: [PATCH 35/52] fix: logit temperature cycles without cooldown are cold
 from the first cold step

---
 gerrychain/optimization/optimization.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gerrychain/optimization/optimization.py b/gerrychain/optimization/optimization.py
index 244ad8c..903ce68 100644
--- a/gerrychain/optimization/optimization.py
+++ b/gerrychain/optimization/optimization.py
@@ -310,9 +310,11 @@ class SingleMetricOptimizer:
 
         def beta_function(step: int):
             time_in_cycle = step % cycle_length
-            if time_in_cycle <= duration_hot:
+            if time_in_cycle < duration_hot:
                 return 0
             elif time_in_cycle < duration_hot + duration_cooldown:
+                if time_in_cycle == duration_hot:
+                    return 0
                 value = logit((time_in_cycle - duration_hot) / duration_cooldown)
                 if value < 0:
                     return 0
@@ -362,9 +364,11 @@ class SingleMetricOptimizer:
 
         def beta_function(step: int):
             time_in_cycle = step % cycle_length
-            if time_in_cycle <= duration_hot:
+            if time_in_cycle < duration_hot:
                 return 0
             elif time_in_cycle < duration_hot + duration_cooldown:
+                if time_in_cycle == duration_hot:
+                    return 0
                 value = logit((time_in_cycle - duration_hot) / duration_cooldown)
                 if value < 0:
                     return 0
-- 
2.43.0


From 87be1c1797aec19b7016ae528ead5e32ff75f0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:16 +0000
Subject: [PATCH 36/52] fix: accuracy of the conversion from UTM coordinates

The series used the third flattening instead of the second eccentricity, and
added the sixth-order term of the latitude outside its factor, which moved
points by up to 0.8 m.
---
 gerrychain/vendor/utm/conversion.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gerrychain/vendor/utm/conversion.py b/gerrychain/vendor/utm/conversion.py
index 51ad455..1ed56c7 100644
--- a/gerrychain/vendor/utm/conversion.py
+++ b/gerrychain/vendor/utm/conversion.py
@@ -155,7 +155,7 @@ def to_latlon(
     n = R / ep_sin_sqrt
     r = (1 - E) / ep_sin
 
-    c = _E * p_cos**2
+    c = E_P2 * p_cos**2
     c2 = c * c
 
     d = x / (n * K0)
@@ -168,8 +168,13 @@ def to_latlon(
     latitude = (
         p_rad
         - (p_tan / r)
-        * (d2 / 2 - d4 / 24 * (5 + 3 * p_tan2 + 10 * c - 4 * c2 - 9 * E_P2))
-        + d6 / 720 * (61 + 90 * p_tan2 + 298 * c + 45 * p_tan4 - 252 * E_P2 - 3 * c2)
+        * (
+            d2 / 2
+            - d4 / 24 * (5 + 3 * p_tan2 + 10 * c - 4 * c2 - 9 * E_P2)
+            + d6
+            / 720
+            * (61 + 90 * p_tan2 + 298 * c + 45 * p_tan4 - 252 * E_P2 - 3 * c2)
+        )
     )
 
     longitude = (
-- 
2.43.0


From 8dc1a7c1e65d59c1de3a7cbe53c4c4c45a5a7f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:06 +0000
Subject: [PATCH 37/52] fix: edge-flow updaters work without the cut_edges
 updater

---
 gerrychain/partition/partition.py | 2 ++
 gerrychain/updaters/flows.py      | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/gerrychain/partition/partition.py b/gerrychain/partition/partition.py
index 9f484f6..97ba4ca 100644
--- a/gerrychain/partition/partition.py
+++ b/gerrychain/partition/partition.py
@@ -164,6 +164,8 @@ class Partition:
 
         if "cut_edges" in self.updaters:
             self.edge_flows = compute_edge_flows(self)
+        else:
+            self.edge_flows = None
 
     def __repr__(self):
         number_of_parts = len(self)
diff --git a/gerrychain/updaters/flows.py b/gerrychain/updaters/flows.py
index bf00096..f90f32d 100644
--- a/gerrychain/updaters/flows.py
+++ b/gerrychain/updaters/flows.py
@@ -198,10 +198,12 @@ def on_edge_flow(initializer: Callable, alias: str) -> Callable:
             if not partition.parent:
                 return initializer(partition)
             edge_flows = partition.edge_flows
+            if edge_flows is None:
+                edge_flows = compute_edge_flows(partition)
             previous = partition.parent[alias]
 
             new_values = previous.copy()
-            for part in partition.edge_flows:
+            for part in edge_flows:
                 new_values[part] = f(
                     partition,
                     previous[part],
-- 
2.43.0


From 836d7271993406416d09d4b307367ab5ea3f3cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:06 +0000
Subject: [PATCH 38/52] fix: a chain of zero steps yields no state

---
 gerrychain/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerrychain/chain.py b/gerrychain/chain.py
index 811e21e..cc18784 100644
--- a/gerrychain/chain.py
+++ b/gerrychain/chain.py
@@ -178,7 +178,7 @@ class MarkovChain:
 
         :raises StopIteration: If the total number of steps has been reached.
         """
-        if self.counter == 0:
+        if self.counter == 0 and self.total_steps > 0:
             self.counter += 1
             return self.state
 
-- 
2.43.0


From ebbbd872b823035129ed872f47b6e679cdc86252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:07 +0000
Subject: [PATCH 39/52] fix: a partition keeps its own copy of the flips that
 made it

---
 gerrychain/partition/partition.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gerrychain/partition/partition.py b/gerrychain/partition/partition.py
index 97ba4ca..d97e4aa 100644
--- a/gerrychain/partition/partition.py
+++ b/gerrychain/partition/partition.py
@@ -152,7 +152,9 @@ class Partition:
 
     def _from_parent(self, parent: "Partition", flips: Dict) -> None:
         self.parent = parent
-        self.flips = flips
+        # Cut edges are computed from the flips when they are asked for, so the
+        # caller's dictionary may have changed by then
+        self.flips = dict(flips)
 
         self.graph = parent.graph
         self.updaters = parent.updaters
-- 
2.43.0


From ffef3a7d72d65f357cef6318d829810cf145323f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:55 +0000
Subject: [PATCH 40/52] fix: bounds on a function without a name can be shown

---
 gerrychain/constraints/bounds.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/gerrychain/constraints/bounds.py b/gerrychain/constraints/bounds.py
index ffd89df..0de9a2e 100644
--- a/gerrychain/constraints/bounds.py
+++ b/gerrychain/constraints/bounds.py
@@ -2,6 +2,17 @@ from typing import Callable, Tuple
 from ..partition import Partition
 
 
+def _name(func: Callable) -> str:
+    """
+    :param func: Any callable, with or without a ``__name__``.
+    :type func: Callable
+
+    :returns: The name by which the function is shown.
+    :rtype: str
+    """
+    return getattr(func, "__name__", repr(func))
+
+
 class Bounds:
     """
     Wrapper for numeric-validators to enforce upper and lower limits.
@@ -29,7 +40,7 @@ class Bounds:
 
     @property
     def __name__(self) -> str:
-        return "Bounds({},{})".format(self.func.__name__, str(self.bounds))
+        return "Bounds({},{})".format(_name(self.func), str(self.bounds))
 
     def __repr__(self) -> str:
         return "<{}>".format(self.__name__)
@@ -59,7 +70,7 @@ class UpperBound:
 
     @property
     def __name__(self) -> str:
-        return "UpperBound({} >= {})".format(self.func.__name__, self.bound)
+        return "UpperBound({} >= {})".format(_name(self.func), self.bound)
 
     def __repr__(self) -> str:
         return "<{}>".format(self.__name__)
@@ -89,7 +100,7 @@ class LowerBound:
 
     @property
     def __name__(self) -> str:
-        return "LowerBound({} <= {})".format(self.func.__name__, self.bound)
+        return "LowerBound({} <= {})".format(_name(self.func), self.bound)
 
     def __repr__(self) -> str:
         return "<{}>".format(self.__name__)
@@ -122,7 +133,7 @@ class SelfConfiguringUpperBound:
 
     @property
     def __name__(self) -> str:
-        return "SelfConfiguringUpperBound({})".format(self.func.__name__)
+        return "SelfConfiguringUpperBound({})".format(_name(self.func))
 
     def __repr__(self) -> str:
         return "<{}>".format(self.__name__)
@@ -159,7 +170,7 @@ class SelfConfiguringLowerBound:
 
     @property
     def __name__(self) -> str:
-        return "SelfConfiguringLowerBound({})".format(self.func.__name__)
+        return "SelfConfiguringLowerBound({})".format(_name(self.func))
 
     def __repr__(self) -> str:
         return "<{}>".format(self.__name__)
@@ -207,7 +218,7 @@ class WithinPercentRangeOfBounds:
 
     @property
     def __name__(self) -> str:
-        return "WithinPercentRangeOfBounds({})".format(self.func.__name__)
+        return "WithinPercentRangeOfBounds({})".format(_name(self.func))
 
     def __repr__(self) -> str:
         return "<{}>".format(self.__name__)
-- 
2.43.0


From 2ddb3c74d1d5bb158dcaa93c49b7d39741874e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:20 +0000
Subject: [PATCH 41/52] fix: uniform spanning trees keep lone nodes and the
 nodes' data

---
 gerrychain/tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gerrychain/tree.py b/gerrychain/tree.py
index 548037c..eec2374 100644
--- a/gerrychain/tree.py
+++ b/gerrychain/tree.py
@@ -128,6 +128,8 @@ def uniform_spanning_tree(
     for node in tree_nodes:
         if next_node[node] is not None:
             G.add_edge(node, next_node[node])
+    # a one-node tree has no edges, and region-aware cuts need the nodes' data
+    G.add_nodes_from((node, graph.nodes[node]) for node in tree_nodes)
 
     return G
 
-- 
2.43.0


From 39d850a097a9d9209a6c577f0d5f4c38924c4f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:09 +0000
Subject: [PATCH 42/52] fix: a refused assignment does not freeze the caller's
 graph

---
 gerrychain/partition/partition.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/gerrychain/partition/partition.py b/gerrychain/partition/partition.py
index d97e4aa..67517d3 100644
--- a/gerrychain/partition/partition.py
+++ b/gerrychain/partition/partition.py
@@ -120,21 +120,19 @@ class Partition:
         )
 
     def _first_time(self, graph, assignment, updaters, use_default_updaters):
-        if isinstance(graph, Graph):
-            self.graph = FrozenGraph(graph)
-        elif isinstance(graph, networkx.Graph):
-            graph = Graph.from_networkx(graph)
-            self.graph = FrozenGraph(graph)
-        elif isinstance(graph, FrozenGraph):
-            self.graph = graph
-        else:
+        if not isinstance(graph, (networkx.Graph, FrozenGraph)):
             raise TypeError(f"Unsupported Graph object with type {type(graph)}")
+        if not isinstance(graph, (Graph, FrozenGraph)):
+            graph = Graph.from_networkx(graph)
 
         self.assignment = get_assignment(assignment, graph)
 
         if set(self.assignment) != set(graph):
             raise KeyError("The graph's node labels do not match the Assignment's keys")
 
+        # Only now, so that a graph whose assignment is refused can still be changed
+        self.graph = graph if isinstance(graph, FrozenGraph) else FrozenGraph(graph)
+
         if updaters is None:
             updaters = dict()
 
-- 
2.43.0


From c943c4fadbc84769e5b85a9264e76139c2da46d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:17 +0000
Subject: [PATCH 43/52] fix: add_data takes any iterable of columns

---
 gerrychain/graph/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerrychain/graph/graph.py b/gerrychain/graph/graph.py
index 902abcb..1623ad7 100644
--- a/gerrychain/graph/graph.py
+++ b/gerrychain/graph/graph.py
@@ -323,8 +323,8 @@ class Graph(networkx.Graph):
         :returns: None
         """
 
-        if columns is None:
-            columns = list(df.columns)
+        # A list, so that a one-shot iterable is not used up by the first selection
+        columns = list(df.columns if columns is None else columns)
 
         check_dataframe(df[columns])
 
-- 
2.43.0


From b6df741d3dfca899324860afb6064dd9a71b59a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:59 +0000
Subject: [PATCH 44/52] fix: seed plans leave the graph's node set alone

epsilon_tree_bipartition and recursive_tree_part shrank graph.node_indices in
place; a partition's (frozen) graph keeps that set, and lost its nodes.
---
 gerrychain/tree.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gerrychain/tree.py b/gerrychain/tree.py
index eec2374..7f7cf70 100644
--- a/gerrychain/tree.py
+++ b/gerrychain/tree.py
@@ -928,7 +928,8 @@ def epsilon_tree_bipartition(
         )
 
     flips = {}
-    remaining_nodes = graph.node_indices
+    # A set of our own to shrink: a frozen graph keeps and reuses its node_indices
+    remaining_nodes = set(graph.nodes)
 
     lb_pop = pop_target * (1 - epsilon)
     ub_pop = pop_target * (1 + epsilon)
@@ -1006,7 +1007,8 @@ def recursive_tree_part(
     :rtype: dict
     """
     flips = {}
-    remaining_nodes = graph.node_indices
+    # A set of our own to shrink: a frozen graph keeps and reuses its node_indices
+    remaining_nodes = set(graph.nodes)
     # We keep a running tally of deviation from ``epsilon`` at each partition
     # and use it to tighten the population constraints on a per-partition
     # basis such that every partition, including the last partition, has a
-- 
2.43.0


From b811977c2daf22f2dfb826a98d1b5d900201b8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:59 +0000
Subject: [PATCH 45/52] fix: report overlaps between units whose labels have
 different types

---
 gerrychain/graph/adjacency.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gerrychain/graph/adjacency.py b/gerrychain/graph/adjacency.py
index 3fa6c28..b4c2386 100644
--- a/gerrychain/graph/adjacency.py
+++ b/gerrychain/graph/adjacency.py
@@ -102,9 +102,10 @@ def warn_for_overlaps(intersection_pairs):
     for i, intersections in intersection_pairs:
         overlaps.update(
             set(
-                tuple(sorted([i, j]))
+                # Each pair once; labels of different types cannot be sorted
+                (i, j)
                 for j, intersection in intersections.items()
-                if intersection.area > 0
+                if intersection.area > 0 and (j, i) not in overlaps
             )
         )
         yield (i, intersections)
-- 
2.43.0


From 42cb31f36ad1c676e26e892bb7efe51c8c1d255c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:06 +0000
Subject: [PATCH 46/52] fix: Assignment.to_series accepts tuples as district
 labels

---
 gerrychain/partition/assignment.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gerrychain/partition/assignment.py b/gerrychain/partition/assignment.py
index b38ca49..4c58ae4 100644
--- a/gerrychain/partition/assignment.py
+++ b/gerrychain/partition/assignment.py
@@ -120,9 +120,12 @@ class Assignment(Mapping):
         :rtype: pandas.Series
         """
         groups = [
-            pandas.Series(data=part, index=nodes) for part, nodes in self.parts.items()
+            # A list, since pandas does not take a tuple for a scalar
+            pandas.Series(data=[part] * len(nodes), index=nodes)
+            for part, nodes in self.parts.items()
+            if len(nodes) > 0
         ]
-        return pandas.concat(groups)
+        return pandas.concat(groups) if groups else pandas.Series(dtype=object)
 
     def to_dict(self) -> Dict:
         """
-- 
2.43.0


From 56ecfa4771c698fe945630db15230afd08e220fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:47 +0000
Subject: [PATCH 47/52] fix: optimizers check one-shot constraint iterables in
 every burst

Each burst makes its own Markov chain from the constraints it was given, so an
iterator or generator of constraints was used up by the first one and the later
bursts yielded plans that violate them.
---
 gerrychain/optimization/optimization.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gerrychain/optimization/optimization.py b/gerrychain/optimization/optimization.py
index 903ce68..425c37b 100644
--- a/gerrychain/optimization/optimization.py
+++ b/gerrychain/optimization/optimization.py
@@ -1,6 +1,7 @@
 from ..chain import MarkovChain
 from ..partition import Partition
 from ..accept import always_accept
+from ..constraints import Validator
 import random
 from typing import Union, Callable, List, Any
 from tqdm import tqdm
@@ -66,7 +67,11 @@ class SingleMetricOptimizer:
         """
         self._initial_part = initial_state
         self._proposal = proposal
-        self._constraints = constraints
+        # A validator, since each run and burst makes its own chain and a one-shot
+        # iterable would be used up by the first
+        self._constraints = (
+            constraints if callable(constraints) else Validator(constraints)
+        )
         self._score = optimization_metric
         self._maximize = maximize
         self._best_part = None
-- 
2.43.0


From de677690eb278fa387863ca05a9ef69a967bc07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:47 +0000
Subject: [PATCH 48/52] fix: Gingleators for different populations can share a
 partition

The updater with the minority shares had one fixed name, so a second Gingleator
of the same partition replaced the shares the first one scores plans by, and
found the first one's in the partition's cache.
---
 gerrychain/optimization/gingleator.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/gerrychain/optimization/gingleator.py b/gerrychain/optimization/gingleator.py
index 2b61b89..dbd4923 100755
--- a/gerrychain/optimization/gingleator.py
+++ b/gerrychain/optimization/gingleator.py
@@ -28,7 +28,7 @@ class Gingleator(SingleMetricOptimizer):
         score_function: Optional[Callable] = None,
         minority_pop_col: Optional[str] = None,
         total_pop_col: str = "TOTPOP",
-        min_perc_column_name: str = "_gingleator_auxiliary_helper_updater_min_perc_col",
+        min_perc_column_name: Optional[str] = None,
     ):
         """
         :param proposal: Function proposing the next state from the current state.
@@ -59,8 +59,8 @@ class Gingleator(SingleMetricOptimizer):
             which to compute percentage. Defaults to "TOTPOP".
         :type total_pop_col: str, optional
         :param min_perc_column_name: If minority_perc_col is not defined, the name to give the
-            created percentage updater. Defaults to
-            "_gingleator_auxiliary_helper_updater_min_perc_col".
+            created percentage updater. Defaults to a name made from the names of the two
+            population columns.
         :type min_perc_column_name: str, optional
         """
         if minority_perc_col is None and minority_pop_col is None:
@@ -78,6 +78,12 @@ class Gingleator(SingleMetricOptimizer):
         )
 
         if minority_perc_col is None:
+            if min_perc_column_name is None:
+                # Gingleators for other populations of the same partition need other names
+                min_perc_column_name = (
+                    "_gingleator_auxiliary_helper_updater_min_perc_col_"
+                    f"{minority_pop_col}_{total_pop_col}"
+                )
             perc_up = {
                 min_perc_column_name: lambda part: {
                     k: part[minority_pop_col][k] / part[total_pop_col][k]
-- 
2.43.0


From df134aa002aaad91c16d71f402e386b97a14ae4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:53 +0000
Subject: [PATCH 49/52] fix: diversity statistics tell plans with the same cut
 edges apart

Plans were identified by their cut edges, which different plans share when
districts are not connected (on a path of three units, {1, 3} {2} and
{1} {2} {3}).  They are now identified by their districts.
---
 gerrychain/meta/diversity.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/gerrychain/meta/diversity.py b/gerrychain/meta/diversity.py
index e8961ec..02af62d 100644
--- a/gerrychain/meta/diversity.py
+++ b/gerrychain/meta/diversity.py
@@ -34,9 +34,8 @@ def collect_diversity_stats(
 ) -> Iterable[Tuple[Partition, DiversityStats]]:
     """
     Report the diversity of the chain being run, live, as a drop-in wrapper.
-    Requires the cut_edges updater on each `Partition` object. Plans/districts
-    are considered distinct if they are not isomorphic. That is, relabled plans
-    and districts are considered non-unique and counted as duplicate.
+    Plans/districts are considered distinct if they are not isomorphic. That is,
+    relabled plans and districts are considered non-unique and counted as duplicate.
 
     Example usage::
 
@@ -65,17 +64,20 @@ def collect_diversity_stats(
     for partition in chain:
         steps_taken += 1
 
+        districts = set()
         for district, nodes in partition.assignment.parts.items():
             hashable_nodes = tuple(sorted(list(nodes)))
             if hashable_nodes not in seen_districts:
                 unique_districts += 1
                 seen_districts[hashable_nodes] = 1
+            if nodes:
+                districts.add(hashable_nodes)
 
-        cut_edges = partition["cut_edges"]
-        hashable_cut_edges = tuple(sorted(list(cut_edges)))
-        if hashable_cut_edges not in seen_plans:
+        # Different plans can have the same cut edges if districts are not connected
+        hashable_plan = frozenset(districts)
+        if hashable_plan not in seen_plans:
             unique_plans += 1
-            seen_plans[hashable_cut_edges] = 1
+            seen_plans[hashable_plan] = 1
 
         stats = DiversityStats(
             unique_plans=unique_plans,
-- 
2.43.0


From 56eadefd8390d269ccfec9f4f5d8772cc56206a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:22 +0000
Subject: [PATCH 50/52] fix: Bounds accepts one-shot iterables of values

---
 gerrychain/constraints/bounds.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerrychain/constraints/bounds.py b/gerrychain/constraints/bounds.py
index 0de9a2e..47d67c7 100644
--- a/gerrychain/constraints/bounds.py
+++ b/gerrychain/constraints/bounds.py
@@ -35,7 +35,8 @@ class Bounds:
 
     def __call__(self, *args, **kwargs) -> bool:
         lower, upper = self.bounds
-        values = self.func(*args, **kwargs)
+        # A list, so that a one-shot iterable is not used up by min()
+        values = list(self.func(*args, **kwargs))
         return lower <= min(values) and max(values) <= upper
 
     @property
-- 
2.43.0


From 2f3b1a1bc6c993374a88b7d05c70dcbd03035f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:15 +0000
Subject: [PATCH 51/52] fix: Polsby-Popper of a zero perimeter is nan for NumPy
 numbers too

---
 gerrychain/metrics/compactness.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gerrychain/metrics/compactness.py b/gerrychain/metrics/compactness.py
index 39c288f..cd77f23 100644
--- a/gerrychain/metrics/compactness.py
+++ b/gerrychain/metrics/compactness.py
@@ -14,10 +14,10 @@ def compute_polsby_popper(area: float, perimeter: float) -> float:
     :returns: The Polsby-Popper score for the district
     :rtype: float
     """
-    try:
-        return 4 * math.pi * area / perimeter**2
-    except ZeroDivisionError:
+    # NumPy numbers do not raise a ZeroDivisionError
+    if perimeter == 0:
         return math.nan
+    return 4 * math.pi * area / perimeter**2
 
 
 # Partition type hint left out due to circular import
-- 
2.43.0


From cfa42d4c4ad97fdb7063c5bc14ea062666baf5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:49 +0000
Subject: [PATCH 52/52] fix: spectral ReCom gives each node the sign of its own
 Fiedler entry

---
 gerrychain/proposals/spectral_proposals.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gerrychain/proposals/spectral_proposals.py b/gerrychain/proposals/spectral_proposals.py
index 01b2462..35fed42 100644
--- a/gerrychain/proposals/spectral_proposals.py
+++ b/gerrychain/proposals/spectral_proposals.py
@@ -39,10 +39,12 @@ def spectral_cut(
             graph.edges[edge][weight] = random.random()
 
     if lap_type == "normalized":
-        LAP = (nx.normalized_laplacian_matrix(graph, weight=weight)).todense()
+        LAP = nx.normalized_laplacian_matrix(
+            graph, nodelist=nlist, weight=weight
+        ).todense()
 
     else:
-        LAP = (nx.laplacian_matrix(graph, weight=weight)).todense()
+        LAP = nx.laplacian_matrix(graph, nodelist=nlist, weight=weight).todense()
 
     NLMva, NLMve = LA.eigh(LAP)
     NFv = NLMve[:, 1]
-- 
2.43.0

