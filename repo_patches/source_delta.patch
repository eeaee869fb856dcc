From 921e2886f76da084503e41f4990eff4694956a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:56 +0000
Subject: [PATCH 01/35] fix: propagate evidence in every component of a
 disconnected network

---
 pybbn/pptc/propagator.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pybbn/pptc/propagator.py b/pybbn/pptc/propagator.py
index 773b188..107216e 100644
--- a/pybbn/pptc/propagator.py
+++ b/pybbn/pptc/propagator.py
@@ -18,13 +18,18 @@ class Propagator(object):
         cliques = join_tree.get_cliques()
         cliques = sorted(cliques, key=lambda c: c.id)
         # cliques = sorted(cliques, key=lambda c: c.get_sid())
-        x = cliques[0]
+        roots = []
 
         join_tree.unmark_cliques()
-        Propagator.collect_evidence(join_tree, x)
+        for x in cliques:
+            if not x.is_marked():
+                # one start clique for each connected component
+                roots.append(x)
+                Propagator.collect_evidence(join_tree, x)
 
         join_tree.unmark_cliques()
-        Propagator.distribute_evidence(join_tree, x)
+        for x in roots:
+            Propagator.distribute_evidence(join_tree, x)
 
         return join_tree
 
-- 
2.43.0


From 5ed3f561a7d68ebba900f5cdc301b9870a04654e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:01 +0000
Subject: [PATCH 02/35] fix: virtual evidence with a single 1.0 is not an
 observation

---
 pybbn/graph/jointree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybbn/graph/jointree.py b/pybbn/graph/jointree.py
index a67e2f9..23d358a 100644
--- a/pybbn/graph/jointree.py
+++ b/pybbn/graph/jointree.py
@@ -796,7 +796,7 @@ class Evidence(object):
         for k, v in values.items():
             if 1.0 == v:
                 one += 1
-            else:
+            elif 0.0 == v:
                 zero += 1
 
         return 1 == one and len(values) - 1 == zero
-- 
2.43.0


From 5eaae58614e90874042751b9cd925b99239923af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:06 +0000
Subject: [PATCH 03/35] fix: set_observation decides on the validated evidence

---
 pybbn/graph/jointree.py | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/pybbn/graph/jointree.py b/pybbn/graph/jointree.py
index 23d358a..b65941c 100644
--- a/pybbn/graph/jointree.py
+++ b/pybbn/graph/jointree.py
@@ -385,23 +385,14 @@ class JoinTree(Ug):
         :param evidence: Evidence.
         :return: This join tree.
         """
-        potentials = self.evidences[evidence.node.id]
-
-        pvalues = []
-        for v, potential in potentials.items():
-            entry = potential.entries[0]
-            p = entry.value
-            if 1.0 == p:
-                pvalues.append(v)
-
-        cvalues = []
-        for v, likelihood in evidence.values.items():
-            if 1.0 == likelihood:
-                cvalues.append(v)
-
-        if 1 == len(pvalues):
-            last_value = pvalues[0]
-            curr_value = cvalues[0]
+        evidence.validate()
+
+        pvalues = Evidence.__convert__(self.evidences[evidence.node.id])
+        cvalues = evidence.values
+
+        if Evidence.__is_observed__(pvalues) and Evidence.__is_observed__(cvalues):
+            last_value = Evidence.__get_observed_value__(pvalues)
+            curr_value = Evidence.__get_observed_value__(cvalues)
             if last_value == curr_value:
                 self.unobserve([evidence.node])
             else:
-- 
2.43.0


From 1033351389f48a8efc79bcbd9eb8dce900015490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:10 +0000
Subject: [PATCH 04/35] fix: reject evidence on an unknown value before storing
 any of the batch

---
 pybbn/graph/jointree.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pybbn/graph/jointree.py b/pybbn/graph/jointree.py
index b65941c..d07f573 100644
--- a/pybbn/graph/jointree.py
+++ b/pybbn/graph/jointree.py
@@ -367,6 +367,9 @@ class JoinTree(Ug):
         """
         for evidence in evidences:
             evidence.validate()
+            for value in evidence.values:
+                if value not in self.evidences[evidence.node.id]:
+                    raise KeyError(value)
         change = self.get_change_type(evidences)
         for evidence in evidences:
             node = evidence.node
-- 
2.43.0


From a6811b8cc2e5c1dda9e299f9be371ef200810c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:15 +0000
Subject: [PATCH 05/35] fix: a BBN rejects edges that would create a cycle

---
 pybbn/graph/dag.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pybbn/graph/dag.py b/pybbn/graph/dag.py
index 7b12247..8a5ae96 100644
--- a/pybbn/graph/dag.py
+++ b/pybbn/graph/dag.py
@@ -150,9 +150,7 @@ class Bbn(Dag):
         :param edge: Directed edge.
         :return: A boolean indicating if the directed edge should be added.
         """
-        if isinstance(edge.i, BbnNode) and isinstance(edge.j, BbnNode):
-            return True
-        return Dag.__shouldadd__(edge)
+        return Dag.__shouldadd__(self, edge)
 
     @staticmethod
     def to_csv(bbn, path):
-- 
2.43.0


From 9efe93f0a0e0e86f08f5419ed202436f180f7890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:20 +0000
Subject: [PATCH 06/35] fix: removing a node removes its edges and parent
 entries

---
 pybbn/graph/dag.py   | 13 +++++++++++++
 pybbn/graph/graph.py |  6 ++++++
 2 files changed, 19 insertions(+)

diff --git a/pybbn/graph/dag.py b/pybbn/graph/dag.py
index 8a5ae96..98f276d 100644
--- a/pybbn/graph/dag.py
+++ b/pybbn/graph/dag.py
@@ -136,6 +136,19 @@ class Bbn(Dag):
         """
         return sorted(self.parents[id]) if id in self.parents else []
 
+    def remove_node(self, id):
+        """
+        Removes a node from the BBN.
+
+        :param id: Node id.
+        """
+        Dag.remove_node(self, id)
+
+        self.parents.pop(id, None)
+        for parents in self.parents.values():
+            if id in parents:
+                parents.remove(id)
+
     def __edge_added__(self, edge):
         if edge.j.id not in self.parents:
             self.parents[edge.j.id] = []
diff --git a/pybbn/graph/graph.py b/pybbn/graph/graph.py
index 49b1d6f..56eefa6 100644
--- a/pybbn/graph/graph.py
+++ b/pybbn/graph/graph.py
@@ -152,6 +152,12 @@ class Graph(object):
             if id in v:
                 v.remove(id)
 
+        self.edges = {
+            k: edge
+            for k, edge in self.edges.items()
+            if edge.i.id != id and edge.j.id != id
+        }
+
     def __str__(self):
         nodes = str.join("\n", [x.__str__() for x in self.nodes.values()])
         edges = str.join("\n", [x.__str__() for x in self.edges.values()])
-- 
2.43.0


From da233599c16551d2ef607b0388d8f37108f89b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:26 +0000
Subject: [PATCH 07/35] fix: a deserialized join tree keeps the cliques without
 edges

---
 pybbn/graph/jointree.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pybbn/graph/jointree.py b/pybbn/graph/jointree.py
index d07f573..6e916b7 100644
--- a/pybbn/graph/jointree.py
+++ b/pybbn/graph/jointree.py
@@ -486,11 +486,10 @@ class JoinTree(Ug):
         edges = [JtEdge(sepsets[e]) for e in d["jt"]["edges"]]
 
         jt = JoinTree()
-        if len(edges) > 0:
-            for e in edges:
-                jt.add_edge(e)
-        else:
-            jt.nodes = cliques
+        for c in cliques.values():
+            jt.add_node(c)
+        for e in edges:
+            jt.add_edge(e)
 
         jt.parent_info = {int(k): v for k, v in d["jt"]["parent_info"].items()}
         return jt
-- 
2.43.0


From 5cbc93f8b63d1c3812f623bbbbcf86805a2dd443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:30 +0000
Subject: [PATCH 08/35] fix: applying an edited network forgets the cliques of
 the last join tree

---
 pybbn/pptc/potentialinitializer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pybbn/pptc/potentialinitializer.py b/pybbn/pptc/potentialinitializer.py
index 91b1ee6..62fbeb9 100644
--- a/pybbn/pptc/potentialinitializer.py
+++ b/pybbn/pptc/potentialinitializer.py
@@ -21,6 +21,7 @@ class PotentialInitializer(object):
             )
             potential = PotentialUtil.get_potential(node, parents)
             node.potential = potential
+            node.metadata.pop("parent.clique", None)
 
     @staticmethod
     def reinit(jt):
-- 
2.43.0


From c4cf4a1f0857c45070359aea49eed89eda7f7dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:36 +0000
Subject: [PATCH 09/35] fix: a copied join tree still reacts to evidence

---
 pybbn/graph/jointree.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pybbn/graph/jointree.py b/pybbn/graph/jointree.py
index 6e916b7..cd319fb 100644
--- a/pybbn/graph/jointree.py
+++ b/pybbn/graph/jointree.py
@@ -42,6 +42,7 @@ class JoinTree(Ug):
         jt.potentials = potentials
         jt.evidences = evidences
         jt.parent_info = parent_info
+        jt.listener = self.listener
         return jt
 
     def get_posteriors(self):
-- 
2.43.0


From 87d7221c8365463922a25c8855c4e228e46694e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:40 +0000
Subject: [PATCH 10/35] fix: a join tree keeps its own parent lists

---
 pybbn/pptc/inferencecontroller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybbn/pptc/inferencecontroller.py b/pybbn/pptc/inferencecontroller.py
index c32813b..49f1279 100644
--- a/pybbn/pptc/inferencecontroller.py
+++ b/pybbn/pptc/inferencecontroller.py
@@ -28,7 +28,7 @@ class InferenceController(JoinTreeListener):
         cliques = Triangulator.triangulate(ug)
         join_tree = Transformer.transform(cliques)
         join_tree.parent_info = {
-            node.id: bbn.parents[node.id]
+            node.id: list(bbn.parents[node.id])
             for node in bbn.get_nodes()
             if node.id in bbn.parents
         }
-- 
2.43.0


From bcf41406f54982e60b4382c6a04914b34483e97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:05 +0000
Subject: [PATCH 11/35] fix: logic sampling visits parents before their
 children

---
 pybbn/sampling/sampling.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/pybbn/sampling/sampling.py b/pybbn/sampling/sampling.py
index 7793a81..8edde5e 100644
--- a/pybbn/sampling/sampling.py
+++ b/pybbn/sampling/sampling.py
@@ -1,7 +1,6 @@
 import bisect
 import copy
 import itertools
-from functools import cmp_to_key
 
 import numpy as np
 
@@ -119,18 +118,16 @@ class LogicSampler(object):
 
         :return: List of node IDs that is topologically sorted.
         """
-        nodes = [
+        waiting = [
             SortableNode(node.id, set(self.bbn.get_parents_ordered(node.id)))
             for node in self.bbn.get_nodes()
         ]
-        id_sorter = lambda x, y: -1 if x < y else 1 if x > y else 0
-        pa_sorter = lambda x, y: (
-            -1
-            if x.node_id in y.parent_ids
-            else 1 if y.node_id in x.parent_ids else id_sorter(x.node_id, y.node_id)
-        )
-        nodes = sorted(nodes, key=cmp_to_key(pa_sorter))
-        nodes = [n.node_id for n in nodes]
+        nodes = []
+        while len(waiting) > 0:
+            ready = [n for n in waiting if n.parent_ids.issubset(nodes)]
+            node = min(ready, key=lambda n: n.node_id)
+            nodes.append(node.node_id)
+            waiting.remove(node)
         return nodes
 
     def get_samples(self, evidence={}, n_samples=100, seed=37):
-- 
2.43.0


From 648f601f0b1449bcbfec33e0a294fb00394c5814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:10 +0000
Subject: [PATCH 12/35] fix: logic sampling rejects every sample that
 contradicts the evidence

---
 pybbn/sampling/sampling.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pybbn/sampling/sampling.py b/pybbn/sampling/sampling.py
index 8edde5e..d72e545 100644
--- a/pybbn/sampling/sampling.py
+++ b/pybbn/sampling/sampling.py
@@ -142,7 +142,7 @@ class LogicSampler(object):
         np.random.seed(seed)
         n = len(self.nodes)
         samples = []
-        while True:
+        while len(samples) < n_samples:
             sample = copy.deepcopy(evidence)
 
             probs = np.random.uniform(0.0, 1.0, size=n)
@@ -153,11 +153,7 @@ class LogicSampler(object):
                 if node_id in evidence and val != evidence[node_id]:
                     break
                 sample[node_id] = val
-
-            if len(sample) == n:
+            else:
                 samples.append(sample)
 
-            if len(samples) == n_samples:
-                break
-
         return samples
-- 
2.43.0


From 8187ce63e9b86a1406e9caf9dc71d160d73d31ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:15 +0000
Subject: [PATCH 13/35] fix: logic sampling reads CPT rows in the parent order
 used by inference

---
 pybbn/sampling/sampling.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pybbn/sampling/sampling.py b/pybbn/sampling/sampling.py
index d72e545..aeb5b74 100644
--- a/pybbn/sampling/sampling.py
+++ b/pybbn/sampling/sampling.py
@@ -27,16 +27,17 @@ class Table(object):
     of node values.
     """
 
-    def __init__(self, node, parents=[]):
+    def __init__(self, node, parents=[], ordered=False):
         """
         Ctor.
 
         :param node: BBN node.
         :param parents: List of parent BBN nodes.
+        :param ordered: If true, the parents are in the order of the node's CPT; otherwise, they are sorted by id.
         """
         self.node = node
-        self.parents = sorted(parents, key=lambda n: n.id)
-        self.parent_ids = [p.id for p in parents]
+        self.parents = list(parents) if ordered else sorted(parents, key=lambda n: n.id)
+        self.parent_ids = [p.id for p in self.parents]
 
         if len(parents) == 0:
             self.probs = np.array([node.probs]).cumsum()
@@ -104,12 +105,12 @@ class LogicSampler(object):
         :return: Dictionary of node ID to Table.
         """
         tables = [node for node in self.bbn.get_nodes()]
-        tables = [(node, self.bbn.get_parents_ordered(node.id)) for node in tables]
+        tables = [(node, self.bbn.parents.get(node.id, [])) for node in tables]
         tables = [
             (node, [self.bbn.get_node(pa_id) for pa_id in parents])
             for node, parents in tables
         ]
-        tables = {node.id: Table(node, parents) for node, parents in tables}
+        tables = {node.id: Table(node, parents, True) for node, parents in tables}
         return tables
 
     def __topological_sort__(self):
-- 
2.43.0


From bd8d6ff07d5b2687168f9462c1ac4ff094132e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:34 +0000
Subject: [PATCH 14/35] fix: logic sampling scales cumulative probabilities to
 end at one

---
 pybbn/sampling/sampling.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pybbn/sampling/sampling.py b/pybbn/sampling/sampling.py
index aeb5b74..1f49760 100644
--- a/pybbn/sampling/sampling.py
+++ b/pybbn/sampling/sampling.py
@@ -39,8 +39,13 @@ class Table(object):
         self.parents = list(parents) if ordered else sorted(parents, key=lambda n: n.id)
         self.parent_ids = [p.id for p in self.parents]
 
+        def get_cumulative(probs):
+            cumulative = np.array(probs).cumsum()
+            # the rounding of the sum must not leave draws beyond the last value
+            return cumulative / cumulative[-1] if cumulative[-1] > 0 else cumulative
+
         if len(parents) == 0:
-            self.probs = np.array([node.probs]).cumsum()
+            self.probs = get_cumulative(node.probs)
         else:
             cartesian = list(
                 itertools.product(*[node.variable.values for node in self.parents])
@@ -55,7 +60,7 @@ class Table(object):
             n = len(node.variable.values)
 
             probs = [node.probs[i : i + n] for i in range(0, len(node.probs), n)]
-            probs = [np.array(p).cumsum() for p in probs]
+            probs = [get_cumulative(p) for p in probs]
             self.probs = {k: p for k, p in zip(keys, probs)}
 
     def get_value(self, prob, sample=None):
-- 
2.43.0


From d252b2051535833674a97439e9519106ce4d60b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:39 +0000
Subject: [PATCH 15/35] fix: node ids of a learned network come from its
 structure

---
 pybbn/graph/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybbn/graph/factory.py b/pybbn/graph/factory.py
index 0e1c453..2b71589 100644
--- a/pybbn/graph/factory.py
+++ b/pybbn/graph/factory.py
@@ -205,7 +205,7 @@ class Factory(object):
             return cpts
 
         n2v = get_profile(df)
-        n2i = get_n2i(df)
+        n2i = get_n2i(structure)
         n2c = {n: get_cpt(n, structure[n], n2v, df) for n in structure}
 
         bbn = Bbn()
-- 
2.43.0


From a084ad4f2dd3714f35a955f6cca45300e961f744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:43 +0000
Subject: [PATCH 16/35] fix: parents of a learned network are added in the
 order of its CPTs

---
 pybbn/graph/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybbn/graph/factory.py b/pybbn/graph/factory.py
index 2b71589..1c38826 100644
--- a/pybbn/graph/factory.py
+++ b/pybbn/graph/factory.py
@@ -223,7 +223,7 @@ class Factory(object):
 
         for ch, parents in structure.items():
             ch_node = nodes[ch]
-            for pa in parents:
+            for pa in sorted(parents):
                 pa_node = nodes[pa]
 
                 edge = Edge(pa_node, ch_node, EdgeType.DIRECTED)
-- 
2.43.0


From e5612e6430b0acfca5972fcc7cf5e1e965075ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:48 +0000
Subject: [PATCH 17/35] fix: learning counts the values of a column as they are

---
 pybbn/graph/factory.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pybbn/graph/factory.py b/pybbn/graph/factory.py
index 1c38826..023eb50 100644
--- a/pybbn/graph/factory.py
+++ b/pybbn/graph/factory.py
@@ -183,14 +183,14 @@ class Factory(object):
 
                 for values in domains:
                     probs = []
-                    denom_q = " and ".join(
-                        [f'{n}=="{v}"' for n, v in zip(domain_names, values)]
-                    )
+                    denom_q = pd.Series(True, index=df.index)
+                    for pa, pa_val in zip(domain_names, values):
+                        denom_q = denom_q & (df[pa] == pa_val)
                     for v in n2v[name]:
-                        numer_q = f'{name}=="{v}" and {denom_q}'
+                        numer_q = (df[name] == v) & denom_q
 
-                        numer = df.query(numer_q).shape[0] / n
-                        denom = df.query(denom_q).shape[0] / n
+                        numer = numer_q.sum() / n
+                        denom = denom_q.sum() / n
 
                         if denom == 0:
                             prob = 1e-5
-- 
2.43.0


From 1a4b7efdf66ccbe0e67b8a12a330d93a055a7431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:09 +0000
Subject: [PATCH 18/35] fix: ACE weighs the parents of the cause by their joint
 probability

---
 pybbn/causality/ace.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pybbn/causality/ace.py b/pybbn/causality/ace.py
index 08cf8d7..770812a 100644
--- a/pybbn/causality/ace.py
+++ b/pybbn/causality/ace.py
@@ -49,9 +49,12 @@ class Ace(object):
             return posteriors[y][y_val]
 
         def get_z_prob(z):
+            # chain rule, as the parents may depend on each other
             self.jt.unobserve_all()
-            posteriors = self.jt.get_posteriors()
-            probs = [posteriors[n][v] for n, v in z]
+            probs = []
+            for n, v in z:
+                probs.append(self.jt.get_posteriors()[n][v])
+                self.jt.update_evidences([get_evidence(n, v)])
             probs = reduce(operator.mul, probs, 1)
             return probs
 
-- 
2.43.0


From 1b90bf25613fcc1ec3c811167a02f189d4924325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:14 +0000
Subject: [PATCH 19/35] fix: Gaussian inference pairs each observation with its
 own mean

---
 pybbn/gaussian/inference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybbn/gaussian/inference.py b/pybbn/gaussian/inference.py
index 4e40de0..90a8a64 100644
--- a/pybbn/gaussian/inference.py
+++ b/pybbn/gaussian/inference.py
@@ -121,7 +121,7 @@ class GaussianInference(object):
         z_index = [self.I[name] for name, _ in observations]
         y_index = [i for i in range(self.E.shape[1]) if i not in z_index]
 
-        m_Z = np.array([m for i, m in enumerate(self.M) if i in z_index])
+        m_Z = np.array([self.M[i] for i in z_index])
         m_Y = np.array([m for i, m in enumerate(self.M) if i in y_index])
 
         z = np.array([o for _, o in observations])
-- 
2.43.0


From 3027855c24468fae5529aa43bf03f52c86fe5490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:19 +0000
Subject: [PATCH 20/35] fix: a PDAG checks both directions of an undirected
 edge for cycles

---
 pybbn/graph/pdag.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pybbn/graph/pdag.py b/pybbn/graph/pdag.py
index c51fe21..6015a58 100644
--- a/pybbn/graph/pdag.py
+++ b/pybbn/graph/pdag.py
@@ -1,3 +1,4 @@
+from pybbn.graph.edge import EdgeType
 from pybbn.graph.graph import Graph
 
 
@@ -53,8 +54,14 @@ class Pdag(Graph):
             child.id not in self.edge_map[parent.id]
             and parent.id not in self.edge_map[child.id]
         ):
-            if not PathDetector(self, child.id, parent.id).exists():
-                return True
+            if PathDetector(self, child.id, parent.id).exists():
+                return False
+            if (
+                EdgeType.UNDIRECTED == edge.type
+                and PathDetector(self, parent.id, child.id).exists()
+            ):
+                return False
+            return True
 
         return False
 
-- 
2.43.0


From 9cf7d128f5387395d381d1bd1328801f7e755827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:25 +0000
Subject: [PATCH 21/35] fix: generated parameters list parents in the order of
 the converted network

---
 pybbn/generator/bbngenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybbn/generator/bbngenerator.py b/pybbn/generator/bbngenerator.py
index 9632457..418a103 100644
--- a/pybbn/generator/bbngenerator.py
+++ b/pybbn/generator/bbngenerator.py
@@ -295,7 +295,7 @@ def __generate_parameters__(g, max_values=2, max_alpha=10):
     num_values = __generate_num_values__(num_nodes, max_values)
     g_params = {}
     for i in g.nodes:
-        parents = list(g.predecessors(i))
+        parents = sorted(g.predecessors(i))
         params = __generate_dirichlet_parameters__(i, parents, num_values, max_alpha)
         g_params[i] = {
             "parents": parents,
-- 
2.43.0


From 9cf5bffb40d0860d4775d62a7a353b3be395e11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:29 +0000
Subject: [PATCH 22/35] fix: generating a network of one node does not hang

---
 pybbn/generator/bbngenerator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybbn/generator/bbngenerator.py b/pybbn/generator/bbngenerator.py
index 418a103..153982e 100644
--- a/pybbn/generator/bbngenerator.py
+++ b/pybbn/generator/bbngenerator.py
@@ -155,7 +155,7 @@ def __generate_multi_connected_structure__(n, max_iter=10):
     :return: Graph structure (networkx).
     """
     g = __get_simple_ordered_tree__(n)
-    for it in range(max_iter):
+    for it in range(max_iter if n > 1 else 0):
         i, j = __get_random_node_pair__(n)
         if g.has_edge(i, j) is True:
             __del_edge__(i, j, g)
@@ -174,7 +174,7 @@ def __generate_singly_structure__(n, max_iter=10):
     """
     g = __get_simple_ordered_tree__(n)
 
-    for it in range(max_iter):
+    for it in range(max_iter if n > 1 else 0):
         i, j = __get_random_node_pair__(n)
         if g.has_edge(i, j) is True or g.has_edge(j, i) is True:
             pass
-- 
2.43.0


From fda229ef7bca14e103c4a425ffb1e0a7cea5104c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:29 +0000
Subject: [PATCH 23/35] fix: a PDAG accepts no semi-directed cycle through
 undirected edges

---
 pybbn/graph/pdag.py | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/pybbn/graph/pdag.py b/pybbn/graph/pdag.py
index 6015a58..3286725 100644
--- a/pybbn/graph/pdag.py
+++ b/pybbn/graph/pdag.py
@@ -15,12 +15,13 @@ class Pdag(Graph):
 
     def get_parents(self, id):
         """
-        Gets the parent of the specified node id.
+        Gets the parent of the specified node id. Nodes that are connected by an undirected edge are not parents.
 
         :param id: Node id.
         :return: Array of parent ids.
         """
-        return [x for x in self.edge_map if id in self.edge_map[x]]
+        out_nodes = self.edge_map.get(id, ())
+        return [x for x in self.edge_map if id in self.edge_map[x] and x not in out_nodes]
 
     def get_out_nodes(self, id):
         """
@@ -54,12 +55,11 @@ class Pdag(Graph):
             child.id not in self.edge_map[parent.id]
             and parent.id not in self.edge_map[child.id]
         ):
-            if PathDetector(self, child.id, parent.id).exists():
+            # a cycle of undirected edges only is allowed
+            undirected = EdgeType.UNDIRECTED == edge.type
+            if PathDetector(self, child.id, parent.id, undirected).exists():
                 return False
-            if (
-                EdgeType.UNDIRECTED == edge.type
-                and PathDetector(self, parent.id, child.id).exists()
-            ):
+            if undirected and PathDetector(self, parent.id, child.id, True).exists():
                 return False
             return True
 
@@ -92,20 +92,22 @@ class Pdag(Graph):
 
 class PathDetector(object):
     """
-    Detects path between two nodes.
+    Detects path between two nodes that goes against no directed edge.
     """
 
-    def __init__(self, graph, start, stop):
+    def __init__(self, graph, start, stop, needs_arc=False):
         """
         Ctor.
 
         :param graph: Pdag.
         :param start: Start node id.
         :param stop: Stop node id.
+        :param needs_arc: If True, only paths with at least one directed edge count.
         """
         self.graph = graph
         self.start = start
         self.stop = stop
+        self.needs_arc = needs_arc
         self.seen = set()
 
     def exists(self):
@@ -117,22 +119,22 @@ class PathDetector(object):
         if self.start == self.stop:
             return True
         else:
-            return self.__find__(self.start)
+            return self.__find__(self.start, False)
 
-    def __find__(self, i):
+    def __find__(self, i, has_arc):
         """
         Checks if a path exists from the specified node to the stop node.
 
         :param i: Node id.
+        :param has_arc: A boolean indicating if a directed edge leads to the specified node.
         :return: True if a path exists, otherwise, false.
         """
-        out_nodes = self.graph.get_out_nodes(i)
-        if self.stop in out_nodes:
-            return True
-
-        self.seen.add(i)
-        for out_node in out_nodes:
-            if out_node not in self.seen and self.__find__(out_node):
+        self.seen.add((i, has_arc))
+        for out_node in self.graph.get_out_nodes(i):
+            arc = has_arc or self.graph.directed_edge_exists(i, out_node)
+            if self.stop == out_node and (arc or not self.needs_arc):
+                return True
+            if (out_node, arc) not in self.seen and self.__find__(out_node, arc):
                 return True
 
         return False
-- 
2.43.0


From 1dad0d297fe15cf2e7e3065fd9258a369c07abed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:18 +0000
Subject: [PATCH 24/35] fix: generated parameters can be written as JSON text

---
 pybbn/generator/bbngenerator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pybbn/generator/bbngenerator.py b/pybbn/generator/bbngenerator.py
index 153982e..553a894 100644
--- a/pybbn/generator/bbngenerator.py
+++ b/pybbn/generator/bbngenerator.py
@@ -321,7 +321,11 @@ def to_json(g, params, pretty=False):
         "nodes": list(g.nodes),
         "edges": [{"pa": e[0], "ch": e[1]} for e in g.edges],
         "parameters": [
-            {"node": k, "params": list(v["params"].flatten()), "shape": v["shape"]}
+            {
+                "node": k,
+                "params": list(v["params"].flatten()),
+                "shape": [int(s) for s in v["shape"]],
+            }
             for k, v in params.items()
         ],
     }
-- 
2.43.0


From f8f7434d603f980201912b87db633d5b775d0b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:48 +0000
Subject: [PATCH 25/35] fix: cycle checks and message passing work on long
 chains

---
 pybbn/graph/dag.py                | 15 +++++++++------
 pybbn/graph/jointree.py           | 25 ++++++++++++++-----------
 pybbn/graph/pdag.py               | 16 ++++++++++------
 pybbn/pptc/evidencecollector.py   | 25 ++++++++++++++-----------
 pybbn/pptc/evidencedistributor.py | 23 ++++++++++++-----------
 5 files changed, 59 insertions(+), 45 deletions(-)

diff --git a/pybbn/graph/dag.py b/pybbn/graph/dag.py
index 98f276d..bbbb597 100644
--- a/pybbn/graph/dag.py
+++ b/pybbn/graph/dag.py
@@ -398,15 +398,18 @@ class PathDetector(object):
         :param i: Node id.
         :return: True if a path exists, otherwise, false.
         """
-        children = self.graph.get_children(i)
-        if self.stop in children:
-            return True
-
         self.seen.add(i)
-        for child in children:
-            if child not in self.seen and self.__find__(child):
+        stack = [i]
+        while stack:
+            children = self.graph.get_children(stack.pop())
+            if self.stop in children:
                 return True
 
+            for child in children:
+                if child not in self.seen:
+                    self.seen.add(child)
+                    stack.append(child)
+
         return False
 
 
diff --git a/pybbn/graph/jointree.py b/pybbn/graph/jointree.py
index cd319fb..ad279ef 100644
--- a/pybbn/graph/jointree.py
+++ b/pybbn/graph/jointree.py
@@ -575,21 +575,24 @@ class PathDetector(object):
         :param i: Node id.
         :return: True if a path exists, otherwise, false.
         """
-        neighbors = set()
-
-        try:
-            neighbors = self.graph.get_neighbors(i)
-        except KeyError:
-            pass
+        self.seen.add(i)
+        stack = [i]
+        while stack:
+            neighbors = set()
 
-        if self.stop in neighbors:
-            return True
+            try:
+                neighbors = self.graph.get_neighbors(stack.pop())
+            except KeyError:
+                pass
 
-        self.seen.add(i)
-        for neighbor in neighbors:
-            if neighbor not in self.seen and self.__find__(neighbor):
+            if self.stop in neighbors:
                 return True
 
+            for neighbor in neighbors:
+                if neighbor not in self.seen:
+                    self.seen.add(neighbor)
+                    stack.append(neighbor)
+
         return False
 
 
diff --git a/pybbn/graph/pdag.py b/pybbn/graph/pdag.py
index 3286725..6ea53ab 100644
--- a/pybbn/graph/pdag.py
+++ b/pybbn/graph/pdag.py
@@ -130,11 +130,15 @@ class PathDetector(object):
         :return: True if a path exists, otherwise, false.
         """
         self.seen.add((i, has_arc))
-        for out_node in self.graph.get_out_nodes(i):
-            arc = has_arc or self.graph.directed_edge_exists(i, out_node)
-            if self.stop == out_node and (arc or not self.needs_arc):
-                return True
-            if (out_node, arc) not in self.seen and self.__find__(out_node, arc):
-                return True
+        stack = [(i, has_arc)]
+        while stack:
+            i, has_arc = stack.pop()
+            for out_node in self.graph.get_out_nodes(i):
+                arc = has_arc or self.graph.directed_edge_exists(i, out_node)
+                if self.stop == out_node and (arc or not self.needs_arc):
+                    return True
+                if (out_node, arc) not in self.seen:
+                    self.seen.add((out_node, arc))
+                    stack.append((out_node, arc))
 
         return False
diff --git a/pybbn/pptc/evidencecollector.py b/pybbn/pptc/evidencecollector.py
index dedcd2a..3526025 100644
--- a/pybbn/pptc/evidencecollector.py
+++ b/pybbn/pptc/evidencecollector.py
@@ -59,17 +59,20 @@ class EvidenceCollector(object):
         :param y: Clique.
         """
 
-        sepsets, cliques = self.__get_neighboring_cliques__(self.join_tree, y)
+        stack = [(x, s, y)]
+        visited = []
 
-        s_arr = []
-        c_arr = []
-        for sep, cli in zip(sepsets, cliques):
-            if not cli[1].is_marked():
-                cli[1].mark()
-                s_arr.append(sep)
-                c_arr.append(cli)
+        while stack:
+            x, s, y = stack.pop()
+            visited.append((x, s, y))
 
-        for sep, cli in zip(s_arr, c_arr):
-            self.__walk__(y, sep[1], cli[1])
+            sepsets, cliques = self.__get_neighboring_cliques__(self.join_tree, y)
 
-        PotentialUtil.pass_single_message(self.join_tree, y, s, x)
+            for sep, cli in zip(sepsets, cliques):
+                if not cli[1].is_marked():
+                    cli[1].mark()
+                    stack.append((y, sep[1], cli[1]))
+
+        # the cliques farthest away pass their messages first
+        for x, s, y in reversed(visited):
+            PotentialUtil.pass_single_message(self.join_tree, y, s, x)
diff --git a/pybbn/pptc/evidencedistributor.py b/pybbn/pptc/evidencedistributor.py
index a573628..f703cbc 100644
--- a/pybbn/pptc/evidencedistributor.py
+++ b/pybbn/pptc/evidencedistributor.py
@@ -66,16 +66,17 @@ class EvidenceDistributor(object):
         :param s: Separation-set.
         :param y: Clique.
         """
-        sepsets, cliques = self.__get_neighboring_cliques__(self.join_tree, y)
+        stack = [y]
 
-        s_arr = []
-        c_arr = []
-        for sep, cli in zip(sepsets, cliques):
-            if not cli[1].is_marked():
-                cli[1].mark()
-                s_arr.append(sep)
-                c_arr.append(cli)
+        while stack:
+            y = stack.pop()
 
-        for sep, cli in zip(s_arr, c_arr):
-            PotentialUtil.pass_single_message(self.join_tree, y, sep[1], cli[1])
-            self.__walk__(y, sep[1], cli[1])
+            sepsets, cliques = self.__get_neighboring_cliques__(self.join_tree, y)
+
+            for sep, cli in zip(sepsets, cliques):
+                if not cli[1].is_marked():
+                    cli[1].mark()
+                    PotentialUtil.pass_single_message(
+                        self.join_tree, y, sep[1], cli[1]
+                    )
+                    stack.append(cli[1])
-- 
2.43.0


From 78950cd6419c50432fb551b7afd4c4dc2ef17d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:40 +0000
Subject: [PATCH 26/35] fix: posteriors survive evidence of a probability below
 the floating point range

---
 pybbn/graph/potential.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pybbn/graph/potential.py b/pybbn/graph/potential.py
index 74c8215..0bcb539 100644
--- a/pybbn/graph/potential.py
+++ b/pybbn/graph/potential.py
@@ -158,6 +158,21 @@ class PotentialUtil(object):
 
         ratio = PotentialUtil.divide(new_sep_set_potential, old_sep_set_potential)
         PotentialUtil.multiply(y_potential, ratio)
+        PotentialUtil.rescale(y_potential)
+
+    @staticmethod
+    def rescale(potential):
+        """
+        Divides the values of the specified potential by the largest one if they are about to leave the range
+        of floating point numbers. Otherwise, the potential is left as it is.
+
+        :param potential: Potential.
+        """
+        largest = max([entry.value for entry in potential.entries], default=0.0)
+
+        if 0.0 < largest < 1e-100 or largest > 1e100:
+            for entry in potential.entries:
+                entry.value = entry.value / largest
 
     @staticmethod
     def marginalize_for(join_tree, clique, nodes):
-- 
2.43.0


From af40d52433a39e1c8e8d83fa823d648ca1166ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:38 +0000
Subject: [PATCH 27/35] fix: copying nodes that refer to each other does not
 exceed the recursion limit

---
 pybbn/graph/node.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pybbn/graph/node.py b/pybbn/graph/node.py
index 6399f34..ed0a6e5 100644
--- a/pybbn/graph/node.py
+++ b/pybbn/graph/node.py
@@ -35,8 +35,21 @@ class Node(object):
         cls = self.__class__
         result = cls.__new__(cls)
         memodict[id(self)] = result
-        for k, v in self.__dict__.items():
-            setattr(result, k, deepcopy(v, memodict))
+
+        # nodes refer to other nodes; these are filled in one after another, since
+        # copying them inside of each other exceeds the recursion limit
+        pending = memodict.get("pending_nodes")
+        if pending is not None:
+            pending.append((self, result))
+            return result
+
+        pending = memodict["pending_nodes"] = [(self, result)]
+        while pending:
+            node, clone = pending.pop()
+            for k, v in node.__dict__.items():
+                setattr(clone, k, deepcopy(v, memodict))
+        del memodict["pending_nodes"]
+
         return result
 
     def __str__(self):
-- 
2.43.0


From 2bb2902174513e5a205bf909db0432a77da3bff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:16 +0000
Subject: [PATCH 28/35] fix: sampling tables keep parent values apart that
 contain commas

---
 pybbn/sampling/sampling.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pybbn/sampling/sampling.py b/pybbn/sampling/sampling.py
index 1f49760..2d4e41e 100644
--- a/pybbn/sampling/sampling.py
+++ b/pybbn/sampling/sampling.py
@@ -50,19 +50,23 @@ class Table(object):
             cartesian = list(
                 itertools.product(*[node.variable.values for node in self.parents])
             )
-            get_kv = lambda i, v: f"{i}={v}"
-            keys = [
-                ",".join(
-                    [get_kv(node.id, val) for node, val in zip(self.parents, values)]
-                )
-                for values in cartesian
-            ]
+            keys = [self.__get_key__(values) for values in cartesian]
             n = len(node.variable.values)
 
             probs = [node.probs[i : i + n] for i in range(0, len(node.probs), n)]
             probs = [get_cumulative(p) for p in probs]
             self.probs = {k: p for k, p in zip(keys, probs)}
 
+    def __get_key__(self, values):
+        """
+        Gets the key of the specified parent instantiation.
+
+        :param values: Values of the parents.
+        :return: Key. Commas in values are escaped, so that no two instantiations share a key.
+        """
+        escape = lambda v: f"{v}".replace("\\", "\\\\").replace(",", "\\,")
+        return ",".join([f"{i}={escape(v)}" for i, v in zip(self.parent_ids, values)])
+
     def get_value(self, prob, sample=None):
         """
         Gets the value associated with the specified probability.
@@ -74,7 +78,7 @@ class Table(object):
         if not self.has_parents():
             index = bisect.bisect(self.probs, prob)
         else:
-            k = ",".join([f"{i}={sample[i]}" for i in self.parent_ids])
+            k = self.__get_key__([sample[i] for i in self.parent_ids])
             probs = self.probs[k]
             index = bisect.bisect(probs, prob)
         return self.node.variable.values[index]
-- 
2.43.0


From 4f9eb9fb43a4f652f955f5915b0277cb51623a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:20 +0000
Subject: [PATCH 29/35] fix: CSV keeps names and values that contain commas,
 bars or quotes

---
 pybbn/graph/dag.py | 40 +++++++++++++++++-----------------------
 1 file changed, 17 insertions(+), 23 deletions(-)

diff --git a/pybbn/graph/dag.py b/pybbn/graph/dag.py
index bbbb597..e47580b 100644
--- a/pybbn/graph/dag.py
+++ b/pybbn/graph/dag.py
@@ -1,3 +1,4 @@
+import csv
 import itertools
 import json
 
@@ -174,20 +175,17 @@ class Bbn(Dag):
         :param path: Path to file.
         :return: None.
         """
-        with open(path, "w") as f:
+        with open(path, "w", newline="") as f:
+            writer = csv.writer(f, lineterminator="\n")
+
             for node in bbn.get_nodes():
                 v = node.variable
-                vals = ",".join(v.values)
-                probs = ",".join([str(p) for p in node.probs])
-                s_node = f"{v.id},{v.name},{vals},|,{probs}"
-                f.write(s_node)
-                f.write("\n")
+                probs = [str(p) for p in node.probs]
+                writer.writerow([v.id, v.name] + list(v.values) + ["|"] + probs)
 
             for _, edge in bbn.edges.items():
                 t = "directed" if edge.type == EdgeType.DIRECTED else "undirected"
-                s_edge = f"{edge.i.id},{edge.j.id},{t}"
-                f.write(s_edge)
-                f.write("\n")
+                writer.writerow([edge.i.id, edge.j.id, t])
 
     @staticmethod
     def from_csv(path):
@@ -196,27 +194,23 @@ class Bbn(Dag):
         :param path: Path to CSV file.
         :return: BBN.
         """
-        with open(path, "r") as f:
+        with open(path, "r", newline="") as f:
             nodes = {}
             edges = []
 
-            for line in f:
-                tokens = line.split(",")
+            for tokens in csv.reader(f, skipinitialspace=True):
                 if 3 == len(tokens):
                     edge = int(tokens[0]), int(tokens[1])
                     edges.append(edge)
                 else:
-                    tokens = line.split("|")
-                    v_part = [
-                        item.strip()
-                        for item in tokens[0].split(",")
-                        if len(item.strip()) > 0
-                    ]
-                    p_part = [
-                        item.strip()
-                        for item in tokens[1].split(",")
-                        if len(item.strip()) > 0
-                    ]
+                    tokens = [item.strip() for item in tokens]
+                    # the last bar separates the variable from the probabilities
+                    bar = max(i for i, item in enumerate(tokens) if "|" in item)
+                    lhs, _, rhs = tokens[bar].rpartition("|")
+                    v_part = tokens[:bar] + [lhs.strip()]
+                    v_part = [item for item in v_part if len(item) > 0]
+                    p_part = [rhs.strip()] + tokens[bar + 1 :]
+                    p_part = [item for item in p_part if len(item) > 0]
 
                     i = int(v_part[0])
                     v = Variable(i, v_part[1], v_part[2:])
-- 
2.43.0


From 96f4d84a85c720f6e864a42fd47f637d597c233c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:38 +0000
Subject: [PATCH 30/35] fix: separation sets know their node ids

---
 pybbn/graph/node.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pybbn/graph/node.py b/pybbn/graph/node.py
index ed0a6e5..533c724 100644
--- a/pybbn/graph/node.py
+++ b/pybbn/graph/node.py
@@ -240,6 +240,7 @@ class SepSet(Clique):
         sid = "-".join(str(x) for arr in [lhs, intersection, rhs] for x in arr)
         Node.__init__(self, sid)
         self.nodes = [x for x in left.nodes if x.id in intersection]
+        self.node_ids = set([node.id for node in self.nodes])
         self.marked = False
 
         self.left = left
-- 
2.43.0


From e62be2f0f28ccd2df3bc0a704cf97d093788c858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:38 +0000
Subject: [PATCH 31/35] fix: an exported join tree does not share parent lists
 with the network

---
 pybbn/graph/jointree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybbn/graph/jointree.py b/pybbn/graph/jointree.py
index ad279ef..77ef341 100644
--- a/pybbn/graph/jointree.py
+++ b/pybbn/graph/jointree.py
@@ -437,7 +437,7 @@ class JoinTree(Ug):
             "jt": {
                 "nodes": jt_nodes,
                 "edges": jt_edges,
-                "parent_info": {str(k): v for k, v in bbn.parents.items()},
+                "parent_info": {str(k): list(v) for k, v in bbn.parents.items()},
             },
         }
 
-- 
2.43.0


From ade3fad40f01ed739ba8a5a8c22f5df7a7365cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:22 +0000
Subject: [PATCH 32/35] fix: dictionaries do not share lists with the networks
 and trees they describe

---
 pybbn/graph/dag.py      | 4 ++--
 pybbn/graph/jointree.py | 6 +++---
 pybbn/graph/variable.py | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pybbn/graph/dag.py b/pybbn/graph/dag.py
index e47580b..caf0dd8 100644
--- a/pybbn/graph/dag.py
+++ b/pybbn/graph/dag.py
@@ -261,10 +261,10 @@ class Bbn(Dag):
         """
 
         def get_variable(d):
-            return Variable(d["id"], d["name"], d["values"])
+            return Variable(d["id"], d["name"], list(d["values"]))
 
         def get_bbn_node(d):
-            return BbnNode(get_variable(d["variable"]), d["probs"])
+            return BbnNode(get_variable(d["variable"]), list(d["probs"]))
 
         nodes = {k: get_bbn_node(n) for k, n in d["nodes"].items()}
         edges = d["edges"]
diff --git a/pybbn/graph/jointree.py b/pybbn/graph/jointree.py
index 77ef341..f42b65d 100644
--- a/pybbn/graph/jointree.py
+++ b/pybbn/graph/jointree.py
@@ -451,10 +451,10 @@ class JoinTree(Ug):
         """
 
         def get_variable(d):
-            return Variable(d["id"], d["name"], d["values"])
+            return Variable(d["id"], d["name"], list(d["values"]))
 
         def get_bbn_node(d):
-            return BbnNode(get_variable(d["variable"]), d["probs"])
+            return BbnNode(get_variable(d["variable"]), list(d["probs"]))
 
         def get_clique(d, bbn_nodes):
             return Clique(
@@ -492,7 +492,7 @@ class JoinTree(Ug):
         for e in edges:
             jt.add_edge(e)
 
-        jt.parent_info = {int(k): v for k, v in d["jt"]["parent_info"].items()}
+        jt.parent_info = {int(k): list(v) for k, v in d["jt"]["parent_info"].items()}
         return jt
 
     def __shouldadd__(self, edge):
diff --git a/pybbn/graph/variable.py b/pybbn/graph/variable.py
index 4df34dd..61d91ee 100644
--- a/pybbn/graph/variable.py
+++ b/pybbn/graph/variable.py
@@ -41,4 +41,4 @@ class Variable(object):
 
         :return: Dictionary.
         """
-        return {"id": self.id, "name": self.name, "values": self.values}
+        return {"id": self.id, "name": self.name, "values": list(self.values)}
-- 
2.43.0


From f7ad17304d283578faabad4dbda3da2777e09948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:17 +0000
Subject: [PATCH 33/35] fix: join trees have nodes of their own, so later
 applications of an edited network do not change them

---
 pybbn/graph/jointree.py           | 4 +++-
 pybbn/pptc/inferencecontroller.py | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/pybbn/graph/jointree.py b/pybbn/graph/jointree.py
index f42b65d..5567381 100644
--- a/pybbn/graph/jointree.py
+++ b/pybbn/graph/jointree.py
@@ -75,7 +75,9 @@ class JoinTree(Ug):
         :param node: BBN node.
         :return: Potential.
         """
-        clique = node.metadata["parent.clique"]
+        clique = node.metadata.get("parent.clique")
+        if clique is None or clique.id not in self.potentials:
+            clique = self.get_bbn_node(node.id).metadata["parent.clique"]
         potential = PotentialUtil.normalize(
             PotentialUtil.marginalize_for(self, clique, [node])
         )
diff --git a/pybbn/pptc/inferencecontroller.py b/pybbn/pptc/inferencecontroller.py
index 49f1279..095d342 100644
--- a/pybbn/pptc/inferencecontroller.py
+++ b/pybbn/pptc/inferencecontroller.py
@@ -22,6 +22,7 @@ class InferenceController(JoinTreeListener):
         :param bbn: BBN graph.
         :return: Join tree.
         """
+        bbn = copy.deepcopy(bbn)
         PotentialInitializer.init(bbn)
 
         ug = Moralizer.moralize(bbn)
-- 
2.43.0


From aba5b68fbd0126af2e3dc724d02fe2014d934c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:43 +0000
Subject: [PATCH 34/35] fix: changes of evidence after an interrupted one are
 propagated

An interruption (KeyboardInterrupt) after the evidence was recorded and
before it was propagated left the potentials as they were; repeating the
change, or retracting all evidence, then found nothing to do and the
posteriors stayed wrong.
---
 pybbn/graph/jointree.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pybbn/graph/jointree.py b/pybbn/graph/jointree.py
index 5567381..232b5b4 100644
--- a/pybbn/graph/jointree.py
+++ b/pybbn/graph/jointree.py
@@ -23,6 +23,8 @@ class JoinTree(Ug):
         self.evidences = dict()
         self.listener = None
         self.parent_info = defaultdict(set)
+        # True while the potentials may not reflect the evidence
+        self.stale = False
         # self.__all_nodes__ = None
 
     def __deepcopy__(self, memodict={}):
@@ -43,6 +45,7 @@ class JoinTree(Ug):
         jt.evidences = evidences
         jt.parent_info = parent_info
         jt.listener = self.listener
+        jt.stale = self.stale
         return jt
 
     def get_posteriors(self):
@@ -374,6 +377,10 @@ class JoinTree(Ug):
                 if value not in self.evidences[evidence.node.id]:
                     raise KeyError(value)
         change = self.get_change_type(evidences)
+        if self.stale:
+            # an earlier change was interrupted; start over
+            change = ChangeType.RETRACTION
+        self.stale = True
         for evidence in evidences:
             node = evidence.node
             potentials = self.evidences[node.id]
@@ -382,6 +389,7 @@ class JoinTree(Ug):
                 potential = potentials[k]
                 potential.entries[0].value = v
         self.__notify_listener__(change)
+        self.stale = False
         return self
 
     def set_observation(self, evidence):
-- 
2.43.0


From e3f9368769f35654facabdecb89d479bcfac777e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:43 +0000
Subject: [PATCH 35/35] fix: networks learned from data with missing values
 have proper CPTs

Rows without a value for a variable counted in the denominators, so that
probabilities of roots did not add up to one, and became NaN where a
combination of parent values occurred in such rows only.
---
 pybbn/graph/factory.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pybbn/graph/factory.py b/pybbn/graph/factory.py
index 023eb50..ccd7dfa 100644
--- a/pybbn/graph/factory.py
+++ b/pybbn/graph/factory.py
@@ -166,7 +166,9 @@ class Factory(object):
             parents = sorted(parents)
             n2v = {k: sorted(v) for k, v in n2v.items()}
 
-            n = df.shape[0]
+            # rows without a value say nothing about this variable
+            known = df[name].notna()
+            n = known.sum()
 
             cpts = []
             if len(parents) == 0:
@@ -183,7 +185,7 @@ class Factory(object):
 
                 for values in domains:
                     probs = []
-                    denom_q = pd.Series(True, index=df.index)
+                    denom_q = known
                     for pa, pa_val in zip(domain_names, values):
                         denom_q = denom_q & (df[pa] == pa_val)
                     for v in n2v[name]:
-- 
2.43.0

