From 62c1b38f9aae0263816082b835c5640a84d2f474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:46 +0000
Subject: [PATCH 01/32] fix: build a join tree for networks with independent
 parts

Cliques of disconnected parts of the dag were never joined by a sepset, so
build_join_tree (and with it every query, and any do-intervention which splits
the network) raised IndexError or looped forever.
---
 causalnex/ebaybbn/bbn.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/causalnex/ebaybbn/bbn.py b/causalnex/ebaybbn/bbn.py
index ee53e5c..da3ef59 100644
--- a/causalnex/ebaybbn/bbn.py
+++ b/causalnex/ebaybbn/bbn.py
@@ -995,7 +995,6 @@ def build_join_tree(dag, clique_priority_func=priority_func):
         # Adding in name to make this sort deterministic
         deco = [(s, -1 * s.mass, s.cost, s.__repr__()) for s in S]
         deco.sort(key=lambda x: x[1:])
-        candidate_sepset = deco[0][0]
         for candidate_sepset, _, _, _ in deco:
             if candidate_sepset.insertable(forest):
                 # Insert into forest and remove the sepset
@@ -1003,6 +1002,16 @@ def build_join_tree(dag, clique_priority_func=priority_func):
                 S.remove(candidate_sepset)
                 sepsets_inserted += 1
                 break
+        else:
+            # The trees that are left share no node, since the dag has
+            # independent parts: join two of them with an empty sepset.
+            candidate_sepset = next(
+                s
+                for s in (SepSet(cliques[0], Y) for Y in cliques[1:])
+                if s.insertable(forest)
+            )
+            candidate_sepset.insert(forest)
+            sepsets_inserted += 1
 
     assert len(forest) == 1
     jt = list(forest)[0]
-- 
2.43.0


From 54fd2356590f659301418c64a426acf2190b5e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:24 +0000
Subject: [PATCH 02/32] fix: query networks with long paths

copy.deepcopy recursed along the edges of the graphs, so that querying a chain
of a few hundred variables raised RecursionError.
---
 causalnex/ebaybbn/bbn.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/causalnex/ebaybbn/bbn.py b/causalnex/ebaybbn/bbn.py
index da3ef59..4c313f1 100644
--- a/causalnex/ebaybbn/bbn.py
+++ b/causalnex/ebaybbn/bbn.py
@@ -841,10 +841,20 @@ def make_undirected_copy(dag):
     return g
 
 
+def copy_undirected_graph(graph):
+    """Returns a copy of the graph and its nodes. As opposed to
+    copy.deepcopy, it does not recurse along the edges, so that the
+    length of the paths in the graph is not limited by the stack."""
+    copies = dict([(node, copy.copy(node)) for node in graph.nodes])
+    for node, node_copy in copies.items():
+        node_copy.neighbours = [copies[n] for n in node.neighbours]
+    return UndirectedGraph(list(copies.values()), graph.name)
+
+
 def make_moralized_copy(gu, dag):
     """gu is an undirected graph being
     a copy of dag."""
-    gm = copy.deepcopy(gu)
+    gm = copy_undirected_graph(gu)
     gm_nodes = dict([(node.name, node) for node in gm.nodes])
     for node in dag.nodes:
         for parent_1, parent_2 in combinations(node.parents, 2):
@@ -902,7 +912,7 @@ def triangulate(gm, priority_func=priority_func):
     graph as well as the elimination ordering."""
 
     # First we will make a copy of gm...
-    gm_ = copy.deepcopy(gm)
+    gm_ = copy_undirected_graph(gm)
 
     # Now we will construct a priority q using
     # the standard library heapq module.
-- 
2.43.0


From 279fc4ac55104eebc7d51146060e718f8a099151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:26 +0000
Subject: [PATCH 03/32] fix: query networks whose values are not equal to their
 deep copies

The keys of the sepset potentials hold the values of the variables: copying
them deeply made later lookups fail with KeyError for values which compare by
identity.
---
 causalnex/ebaybbn/bbn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causalnex/ebaybbn/bbn.py b/causalnex/ebaybbn/bbn.py
index 4c313f1..440368e 100644
--- a/causalnex/ebaybbn/bbn.py
+++ b/causalnex/ebaybbn/bbn.py
@@ -562,7 +562,7 @@ class JoinTreeCliqueNode(UndirectedNode):
         # ToDO test and check this function
         # Todo check on the old sepset potentials and when they will be set
 
-        sepset_node.potential_tt_old = copy.deepcopy(sepset_node.potential_tt)
+        sepset_node.potential_tt_old = dict(sepset_node.potential_tt)
         tt = defaultdict(float)
         for k, v in self.potential_tt.items():
             entry = transform(k, self.variable_names, sepset_node.variable_names)
-- 
2.43.0


From d2945bfa1b4f699571bc914e9cb18b0704e42251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:47 +0000
Subject: [PATCH 04/32] fix: draw_samples never draws impossible values nor
 runs off the density

random() may return 0, which selected a first value of probability 0, and may
return more than the rounded total of the density, which raised IndexError.
---
 causalnex/ebaybbn/bbn.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/causalnex/ebaybbn/bbn.py b/causalnex/ebaybbn/bbn.py
index 440368e..05e0b49 100644
--- a/causalnex/ebaybbn/bbn.py
+++ b/causalnex/ebaybbn/bbn.py
@@ -173,14 +173,15 @@ class BBN:
                 var_density = [
                     r
                     for r in list(result.items())
-                    if r[0][0] == next_node.variable_name
+                    if r[0][0] == next_node.variable_name and r[1] > 0
                 ]
                 cumulative_density = var_density[:1]
                 for key, mass in var_density[1:]:
                     cumulative_density.append((key, cumulative_density[-1][1] + mass))
                 r = random()
                 i = 0
-                while r > cumulative_density[i][1]:
+                # Rounding may leave the total mass just below 1
+                while r > cumulative_density[i][1] and i < len(cumulative_density) - 1:
                     i += 1
                 sample[next_node.variable_name] = cumulative_density[i][0][1]
             samples.append(sample)
-- 
2.43.0


From 1684442091250b96a4d7623fa3d18d0e1f0c406f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:45 +0000
Subject: [PATCH 05/32] fix: do_intervention accepts any hashable state, as
 documented

Only states which were instances of int were expanded to a distribution:
strings, floats, None or numpy integers raised AttributeError.
---
 causalnex/inference/inference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causalnex/inference/inference.py b/causalnex/inference/inference.py
index a1dd46e..263d5e2 100644
--- a/causalnex/inference/inference.py
+++ b/causalnex/inference/inference.py
@@ -207,7 +207,7 @@ class InferenceEngine:
                 "Do calculus cannot be applied because it would result in an isolate"
             )
 
-        if isinstance(state, int):
+        if not isinstance(state, dict):
             state = {s: float(s == state) for s in self._cpds[node]}
 
         self._do(node, state)
-- 
2.43.0


From c95e6276a3451949f6c84028f970323e6c21fec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:45 +0000
Subject: [PATCH 06/32] fix: do_intervention accepts distributions whose sum is
 rounded

{0: 0.7, 1: 0.1, 2: 0.2} was rejected since its floating point sum is not
exactly 1, while the same distribution in another order was accepted.
---
 causalnex/inference/inference.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/causalnex/inference/inference.py b/causalnex/inference/inference.py
index 263d5e2..376b261 100644
--- a/causalnex/inference/inference.py
+++ b/causalnex/inference/inference.py
@@ -33,6 +33,7 @@ This module contains the implementation of ``InferenceEngine``.
 
 import copy
 import inspect
+import math
 import re
 import types
 from typing import Callable, Dict, Hashable, Tuple, Union
@@ -160,7 +161,7 @@ class InferenceEngine:
             ValueError: if states do not match original states of the node, or probabilities do not sum to 1.
         """
 
-        if sum(state.values()) != 1.0:
+        if not math.isclose(sum(state.values()), 1.0):
             raise ValueError("The cpd for the provided observation must sum to 1")
 
         if max(state.values()) > 1.0 or min(state.values()) < 0:
-- 
2.43.0


From cd1d9626591ae5858b5e8b88d0f3d3f6764ad023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:22 +0000
Subject: [PATCH 07/32] fix: inference on variables whose names are not
 identifiers

Names only have to match ^[0-9a-zA-Z_]+$, but inspect.signature refuses
arguments whose names start with a digit.
---
 causalnex/inference/inference.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/causalnex/inference/inference.py b/causalnex/inference/inference.py
index 376b261..a7170dc 100644
--- a/causalnex/inference/inference.py
+++ b/causalnex/inference/inference.py
@@ -316,6 +316,9 @@ class InferenceEngine:
             code.co_cellvars,
         )
         template.__name__ = name
+        # Variable names need not be identifiers, e.g. they may start with a digit,
+        # in which case the arguments cannot be read from the signature
+        template.argspec = list(args)
 
         return template
 
-- 
2.43.0


From 77dfd66db46e796505cc20d9296c5ec9940f2c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:24 +0000
Subject: [PATCH 08/32] fix: query with evidence on a variable named self

---
 causalnex/ebaybbn/bbn.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/causalnex/ebaybbn/bbn.py b/causalnex/ebaybbn/bbn.py
index 05e0b49..99960f7 100644
--- a/causalnex/ebaybbn/bbn.py
+++ b/causalnex/ebaybbn/bbn.py
@@ -104,7 +104,7 @@ class BBN:
         jt = build_join_tree(self)
         return jt
 
-    def validate_keyvals(self, **kwds):
+    def validate_keyvals(*args, **kwds):
         """
         When evidence in the form of
         keyvals are provided to the .query() method
@@ -112,6 +112,8 @@ class BBN:
         and that all vals are in the domain of
         the variable
         """
+        # "self" may be the name of a variable in kwds
+        (self,) = args
         vars = set([n.variable_name for n in self.nodes])
         for k, v in list(kwds.items()):
             if k not in vars:
@@ -122,7 +124,9 @@ class BBN:
                 raise VariableValueNotInDomainError(s)
         return True
 
-    def query(self, **kwds):
+    def query(*args, **kwds):
+        # "self" may be the name of a variable in kwds
+        (self,) = args
         # First check that the keyvals
         # provided are valid for this graph...
         self.validate_keyvals(**kwds)
-- 
2.43.0


From 7340c11472d499656978dfa233d52e040b69ffc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:29 +0000
Subject: [PATCH 09/32] fix: schema columns when a feature is named like
 another variable

---
 .../structure/categorical_variable_mapper.py  | 26 ++++++++-----------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/causalnex/structure/categorical_variable_mapper.py b/causalnex/structure/categorical_variable_mapper.py
index 62cfe74..c2bb2c0 100644
--- a/causalnex/structure/categorical_variable_mapper.py
+++ b/causalnex/structure/categorical_variable_mapper.py
@@ -95,22 +95,18 @@ class VariableFeatureMapper:
 
         # 3. map a feature to all corresponding (expanded) columns
         # dictionary: variable to indices of all corresponding features
-        self.var_indices_dict = {
-            var: [self._fte_index_dict[var]]
-            for var in self.variable_type_dict["continuous"]
-            + self.variable_type_dict["binary"]
+        # (by position: a categorical feature may be named like another variable)
+        self.var_indices_dict = {}
+        n_assigned = 0
+        for var in (
+            self.variable_type_dict["binary"]
+            + self.variable_type_dict["continuous"]
             + self.variable_type_dict["count"]
-        }
-        self.var_indices_dict.update(
-            {
-                k: [
-                    self._fte_index_dict[fte]
-                    for fte, var in self._cat_fte_var_dict.items()
-                    if var == k
-                ]
-                for k in self.variable_type_dict["categorical"]
-            }
-        )
+            + list(cat_card_dict)
+        ):
+            card = cat_card_dict.get(var, 1)
+            self.var_indices_dict[var] = list(range(n_assigned, n_assigned + card))
+            n_assigned += card
 
     @property
     def variable_list(self) -> List[Hashable]:
-- 
2.43.0


From 26e9cfb40b08bb699fc26891560f47ca7e8f304d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:34 +0000
Subject: [PATCH 10/32] fix: lagged columns of generate_dataframe_dynamic with
 more than one lag

---
 causalnex/structure/data_generators/wrappers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/causalnex/structure/data_generators/wrappers.py b/causalnex/structure/data_generators/wrappers.py
index 94ba092..6e7db06 100644
--- a/causalnex/structure/data_generators/wrappers.py
+++ b/causalnex/structure/data_generators/wrappers.py
@@ -548,7 +548,11 @@ def generate_dataframe_dynamic(  # pylint: disable=R0914
             )
         )
     intra_nodes = sorted(el for el in g.nodes if "_lag0" in el)
-    inter_nodes = sorted(el for el in g.nodes if "_lag0" not in el)
+    # lag by lag, each in the order of the intra nodes: the layout of ``Xlags``
+    inter_nodes = sorted(
+        (el for el in g.nodes if "_lag0" not in el),
+        key=lambda el: (int(el.rsplit("_lag", 1)[1]), el),
+    )
     w_mat = nx.to_numpy_array(g, nodelist=intra_nodes)
     a_mat = nx.to_numpy_array(g, nodelist=intra_nodes + inter_nodes)[
         len(intra_nodes) :, : len(intra_nodes)
-- 
2.43.0


From e90b243845b1b4f5d1993095a28ba2711a6b37eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:47 +0000
Subject: [PATCH 11/32] fix: discretiser split points of narrow integer data

---
 causalnex/discretiser/discretiser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causalnex/discretiser/discretiser.py b/causalnex/discretiser/discretiser.py
index c3e26f8..6678c9b 100644
--- a/causalnex/discretiser/discretiser.py
+++ b/causalnex/discretiser/discretiser.py
@@ -170,7 +170,7 @@ class Discretiser(BaseEstimator, TransformerMixin):
             RuntimeError: If an attempt to fit fixed numeric_split_points is made.
         """
 
-        x = data.flatten()
+        x = data.flatten().astype(float)  # narrow integer types would overflow
         x.sort()
 
         if self.method == "uniform":
-- 
2.43.0


From 668ba229ec27202f8e24144d5e807dba8d12eaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:36 +0000
Subject: [PATCH 12/32] fix: colours without alpha are opaque in
 color_gradient_string

---
 causalnex/plots/plots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causalnex/plots/plots.py b/causalnex/plots/plots.py
index 9cf72ca..d692526 100644
--- a/causalnex/plots/plots.py
+++ b/causalnex/plots/plots.py
@@ -165,10 +165,10 @@ def color_gradient_string(from_color: str, to_color: str, steps: int) -> str:
     )
 
     from_colors = [
-        int(v, 16) if v else 0 for v in color_regex.match(from_color).groups()[1:]
+        int(v, 16) if v else 255 for v in color_regex.match(from_color).groups()[1:]
     ]
     to_colors = [
-        int(v, 16) if v else 0 for v in color_regex.match(to_color).groups()[1:]
+        int(v, 16) if v else 255 for v in color_regex.match(to_color).groups()[1:]
     ]
 
     delta_colors = [(t - f) / steps for f, t in zip(from_colors, to_colors)]
-- 
2.43.0


From a13011caf0efb8f6476e4531a2a2b2efc7dbcedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:09 +0000
Subject: [PATCH 13/32] fix: color gradients end at exactly the given colour

---
 causalnex/plots/plots.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/causalnex/plots/plots.py b/causalnex/plots/plots.py
index d692526..737b588 100644
--- a/causalnex/plots/plots.py
+++ b/causalnex/plots/plots.py
@@ -171,12 +171,13 @@ def color_gradient_string(from_color: str, to_color: str, steps: int) -> str:
         int(v, 16) if v else 255 for v in color_regex.match(to_color).groups()[1:]
     ]
 
-    delta_colors = [(t - f) / steps for f, t in zip(from_colors, to_colors)]
-
     gradient_colors = [
         "#"
         + "".join(
-            [format(int(f + d * i), "02x") for f, d in zip(from_colors, delta_colors)]
+            [
+                format(f + (t - f) * i // steps, "02x")
+                for f, t in zip(from_colors, to_colors)
+            ]
         )
         for i in range(steps + 1)
     ]
-- 
2.43.0


From d3a10dfc0d1c10de64fde00f6ef781bd6047835b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:52 +0000
Subject: [PATCH 14/32] fix: Bayesian networks of a single node have that node

---
 causalnex/network/network.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/causalnex/network/network.py b/causalnex/network/network.py
index 154e363..8db7178 100644
--- a/causalnex/network/network.py
+++ b/causalnex/network/network.py
@@ -150,6 +150,7 @@ class BayesianNetwork:
         #                - predictions
         self._model = BayesianModel()
         self._model.add_edges_from(structure.edges)
+        self._model.add_nodes_from(structure.nodes)
 
     @property
     def structure(self) -> StructureModel:
-- 
2.43.0


From ba515da7bc00c28e84127b333a8b0591b6f5f22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:16 +0000
Subject: [PATCH 15/32] fix: predict_probability when a column is named like a
 predicted probability

---
 causalnex/network/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causalnex/network/network.py b/causalnex/network/network.py
index 8db7178..e177dd4 100644
--- a/causalnex/network/network.py
+++ b/causalnex/network/network.py
@@ -535,7 +535,7 @@ class BayesianNetwork:
         for state in self.node_states[node]:
             transformed_data[
                 "{n}_{s}".format(n=node, s=state)
-            ] = transformed_data.apply(
+            ] = data.apply(
                 lambda row, st=state: lookup_probability(row, st), axis=1
             )
 
-- 
2.43.0


From 8fff65ee47d74543b464ee8cbe2d2541a7d9eaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:16 +0000
Subject: [PATCH 16/32] fix: predictions without all parents name the states,
 not their indices

---
 causalnex/network/network.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/causalnex/network/network.py b/causalnex/network/network.py
index e177dd4..5eff31c 100644
--- a/causalnex/network/network.py
+++ b/causalnex/network/network.py
@@ -32,7 +32,6 @@ This module contains the implementation of ``BayesianNetwork``.
 describing causal relationships between variables and their distribution in a factorised way.
 """
 
-import re
 from copy import deepcopy
 from typing import Dict, Hashable, List, Set, Tuple
 
@@ -486,6 +485,10 @@ class BayesianNetwork:
 
         predictions = self._model.predict(transformed_data)[[node]]
 
+        # pgmpy predicts the indices of states
+        states = {index: state for state, index in self._node_states[node].items()}
+        predictions[node] = predictions[node].map(states)
+
         return predictions.rename(columns={node: node + "_prediction"})
 
     def predict_probability(self, data: pd.DataFrame, node: str) -> pd.DataFrame:
@@ -570,14 +573,11 @@ class BayesianNetwork:
             transformed_data
         )  # type: pd.DataFrame
 
-        # keep only probabilities for the node we are interested in
-        cols = []
-        pattern = re.compile("^{node}_[0-9]+$".format(node=node))
-        # disabled open pylint issue (https://github.com/PyCQA/pylint/issues/2962)
-        for col in probability.columns:
-            if pattern.match(col):
-                cols.append(col)
-        probability = probability[cols]
-        probability.columns = cols
-
-        return probability
+        # keep only probabilities for the node we are interested in, and name them by
+        # state instead of the index of the state
+        cols = {
+            "{n}_{i}".format(n=node, i=index): "{n}_{s}".format(n=node, s=state)
+            for state, index in self._node_states[node].items()
+        }
+
+        return probability[list(cols)].rename(columns=cols)
-- 
2.43.0


From e7167b79ff56765667ea9b6d8ab6be4c149bb081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:16 +0000
Subject: [PATCH 17/32] fix: predictions without all parents do not need the
 predicted column

---
 causalnex/network/network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causalnex/network/network.py b/causalnex/network/network.py
index 5eff31c..91b8f4c 100644
--- a/causalnex/network/network.py
+++ b/causalnex/network/network.py
@@ -481,7 +481,7 @@ class BayesianNetwork:
         # transformed_data.is_copy()
 
         # pgmpy will predict all missing data, so drop column we want to predict
-        transformed_data = transformed_data.drop(columns=[node])
+        transformed_data = transformed_data.drop(columns=[node], errors="ignore")
 
         predictions = self._model.predict(transformed_data)[[node]]
 
@@ -567,7 +567,7 @@ class BayesianNetwork:
         self._state_to_index(transformed_data)
 
         # pgmpy will predict all missing data, so drop column we want to predict
-        transformed_data = transformed_data.drop(columns=[node])
+        transformed_data = transformed_data.drop(columns=[node], errors="ignore")
 
         probability = self._model.predict_probability(
             transformed_data
-- 
2.43.0


From ba6a0bae4117bfa67a1ca72945666b35ee2686d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:16 +0000
Subject: [PATCH 18/32] fix: roc_auc pairs every state with its own predicted
 probability

---
 causalnex/evaluation/evaluation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/causalnex/evaluation/evaluation.py b/causalnex/evaluation/evaluation.py
index 172a7ad..966885e 100644
--- a/causalnex/evaluation/evaluation.py
+++ b/causalnex/evaluation/evaluation.py
@@ -99,9 +99,10 @@ def roc_auc(
     ground_truth = _build_ground_truth(bn, data, node)
     predictions = bn.predict_probability(data, node)
 
-    # update column names to match those of ground_truth
-    predictions.rename(columns=lambda x: x.lstrip(node + "_"), inplace=True)
-    predictions = predictions[sorted(predictions.columns)]
+    # update column order to match that of ground_truth
+    predictions = predictions[
+        ["{0}_{1}".format(node, state) for state in sorted(bn.node_states[node])]
+    ]
 
     fpr, tpr, _ = metrics.roc_curve(
         ground_truth.values.ravel(), predictions.values.ravel()
-- 
2.43.0


From 8caa08812accd272086b5a71c8025fb57e9494a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:22 +0000
Subject: [PATCH 19/32] fix: roc_auc of nodes with boolean states

---
 causalnex/evaluation/evaluation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causalnex/evaluation/evaluation.py b/causalnex/evaluation/evaluation.py
index 966885e..7965676 100644
--- a/causalnex/evaluation/evaluation.py
+++ b/causalnex/evaluation/evaluation.py
@@ -47,7 +47,7 @@ def _build_ground_truth(
             ground_truth[dummy] = [0 for _ in range(len(ground_truth))]
 
     # update ground truth column names to be correct, since we may have added missing columns
-    return ground_truth[sorted(ground_truth.columns)]
+    return ground_truth.reindex(columns=sorted(ground_truth.columns))
 
 
 def roc_auc(
-- 
2.43.0


From 8a6c07a8e1e2d1ed3575392412b1e832899d28fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:00 +0000
Subject: [PATCH 20/32] fix: tables returned by cpds are the caller's own

---
 causalnex/network/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causalnex/network/network.py b/causalnex/network/network.py
index 91b8f4c..5f3b087 100644
--- a/causalnex/network/network.py
+++ b/causalnex/network/network.py
@@ -258,7 +258,7 @@ class BayesianNetwork:
             cpds[cpd.variable] = pd.DataFrame(
                 cpd.values.reshape(
                     len(self._node_states[cpd.variable]), max(1, len(cols))
-                )
+                ).copy()
             )
             cpds[cpd.variable][cpd.variable] = sorted(
                 self._node_states[cpd.variable].keys()
-- 
2.43.0


From 3192e42948ddfb1f65951d375319e57616c32b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:39 +0000
Subject: [PATCH 21/32] fix: reconstructed data keep every column beside an
 ordinal one

---
 .../structure/pytorch/dist_type/ordinal.py    | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/causalnex/structure/pytorch/dist_type/ordinal.py b/causalnex/structure/pytorch/dist_type/ordinal.py
index 3ea4093..2de412b 100644
--- a/causalnex/structure/pytorch/dist_type/ordinal.py
+++ b/causalnex/structure/pytorch/dist_type/ordinal.py
@@ -46,6 +46,8 @@ class DistTypeOrdinal(DistTypeBase):
     log_cum_odds = None
     # ordinal encoder
     encoder = None
+    # positions of the class probabilities, which are appended to the reconstructed data
+    probs_idx = None
 
     def preprocess_X(self, X: np.ndarray, fit_transform: bool = True) -> np.ndarray:
         """
@@ -153,11 +155,13 @@ class DistTypeOrdinal(DistTypeBase):
             X_hat: Reconstructed data in the latent space.
 
         Returns:
-            Modified X_hat.
-            MUST be same shape as passed in data.
-            Projects the self.idx column from the latent space to the dist_type space.
+            X_hat with the class probabilities appended as new columns.
+            The other columns stay in place, so that every dist type finds its own.
         """
-        return self._get_probs(X_hat)
+        probs = self._get_probs(X_hat)
+        n_columns = X_hat.shape[1]
+        self.probs_idx = list(range(n_columns, n_columns + probs.shape[1]))
+        return torch.cat([X_hat, probs.to(X_hat.dtype)], dim=1)
 
     def get_columns(
         self,
@@ -166,13 +170,10 @@ class DistTypeOrdinal(DistTypeBase):
         """
         Gets the column(s) associated with the instantiated DistType.
 
-        NOTE: ordinal get_columns is special in that inverse_link_function does NOT return
-        the entire dataset.
-
         Args:
             X: The return data from inverse_link_function.
 
         Returns:
-            1d or 2d np.ndarray of columns.
+            2d np.ndarray of the class probabilities.
         """
-        return X
+        return X[:, self.probs_idx]
-- 
2.43.0


From 7f88319cadd12e794fc451bfb9e4eaed2d870bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:55 +0000
Subject: [PATCH 22/32] fix: nodes of categories have names of their own

---
 .../structure/pytorch/dist_type/categorical.py   |  8 +++++++-
 causalnex/structure/pytorch/notears.py           |  6 ++++--
 causalnex/structure/pytorch/sklearn/clf.py       | 16 ++++++++--------
 3 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/causalnex/structure/pytorch/dist_type/categorical.py b/causalnex/structure/pytorch/dist_type/categorical.py
index ee590d0..cd22a77 100644
--- a/causalnex/structure/pytorch/dist_type/categorical.py
+++ b/causalnex/structure/pytorch/dist_type/categorical.py
@@ -292,6 +292,12 @@ class DistTypeCategorical(ExpandColumnsMixin, DistTypeBase):
         """
         new_idx_cols = {}
         colname = idx_col.pop(self.idx_group[0])
+        # names of other columns (and of their categories) are not available
+        taken = set(idx_col.values())
         for catidx, idx in enumerate(self.idx_group):
-            new_idx_cols[idx] = self.make_node_name(colname, catidx)
+            name = self.make_node_name(colname, catidx)
+            while name in taken:
+                name = "{}_".format(name)
+            taken.add(name)
+            new_idx_cols[idx] = name
         return {**idx_col, **new_idx_cols}
diff --git a/causalnex/structure/pytorch/notears.py b/causalnex/structure/pytorch/notears.py
index 1cd5557..bd17002 100644
--- a/causalnex/structure/pytorch/notears.py
+++ b/causalnex/structure/pytorch/notears.py
@@ -343,9 +343,11 @@ def from_pandas(
         **kwargs
     )
 
-    # set comprehension to ensure only unique dist types are extraced
+    # ordered unique dist types, so that naming does not depend on the order of a set
     # NOTE: this prevents double-renaming caused by the same dist type used on expanded columns
-    unique_dist_types = {node[1]["dist_type"] for node in g.nodes(data=True)}
+    unique_dist_types = dict.fromkeys(
+        dist_type for _, dist_type in g.nodes(data="dist_type")
+    )
     # use the dist types to update the idx_col mapping
     idx_col_expanded = deepcopy(idx_col)
     for dist_type in unique_dist_types:
diff --git a/causalnex/structure/pytorch/sklearn/clf.py b/causalnex/structure/pytorch/sklearn/clf.py
index a1a07a5..a30387e 100644
--- a/causalnex/structure/pytorch/sklearn/clf.py
+++ b/causalnex/structure/pytorch/sklearn/clf.py
@@ -39,7 +39,6 @@ from sklearn.base import ClassifierMixin
 from sklearn.preprocessing import LabelEncoder
 from sklearn.utils.multiclass import check_classification_targets
 
-from causalnex.structure.pytorch.dist_type.categorical import DistTypeCategorical
 from causalnex.structure.pytorch.sklearn._base import DAGBase
 
 
@@ -153,13 +152,14 @@ class DAGClassifier(ClassifierMixin, DAGBase):
 
     @property
     def _target_node_names(self) -> List[str]:
-        # target node names are build according to
-        target_nodes = []
-        for catidx in range(len(self.classes_)):
-            target_nodes.append(
-                DistTypeCategorical.make_node_name(self._target, catidx)
-            )
-        return target_nodes
+        # the target nodes, in order of the classes, are those of the target's dist type
+        # (one per class for a categorical target, a single one otherwise)
+        target_dist_type = self.graph_.nodes[self._target]["dist_type"]
+        return [
+            node
+            for node, dist_type in self.graph_.nodes(data="dist_type")
+            if dist_type is target_dist_type
+        ]
 
     @property
     def feature_importances_(self) -> np.ndarray:
-- 
2.43.0


From a10a11263735e79063c0ff34c8a1d91ad8c05768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:31 +0000
Subject: [PATCH 23/32] fix: rows of X and y correspond by position in sklearn
 wrappers

---
 causalnex/structure/pytorch/sklearn/_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/causalnex/structure/pytorch/sklearn/_base.py b/causalnex/structure/pytorch/sklearn/_base.py
index 3c86528..ed1ffeb 100644
--- a/causalnex/structure/pytorch/sklearn/_base.py
+++ b/causalnex/structure/pytorch/sklearn/_base.py
@@ -220,6 +220,9 @@ class DAGBase(
         self._target = y.name
 
         # concat X and y along column axis
+        # NOTE: rows of X and y correspond by position, whatever their index labels
+        y = y.copy()
+        y.index = X.index
         X = pd.concat([X, y], axis=1)
 
         # make copy to prevent mutability
-- 
2.43.0


From d2afef7025f919a4ce85a2ea619161b9fcf8553b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:31 +0000
Subject: [PATCH 24/32] fix: standardized features of whole numbers are not
 truncated in predict

---
 causalnex/structure/pytorch/sklearn/_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/causalnex/structure/pytorch/sklearn/_base.py b/causalnex/structure/pytorch/sklearn/_base.py
index ed1ffeb..80f9422 100644
--- a/causalnex/structure/pytorch/sklearn/_base.py
+++ b/causalnex/structure/pytorch/sklearn/_base.py
@@ -264,7 +264,8 @@ class DAGBase(
         # force convert to ndarray
         X = np.asarray(X)
         if self.standardize:
-            X = X.copy()
+            # NOTE: always a float copy, as standardized values are not whole numbers
+            X = X.astype(np.float64)
             X[:, self.continuous_col_idxs] = self._ss_X.transform(
                 X[:, self.continuous_col_idxs]
             )
-- 
2.43.0


From c77e8f4d800052f6a4cbe1d44f585ea871703aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:31 +0000
Subject: [PATCH 25/32] fix: predict of an unfitted standardizing model raises
 NotFittedError

---
 causalnex/structure/pytorch/sklearn/_base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/causalnex/structure/pytorch/sklearn/_base.py b/causalnex/structure/pytorch/sklearn/_base.py
index 80f9422..0a74c56 100644
--- a/causalnex/structure/pytorch/sklearn/_base.py
+++ b/causalnex/structure/pytorch/sklearn/_base.py
@@ -261,6 +261,9 @@ class DAGBase(
         Returns:
             Predicted y values for each row of X.
         """
+        # check that the model has been fit
+        check_is_fitted(self)
+
         # force convert to ndarray
         X = np.asarray(X)
         if self.standardize:
@@ -274,9 +277,6 @@ class DAGBase(
         y_fill = np.zeros(shape=(X.shape[0], 1))
         X = np.hstack([X, y_fill])
 
-        # check that the model has been fit
-        check_is_fitted(self)
-
         # extract the base solver
         structure_learner = self.graph_.graph["structure_learner"]
         # use base solver to reconstruct data
-- 
2.43.0


From 9d826c52083658c41ae9130365b056c12a1fd436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:31 +0000
Subject: [PATCH 26/32] fix: target_dist_type is a parameter kept by get_params
 and refits

---
 causalnex/structure/pytorch/sklearn/_base.py | 1 +
 causalnex/structure/pytorch/sklearn/clf.py   | 1 +
 causalnex/structure/pytorch/sklearn/reg.py   | 1 +
 3 files changed, 3 insertions(+)

diff --git a/causalnex/structure/pytorch/sklearn/_base.py b/causalnex/structure/pytorch/sklearn/_base.py
index 0a74c56..f8fe62c 100644
--- a/causalnex/structure/pytorch/sklearn/_base.py
+++ b/causalnex/structure/pytorch/sklearn/_base.py
@@ -162,6 +162,7 @@ class DAGBase(
         self.tabu_edges = tabu_edges
         self.tabu_parent_nodes = tabu_parent_nodes
         self.tabu_child_nodes = tabu_child_nodes
+        self.target_dist_type = target_dist_type
         self._target_dist_type = target_dist_type
         self.kwargs = kwargs
 
diff --git a/causalnex/structure/pytorch/sklearn/clf.py b/causalnex/structure/pytorch/sklearn/clf.py
index a30387e..48b6da0 100644
--- a/causalnex/structure/pytorch/sklearn/clf.py
+++ b/causalnex/structure/pytorch/sklearn/clf.py
@@ -108,6 +108,7 @@ class DAGClassifier(ClassifierMixin, DAGBase):
             )
 
         # store the protected attr _target_dist_type
+        self._target_dist_type = self.target_dist_type
         if self._target_dist_type is None:
             self._target_dist_type = "cat" if n_classes > 2 else "bin"
 
diff --git a/causalnex/structure/pytorch/sklearn/reg.py b/causalnex/structure/pytorch/sklearn/reg.py
index e4a8227..5a799ee 100644
--- a/causalnex/structure/pytorch/sklearn/reg.py
+++ b/causalnex/structure/pytorch/sklearn/reg.py
@@ -86,6 +86,7 @@ class DAGRegressor(RegressorMixin, DAGBase):
         """
 
         # store the protected attr _target_dist_type
+        self._target_dist_type = self.target_dist_type
         if self._target_dist_type is None:
             self._target_dist_type = "cont"
 
-- 
2.43.0


From 543a8582e6ed95b65e1d62b94595aa1e4fa0cefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:31 +0000
Subject: [PATCH 27/32] fix: classifier accepts labels of any type

---
 causalnex/structure/pytorch/sklearn/clf.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/causalnex/structure/pytorch/sklearn/clf.py b/causalnex/structure/pytorch/sklearn/clf.py
index 48b6da0..050784f 100644
--- a/causalnex/structure/pytorch/sklearn/clf.py
+++ b/causalnex/structure/pytorch/sklearn/clf.py
@@ -93,8 +93,12 @@ class DAGClassifier(ClassifierMixin, DAGBase):
 
         # encode the categories to be numeric
         enc = LabelEncoder()
-        y = y.copy()
-        y[:] = enc.fit_transform(y)
+        labels = enc.fit_transform(y)
+        # NOTE: the codes are numbers, whatever the type of the labels
+        if isinstance(y, pd.Series):
+            y = pd.Series(labels, index=y.index, name=y.name)
+        else:
+            y = labels
         # store the classes from the LabelEncoder
         self.classes_ = enc.classes_
 
-- 
2.43.0


From 830a03e8c6344d06c6a9b08ab5de180df95d0d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:31 +0000
Subject: [PATCH 28/32] fix: target keeps its name unless a feature has it

---
 causalnex/structure/pytorch/sklearn/_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/causalnex/structure/pytorch/sklearn/_base.py b/causalnex/structure/pytorch/sklearn/_base.py
index f8fe62c..056e5a2 100644
--- a/causalnex/structure/pytorch/sklearn/_base.py
+++ b/causalnex/structure/pytorch/sklearn/_base.py
@@ -183,7 +183,9 @@ class DAGBase(
         X = pd.DataFrame(X)
         y = pd.Series(y)
         # force name so that name != None (causes errors in notears)
-        y.name = y.name or "__target"
+        # and is not the name of a feature
+        if y.name is None or y.name in X.columns:
+            y.name = "__target"
 
         # if self.dist_type_schema is None, assume all columns are continuous
         # NOTE: this is copied due to later insertions
-- 
2.43.0


From 997efa3e4f0f040c67a3d8268286c26a1b55d029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:39 +0000
Subject: [PATCH 29/32] fix: every category of a feature has its entry in edges
 to a node

---
 causalnex/structure/pytorch/sklearn/_base.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/causalnex/structure/pytorch/sklearn/_base.py b/causalnex/structure/pytorch/sklearn/_base.py
index 056e5a2..a25e1a9 100644
--- a/causalnex/structure/pytorch/sklearn/_base.py
+++ b/causalnex/structure/pytorch/sklearn/_base.py
@@ -311,8 +311,16 @@ class DAGBase(
         """
         check_is_fitted(self)
 
+        # categorical features have further nodes, one per category beyond the first
+        target_dist_type = self.graph_.nodes[self._target]["dist_type"]
+        categories = [
+            node
+            for node, dist_type in self.graph_.nodes(data="dist_type")
+            if node not in self._features and dist_type is not target_dist_type
+        ]
+
         # build base data series
-        edges = pd.Series(index=self._features)
+        edges = pd.Series(index=list(self._features) + categories)
 
         # iterate over all edges
         for (i, j, w) in self.graph_.edges(data=data):
-- 
2.43.0


From f4a0145f8ef00cc26d43278bbdf0cceeb970e671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:43 +0000
Subject: [PATCH 30/32] fix: gen_stationary_dyn_net_and_df discarded a
 stationary series found at the last trial

---
 causalnex/structure/data_generators/wrappers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/causalnex/structure/data_generators/wrappers.py b/causalnex/structure/data_generators/wrappers.py
index 6e7db06..aa7b08c 100644
--- a/causalnex/structure/data_generators/wrappers.py
+++ b/causalnex/structure/data_generators/wrappers.py
@@ -702,9 +702,9 @@ def gen_stationary_dyn_net_and_df(  # pylint: disable=R0913, R0914
                     continue
             except (OverflowError, FloatingPointError):
                 continue
-            if (df.abs().max().max() < 1e3) or (max_data_gen_trials <= 0):
-                simulate_flag = False
-        if max_data_gen_trials <= 0:
+            if df.abs().max().max() < 1e3:
+                break
+        else:
             warnings.warn(
                 "Could not simulate data, returning constant dataframe", UserWarning
             )
-- 
2.43.0


From 74bd4b75fac1d7a76bb49c13535d1fa83d412505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:23 +0000
Subject: [PATCH 31/32] fix: gen_stationary_dyn_net_and_df did not return when
 no structure with edges exists

---
 .../structure/data_generators/wrappers.py     | 52 +++++++++----------
 1 file changed, 25 insertions(+), 27 deletions(-)

diff --git a/causalnex/structure/data_generators/wrappers.py b/causalnex/structure/data_generators/wrappers.py
index aa7b08c..7746523 100644
--- a/causalnex/structure/data_generators/wrappers.py
+++ b/causalnex/structure/data_generators/wrappers.py
@@ -657,34 +657,32 @@ def gen_stationary_dyn_net_and_df(  # pylint: disable=R0913, R0914
                 simulate_flag = False
 
             try:
-                simulate_graphs_flag = True
-                while simulate_graphs_flag:
-
-                    g = generate_structure_dynamic(
-                        num_nodes=num_nodes,
-                        p=p,
-                        degree_intra=degree_intra,
-                        degree_inter=degree_inter,
-                        graph_type_intra=graph_type_intra,
-                        graph_type_inter=graph_type_inter,
-                        w_min_intra=w_min_intra,
-                        w_max_intra=w_max_intra,
-                        w_min_inter=w_min_inter,
-                        w_max_inter=w_max_inter,
-                        w_decay=w_decay,
+                g = generate_structure_dynamic(
+                    num_nodes=num_nodes,
+                    p=p,
+                    degree_intra=degree_intra,
+                    degree_inter=degree_inter,
+                    graph_type_intra=graph_type_intra,
+                    graph_type_inter=graph_type_inter,
+                    w_min_intra=w_min_intra,
+                    w_max_intra=w_max_intra,
+                    w_min_inter=w_min_inter,
+                    w_max_inter=w_max_inter,
+                    w_decay=w_decay,
+                )
+                intra_nodes = sorted([el for el in g.nodes if "_lag0" in el])
+                inter_nodes = sorted([el for el in g.nodes if "_lag0" not in el])
+                # Exclude empty graphs from consideration unless input degree is 0
+                # NOTE: this uses up a trial, as there may be no other graphs
+                if not (
+                    (
+                        [(u, v) for u, v in g.edges if u in intra_nodes]
+                        and [(u, v) for u, v in g.edges if u in inter_nodes]
                     )
-                    intra_nodes = sorted([el for el in g.nodes if "_lag0" in el])
-                    inter_nodes = sorted([el for el in g.nodes if "_lag0" not in el])
-                    # Exclude empty graphs from consideration unless input degree is 0
-                    if (
-                        (
-                            [(u, v) for u, v in g.edges if u in intra_nodes]
-                            and [(u, v) for u, v in g.edges if u in inter_nodes]
-                        )
-                        or degree_intra == 0
-                        or degree_inter == 0
-                    ):
-                        simulate_graphs_flag = False
+                    or degree_intra == 0
+                    or degree_inter == 0
+                ):
+                    continue
 
                 # generate single time series
                 df = (
-- 
2.43.0


From 442394068ae71f9f79731f7fab37d3448c1907d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:20 +0000
Subject: [PATCH 32/32] fix: NOTEARS gradients of small integer data do not
 overflow

---
 causalnex/structure/notears.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/causalnex/structure/notears.py b/causalnex/structure/notears.py
index 8a1ba4b..7bff63a 100644
--- a/causalnex/structure/notears.py
+++ b/causalnex/structure/notears.py
@@ -415,6 +415,9 @@ def _learn_structure(
         raise ValueError("Input data X is empty, cannot learn any structure")
     logging.info("Learning structure using 'NOTEARS' optimisation.")
 
+    # small integer types would overflow in the products below
+    X = X.astype(np.float64, copy=False)
+
     # n examples, d properties
     n, d = X.shape
     # initialise matrix to zeros
@@ -529,6 +532,9 @@ def _learn_structure_lasso(
         "Learning structure using 'NOTEARS' optimisation with lasso regularisation."
     )
 
+    # small integer types would overflow in the products below
+    X = X.astype(np.float64, copy=False)
+
     n, d = X.shape
     w_est, w_new = np.zeros(2 * d * d), np.zeros(2 * d * d)
     rho, alpha, h_val, h_new = 1.0, 0.0, np.inf, np.inf
-- 
2.43.0

