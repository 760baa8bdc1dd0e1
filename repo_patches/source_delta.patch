From ff1bc13c8bfaadb43bc90385fec7d37572dd3b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:50 +0000
Subject: [PATCH 01/62] fix: depth of a causal flow is its number of layers,
 not a node label

---
 mentpy/mbqc/flow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mentpy/mbqc/flow.py b/mentpy/mbqc/flow.py
index a54dd99..90bab29 100644
--- a/mentpy/mbqc/flow.py
+++ b/mentpy/mbqc/flow.py
@@ -144,7 +144,7 @@ def find_cflow(graph: GraphState, input_nodes, output_nodes) -> object:
     if len(flow) != len(graph.nodes()) - len(output_nodes):
         return None, None, None, None
 
-    return lambda x: flow[x], lambda u, v: ln[u] > ln[v], max(flow.values()), ln
+    return lambda x: flow[x], lambda u, v: ln[u] > ln[v], max(ln.values()), ln
 
 
 def causal_flow_aux(graph: GraphState, inputs, outputs, C, past, k, g, l) -> object:
-- 
2.43.0


From 302c457d9f1f23ec49652e35b28b65fa72c78d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:50 +0000
Subject: [PATCH 02/62] fix: accept measurement orders that respect the partial
 order, reject the others

---
 mentpy/mbqc/mbqcircuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 389e841..4ad5635 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -451,7 +451,7 @@ def _check_measurement_order(measurement_order: List, partial_order: Callable):
     r"""Checks that the measurement order is valid"""
     for i in range(len(measurement_order)):
         for j in range(i + 1, len(measurement_order)):
-            if partial_order(measurement_order[i], measurement_order[j]):
+            if partial_order(measurement_order[j], measurement_order[i]):
                 return False
     return True
 
-- 
2.43.0


From 6ddea74fcb71e3573671457ef70bd62f0ad163e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:23 +0000
Subject: [PATCH 03/62] fix: a flow passed to MBQCircuit no longer recurses for
 ever

---
 mentpy/mbqc/mbqcircuit.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 4ad5635..7d4d910 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -76,9 +76,11 @@ class MBQCircuit:
             input_nodes = [mapping[i] for i in input_nodes]
             output_nodes = [mapping[i] for i in output_nodes]
             if flow is not None:
-                flow = lambda x: mapping[flow(inv_mapping[x])]
+                user_flow = flow
+                flow = lambda x: mapping[user_flow(inv_mapping[x])]
             if partial_order is not None:
-                partial_order = lambda x, y: partial_order(
+                user_partial_order = partial_order
+                partial_order = lambda x, y: user_partial_order(
                     inv_mapping[x], inv_mapping[y]
                 )
             if measurement_order is not None:
-- 
2.43.0


From 12953f37d9700543a7eee1d47c6739122ab201a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:23 +0000
Subject: [PATCH 04/62] fix: relabeled circuits list their nodes in index order

---
 mentpy/mbqc/mbqcircuit.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 7d4d910..3b8ca66 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -72,7 +72,12 @@ class MBQCircuit:
             N = graph.number_of_nodes()
             mapping = dict(zip(sorted(graph.nodes), range(N)))
             inv_mapping = dict(zip(range(N), sorted(graph.nodes)))
-            graph = nx.relabel_nodes(graph, mapping)
+            relabeled = nx.relabel_nodes(graph, mapping)
+            # keep the nodes in index order, as hstack, vstack, merge and
+            # stabilizers identify the i-th node with label i
+            graph = relabeled.__class__()
+            graph.add_nodes_from((i, relabeled.nodes[i]) for i in range(N))
+            graph.add_edges_from(relabeled.edges(data=True))
             input_nodes = [mapping[i] for i in input_nodes]
             output_nodes = [mapping[i] for i in output_nodes]
             if flow is not None:
-- 
2.43.0


From 35142a3dc93b72abba2e40b08e3475b929f98bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:24 +0000
Subject: [PATCH 05/62] fix: the partial order follows the controlled nodes the
 circuit has now

---
 mentpy/mbqc/mbqcircuit.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 3b8ca66..94cf271 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -140,6 +140,7 @@ class MBQCircuit:
 
         self._measurements = measurements
         self._flow, self._partial_order = None, None
+        self._flow_partial_order = None
         self._update_attributes()
 
         if (flow is None) or (partial_order is None):
@@ -152,7 +153,8 @@ class MBQCircuit:
             check_if_flow(graph, input_nodes, output_nodes, flow, partial_order)
 
         self._flow = flow
-        self._partial_order = partial_order
+        self._flow_partial_order = partial_order
+        self._update_partial_order()
 
         if measurement_order is None and flow is not None:
             measurement_order = self.calculate_order()
@@ -195,7 +197,7 @@ class MBQCircuit:
         # self._update_attributes_key(key)
         self._update_attributes()
 
-        if isinstance(value, ControlMent):
+        if isinstance(value, ControlMent) and self._partial_order is not None:
             # recalculate measurement order
             self._measurement_order = self.calculate_order()
 
@@ -373,11 +375,17 @@ class MBQCircuit:
         #     self._partial_order = partial_order
         #     self._depth = depth
 
-        if self._partial_order is not None:
-            old_partial_order = self._partial_order
-            self._partial_order = _create_new_partial_order(
-                self.controlled_nodes, self.measurements, old_partial_order
-            )
+        self._update_partial_order()
+
+    def _update_partial_order(self) -> None:
+        """Extend the partial order of the flow with the current controls."""
+        partial_order = self._flow_partial_order
+        if partial_order is not None:
+            for node in self.controlled_nodes:
+                partial_order = _create_new_partial_order(
+                    [node], self.measurements, partial_order
+                )
+        self._partial_order = partial_order
 
     def _update_attributes_key(self, key) -> None:
         menti = self._measurements[key]
-- 
2.43.0


From 0dec0ce7298bd963a71017a83625c21971a28bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:13 +0000
Subject: [PATCH 06/62] fix: deleting a measurement updates the circuit's
 derived attributes

---
 mentpy/mbqc/mbqcircuit.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 94cf271..0d13b7c 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -215,6 +215,7 @@ class MBQCircuit:
             raise ValueError(f"Node {key} is not in the graph.")
 
         self._measurements[key] = None
+        self._update_attributes()
 
     @property
     def measurements(self) -> Dict[int, Ment]:
-- 
2.43.0


From f29aeb1605bcc38b84609a7335d21fcc2e495895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:13 +0000
Subject: [PATCH 07/62] fix: quantum outputs keep the order of the output nodes

---
 mentpy/mbqc/mbqcircuit.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 0d13b7c..ded5df1 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -159,11 +159,6 @@ class MBQCircuit:
         if measurement_order is None and flow is not None:
             measurement_order = self.calculate_order()
 
-        # in case we measure an output node
-        quantum_output_nodes = [
-            node for node, i in self.measurements.items() if i is None
-        ]
-        self._quantum_output_nodes = quantum_output_nodes
         self._measurement_order = measurement_order
 
     def __repr__(self) -> str:
@@ -336,8 +331,12 @@ class MBQCircuit:
         trainable_nodes = []
         controlled_nodes = []
         planes = {}
-        quantum_outputs = []
-        classical_outputs = []
+        quantum_outputs = [
+            i for i in self._output_nodes if self._measurements.get(i) is None
+        ]
+        classical_outputs = [
+            i for i in self._output_nodes if self._measurements.get(i) is not None
+        ]
         for nodei, menti in self._measurements.items():
             if menti is not None:
                 if isinstance(menti, ControlMent):
@@ -349,12 +348,8 @@ class MBQCircuit:
                 planes[nodei] = menti.plane
                 self._measurements[nodei] = copy.deepcopy(menti)
                 self._measurements[nodei].node_id = nodei
-                if nodei in self._output_nodes:
-                    classical_outputs.append(nodei)
             else:
                 planes[nodei] = ""
-                if nodei in self._output_nodes:
-                    quantum_outputs.append(nodei)
 
         self._trainable_nodes = trainable_nodes
         self._controlled_nodes = controlled_nodes
-- 
2.43.0


From 51acecafdf39585fdd02c1721227181b333c02b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:13 +0000
Subject: [PATCH 08/62] fix: adding edges keeps the measurements, and
 add_edges_from works

---
 mentpy/mbqc/mbqcircuit.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index ded5df1..18e7aa3 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -434,12 +434,12 @@ class MBQCircuit:
 
     def add_edge(self, u, v):
         r"""Adds an edge between nodes u and v"""
-        self.graph.add_edge(u, v)
-        # try resetting self with new graph, if it fails, remove the edge
+        new_graph = self.graph.copy()
+        new_graph.add_edge(u, v)
+        # try resetting self with new graph, if it fails, self is left as it was
         try:
-            self.__init__(self.graph, self.input_nodes, self.output_nodes)
+            self._reset_graph(new_graph)
         except Exception as e:
-            self.graph.remove_edge(u, v)
             raise ValueError(f"Cannot add edge between {u} and {v}.\n" + str(e))
 
     def add_edges_from(self, edges, **kwargs):
@@ -447,16 +447,21 @@ class MBQCircuit:
         new_graph = self.graph.copy()
         new_graph.add_edges_from(edges, **kwargs)
         try:
-            self.__init__(
-                new_graph,
-                self.input_nodes,
-                self.output_nodes,
-                self.flow,
-                self.partial_order,
-            )
+            self._reset_graph(new_graph)
         except Exception as e:
             raise ValueError(f"Cannot add edges {edges}.\n" + str(e))
 
+    def _reset_graph(self, graph):
+        """Rebuild the circuit over a new graph, keeping its measurements"""
+        new_circuit = MBQCircuit(
+            graph,
+            self.input_nodes,
+            self.output_nodes,
+            measurements=dict(self.measurements),
+            default_measurement=self._default_measurement,
+        )
+        self.__dict__ = new_circuit.__dict__
+
 
 def _check_measurement_order(measurement_order: List, partial_order: Callable):
     r"""Checks that the measurement order is valid"""
-- 
2.43.0


From 2e5d3187dcd3110fe55187dfb2c842fe6e0e8ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:13 +0000
Subject: [PATCH 09/62] fix: copying an MBQCircuit no longer recurses for ever

---
 mentpy/mbqc/mbqcircuit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 18e7aa3..32846e5 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -171,6 +171,8 @@ class MBQCircuit:
 
     # if an attribute is not found, look for it in the graph
     def __getattr__(self, name):
+        if name in ("_graph", "gflow"):
+            raise AttributeError(f"Attribute {name} not found in MBQCircuit.")
         # try getting the attribute in graph, if not there, look in gflow
         try:
             return getattr(self.graph, name)
-- 
2.43.0


From bba8106bc95afecfe5169fa6aac0bf11c87c2414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:13 +0000
Subject: [PATCH 10/62] fix: ordered_layers(train_indices=True) skips nodes
 that are not trainable

---
 mentpy/mbqc/mbqcircuit.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 32846e5..36ee40c 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -324,7 +324,11 @@ class MBQCircuit:
         if train_indices:
             # return the nested layers in Flow.layers but with the trainable_nodes indices
             return [
-                [self.trainable_nodes.index(node) for node in layer]
+                [
+                    self.trainable_nodes.index(node)
+                    for node in layer
+                    if node in self.trainable_nodes
+                ]
                 for layer in self.gflow.layers[:-1]
             ]
         return self.gflow.layers
-- 
2.43.0


From aa2d641c1495b3e3f83607006cd707bf37a2d775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:13 +0000
Subject: [PATCH 11/62] fix: the measurement order puts inputs first only where
 the flow allows it

---
 mentpy/mbqc/flow.py       | 17 ++++++++++++++++-
 mentpy/mbqc/mbqcircuit.py | 10 ++++++++--
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/mentpy/mbqc/flow.py b/mentpy/mbqc/flow.py
index 90bab29..b53e9e4 100644
--- a/mentpy/mbqc/flow.py
+++ b/mentpy/mbqc/flow.py
@@ -79,7 +79,7 @@ class Flow:
             for i in self.input_nodes[::-1]:
                 order.remove(i)
                 order.insert(0, i)
-            self.measurement_order = order
+            self.measurement_order = linear_extension(order, self.partial_order)
         else:
             self.layers = None
             self.measurement_order = None
@@ -109,6 +109,21 @@ class Flow:
         raise NotImplementedError
 
 
+def linear_extension(order: List, partial_order) -> List:
+    """Reorders ``order`` as little as needed for it to respect ``partial_order``."""
+    remaining = list(order)
+    new_order = []
+    while remaining:
+        for v in remaining:
+            if not any(u != v and partial_order(u, v) for u in remaining):
+                break
+        else:
+            v = remaining[0]
+        remaining.remove(v)
+        new_order.append(v)
+    return new_order
+
+
 ### This section implements causal flow -- Runs in time O(min(m, kn))
 
 
diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 36ee40c..0e43cc7 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -14,7 +14,13 @@ import matplotlib.pyplot as plt
 
 from mentpy.operators import Ment, ControlMent, PauliOp
 from mentpy.mbqc.states.graphstate import GraphState
-from mentpy.mbqc.flow import find_cflow, find_flow, check_if_flow, Flow
+from mentpy.mbqc.flow import (
+    find_cflow,
+    find_flow,
+    check_if_flow,
+    linear_extension,
+    Flow,
+)
 
 __all__ = ["MBQCircuit", "merge", "hstack", "vstack"]
 
@@ -436,7 +442,7 @@ class MBQCircuit:
             order.remove(i)
             order.insert(0, i)
 
-        return order
+        return linear_extension(order, self.partial_order)
 
     def add_edge(self, u, v):
         r"""Adds an edge between nodes u and v"""
-- 
2.43.0


From 2c1ecfa465c706b32bd2426a9b81c3575091f826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:49 +0000
Subject: [PATCH 12/62] fix: setting the measurements of a circuit leaves no
 node without an entry

---
 mentpy/mbqc/mbqcircuit.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 0e43cc7..af7cb54 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -230,13 +230,22 @@ class MBQCircuit:
         r"""Set the measurements of the MBQC circuit."""
         if not all([v in self.graph.nodes for v in measurements.keys()]):
             raise ValueError(f"Nodes {measurements.keys()} are not in the graph.")
-        if not all([isinstance(v, Ment) for v in measurements.values()]):
+        if not all([isinstance(v, Ment) or v is None for v in measurements.values()]):
             raise ValueError(
                 f"Values {measurements.values()} are not Measurement objects."
             )
+        measurements = dict(measurements)
+        for node in self.graph.nodes:
+            if node not in measurements:
+                measurements[node] = (
+                    self._default_measurement if node in self.outputc else None
+                )
         self._measurements = measurements
         self._update_attributes()
 
+        if len(self.controlled_nodes) > 0 and self._partial_order is not None:
+            self._measurement_order = self.calculate_order()
+
     @property
     def graph(self) -> GraphState:
         r"""Return the graph of the resource state."""
-- 
2.43.0


From 06ee9ead77493f8d6efe622f789faced464511da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:49 +0000
Subject: [PATCH 13/62] fix: ControlMent works with a constant condition and
 with one fixed branch

---
 mentpy/operators/controlled_ment.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mentpy/operators/controlled_ment.py b/mentpy/operators/controlled_ment.py
index aa0b13e..2f84df6 100644
--- a/mentpy/operators/controlled_ment.py
+++ b/mentpy/operators/controlled_ment.py
@@ -34,7 +34,7 @@ class ControlMent(Ment):
     @property
     def condition(self) -> bool:
         if isinstance(self._condition, bool):
-            return lambda x: self._condition
+            return MentOutcome(self._condition)
         elif isinstance(self._condition, MentOutcome):
             return self._condition
 
@@ -104,10 +104,10 @@ class ControlMent(Ment):
                 return super().matrix()
 
     def get_povm(self, angle: float | None = None, *args, **kwargs):
-        if self.condition(*args, **kwargs):
-            return self._true_ment.get_povm(angle, *args, **kwargs)
-        else:
-            return super().get_povm(angle, *args, **kwargs)
+        mat = self.matrix(angle, *args, **kwargs)
+        m0 = (np.eye(2) + mat) / 2
+        m1 = (np.eye(2) - mat) / 2
+        return m0, m1
 
 
 ControlledMent = ControlMent
-- 
2.43.0


From 4fa779e6bcf0323a624d9d213fee1bd574b21210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:49 +0000
Subject: [PATCH 14/62] fix: the negation of an outcome depends on the same
 nodes

---
 mentpy/operators/ment.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mentpy/operators/ment.py b/mentpy/operators/ment.py
index 722123b..bbfa483 100644
--- a/mentpy/operators/ment.py
+++ b/mentpy/operators/ment.py
@@ -117,7 +117,9 @@ class MentOutcome:
         return self._binary_operation(lambda x, y: x ^ y, other)
 
     def __invert__(self):
-        return MentOutcome(lambda x: not self._outcome(x))
+        return MentOutcome(
+            lambda x: not self._outcome(x), cond_nodes=self._cond_nodes
+        )
 
 
 class Ment:
-- 
2.43.0


From 9a76ad81cc8f4cdc619bbda7d354f1dc0460797a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:45 +0000
Subject: [PATCH 15/62] fix: the numpy simulators no longer drop edges that do
 not fit in the window

---
 mentpy/simulators/np_simulator_dm.py | 58 ++++++++++++++++++----------
 mentpy/simulators/np_simulator_sv.py | 58 ++++++++++++++++++----------
 2 files changed, 74 insertions(+), 42 deletions(-)

diff --git a/mentpy/simulators/np_simulator_dm.py b/mentpy/simulators/np_simulator_dm.py
index b01aae1..75c69b1 100644
--- a/mentpy/simulators/np_simulator_dm.py
+++ b/mentpy/simulators/np_simulator_dm.py
@@ -57,37 +57,39 @@ class NumpySimulatorDM(BaseSimulator):
                 if i not in mbqcircuit.quantum_output_nodes
             ]
             self.schedule = mbqcircuit.measurement_order
-            if self.window_size == 1 and mbqcircuit.flow is not None:
-                self.window_size = len(mbqcircuit.input_nodes) + 1
         else:
             raise ValueError(
                 "Schedule must be provided for numpy simulator as the MBQCircuit does not have a flow."
             )
 
-        input_state = self.reorder_qubits(
-            input_state,
-            self.mbqcircuit.input_nodes,
-            self.schedule[: len(self.mbqcircuit.input_nodes)],
-        )
-        self.input_state = input_state
-
         n_qubits_input = len(mbqcircuit.input_nodes)
 
+        min_window_size = self.minimum_window_size()
+        if self.window_size == 1:
+            self.window_size = max(
+                min_window_size, min(n_qubits_input + 1, len(self.schedule))
+            )
+
         if n_qubits_input > self.window_size:
             raise ValueError(
                 f"Input state has {n_qubits_input} qubits, but window size is set to {self.window_size}."
                 " Input state must have at most as many qubits as the window size minus one."
             )
 
-        if self.window_size > len(self.schedule_measure):
+        if self.window_size > len(self.schedule):
+            raise ValueError(
+                f"Window size is set to {self.window_size}, but schedule only has {len(self.schedule)} nodes."
+            )
+
+        # in dev mode the nodes are not measured in the order of the schedule
+        if self.window_size < min_window_size and not self.dev_mode:
             raise ValueError(
-                f"Window size is set to {self.window_size}, but schedule only has {len(self.schedule_measure)} measurements."
+                f"Window size is set to {self.window_size}, but this schedule needs at least {min_window_size}."
             )
 
         self.current_measurement = 0
 
-        for i in range(self.window_size - n_qubits_input):
-            self.input_state = np.kron(self.input_state, qubit_plus)
+        self.input_state = self.initial_window_state(input_state)
 
         self.qstate = calc.pure2density(self.input_state)
         # get subgraph of the first window_size nodes
@@ -114,6 +116,27 @@ class NumpySimulatorDM(BaseSimulator):
         self.qstate = self.initial_czs @ self.qstate @ np.conj(self.initial_czs).T
         self.outcomes = {}
 
+    def minimum_window_size(self) -> int:
+        """Returns the smallest window that holds all the inputs at the start and,
+        at some point, both ends of each edge."""
+        position = {node: i for i, node in enumerate(self.schedule)}
+        sizes = [1]
+        sizes += [position[i] + 1 for i in self.mbqcircuit.input_nodes]
+        sizes += [
+            abs(position[i] - position[j]) + 1 for i, j in self.mbqcircuit.graph.edges
+        ]
+        return max(sizes)
+
+    def initial_window_state(self, input_state: np.ndarray) -> np.ndarray:
+        """Returns the state of the first window, with the input state in the input
+        nodes and a plus state in each of the other ones."""
+        window = list(self.schedule[: self.window_size])
+        inputs = list(self.mbqcircuit.input_nodes)
+        others = [i for i in window if i not in inputs]
+        for _ in others:
+            input_state = np.kron(input_state, qubit_plus)
+        return self.reorder_qubits(input_state, inputs + others, window)
+
     def current_simulated_nodes(self) -> List[int]:
         """Returns the nodes that are currently simulated."""
         if not self.dev_mode:
@@ -287,14 +310,7 @@ class NumpySimulatorDM(BaseSimulator):
         self.current_measurement = 0
 
         if input_state is not None:
-            input_state = self.reorder_qubits(
-                input_state,
-                self.mbqcircuit.input_nodes,
-                self.schedule[: len(self.mbqcircuit.input_nodes)],
-            )
-            self.input_state = input_state
-            for i in range(self.window_size - len(self.mbqcircuit.input_nodes)):
-                self.input_state = np.kron(self.input_state, qubit_plus)
+            self.input_state = self.initial_window_state(input_state)
 
         self.qstate = calc.pure2density(self.input_state)
 
diff --git a/mentpy/simulators/np_simulator_sv.py b/mentpy/simulators/np_simulator_sv.py
index e7491f8..4e04ddd 100644
--- a/mentpy/simulators/np_simulator_sv.py
+++ b/mentpy/simulators/np_simulator_sv.py
@@ -71,37 +71,39 @@ class NumpySimulatorSV(BaseSimulator):
                 if i not in mbqcircuit.output_nodes
             ]
             self.schedule = mbqcircuit.measurement_order
-            if self.window_size == 1 and mbqcircuit.flow is not None:
-                self.window_size = len(mbqcircuit.input_nodes) + 1
         else:
             raise ValueError(
                 "Schedule must be provided for numpy simulator as the MBQCircuit does not have a flow."
             )
 
-        input_state = self.reorder_qubits(
-            input_state,
-            self.mbqcircuit.input_nodes,
-            self.schedule[: len(self.mbqcircuit.input_nodes)],
-        )
-        self.input_state = input_state
-
         n_qubits_input = len(mbqcircuit.input_nodes)
 
+        min_window_size = self.minimum_window_size()
+        if self.window_size == 1:
+            self.window_size = max(
+                min_window_size, min(n_qubits_input + 1, len(self.schedule))
+            )
+
         if n_qubits_input > self.window_size:
             raise ValueError(
                 f"Input state has {n_qubits_input} qubits, but window size is set to {self.window_size}."
                 " Input state must have at most as many qubits as the window size minus one."
             )
 
-        if self.window_size > len(self.schedule_measure):
+        if self.window_size > len(self.schedule):
             raise ValueError(
-                f"Window size is set to {self.window_size}, but schedule only has {len(self.schedule_measure)} measurements."
+                f"Window size is set to {self.window_size}, but schedule only has {len(self.schedule)} nodes."
+            )
+
+        # in dev mode the nodes are not measured in the order of the schedule
+        if self.window_size < min_window_size and not self.dev_mode:
+            raise ValueError(
+                f"Window size is set to {self.window_size}, but this schedule needs at least {min_window_size}."
             )
 
         self.current_measurement = 0
 
-        for i in range(self.window_size - n_qubits_input):
-            self.input_state = np.kron(self.input_state, qubit_plus)
+        self.input_state = self.initial_window_state(input_state)
 
         self.qstate = self.input_state
         # get subgraph of the first window_size nodes
@@ -127,6 +129,27 @@ class NumpySimulatorSV(BaseSimulator):
 
         self.qstate = self.initial_czs @ self.qstate
 
+    def minimum_window_size(self) -> int:
+        """Returns the smallest window that holds all the inputs at the start and,
+        at some point, both ends of each edge."""
+        position = {node: i for i, node in enumerate(self.schedule)}
+        sizes = [1]
+        sizes += [position[i] + 1 for i in self.mbqcircuit.input_nodes]
+        sizes += [
+            abs(position[i] - position[j]) + 1 for i, j in self.mbqcircuit.graph.edges
+        ]
+        return max(sizes)
+
+    def initial_window_state(self, input_state: np.ndarray) -> np.ndarray:
+        """Returns the state of the first window, with the input state in the input
+        nodes and a plus state in each of the other ones."""
+        window = list(self.schedule[: self.window_size])
+        inputs = list(self.mbqcircuit.input_nodes)
+        others = [i for i in window if i not in inputs]
+        for _ in others:
+            input_state = np.kron(input_state, qubit_plus)
+        return self.reorder_qubits(input_state, inputs + others, window)
+
     def current_simulated_nodes(self) -> List[int]:
         """Returns the nodes that are currently simulated."""
         if not self.dev_mode:
@@ -301,14 +324,7 @@ class NumpySimulatorSV(BaseSimulator):
         self.current_measurement = 0
 
         if input_state is not None:
-            input_state = self.reorder_qubits(
-                input_state,
-                self.mbqcircuit.input_nodes,
-                self.schedule[: len(self.mbqcircuit.input_nodes)],
-            )
-            self.input_state = input_state
-            for i in range(self.window_size - len(self.mbqcircuit.input_nodes)):
-                self.input_state = np.kron(self.input_state, qubit_plus)
+            self.input_state = self.initial_window_state(input_state)
 
         self.qstate = self.input_state
 
-- 
2.43.0


From 3d758822543dd32df29d72332ebd01e7b8949daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:45 +0000
Subject: [PATCH 16/62] fix: numpy-sv measures the output nodes that have a
 measurement

---
 mentpy/simulators/np_simulator_sv.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/mentpy/simulators/np_simulator_sv.py b/mentpy/simulators/np_simulator_sv.py
index 4e04ddd..dca029d 100644
--- a/mentpy/simulators/np_simulator_sv.py
+++ b/mentpy/simulators/np_simulator_sv.py
@@ -61,14 +61,14 @@ class NumpySimulatorSV(BaseSimulator):
         # TODO: FIND SCHEDULE IF NOT PROVIDED
         if self.schedule is not None:
             self.schedule_measure = [
-                i for i in self.schedule if i not in mbqcircuit.output_nodes
+                i for i in self.schedule if i not in mbqcircuit.quantum_output_nodes
             ]
         elif mbqcircuit.measurement_order is not None:
             # remove output nodes from the measurement order
             self.schedule_measure = [
                 i
                 for i in mbqcircuit.measurement_order
-                if i not in mbqcircuit.output_nodes
+                if i not in mbqcircuit.quantum_output_nodes
             ]
             self.schedule = mbqcircuit.measurement_order
         else:
@@ -298,18 +298,10 @@ class NumpySimulatorSV(BaseSimulator):
                 self.qstate, outcome = self.measure(angle)
                 self.outcomes[node] = outcome
 
-        # check if output nodes have a measurement, if so, measure them
-        for i in self.mbqcircuit.output_nodes:
-            if isinstance(self.mbqcircuit[i], Ment):
-                self.qstate, outcome = self.measure_ment(
-                    self.mbqcircuit[i], self.mbqcircuit[i].angle, i, force0=self.force0
-                )
-                self.outcomes[i] = outcome
-
         current_output_order = self.current_simulated_nodes()
         if self.mbqcircuit.quantum_output_nodes != current_output_order:
             self.qstate = self.reorder_qubits(
-                self.qstate, current_output_order, self.mbqcircuit.output_nodes
+                self.qstate, current_output_order, self.mbqcircuit.quantum_output_nodes
             )
 
         if output_form.lower() == "dm" or output_form.lower() == "densitymatrix":
-- 
2.43.0


From c61fcaaf6cfbcad54ad37746c5e2b586adc07369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:45 +0000
Subject: [PATCH 17/62] fix: tracing out qubits of a pure state when their
 amplitudes add up to zero

---
 mentpy/calculator/state_ops.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mentpy/calculator/state_ops.py b/mentpy/calculator/state_ops.py
index a978593..7c0bd8d 100644
--- a/mentpy/calculator/state_ops.py
+++ b/mentpy/calculator/state_ops.py
@@ -66,11 +66,12 @@ def partial_trace_pure_state(psi, indices):
     num_qubits = int(np.log2(psi.shape[0]))
     remaining_qubits = sorted(set(range(num_qubits)) - set(indices))
     tensor = psi.reshape([2] * num_qubits).transpose(remaining_qubits + indices)
-    traced_tensor = tensor.reshape([-1] + [2] * len(indices)).sum(
-        axis=tuple(range(1, 1 + len(indices)))
-    )
-    traced_tensor = traced_tensor.reshape(-1)
-    traced_tensor /= np.linalg.norm(traced_tensor)
+    # in a product state, all the non-zero columns are proportional to the
+    # state of the remaining qubits, whereas their sum might vanish
+    columns = tensor.reshape([2 ** len(remaining_qubits), 2 ** len(indices)])
+    norms = np.linalg.norm(columns, axis=0)
+    largest = np.argmax(norms)
+    traced_tensor = columns[:, largest] / norms[largest]
     return traced_tensor
 
 
-- 
2.43.0


From 04f3e96c39fa74fa50b24d1335ddaced20d555ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:45 +0000
Subject: [PATCH 18/62] fix: numpy-dm runs circuits whose controlled nodes have
 no trainable angle

---
 mentpy/simulators/np_simulator_dm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mentpy/simulators/np_simulator_dm.py b/mentpy/simulators/np_simulator_dm.py
index 75c69b1..8af5eab 100644
--- a/mentpy/simulators/np_simulator_dm.py
+++ b/mentpy/simulators/np_simulator_dm.py
@@ -254,6 +254,8 @@ class NumpySimulatorDM(BaseSimulator):
             for i in self.schedule_measure:
                 if i in self.mbqcircuit.trainable_nodes:
                     angle = angles[self.mbqcircuit.trainable_nodes.index(i)]
+                elif isinstance(self.mbqcircuit[i], ControlledMent):
+                    angle = None  # each branch has its own fixed angle
                 else:
                     angle = self.mbqcircuit[i].angle
 
@@ -281,6 +283,8 @@ class NumpySimulatorDM(BaseSimulator):
                     if isinstance(self.mbqcircuit[node], ControlledMent):
                         cond_angle = self.mbqcircuit[node].angle(self.outcomes) or angle
                         angle = cond_angle
+                elif isinstance(self.mbqcircuit[node], ControlledMent):
+                    angle = None  # each branch has its own fixed angle
                 elif isinstance(self.mbqcircuit[node], Ment):
                     angle = self.mbqcircuit[node].angle
 
-- 
2.43.0


From 8b2f4c858b1aa0db001c1a79afb359ea432b8924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:45 +0000
Subject: [PATCH 19/62] fix: the pennylane backend reads the angles in the
 order of the trainable nodes

---
 mentpy/simulators/pennylane_simulator.py | 35 +++++++++++-------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/mentpy/simulators/pennylane_simulator.py b/mentpy/simulators/pennylane_simulator.py
index 298f0cf..7207c62 100644
--- a/mentpy/simulators/pennylane_simulator.py
+++ b/mentpy/simulators/pennylane_simulator.py
@@ -65,26 +65,23 @@ class PennylaneSimulator(BaseSimulator):
 
         extended_angles = []
 
-        if len(self.mbqcircuit.trainable_nodes) != len(self.mbqcircuit.outputc):
-            for i in self.mbqcircuit.outputc:
-                if i in self.mbqcircuit.trainable_nodes:
-                    angle = angles[self.mbqcircuit.trainable_nodes.index(i)]
+        for i in self.mbqcircuit.outputc:
+            if i in self.mbqcircuit.trainable_nodes:
+                angle = angles[self.mbqcircuit.trainable_nodes.index(i)]
+            else:
+                plane = self.mbqcircuit.planes[i]
+                if plane == "X":
+                    angle = 0
+                elif plane == "Y":
+                    angle = np.pi / 2
+                elif plane == "XY":
+                    angle = self.mbqcircuit[i].angle
                 else:
-                    plane = self.mbqcircuit.planes[i]
-                    if plane == "X":
-                        angle = 0
-                    elif plane == "Y":
-                        angle = np.pi / 2
-                    elif plane == "XY":
-                        angle = self.mbqcircuit[i].angle
-                    else:
-                        raise ValueError(
-                            f"Plane {plane} is not supported for pennylane simulator."
-                        )
-
-                extended_angles.append(angle)
-        else:
-            extended_angles = angles
+                    raise ValueError(
+                        f"Plane {plane} is not supported for pennylane simulator."
+                    )
+
+            extended_angles.append(angle)
 
         return self.circuit(extended_angles, st=self.input_state, **kwargs)
 
-- 
2.43.0


From 9caa890ead7ece1ba24f40c059d263544e14a2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:45 +0000
Subject: [PATCH 20/62] fix: the pennylane backend accepts input_state in run,
 as the others do

---
 mentpy/simulators/pennylane_simulator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mentpy/simulators/pennylane_simulator.py b/mentpy/simulators/pennylane_simulator.py
index 7207c62..36fad23 100644
--- a/mentpy/simulators/pennylane_simulator.py
+++ b/mentpy/simulators/pennylane_simulator.py
@@ -61,6 +61,10 @@ class PennylaneSimulator(BaseSimulator):
                 f"Number of angles ({len(angles)}) does not match number of trainable nodes ({len(self.mbqcircuit.trainable_nodes)})."
             )
 
+        if kwargs.get("input_state") is not None:
+            self.reset(input_state=kwargs["input_state"])
+        kwargs.pop("input_state", None)
+
         # extend angles to all nodes
 
         extended_angles = []
-- 
2.43.0


From 7edccf4d706935d0a04cd2fff0476402e5901697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:56 +0000
Subject: [PATCH 21/62] fix: swap_qubits swaps the qubits instead of flipping
 them

---
 mentpy/operators/gates.py | 19 +------------------
 1 file changed, 1 insertion(+), 18 deletions(-)

diff --git a/mentpy/operators/gates.py b/mentpy/operators/gates.py
index af9d58b..c0317b4 100644
--- a/mentpy/operators/gates.py
+++ b/mentpy/operators/gates.py
@@ -39,24 +39,7 @@ def swap_qubits(state_vector, i, j):
 
     n_qubits = int(np.log2(len(state_vector)))
 
-    swap_matrix = np.zeros((2, 2), dtype=int)
-    swap_matrix[0, 1] = swap_matrix[1, 0] = 1
-
-    identity = np.identity(2)
-    swap_operator = None
-    for k in range(n_qubits):
-        if k == i or k == j:
-            current_operator = swap_matrix
-        else:
-            current_operator = identity
-
-        if swap_operator is None:
-            swap_operator = current_operator
-        else:
-            swap_operator = np.kron(swap_operator, current_operator)
-
-    swapped_state_vector = swap_operator @ state_vector
-    return swapped_state_vector
+    return swap_ij(i, j, n_qubits) @ state_vector
 
 
 def arbitrary_qubit_gate(u, i, n):
-- 
2.43.0


From fb0a24d489602c082c1e8e6586b0afed457468a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:56 +0000
Subject: [PATCH 22/62] fix: the numpy simulators keep the unmeasured outputs
 until the end

---
 mentpy/simulators/np_simulator_dm.py | 6 ++++++
 mentpy/simulators/np_simulator_sv.py | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/mentpy/simulators/np_simulator_dm.py b/mentpy/simulators/np_simulator_dm.py
index 8af5eab..51850bd 100644
--- a/mentpy/simulators/np_simulator_dm.py
+++ b/mentpy/simulators/np_simulator_dm.py
@@ -62,6 +62,12 @@ class NumpySimulatorDM(BaseSimulator):
                 "Schedule must be provided for numpy simulator as the MBQCircuit does not have a flow."
             )
 
+        # the i-th measured node has to be the i-th node of the schedule, so the
+        # nodes that are not measured go at the end
+        self.schedule = list(self.schedule_measure) + [
+            i for i in self.schedule if i not in self.schedule_measure
+        ]
+
         n_qubits_input = len(mbqcircuit.input_nodes)
 
         min_window_size = self.minimum_window_size()
diff --git a/mentpy/simulators/np_simulator_sv.py b/mentpy/simulators/np_simulator_sv.py
index dca029d..a6afd0a 100644
--- a/mentpy/simulators/np_simulator_sv.py
+++ b/mentpy/simulators/np_simulator_sv.py
@@ -76,6 +76,12 @@ class NumpySimulatorSV(BaseSimulator):
                 "Schedule must be provided for numpy simulator as the MBQCircuit does not have a flow."
             )
 
+        # the i-th measured node has to be the i-th node of the schedule, so the
+        # nodes that are not measured go at the end
+        self.schedule = list(self.schedule_measure) + [
+            i for i in self.schedule if i not in self.schedule_measure
+        ]
+
         n_qubits_input = len(mbqcircuit.input_nodes)
 
         min_window_size = self.minimum_window_size()
-- 
2.43.0


From 2fa6feb3cf05cdbeb7d949f573245b837e70138b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:49 +0000
Subject: [PATCH 23/62] fix: are_lc_equivalent accepts graphs and searches the
 whole solution space

---
 mentpy/utils/lc_equivalence.py | 99 ++++++++++++++++++----------------
 1 file changed, 54 insertions(+), 45 deletions(-)

diff --git a/mentpy/utils/lc_equivalence.py b/mentpy/utils/lc_equivalence.py
index 65dcd55..d77f518 100644
--- a/mentpy/utils/lc_equivalence.py
+++ b/mentpy/utils/lc_equivalence.py
@@ -3,6 +3,8 @@
 TAKEN FROM: https://github.com/XanaduAI/flamingpy/blob/main/flamingpy/utils/linalg.py
 """
 
+from itertools import combinations
+
 import numpy as np
 import networkx as nx
 
@@ -103,8 +105,8 @@ def nullspace_basis(M):
 
 def search_nullspace(basis):
     """Check if the nullspace satisfies the determinant constraints.
-     Search through sums of pairs of basis vectors of the nullspace and
-     see if any satisfy the determinant constraints. If no solution is found,
+     Search through sums of basis vectors of the nullspace (pairs of them, or any
+     number if there are at most four) and see if any satisfy the determinant constraints. If no solution is found,
      output None. If a solution is found, return a vector specifying the local
      Clifford in the form:
         (a_1, a_2, ..., a_n, b_1, b_2, ..., b_n, c_1, c_2, ..., c_n, d_1, d_2, ..., d_n),
@@ -118,42 +120,21 @@ def search_nullspace(basis):
     d = basis.shape[0]
     # number of nodes/qubits
     n = int(basis.shape[1] / 4)
-    # boolean for LC equivalence
-    equivalent = False
-    # array to store potential solutions
-    sols = []
-    # search through distinct pairs of basis vectors
-    for i in range(d):
-        for j in range(i):
-            # boolean for checking solution constraints
-            sat = True
-            # potential solution as sum (modulo 2) of basis pair
-            sol = np.vectorize(lambda x: x % 2)(np.add(basis[i], basis[j]))
-            # store potential solution
-            sols.append(sol)
-            for k in range(n):
-                # check the determinants (modulo 2)
-                det = (sol[k] * sol[k + 3 * n] + sol[k + n] * sol[k + 2 * n]) % 2
-                if det != 1:
-                    # constraints not satisfied
-                    sat = False
-                    # remove the false solution
-                    sols.pop()
-                    break
-            # if solution found, set equivalent to True
-            if sat:
-                # equivalence is satisfied
-                equivalent = sat
-                break
-        # end search loop
-        if equivalent:
-            break
+    # For large null spaces, it is enough to search through the basis vectors and
+    # the sums of two of them. Otherwise, search through the whole null space.
+    max_terms = d if d <= 4 else 2
+    for terms in range(1, max_terms + 1):
+        for indices in combinations(range(d), terms):
+            # potential solution as sum (modulo 2) of basis vectors
+            sol = np.sum(basis[list(indices)], axis=0) % 2
+            # check the determinants (modulo 2)
+            det = (
+                sol[:n] * sol[3 * n :] + sol[n : 2 * n] * sol[2 * n : 3 * n]
+            ) % 2
+            if np.all(det == 1):
+                return sol.astype(int)
     # if no solution found, return None
-    if not equivalent:
-        return None
-    # if solution found, return clifford in vector form
-    solution_vector = np.array(sols[0]).astype(int)
-    return solution_vector
+    return None
 
 
 def clifford_vec_to_tensors(vec):
@@ -208,6 +189,18 @@ def clifford_vec_to_global(vec):
     return np.block([[blocks[0], blocks[1]], [blocks[2], blocks[3]]])
 
 
+def _adjacency_matrix(graph):
+    """Adjacency matrix of a graph, or of the graph of a MBQCircuit, with its nodes sorted."""
+    graph = graph if isinstance(graph, nx.Graph) else graph.graph
+    return nx.to_numpy_array(graph, nodelist=sorted(graph.nodes), weight=None, dtype=int)
+
+
+def _connected_components(adjacency):
+    """Sorted list of the connected components of an adjacency matrix."""
+    graph = nx.from_numpy_array(adjacency)
+    return sorted(sorted(component) for component in nx.connected_components(graph))
+
+
 def are_lc_equivalent(graph1, graph2, clifford_form="tensor"):
     """Check if two EGraphs are LC equivalent, and return the Clifford
     operation if so. Implemented as in arXiv:quant-ph/0405023.
@@ -225,8 +218,8 @@ def are_lc_equivalent(graph1, graph2, clifford_form="tensor"):
             Clifford output according to 'clifford_form' specification.
     """
     # get adjacency matrices of input graphs
-    G = nx.adjacency_matrix(graph1.graph)
-    H = nx.adjacency_matrix(graph2.graph)
+    G = _adjacency_matrix(graph1)
+    H = _adjacency_matrix(graph2)
 
     # check adjacency matrices for same non-empty square shape
     if np.shape(G) == (0, 0) or np.shape(H) == (0, 0):
@@ -243,12 +236,28 @@ def are_lc_equivalent(graph1, graph2, clifford_form="tensor"):
 
     # perform algorithm to search for solution
     #
-    # construct system of constraints for two adjacency matrices G and H
-    system = lc_constraint_system(G, H)
-    # construct nullspace basis of system of constraints
-    nullspace = nullspace_basis(system)
-    # search nullspace for solution vector
-    solution_vector = search_nullspace(nullspace)
+    # the search of the null space is only complete for connected graphs, and local
+    # operations keep the connected components
+    solution_vector = None
+    components = _connected_components(G)
+    if components == _connected_components(H):
+        n = np.shape(G)[0]
+        solution_vector = np.zeros(4 * n, dtype=int)
+        for component in components:
+            block = np.ix_(component, component)
+            # construct system of constraints for two adjacency matrices G and H
+            system = lc_constraint_system(G[block], H[block])
+            # construct nullspace basis of system of constraints
+            nullspace = nullspace_basis(system)
+            # search nullspace for solution vector
+            solution = search_nullspace(nullspace)
+            if solution is None:
+                solution_vector = None
+                break
+            for k in range(4):
+                solution_vector[[k * n + i for i in component]] = solution[
+                    k * len(component) : (k + 1) * len(component)
+                ]
 
     # if graphs are not equivalent set clifford_output to None
     if solution_vector is None:
-- 
2.43.0


From e172cef9048c57cf221b473fdcd0901836109724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:19 +0000
Subject: [PATCH 24/62] fix: FlowSpace builds graph states, so the flow finder
 can use them

---
 mentpy/utils/flow_space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mentpy/utils/flow_space.py b/mentpy/utils/flow_space.py
index cc89e46..a9d67a4 100644
--- a/mentpy/utils/flow_space.py
+++ b/mentpy/utils/flow_space.py
@@ -3,7 +3,7 @@
 # This program is released under the GNU GPL v3.0 or later.
 # See <https://www.gnu.org/licenses/> for details.
 """A module to study graphs with flow."""
-from mentpy.mbqc import MBQCircuit
+from mentpy.mbqc import MBQCircuit, GraphState
 
 import networkx as nx
 import itertools
@@ -50,7 +50,7 @@ class FlowSpace:
         completegraph = nx.complete_graph(n)
         its = itertools.product([0, 1], repeat=total_n)
         for j in its:
-            g = nx.Graph()
+            g = GraphState()
             g.add_nodes_from(list(range(n)))
             edgs = [edg for i, edg in enumerate(list(completegraph.edges())) if j[i]]
             g.add_edges_from(edgs)
-- 
2.43.0


From 052851e23fac2565369c20ec895bb793df1ac2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:19 +0000
Subject: [PATCH 25/62] fix: the parameter shift rule divides by the sine of
 the shift

---
 mentpy/gradients/_parameter_shift.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mentpy/gradients/_parameter_shift.py b/mentpy/gradients/_parameter_shift.py
index 30da5b4..105cdd5 100644
--- a/mentpy/gradients/_parameter_shift.py
+++ b/mentpy/gradients/_parameter_shift.py
@@ -21,7 +21,7 @@ def psr_gradient(cost, x, shift=1.5):
     for i in range(len(x)):
         grad[i] = (
             cost(x + shift * np.eye(len(x))[i]) - cost(x - shift * np.eye(len(x))[i])
-        ) / (2 * shift)
+        ) / (2 * np.sin(shift))
     return grad
 
 
@@ -44,5 +44,5 @@ def psr_hessian(cost, x, shift=1.5):
                 - cost(x + shift * np.eye(len(x))[i] - shift * np.eye(len(x))[j])
                 - cost(x - shift * np.eye(len(x))[i] + shift * np.eye(len(x))[j])
                 + cost(x - shift * np.eye(len(x))[i] - shift * np.eye(len(x))[j])
-            ) / (4 * shift**2)
+            ) / (4 * np.sin(shift) ** 2)
     return hess
-- 
2.43.0


From 74f54740a5ee9622e877724c78d9d74a55ce10dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:50 +0000
Subject: [PATCH 26/62] fix: RCDOptimizer does not modify the starting point

---
 mentpy/optimizers/rcd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mentpy/optimizers/rcd.py b/mentpy/optimizers/rcd.py
index c51b93b..75431e5 100644
--- a/mentpy/optimizers/rcd.py
+++ b/mentpy/optimizers/rcd.py
@@ -40,6 +40,7 @@ class RCDOptimizer(BaseOptimizer):
 
     def step(self, f, x, i, **kwargs):
         """Take a step using the random coordinate descent optimizer."""
+        x = np.array(x, dtype=float)  # a copy, so the argument is not modified
         coord_idx = random.randint(0, len(x) - 1)
         delta = np.zeros_like(x)
         delta[coord_idx] = 1e-5
@@ -78,6 +79,7 @@ class RCDOptimizer(BaseOptimizer):
 
         for i in range(num_iters):
             # Random coordinate descent optimizer
+            x = np.array(x, dtype=float)  # a copy, so x0 is not modified
             coord_idx = random.randint(0, len(x) - 1)
             coord_iters[coord_idx] += 1
             delta = np.zeros_like(x)
-- 
2.43.0


From d3381de55ef8dc572fae757802e772bb56302c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:18 +0000
Subject: [PATCH 27/62] fix: PauliOps with a different number of operators are
 not equal

---
 mentpy/operators/pauliop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mentpy/operators/pauliop.py b/mentpy/operators/pauliop.py
index 3ba3ea3..c2b9b41 100644
--- a/mentpy/operators/pauliop.py
+++ b/mentpy/operators/pauliop.py
@@ -117,7 +117,7 @@ class PauliOp:
         return hash(str(self.matrix))
 
     def __eq__(self, other: "PauliOp"):
-        return np.all(self.matrix == other.matrix)
+        return np.array_equal(self.matrix, other.matrix)
 
     def _mat_to_txt(self, op):
         n_qubits = op.shape[1] // 2
-- 
2.43.0


From 30dc6a726872562287a988a67d19abad7e49ba71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:52 +0000
Subject: [PATCH 28/62] fix: train_test_split can shuffle lists

---
 mentpy/utils/generate_data.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mentpy/utils/generate_data.py b/mentpy/utils/generate_data.py
index 9c7c8aa..b179087 100644
--- a/mentpy/utils/generate_data.py
+++ b/mentpy/utils/generate_data.py
@@ -48,8 +48,8 @@ def train_test_split(inputs, targets, test_size: float = 0.3, randomize=False) -
 
     if randomize:
         shuffled_indices = np.random.permutation(n_samples)
-        inputs = inputs[shuffled_indices]
-        targets = targets[shuffled_indices]
+        inputs = _take(inputs, shuffled_indices)
+        targets = _take(targets, shuffled_indices)
 
     return (inputs[:n_train_samples], targets[:n_train_samples]), (
         inputs[n_train_samples:],
@@ -57,6 +57,13 @@ def train_test_split(inputs, targets, test_size: float = 0.3, randomize=False) -
     )
 
 
+def _take(data, indices):
+    """Returns the elements of an array or a list with the given indices."""
+    if isinstance(data, np.ndarray):
+        return data[indices]
+    return [data[i] for i in indices]
+
+
 def brownian_circuit(dim, n, dt):
     """Returns a random unitary matrix close to the identity matrix"""
     u = np.eye(dim)
-- 
2.43.0


From 6af23b45678a924e14cc6e833d0b5f36732bc663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:53 +0000
Subject: [PATCH 29/62] fix: data sets of a single sample are lists too

---
 mentpy/utils/generate_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mentpy/utils/generate_data.py b/mentpy/utils/generate_data.py
index b179087..a4d588b 100644
--- a/mentpy/utils/generate_data.py
+++ b/mentpy/utils/generate_data.py
@@ -35,7 +35,7 @@ def generate_random_dataset(
 ) -> tuple:
     r"Return random training and test data (input, target) for a given unitary gate ``unitary``."
     n_qubits = int(np.log2(unitary.shape[0]))
-    random_inputs = generate_haar_random_states(n_qubits, n_samples=n_samples)
+    random_inputs = [_generate_haar_random_state(n_qubits) for _ in range(n_samples)]
     random_targets = [(unitary @ st.T).T for st in random_inputs]
     return train_test_split(random_inputs, random_targets, test_size=test_size)
 
@@ -102,7 +102,7 @@ def generate_random_dataset_noisy(
         raise ValueError("noise_level must be between 0 and 1")
 
     n_qubits = int(np.log2(unitary.shape[0]))
-    random_inputs = generate_haar_random_states(n_qubits, n_samples=n_samples)
+    random_inputs = [_generate_haar_random_state(n_qubits) for _ in range(n_samples)]
     n_samples = len(random_inputs)
     n_test_samples = int(n_samples * test_size)
     n_train_samples = n_samples - n_test_samples
-- 
2.43.0


From 971db67a50543b20eb9bd8b9ddd56b1c6c4202e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:58 +0000
Subject: [PATCH 30/62] fix: PauliOp rejects letters that are not Pauli
 operators

---
 mentpy/operators/pauliop.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mentpy/operators/pauliop.py b/mentpy/operators/pauliop.py
index c2b9b41..8b74b4c 100644
--- a/mentpy/operators/pauliop.py
+++ b/mentpy/operators/pauliop.py
@@ -151,6 +151,8 @@ class PauliOp:
                 elif char == "Y":
                     mat[i, j] = 1
                     mat[i, j + n_qubits] = 1
+                elif char != "I":
+                    raise ValueError(f"Unknown Pauli operator {char}")
         return GF(mat)
 
     @property
-- 
2.43.0


From 2650f7f4c1d914c54d8423458b418d2af4b46e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:34 +0000
Subject: [PATCH 31/62] fix: Lie algebra generators do not use the inputs'
 stabilizers

---
 mentpy/utils/lie_algebra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mentpy/utils/lie_algebra.py b/mentpy/utils/lie_algebra.py
index c06059b..f890ca1 100644
--- a/mentpy/utils/lie_algebra.py
+++ b/mentpy/utils/lie_algebra.py
@@ -29,7 +29,8 @@ def _constrains(j: int, state: MBQCircuit, stabilizers: PauliOp):
     A = []
     b = []
     for k in mo:
-        if (not state.partial_order(j, k)) or k == j:
+        # the stabilizers centered at the input nodes do not stabilize the state
+        if (not state.partial_order(j, k)) or k == j or k in state.input_nodes:
             A.append(stabilizers[k].matrix[0, : len(mo)])
             b.append(np.zeros(1, dtype=int))
 
-- 
2.43.0


From 708fa2e390502c2dcd3327e51978d4ac938b6969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:34 +0000
Subject: [PATCH 32/62] fix: the generalized flow maps each node to its
 correction set

---
 mentpy/mbqc/flow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mentpy/mbqc/flow.py b/mentpy/mbqc/flow.py
index b53e9e4..77ed5c0 100644
--- a/mentpy/mbqc/flow.py
+++ b/mentpy/mbqc/flow.py
@@ -254,7 +254,7 @@ def gflowaux(graph: GraphState, gamma, inputs, outputs, k, g, l) -> object:
         if np.linalg.norm(submatrix @ solution - b) <= 1e-5:
             l[u] = k
             C.add(u)
-            g[u] = solution
+            g[u] = {w for w, x in zip(outputs - inputs, solution[:, 0]) if x == 1}
 
     if len(C) == 0:
         if set(outputs) == V:
-- 
2.43.0


From 51462a5acb85acc403db2f85a9e7cb1c91d8c090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:53 +0000
Subject: [PATCH 33/62] fix: from_pauli works with an even number of Ys

---
 mentpy/mbqc/templates.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mentpy/mbqc/templates.py b/mentpy/mbqc/templates.py
index 747a38e..6a8bc17 100644
--- a/mentpy/mbqc/templates.py
+++ b/mentpy/mbqc/templates.py
@@ -308,6 +308,7 @@ def from_pauli(pauli_op: PauliOp):
     exp_ansatz.add_edge(3 * n_qubits, 3 * n_qubits + 1)
 
     measurements = {3 * n_qubits + 1: Ment("XY")}
+    n_ys = 0
 
     for q in range(n_qubits):
         has_x, has_z = False, False
@@ -320,7 +321,11 @@ def from_pauli(pauli_op: PauliOp):
             has_z = True
 
         if has_x and has_z:
-            measurements[3 * n_qubits] = Ment("Y")
+            n_ys += 1
+
+    # each Y contributes a factor of i, and a pair of them cancels out
+    if n_ys % 2 == 1:
+        measurements[3 * n_qubits] = Ment("Y")
 
     input_nodes = [3 * q for q in range(n_qubits)]
     output_nodes = [3 * q + 2 for q in range(n_qubits)]
-- 
2.43.0


From 9d7e4ce893d30612fd50d09b485618e8c094230f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:17 +0000
Subject: [PATCH 34/62] fix: MBQCircuit does not modify the measurements it is
 given

---
 mentpy/mbqc/mbqcircuit.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index af7cb54..e114970 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -138,6 +138,7 @@ class MBQCircuit:
                 )
 
             # set X Ment in outputc nodes that are not in measurements
+            measurements = dict(measurements)
             for node in self.graph.nodes:
                 if node not in measurements:
                     measurements[node] = (
-- 
2.43.0


From 07aa218e299a706c72918ceabcdfcd722ae3fd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:25 +0000
Subject: [PATCH 35/62] fix: a measurement order has to list every node once

---
 mentpy/mbqc/mbqcircuit.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index e114970..2bcd4c1 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -319,7 +319,12 @@ class MBQCircuit:
     @measurement_order.setter
     def measurement_order(self, measurement_order: List[int]) -> None:
         r"""Set the measurement order of the MBQC circuit."""
-        if not _check_measurement_order(measurement_order, self.partial_order):
+        all_nodes_once = len(measurement_order) == len(self.graph) and set(
+            measurement_order
+        ) == set(self.graph.nodes)
+        if not all_nodes_once or not _check_measurement_order(
+            measurement_order, self.partial_order
+        ):
             raise ValueError(f"Invalid measurement order {measurement_order}.")
         self._measurement_order = measurement_order
 
-- 
2.43.0


From 678ab717b9ad7e33c2913d8c4854d7cb966bd42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:46 +0000
Subject: [PATCH 36/62] fix: copying an MBQCircuit does not look up the graph
 of an empty circuit

---
 mentpy/mbqc/mbqcircuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 2bcd4c1..bbcdba5 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -178,7 +178,7 @@ class MBQCircuit:
 
     # if an attribute is not found, look for it in the graph
     def __getattr__(self, name):
-        if name in ("_graph", "gflow"):
+        if name in ("graph", "_graph", "gflow"):
             raise AttributeError(f"Attribute {name} not found in MBQCircuit.")
         # try getting the attribute in graph, if not there, look in gflow
         try:
-- 
2.43.0


From bf8f503db01e9457e8b91013fcbbd7e2b9125e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:52 +0000
Subject: [PATCH 37/62] fix: the partial order of a circuit's copy does not
 follow the original's measurements

---
 mentpy/mbqc/mbqcircuit.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index bbcdba5..75cd33a 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -655,9 +655,12 @@ def _hstack2(state1: MBQCircuit, state2: MBQCircuit) -> MBQCircuit:
 
 
 def _create_new_partial_order(controlled_nodes, measurements, old_partial_order):
+    # read the conditions now, as copies of the circuit share this function
+    cond_nodes = {c: measurements[c].condition.cond_nodes for c in controlled_nodes}
+
     def new_partial_order(i, j):
         for c in controlled_nodes:
-            cns = measurements[c].condition.cond_nodes
+            cns = cond_nodes[c]
 
             ibeforecns = any([old_partial_order(i, cn) for cn in cns]) or i in cns
             jafterc = old_partial_order(c, j) or j == c
-- 
2.43.0


From cfc17ae997a37d94cb3ed8278cb3b7af838aa2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:34 +0000
Subject: [PATCH 38/62] fix: gluing a circuit whose outputs are also inputs
 keeps those inputs

---
 mentpy/mbqc/mbqcircuit.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 75cd33a..3c0f92e 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -510,9 +510,11 @@ def merge(state1: MBQCircuit, state2: MBQCircuit, along=[]) -> MBQCircuit:
     graph = nx.disjoint_union(state1.graph, state2.graph)
     along1, along2 = zip(*along)
 
-    input_nodes = state1.input_nodes + [
-        i + len(state1.graph) for i in state2.input_nodes if i not in along2
+    glued = dict(along)
+    input_nodes = [
+        glued[i] + len(state1.graph) if i in glued else i for i in state1.input_nodes
     ]
+    input_nodes += [i + len(state1.graph) for i in state2.input_nodes if i not in along2]
     output_nodes = []
     added_ind = []
     for j in state1.output_nodes:
@@ -637,7 +639,13 @@ def _hstack2(state1: MBQCircuit, state2: MBQCircuit) -> MBQCircuit:
             nodes2.index(state2.input_nodes[i]) + len(nodes1),
         )
 
-    input_nodes = [nodes1.index(i) for i in state1.input_nodes]
+    # an output of the first state that is also an input is glued to an input of
+    # the second state, which becomes the input
+    glued = dict(zip(state1.output_nodes, state2.input_nodes))
+    input_nodes = [
+        nodes2.index(glued[i]) + len(nodes1) if i in glued else nodes1.index(i)
+        for i in state1.input_nodes
+    ]
     output_nodes = [nodes2.index(j) + len(nodes1) for j in state2.output_nodes]
 
     measurements = {nodes1.index(i): ment for i, ment in state1.measurements.items()}
-- 
2.43.0


From e6896232205ee7fe0ea2aa43241fc9e0a3d0dfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:34 +0000
Subject: [PATCH 39/62] fix: merge rejects pairs that use a node twice

---
 mentpy/mbqc/mbqcircuit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 3c0f92e..a8e63e4 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -509,6 +509,8 @@ def merge(state1: MBQCircuit, state2: MBQCircuit, along=[]) -> MBQCircuit:
 
     graph = nx.disjoint_union(state1.graph, state2.graph)
     along1, along2 = zip(*along)
+    if len(set(along1)) < len(along1) or len(set(along2)) < len(along2):
+        raise ValueError(f"Cannot merge a node more than once along {along}")
 
     glued = dict(along)
     input_nodes = [
-- 
2.43.0


From 1de217a5cbb0b57b65c7b7acd90bb2a33e838c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:44 +0000
Subject: [PATCH 40/62] fix: relabelling and composing circuits relabels the
 conditions of their measurements

---
 mentpy/mbqc/mbqcircuit.py | 56 +++++++++++++++++++++++++++++++--------
 1 file changed, 45 insertions(+), 11 deletions(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index a8e63e4..a661063 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -12,7 +12,7 @@ import scipy as scp
 import networkx as nx
 import matplotlib.pyplot as plt
 
-from mentpy.operators import Ment, ControlMent, PauliOp
+from mentpy.operators import Ment, ControlMent, MentOutcome, PauliOp
 from mentpy.mbqc.states.graphstate import GraphState
 from mentpy.mbqc.flow import (
     find_cflow,
@@ -97,7 +97,7 @@ class MBQCircuit:
             if measurement_order is not None:
                 measurement_order = [mapping[i] for i in measurement_order]
             if measurements is not None:
-                measurements = {mapping[k]: v for k, v in measurements.items()}
+                measurements = _relabel_measurements(measurements, mapping)
 
         self._graph = graph
 
@@ -490,6 +490,31 @@ class MBQCircuit:
         self.__dict__ = new_circuit.__dict__
 
 
+def _relabel_measurements(measurements: Dict, mapping: Dict) -> Dict:
+    r"""Relabels the nodes of the measurements and the ones their conditions read"""
+    return {
+        mapping[node]: _relabel_condition(ment, mapping)
+        for node, ment in measurements.items()
+    }
+
+
+def _relabel_condition(ment: Optional[Ment], mapping: Dict) -> Optional[Ment]:
+    if not isinstance(ment, ControlMent) or ment.condition is None:
+        return ment
+    condition = ment.condition
+    if all(mapping.get(node, node) == node for node in condition.cond_nodes):
+        return ment
+
+    def relabeled(outcomes):
+        return condition({i: outcomes[j] for i, j in mapping.items() if j in outcomes})
+
+    ment = copy.copy(ment)
+    ment.condition = MentOutcome(
+        relabeled, cond_nodes={mapping.get(node, node) for node in condition.cond_nodes}
+    )
+    return ment
+
+
 def _check_measurement_order(measurement_order: List, partial_order: Callable):
     r"""Checks that the measurement order is valid"""
     for i in range(len(measurement_order)):
@@ -534,10 +559,13 @@ def merge(state1: MBQCircuit, state2: MBQCircuit, along=[]) -> MBQCircuit:
         if indx not in added_ind
     ]
 
-    measurements = dict(state1.measurements)
-    measurements.update(
-        {i + len(state1.graph): ment for i, ment in state2.measurements.items()}
-    )
+    nodes1 = {i: i for i in state1.graph}
+    nodes1.update({i: j + len(state1.graph) for i, j in along})
+    nodes2 = {i: i + len(state1.graph) for i in state2.graph}
+    measurements = {
+        i: _relabel_condition(ment, nodes1) for i, ment in state1.measurements.items()
+    }
+    measurements.update(_relabel_measurements(state2.measurements, nodes2))
 
     for i, j in along:
         graph.add_edge(i, j + len(state1.graph))
@@ -598,7 +626,9 @@ def _vstack2(state1: MBQCircuit, state2: MBQCircuit) -> MBQCircuit:
 
     measurements = dict(state1.measurements)
     measurements.update(
-        {i + len(state1.graph): plane for i, plane in state2.measurements.items()}
+        _relabel_measurements(
+            state2.measurements, {i: i + len(state1.graph) for i in state2.graph}
+        )
     )
 
     # TODO: Compute flow and partial order
@@ -650,10 +680,14 @@ def _hstack2(state1: MBQCircuit, state2: MBQCircuit) -> MBQCircuit:
     ]
     output_nodes = [nodes2.index(j) + len(nodes1) for j in state2.output_nodes]
 
-    measurements = {nodes1.index(i): ment for i, ment in state1.measurements.items()}
-    measurements.update(
-        {nodes2.index(i) + len(nodes1): ment for i, ment in state2.measurements.items()}
-    )
+    mapping1 = {i: nodes1.index(i) for i in nodes1}
+    mapping2 = {i: nodes2.index(i) + len(nodes1) for i in nodes2}
+    mapping1_glued = {**mapping1, **{i: mapping2[j] for i, j in glued.items()}}
+    measurements = {
+        mapping1[i]: _relabel_condition(ment, mapping1_glued)
+        for i, ment in state1.measurements.items()
+    }
+    measurements.update(_relabel_measurements(state2.measurements, mapping2))
 
     for i, j in zip(state1.output_nodes, state2.input_nodes):
         graph.add_edge(i, j + len(state1.graph))
-- 
2.43.0


From 5be7efcc5d3cc1c7ed1867782dd96a6ab0f5e705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:07 +0000
Subject: [PATCH 41/62] fix: the pennylane backend rejects planes and measured
 outputs it does not measure

---
 mentpy/simulators/pennylane_simulator.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mentpy/simulators/pennylane_simulator.py b/mentpy/simulators/pennylane_simulator.py
index 36fad23..4ddeecf 100644
--- a/mentpy/simulators/pennylane_simulator.py
+++ b/mentpy/simulators/pennylane_simulator.py
@@ -52,6 +52,11 @@ class PennylaneSimulator(BaseSimulator):
                 "Controlled nodes are not supported with the PennyLane simulator."
             )
 
+        if len(mbqcircuit.classical_output_nodes) > 0:
+            raise NotImplementedError(
+                "Measured outputs are not supported with the PennyLane simulator."
+            )
+
     def measure(self, angle: float, plane: str = "XY"):
         raise NotImplementedError
 
@@ -70,10 +75,10 @@ class PennylaneSimulator(BaseSimulator):
         extended_angles = []
 
         for i in self.mbqcircuit.outputc:
-            if i in self.mbqcircuit.trainable_nodes:
+            plane = self.mbqcircuit.planes[i]
+            if i in self.mbqcircuit.trainable_nodes and plane == "XY":
                 angle = angles[self.mbqcircuit.trainable_nodes.index(i)]
             else:
-                plane = self.mbqcircuit.planes[i]
                 if plane == "X":
                     angle = 0
                 elif plane == "Y":
-- 
2.43.0


From 1642d93ddb9dc95b29e3773aba9766f7f44e1a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:30 +0000
Subject: [PATCH 42/62] fix: indexing a PauliOp returns an operator of its own

---
 mentpy/operators/pauliop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mentpy/operators/pauliop.py b/mentpy/operators/pauliop.py
index 8b74b4c..8a711af 100644
--- a/mentpy/operators/pauliop.py
+++ b/mentpy/operators/pauliop.py
@@ -100,7 +100,7 @@ class PauliOp:
         paulis = self._array[key]
         if isinstance(key, slice):
             return PauliOp(";".join([pauli.txt for pauli in paulis]))
-        return paulis
+        return PauliOp(paulis.txt)
 
     def __mul__(self, other: "PauliOp"):
         """Returns the product of two Pauli operators."""
-- 
2.43.0


From 6deb9f1a8b33c42baf3fb347e8058a5593edd33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:30 +0000
Subject: [PATCH 43/62] fix: PauliOp.get_subset rejects negative indices and
 accepts any sequence

---
 mentpy/operators/pauliop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mentpy/operators/pauliop.py b/mentpy/operators/pauliop.py
index 8a711af..9e990f6 100644
--- a/mentpy/operators/pauliop.py
+++ b/mentpy/operators/pauliop.py
@@ -205,8 +205,8 @@ class PauliOp:
             op = mp.PauliOp('XIZ;ZII;IIZ;IZI')
             print(op.get_subset([0, 2]))
         """
-        inds = indices.copy()
-        if max(inds) >= self.matrix.shape[1] // 2:
+        inds = list(indices)
+        if max(inds) >= self.matrix.shape[1] // 2 or min(inds) < 0:
             raise ValueError("Index out of range")
 
         inds += [i + self.matrix.shape[1] // 2 for i in inds]
-- 
2.43.0


From d6599754dcab08a28a22abc4c0045321b5e9e837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:30 +0000
Subject: [PATCH 44/62] fix: a PauliOp can be compared with anything, as
 commutators that are 0

---
 mentpy/operators/pauliop.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mentpy/operators/pauliop.py b/mentpy/operators/pauliop.py
index 9e990f6..22b7e9b 100644
--- a/mentpy/operators/pauliop.py
+++ b/mentpy/operators/pauliop.py
@@ -117,6 +117,8 @@ class PauliOp:
         return hash(str(self.matrix))
 
     def __eq__(self, other: "PauliOp"):
+        if not isinstance(other, PauliOp):
+            return NotImplemented
         return np.array_equal(self.matrix, other.matrix)
 
     def _mat_to_txt(self, op):
-- 
2.43.0


From 6486d6b00653aae56526bed30ed351ace425839f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:30 +0000
Subject: [PATCH 45/62] fix: Lie algebra of circuits with a single measured
 node

---
 mentpy/utils/lie_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mentpy/utils/lie_algebra.py b/mentpy/utils/lie_algebra.py
index f890ca1..4174ea6 100644
--- a/mentpy/utils/lie_algebra.py
+++ b/mentpy/utils/lie_algebra.py
@@ -162,7 +162,7 @@ def remove_repeated_ops(ops: PauliOp):
     """Removes repeated Pauli operators from a set"""
     ops = copy.deepcopy(ops)
     unrep_ops = ops[0]
-    for op in ops[1:]:
+    for op in ops:
         if op not in unrep_ops:
             unrep_ops.append(op)
     return unrep_ops
-- 
2.43.0


From cf8039fef2203abd910c2961efa9df3dae325bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:22 +0000
Subject: [PATCH 46/62] fix: stabilizers of graph states without edges

---
 mentpy/mbqc/states/graphstate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mentpy/mbqc/states/graphstate.py b/mentpy/mbqc/states/graphstate.py
index a90420f..6ab6ca8 100644
--- a/mentpy/mbqc/states/graphstate.py
+++ b/mentpy/mbqc/states/graphstate.py
@@ -112,7 +112,7 @@ def _get_stabilizers(graph: GraphState) -> List[PauliOp]:
     -----
     states
     """
-    z_mat = nx.adjacency_matrix(graph).todense()
+    z_mat = nx.adjacency_matrix(graph, dtype=int).todense()
     x_mat = np.eye(graph.number_of_nodes(), dtype=int)
 
     return PauliOp(np.hstack((x_mat, z_mat)))
-- 
2.43.0


From cbc04977942457ed81e3b97b6310baf4e87c683b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:49 +0000
Subject: [PATCH 47/62] fix: the outcome of a measurement reads the node it
 reports

---
 mentpy/operators/ment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mentpy/operators/ment.py b/mentpy/operators/ment.py
index bbfa483..07cdcbd 100644
--- a/mentpy/operators/ment.py
+++ b/mentpy/operators/ment.py
@@ -202,7 +202,7 @@ class Ment:
     @node_id.setter
     def node_id(self, node_id: Any):
         self._node_id = node_id
-        self._outcome = MentOutcome(lambda x: x[self._node_id], self._node_id)
+        self._outcome = MentOutcome(lambda x: x[node_id], node_id)
 
     def set_angle(self, angle):
         "Sets the angle of the measurement."
-- 
2.43.0


From 2f86908f350fbaae980f15a121d071b124249413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:49 +0000
Subject: [PATCH 48/62] fix: copies of a controlled measurement keep a constant
 condition

---
 mentpy/operators/controlled_ment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mentpy/operators/controlled_ment.py b/mentpy/operators/controlled_ment.py
index 2f84df6..17848e9 100644
--- a/mentpy/operators/controlled_ment.py
+++ b/mentpy/operators/controlled_ment.py
@@ -80,7 +80,7 @@ class ControlMent(Ment):
 
     def copy(self):
         return ControlMent(
-            self.condition,
+            self._condition,
             self._true_ment.angle,
             self._true_ment.plane,
             self._angle,
-- 
2.43.0


From 45d9d6fed632324ac6785ba300b8c045e01e6301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:18 +0000
Subject: [PATCH 49/62] fix: muta rejects sizes without wires or layers

---
 mentpy/mbqc/templates.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mentpy/mbqc/templates.py b/mentpy/mbqc/templates.py
index 6a8bc17..329b4d0 100644
--- a/mentpy/mbqc/templates.py
+++ b/mentpy/mbqc/templates.py
@@ -181,6 +181,9 @@ def muta(n_wires, n_layers, **kwargs):
     }
     options.update(kwargs)
 
+    if n_wires < 1 or n_layers < 1:
+        raise ValueError("n_wires and n_layers must be greater than 0")
+
     SIZE_TRIANGLE = 5
 
     big_graph = None
-- 
2.43.0


From 495ed5c84709dc0a33d33194fce28cbf104d26ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:12 +0000
Subject: [PATCH 50/62] fix: label controlled nodes when drawing arrows or
 angles

---
 mentpy/mbqc/view.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/mentpy/mbqc/view.py b/mentpy/mbqc/view.py
index 33a571d..4ab660d 100644
--- a/mentpy/mbqc/view.py
+++ b/mentpy/mbqc/view.py
@@ -205,14 +205,19 @@ def process_labels(state: MBQCircuit, options: dict):
             "XYZ": r"$\nwarrow \nearrow$",
             "": "",
         }
-        labels = {node: plane2arrow[state.planes[node]] for node in state.graph.nodes()}
-        for node in state.controlled_nodes:
-            labels[node] = "Ctrl"
+        labels = {}
+        for node in state.graph.nodes():
+            if node in state.controlled_nodes:
+                labels[node] = "Ctrl"
+            else:
+                labels[node] = plane2arrow[state.planes[node]]
         return labels
     elif label_option in ("angles", "angle"):
         labels = {}
         for node in state.graph.nodes():
-            if state.measurements[node] is not None:
+            if node in state.controlled_nodes:
+                labels[node] = "Ctrl"
+            elif state.measurements[node] is not None:
                 if state.measurements[node].angle is not None:
                     labels[node] = round(state.measurements[node].angle, 3)
                 else:
-- 
2.43.0


From 4edf40e66f033eab2ba4e058382ead56a32909c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:12 +0000
Subject: [PATCH 51/62] fix: draw circuits with an input that is also an output

---
 mentpy/mbqc/view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mentpy/mbqc/view.py b/mentpy/mbqc/view.py
index 4ab660d..f08ebeb 100644
--- a/mentpy/mbqc/view.py
+++ b/mentpy/mbqc/view.py
@@ -112,7 +112,7 @@ def draw(state: Union[MBQCircuit, GraphState], fix_wires=None, **kwargs):
         if state.flow is not None:
             fix_wires = []
             for inp in state.input_nodes:
-                is_output = False
+                is_output = inp in state.output_nodes
                 wire = [inp]
                 while not is_output:
                     out = state.flow(wire[-1])
-- 
2.43.0


From ee35e3a038ec81437c4cbe9eb8b258d78078bf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:12 +0000
Subject: [PATCH 52/62] fix: draw graph states

---
 mentpy/mbqc/view.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mentpy/mbqc/view.py b/mentpy/mbqc/view.py
index f08ebeb..03f1c92 100644
--- a/mentpy/mbqc/view.py
+++ b/mentpy/mbqc/view.py
@@ -122,6 +122,8 @@ def draw(state: Union[MBQCircuit, GraphState], fix_wires=None, **kwargs):
                 fix_wires.append(tuple(wire))
 
     if isinstance(state, GraphState):
+        options.pop("label")  # these options are only for circuits
+        options.pop("pauliop")
         nx.draw(state, ax=ax, **options)
 
     elif isinstance(state, MBQCircuit):
-- 
2.43.0


From 1cf0f71a94adff443a659ff6a6dc563eb9e3f4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:30 +0000
Subject: [PATCH 53/62] fix: noisy data sets reject unknown noise types

---
 mentpy/utils/generate_data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mentpy/utils/generate_data.py b/mentpy/utils/generate_data.py
index a4d588b..c7047c9 100644
--- a/mentpy/utils/generate_data.py
+++ b/mentpy/utils/generate_data.py
@@ -101,6 +101,9 @@ def generate_random_dataset_noisy(
     if noise_level > 1 or noise_level < 0:
         raise ValueError("noise_level must be between 0 and 1")
 
+    if noise_type not in ("brownian", "bitflip"):
+        raise ValueError("noise_type must be either 'brownian' or 'bitflip'")
+
     n_qubits = int(np.log2(unitary.shape[0]))
     random_inputs = [_generate_haar_random_state(n_qubits) for _ in range(n_samples)]
     n_samples = len(random_inputs)
-- 
2.43.0


From 97857c54344ee90de45d03881a6468b65c519325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:41 +0000
Subject: [PATCH 54/62] fix: numpy-dm samples outcomes whose probability rounds
 below zero

---
 mentpy/simulators/np_simulator_dm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mentpy/simulators/np_simulator_dm.py b/mentpy/simulators/np_simulator_dm.py
index 51850bd..7a37ff2 100644
--- a/mentpy/simulators/np_simulator_dm.py
+++ b/mentpy/simulators/np_simulator_dm.py
@@ -356,7 +356,9 @@ class NumpySimulatorDM(BaseSimulator):
             if COND:
                 outcome = prob1 / (prob0 + prob1)
             else:
-                outcome = np.random.choice([0, 1], p=[prob0, prob1] / (prob0 + prob1))
+                # rounding errors can make an impossible outcome slightly negative
+                probs = np.maximum([prob0, prob1], 0)
+                outcome = np.random.choice([0, 1], p=probs / probs.sum())
         else:
             if prob0 < 1e-4:
                 outcome = 1  # important when measuring Z's -- should make pretty
-- 
2.43.0


From 1af8ad7d2590f9f383964a6e5a70df18f4f3edb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:36 +0000
Subject: [PATCH 55/62] fix: find_flow finds every causal flow, whatever the
 labels

---
 mentpy/mbqc/flow.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mentpy/mbqc/flow.py b/mentpy/mbqc/flow.py
index 77ed5c0..7b2a170 100644
--- a/mentpy/mbqc/flow.py
+++ b/mentpy/mbqc/flow.py
@@ -409,7 +409,9 @@ def find_flow(graph: GraphState, input_nodes, output_nodes, sanity_check=True):
 
             state_flow = (flow, partial_order)
             if sanity_check:
-                if not check_if_flow(graph, inp, outp, flow, partial_order):
+                if not check_if_flow(
+                    graph, input_nodes, output_nodes, flow, partial_order
+                ):
                     raise RuntimeError(
                         "Sanity check found that flow does not satisfy flow conditions."
                     )
@@ -559,9 +561,10 @@ def _augmented_search(
     """
     visited[v] = iter
     if v in output_nodes:
+        fam.add_node(v)
         return (fam, visited, 1)
     if (
-        (v in fam.nodes())
+        (v in fam.nodes() and fam.in_degree(v) > 0)
         and (v not in input_nodes)
         and (visited[next(fam.predecessors(v))] < iter)
     ):
@@ -576,7 +579,7 @@ def _augmented_search(
         )
         if status:
             try:
-                fam = fam.remove_edge(next(fam.predecessors(v)), v)
+                fam.remove_edge(next(fam.predecessors(v)), v)
                 return (fam, visited, 1)
             except:
                 return (fam, visited, 0)
@@ -588,7 +591,7 @@ def _augmented_search(
                 and (w not in input_nodes)
                 and (not fam.has_edge(v, w))
             ):
-                if w not in fam.nodes():
+                if w not in fam.nodes() or fam.in_degree(w) == 0:
                     (fam, visited, status) = _augmented_search(
                         graph, input_nodes, output_nodes, fam, iter, visited, w
                     )
-- 
2.43.0


From 7afdbf0036cca163df33561ef6df81a1e59dfa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:03 +0000
Subject: [PATCH 56/62] fix: the measurement order is legal again once
 contradicting controls are removed

---
 mentpy/mbqc/mbqcircuit.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index a661063..a8f7a22 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -204,6 +204,8 @@ class MBQCircuit:
         if isinstance(value, ControlMent) and self._partial_order is not None:
             # recalculate measurement order
             self._measurement_order = self.calculate_order()
+        else:
+            self._repair_measurement_order()
 
     def __getitem__(self, key):
         r"""Return the value of the measurement of the node with index key."""
@@ -220,6 +222,7 @@ class MBQCircuit:
 
         self._measurements[key] = None
         self._update_attributes()
+        self._repair_measurement_order()
 
     @property
     def measurements(self) -> Dict[int, Ment]:
@@ -246,6 +249,8 @@ class MBQCircuit:
 
         if len(self.controlled_nodes) > 0 and self._partial_order is not None:
             self._measurement_order = self.calculate_order()
+        else:
+            self._repair_measurement_order()
 
     @property
     def graph(self) -> GraphState:
@@ -425,6 +430,14 @@ class MBQCircuit:
             if key in self._trainable_nodes:
                 self._trainable_nodes.remove(key)
 
+    def _repair_measurement_order(self) -> None:
+        """Recalculate the measurement order if it does not respect the partial order,
+        as after removing controls that contradicted the flow."""
+        if self._partial_order is not None and not _check_measurement_order(
+            self._measurement_order, self._partial_order
+        ):
+            self._measurement_order = self.calculate_order()
+
     def calculate_order(self):
         r"""Returns the order of the measurements"""
         n = len(self.graph)
-- 
2.43.0


From a874b260135a9c53ca96217fc5d791f426c1a9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:16 +0000
Subject: [PATCH 57/62] fix: causal flows of any depth are found

---
 mentpy/mbqc/flow.py | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/mentpy/mbqc/flow.py b/mentpy/mbqc/flow.py
index 7b2a170..d8c6d24 100644
--- a/mentpy/mbqc/flow.py
+++ b/mentpy/mbqc/flow.py
@@ -152,9 +152,12 @@ def find_cflow(graph: GraphState, input_nodes, output_nodes) -> object:
         if past[v] == 1:
             C_set = C_set.union({v})
 
-    flow, ln = causal_flow_aux(
-        graph, set(input_nodes), set(output_nodes), C_set, past, 1, g, l
-    )
+    flow, ln, corrected, k = g, l, set(output_nodes), 1
+    while len(C_set) > 0:
+        C_set = causal_flow_aux(
+            graph, set(input_nodes), corrected, C_set, past, k, g, l
+        )
+        k += 1
 
     if len(flow) != len(graph.nodes()) - len(output_nodes):
         return None, None, None, None
@@ -163,7 +166,7 @@ def find_cflow(graph: GraphState, input_nodes, output_nodes) -> object:
 
 
 def causal_flow_aux(graph: GraphState, inputs, outputs, C, past, k, g, l) -> object:
-    """Aux function for causal_flow"""
+    """Aux function for causal_flow: corrects one layer, returns the next correctors"""
     V = set(graph.nodes())
     C_prime = set()
 
@@ -184,20 +187,7 @@ def causal_flow_aux(graph: GraphState, inputs, outputs, C, past, k, g, l) -> obj
                     if past[w] == 1:
                         C_prime.add(w)
 
-    if len(C_prime) == 0:
-        return g, l
-
-    else:
-        return causal_flow_aux(
-            graph,
-            inputs,
-            outputs,
-            C_prime,
-            past,
-            k + 1,
-            g,
-            l,
-        )
+    return C_prime
 
 
 ### This section implements generalized flow -- Runs in time O(n^4)
-- 
2.43.0


From b6c2fa3f5351b6818a4465653afc93c5706780d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:08 +0000
Subject: [PATCH 58/62] fix: find_flow requires its paths to cover every node
 after rerouting

---
 mentpy/mbqc/flow.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mentpy/mbqc/flow.py b/mentpy/mbqc/flow.py
index d8c6d24..f69bbcd 100644
--- a/mentpy/mbqc/flow.py
+++ b/mentpy/mbqc/flow.py
@@ -530,7 +530,9 @@ def _build_path_cover(graph: GraphState, input_nodes: List, output_nodes: List):
         if not status:
             return status
 
-    if not len(set(graph.nodes) - set(fam.nodes())):
+    # nodes that left their path when it was rerouted are not covered
+    covered = {v for v in fam.nodes() if v in input_nodes or fam.in_degree(v) > 0}
+    if not len(set(graph.nodes) - covered):
         return fam
 
     return 0
-- 
2.43.0


From 0b0bb755be16fbdc6fa639d00216e9f65ab09db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:23 +0000
Subject: [PATCH 59/62] fix: the damping noises of the PennyLane simulator take
 their strengths

---
 mentpy/simulators/pennylane_simulator.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mentpy/simulators/pennylane_simulator.py b/mentpy/simulators/pennylane_simulator.py
index 4ddeecf..cdedac1 100644
--- a/mentpy/simulators/pennylane_simulator.py
+++ b/mentpy/simulators/pennylane_simulator.py
@@ -39,11 +39,17 @@ class PennylaneSimulator(BaseSimulator):
     def __init__(
         self, mbqcircuit: MBQCircuit, input_state: np.ndarray, *args, **kwargs
     ) -> None:
+        circuit_noise = kwargs.pop("circuit_noise", None)
+        noise_args = {"p": kwargs.pop("p", 0)}
+        if circuit_noise in ("amplitude_damping", "phase_damping"):
+            noise_args = {"gamma": noise_args["p"]}
+        elif circuit_noise == "generalized_amplitude_damping":
+            noise_args["gamma"] = kwargs.pop("gamma", 0)
         self.circuit = mbqcircuit_to_circuit(
             mbqcircuit,
             kwargs.pop("device", "default.qubit"),
-            kwargs.pop("circuit_noise", None),
-            p=kwargs.pop("p", 0),
+            circuit_noise,
+            **noise_args,
         )
         super().__init__(mbqcircuit, input_state)
 
-- 
2.43.0


From 3a3c212da5615642d7dc6fc491f4200519272e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:40 +0000
Subject: [PATCH 60/62] fix: fidelities of a circuit are sampled by running it

---
 mentpy/utils/expressivity.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/mentpy/utils/expressivity.py b/mentpy/utils/expressivity.py
index 616fdab..06dae62 100644
--- a/mentpy/utils/expressivity.py
+++ b/mentpy/utils/expressivity.py
@@ -11,6 +11,7 @@ from scipy.special import kl_div, rel_entr
 
 import pennylane as qml
 
+from mentpy.calculator import pure2density
 from mentpy.mbqc import MBQCircuit
 from mentpy.simulators import PatternSimulator
 from mentpy.utils.lc_equivalence import are_lc_equivalent
@@ -96,17 +97,19 @@ def sample_probability_density_of_fidelities(
     random_input_states = generate_haar_random_states(
         len(graph_state_circuit.input_nodes), n_samples
     )
+    if n_samples == 1:
+        random_input_states = [random_input_states]
     fidelities = []
 
     if backend == "pennylane":
-        qmlcircuit = pattern_simulator.graphstate_to_circuit()
         for random_st in random_input_states:
             random_pattern = (
-                2 * np.pi * np.random.rand(pattern_simulator.max_measure_number)
+                2 * np.pi * np.random.rand(len(graph_state_circuit.trainable_nodes))
             )
-            final_state = qmlcircuit(random_pattern, output="density")
-            fid = qml.math.fidelity(np.kron(random_st.T, random_st), final_state)
-            fidelities.append(fid)
+            final_state = pattern_simulator(random_pattern, input_state=random_st)
+            fid = qml.math.fidelity(pure2density(random_st), final_state)
+            # rounding errors can make it slightly larger than one
+            fidelities.append(min(fid, 1.0))
 
     # elif backend == "cirq":
     #     for random_st in random_input_states:
-- 
2.43.0


From 2ad2a41ffb6120cdc50d405ef9df647ca48964c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:36 +0000
Subject: [PATCH 61/62] fix: edge attributes play no role in the stabilizers of
 a graph state

---
 mentpy/mbqc/states/graphstate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mentpy/mbqc/states/graphstate.py b/mentpy/mbqc/states/graphstate.py
index 6ab6ca8..3e3f71e 100644
--- a/mentpy/mbqc/states/graphstate.py
+++ b/mentpy/mbqc/states/graphstate.py
@@ -112,7 +112,7 @@ def _get_stabilizers(graph: GraphState) -> List[PauliOp]:
     -----
     states
     """
-    z_mat = nx.adjacency_matrix(graph, dtype=int).todense()
+    z_mat = nx.adjacency_matrix(graph, dtype=int, weight=None).todense()
     x_mat = np.eye(graph.number_of_nodes(), dtype=int)
 
     return PauliOp(np.hstack((x_mat, z_mat)))
-- 
2.43.0


From 64f32265201a508b2694b52577219f4fafce5536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:36 +0000
Subject: [PATCH 62/62] fix: edge attributes play no role in the search for
 generalized flows

---
 mentpy/mbqc/flow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mentpy/mbqc/flow.py b/mentpy/mbqc/flow.py
index f69bbcd..db56ad5 100644
--- a/mentpy/mbqc/flow.py
+++ b/mentpy/mbqc/flow.py
@@ -197,7 +197,7 @@ def find_gflow(graph: GraphState, input_nodes, output_nodes) -> object:
     """Finds the generalized flow of a ``MBQCGraph`` if it exists.
     Retrieved from https://arxiv.org/pdf/0709.2670v1.pdf.
     """
-    gamma = nx.adjacency_matrix(graph).toarray()
+    gamma = nx.adjacency_matrix(graph, weight=None).toarray()
 
     l = {}
     g = {}
-- 
2.43.0

