From e31601d1cfdcb6edb6e85e42abfe68b91e258d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:58 +0000
Subject: [PATCH 01/25] fix: look up Sequence in collections.abc, so the input
 parameter works on Python 3.10 and later

---
 netomaton/evolution.py | 3 ++-
 netomaton/utils.py     | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index 0272482..d696e89 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -1,4 +1,5 @@
 import collections
+import collections.abc
 from enum import Enum
 from .state import State
 
@@ -418,7 +419,7 @@ def _get_input_function(timesteps=None, input=None):
 
 
 def _is_indexable(obj):
-    return isinstance(obj, collections.Sequence)
+    return isinstance(obj, collections.abc.Sequence)
 
 
 class _TimestepInputFunction:
diff --git a/netomaton/utils.py b/netomaton/utils.py
index 15eb8ee..cf8c02d 100644
--- a/netomaton/utils.py
+++ b/netomaton/utils.py
@@ -4,7 +4,7 @@ import numpy as np
 import matplotlib.pyplot as plt
 import matplotlib.animation as animation
 import matplotlib.collections as mcoll
-import collections
+import collections.abc
 from .state import State
 from .substitution_system import SubstitutionSystem
 try:
@@ -273,7 +273,7 @@ def plot1D(x, y, color=None, label=None, xlabel=None, ylabel=None, xlim=None, yl
     def _get_item(items, i):
         if isinstance(items, str):
             return items
-        if isinstance(items, collections.Sequence):
+        if isinstance(items, collections.abc.Sequence):
             return items[i]
         return items
 
-- 
2.43.0


From 3f58067569a69f5f57fd74fd240db818b148f1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:58 +0000
Subject: [PATCH 02/25] fix: majority_rule chooses a random state on a tie
 again (statistics.mode stopped raising in Python 3.8)

---
 netomaton/rules/activity_rule.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/netomaton/rules/activity_rule.py b/netomaton/rules/activity_rule.py
index 4d11ea7..21a2c32 100644
--- a/netomaton/rules/activity_rule.py
+++ b/netomaton/rules/activity_rule.py
@@ -1,4 +1,4 @@
-from statistics import mode, StatisticsError
+from collections import Counter
 import numpy as np
 
 
@@ -40,11 +40,13 @@ def majority_rule(ctx):
 
     :return: the new activity for the node with the given neighbourhood
     """
-    try:
-        return mode(ctx.neighbourhood_activities)
-    except StatisticsError:
-        # a StatisticsError is raised if there is a tie, and there is no single most common element
+    counts = Counter(ctx.neighbourhood_activities)
+    highest_count = max(counts.values())
+    most_common = [state for state, count in counts.items() if count == highest_count]
+    if len(most_common) > 1:
+        # there is a tie, and there is no single most common element
         return np.random.choice(ctx.neighbourhood_activities)
+    return most_common[0]
 
 
 def bits_to_int(bits):
-- 
2.43.0


From 7ca2d49c02e1349147c2217a4dcab7b769b39373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:58 +0000
Subject: [PATCH 03/25] fix: evolve stops for timesteps below 1 instead of
 running forever

---
 netomaton/evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index d696e89..5f72015 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -427,7 +427,7 @@ class _TimestepInputFunction:
         self._num_steps = num_steps
 
     def __call__(self, t, activities, network):
-        if t == self._num_steps:
+        if t >= self._num_steps:
             return None
         return "__timestep__"
 
-- 
2.43.0


From f46b8c14789a5caf06df7848f215769054a1cc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:58 +0000
Subject: [PATCH 04/25] fix: HeadCentricTuringMachine stops for max_timesteps
 below 1 instead of running forever

---
 netomaton/turing_machine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/turing_machine.py b/netomaton/turing_machine.py
index 9d9e20d..ba10dee 100644
--- a/netomaton/turing_machine.py
+++ b/netomaton/turing_machine.py
@@ -113,7 +113,7 @@ class HeadCentricTuringMachine(TuringMachine):
             raise Exception("unsupported direction: %s" % direction)
 
     def input_function(self, t, a, n):
-        if self._max_timesteps is not None and len(self._tape_history) == self._max_timesteps:
+        if self._max_timesteps is not None and len(self._tape_history) >= self._max_timesteps:
             return None
 
         if self._halt:
-- 
2.43.0


From 32072c06654a792a332cec60eae1eecf6baf036f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:58 +0000
Subject: [PATCH 05/25] fix: do not cache the neighbourhood map when a topology
 rule can change the network at every timestep

---
 netomaton/evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index 5f72015..2429ce1 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -205,7 +205,7 @@ def evolve(network, initial_conditions=None, activity_rule=None, timesteps=None,
                                                            memoize, memo_table, neighbourhood_map, memoization_key)
             curr_network = evolve_topology(topology_rule, t, curr_activities, prev_network,
                                            trajectory, copy_network, persist_network, added_nodes, removed_nodes)
-            if added_nodes or removed_nodes:
+            if (added_nodes or removed_nodes) and topology_rule is None:
                 # re-build the neighbourhood map, since the network has changed
                 neighbourhood_map = _get_neighbourhood_map(curr_network)
 
-- 
2.43.0


From d9919e2248c2a503c10a59d9575722a48a812ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:58 +0000
Subject: [PATCH 06/25] fix: do not perturb a node that removed itself

---
 netomaton/evolution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index 2429ce1..ab1029c 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -285,9 +285,9 @@ def do_activity_rule(t, inp, curr_activities, prev_activities, network, activity
         if node_label not in ctx.removed_nodes:
             curr_activities[node_label] = new_activity
 
-        if perturbation is not None:
-            pctx = PerturbationContext(node_label, curr_activities[node_label], t, node_in)
-            curr_activities[node_label] = perturbation(pctx)
+            if perturbation is not None:
+                pctx = PerturbationContext(node_label, curr_activities[node_label], t, node_in)
+                curr_activities[node_label] = perturbation(pctx)
 
     return added_nodes, removed_nodes
 
-- 
2.43.0


From 6db5275d9256a7b35c817497307144c2c0accc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:58 +0000
Subject: [PATCH 07/25] fix: convert NumPy scalars returned by a perturbation,
 as is done for activity rules

---
 netomaton/evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index ab1029c..42a8906 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -287,7 +287,7 @@ def do_activity_rule(t, inp, curr_activities, prev_activities, network, activity
 
             if perturbation is not None:
                 pctx = PerturbationContext(node_label, curr_activities[node_label], t, node_in)
-                curr_activities[node_label] = perturbation(pctx)
+                curr_activities[node_label] = check_np(perturbation(pctx))
 
     return added_nodes, removed_nodes
 
-- 
2.43.0


From ca24b94de5bbf2cf689cf08717b1eef2fc0808b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:58 +0000
Subject: [PATCH 08/25] fix: convert NumPy scalars in initial conditions given
 as a dict, as is done for a list

---
 netomaton/evolution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index 42a8906..a11bb17 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -167,6 +167,8 @@ def evolve(network, initial_conditions=None, activity_rule=None, timesteps=None,
     # convert initial_conditions to map, if it isn't already
     if not isinstance(initial_conditions, dict) and isinstance(initial_conditions, (list, np.ndarray)):
         initial_conditions = {i: check_np(v) for i, v in enumerate(initial_conditions)}
+    elif isinstance(initial_conditions, dict):
+        initial_conditions = {i: check_np(v) for i, v in initial_conditions.items()}
 
     input_fn = _get_input_function(timesteps, input)
 
-- 
2.43.0


From ef7938a661f5c2562f6833874bcdf9240370a081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:58 +0000
Subject: [PATCH 09/25] fix: a node removed by another node leaves the
 activities too, and may be removed by several nodes

---
 netomaton/evolution.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index a11bb17..b7651a3 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -249,6 +249,9 @@ def evolve_activities(activity_rule, t, inp, curr_activities, prev_activities, t
                                                       activity_rule, past, perturbation, memoize, memoization_table,
                                                       neighbourhood_map, memoization_key)
 
+        for node_label in removed_nodes:
+            curr_activities.pop(node_label, None)
+
         if added_nodes:
             for state, outgoing_links, node_label in added_nodes:
                 curr_activities[node_label] = check_np(state)
@@ -364,7 +367,7 @@ def evolve_topology(topology_rule, t, activities, prev_network, trajectory, copy
         network = network.copy()
 
         # adjust connectivity map according to node deletions and insertions
-        for node_label in removed_nodes:
+        for node_label in dict.fromkeys(removed_nodes):
             network.remove_node(node_label)
 
         for activity, outgoing_links, node_label in added_nodes:
-- 
2.43.0


From 82116f1ec322c06f66e6ee7742fca09c78c9906b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:35 +0000
Subject: [PATCH 10/25] fix: ignore added and removed nodes entirely when the
 topology is not evolved from them

---
 netomaton/evolution.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index b7651a3..a256953 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -216,7 +216,8 @@ def evolve(network, initial_conditions=None, activity_rule=None, timesteps=None,
                                            trajectory, copy_network, persist_network)
             # added and removed nodes are ignore in this case
             evolve_activities(activity_rule, t, inp, curr_activities, prev_activities, trajectory, curr_network, past,
-                              perturbation, persist_activities, memoize, memo_table, neighbourhood_map, memoization_key)
+                              perturbation, persist_activities, memoize, memo_table, neighbourhood_map, memoization_key,
+                              ignore_node_changes=True)
 
         elif update_order is UpdateOrder.SYNCHRONOUS:
             # TODO create test
@@ -224,7 +225,8 @@ def evolve(network, initial_conditions=None, activity_rule=None, timesteps=None,
                                            trajectory, copy_network, persist_network)
             # added and removed nodes are ignore in this case
             evolve_activities(activity_rule, t, inp, curr_activities, prev_activities, trajectory, prev_network, past,
-                              perturbation, persist_activities, memoize, memo_table, neighbourhood_map, memoization_key)
+                              perturbation, persist_activities, memoize, memo_table, neighbourhood_map, memoization_key,
+                              ignore_node_changes=True)
 
         else:
             raise Exception("unsupported update_order: %s" % update_order)
@@ -241,13 +243,13 @@ def evolve(network, initial_conditions=None, activity_rule=None, timesteps=None,
 
 def evolve_activities(activity_rule, t, inp, curr_activities, prev_activities, trajectory, network,
                       past, perturbation, persist_activities, memoize, memoization_table, neighbourhood_map,
-                      memoization_key):
+                      memoization_key, ignore_node_changes=False):
     added_nodes = []
     removed_nodes = []
     if activity_rule:
         added_nodes, removed_nodes = do_activity_rule(t, inp, curr_activities, prev_activities, network,
                                                       activity_rule, past, perturbation, memoize, memoization_table,
-                                                      neighbourhood_map, memoization_key)
+                                                      neighbourhood_map, memoization_key, ignore_node_changes)
 
         for node_label in removed_nodes:
             curr_activities.pop(node_label, None)
@@ -263,7 +265,7 @@ def evolve_activities(activity_rule, t, inp, curr_activities, prev_activities, t
 
 
 def do_activity_rule(t, inp, curr_activities, prev_activities, network, activity_rule, past, perturbation,
-                     memoize, memoization_table, neigh_map, memoization_key):
+                     memoize, memoization_table, neigh_map, memoization_key, ignore_node_changes=False):
     added_nodes = []
     removed_nodes = []
 
@@ -282,12 +284,12 @@ def do_activity_rule(t, inp, curr_activities, prev_activities, network, activity
             new_activity = activity_rule(ctx)
             new_activity = check_np(new_activity)
 
-        if ctx.added_nodes:
+        if ctx.added_nodes and not ignore_node_changes:
             added_nodes.extend(ctx.added_nodes)
-        if ctx.removed_nodes:
+        if ctx.removed_nodes and not ignore_node_changes:
             removed_nodes.extend(ctx.removed_nodes)
 
-        if node_label not in ctx.removed_nodes:
+        if ignore_node_changes or node_label not in ctx.removed_nodes:
             curr_activities[node_label] = new_activity
 
             if perturbation is not None:
-- 
2.43.0


From 7a0050ce6e8ba66a9342573f7192fc463839d923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:35 +0000
Subject: [PATCH 11/25] fix: past activities do not depend on whether (and how)
 activities are persisted

---
 netomaton/evolution.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index a256953..1b65b5d 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -191,13 +191,14 @@ def evolve(network, initial_conditions=None, activity_rule=None, timesteps=None,
     if topology_rule is None:
         neighbourhood_map = _get_neighbourhood_map(network)
 
+    past = _get_past_activities(past_conditions)
+
     t = 1
     while True:
         inp = input_fn(t, prev_activities, prev_network)
         if inp is None:
             break
 
-        past = _get_past_activities(past_conditions, trajectory, t)
         curr_activities = {}
         trajectory[t] = State(compression=compression)
 
@@ -231,6 +232,10 @@ def evolve(network, initial_conditions=None, activity_rule=None, timesteps=None,
         else:
             raise Exception("unsupported update_order: %s" % update_order)
 
+        if past is not None:
+            # the oldest of the past activities is dropped, and the most recent is added
+            past = past[1:] + [prev_activities]
+
         prev_activities = curr_activities
         prev_network = curr_network
 
@@ -390,18 +395,13 @@ def evolve_topology(topology_rule, t, activities, prev_network, trajectory, copy
     return network
 
 
-def _get_past_activities(past_conditions, trajectory, t):
-    if past_conditions and len(past_conditions) > 0:
-        past_activities = [None]*len(past_conditions)
-        last_t = t - 1
-        for i in range(len(past_conditions)-1, -1, -1):
-
-            curr_past_cond = past_conditions[last_t-1] if last_t < 1 else trajectory[last_t-1].activities
-            if not isinstance(curr_past_cond, dict) and isinstance(curr_past_cond, (list, np.ndarray)):
-                curr_past_cond = {i: v for i, v in enumerate(curr_past_cond)}
-
-            past_activities[i] = curr_past_cond
-            last_t -= 1
+def _get_past_activities(past_conditions):
+    if past_conditions is not None and len(past_conditions) > 0:
+        past_activities = []
+        for past_condition in past_conditions:
+            if not isinstance(past_condition, dict) and isinstance(past_condition, (list, np.ndarray)):
+                past_condition = {i: v for i, v in enumerate(past_condition)}
+            past_activities.append(past_condition)
         return past_activities
     return None
 
-- 
2.43.0


From ff84f7b5a23ba812e2286f4645e5ba55e7bed04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:37 +0000
Subject: [PATCH 12/25] fix: decompressing leaves the garbage collector as it
 was, also when it fails

---
 netomaton/state.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/netomaton/state.py b/netomaton/state.py
index 5a4723e..63f519f 100644
--- a/netomaton/state.py
+++ b/netomaton/state.py
@@ -346,7 +346,10 @@ class _Compressor:
 
         :return: a decompressed object
         """
+        gc_was_enabled = gc.isenabled()
         gc.disable()
-        d = msgpack.unpackb(packed, strict_map_key=False)
-        gc.enable()
-        return d
\ No newline at end of file
+        try:
+            return msgpack.unpackb(packed, strict_map_key=False)
+        finally:
+            if gc_was_enabled:
+                gc.enable()
\ No newline at end of file
-- 
2.43.0


From 2a3dae33fc2cda59bc837f68b391212815f7c526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:37 +0000
Subject: [PATCH 13/25] fix: an empty network, or no activities, is a valid
 state

---
 netomaton/evolution.py | 2 +-
 netomaton/state.py     | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index 1b65b5d..db7b581 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -386,7 +386,7 @@ def evolve_topology(topology_rule, t, activities, prev_network, trajectory, copy
         if copy_network:
             network = network.copy()
         network = topology_rule(TopologyContext(network, activities, t))
-        if not network:
+        if network is None:
             raise Exception("topology rule must return a network")
 
     if persist_network:
diff --git a/netomaton/state.py b/netomaton/state.py
index 63f519f..2b8e5e1 100644
--- a/netomaton/state.py
+++ b/netomaton/state.py
@@ -303,22 +303,22 @@ class State:
 
     @property
     def activities(self):
-        if self._activities:
+        if self._activities is not None:
             return _Compressor.decompress(self._activities) if self._compression else self._activities
 
     @activities.setter
     def activities(self, a):
-        if a:
+        if a is not None:
             self._activities = _Compressor.compress(a) if self._compression else a
 
     @property
     def network(self):
-        if self._network:
+        if self._network is not None:
             return Network.decompress(self._network) if self._compression else self._network
 
     @network.setter
     def network(self, n):
-        if n:
+        if n is not None:
             self._network = n.compress() if self._compression else n
 
 
-- 
2.43.0


From 6e406ec14b3298a85e7fd6603c28d91c511b8c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:37 +0000
Subject: [PATCH 14/25] fix: a node that is removed from a network is removed
 from its rotation system

---
 netomaton/state.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/netomaton/state.py b/netomaton/state.py
index 2b8e5e1..0f21f53 100644
--- a/netomaton/state.py
+++ b/netomaton/state.py
@@ -85,6 +85,9 @@ class Network:
             self._decrement_in_degree(j)
             self._remove_incoming(node_label, j)
         del self._network[node_label]
+        if self._rotation_system is not None:
+            self._rotation_system = {label: [i for i in incoming_nodes if i != node_label]
+                                     for label, incoming_nodes in self._rotation_system.items() if label != node_label}
 
     def remove_edge(self, i, j):
         """
-- 
2.43.0


From f552e04bff56934dbd160f9e80ab5133185ac70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:58 +0000
Subject: [PATCH 15/25] fix: topologies contain the nodes that have no
 connections

---
 netomaton/topology/networks.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/netomaton/topology/networks.py b/netomaton/topology/networks.py
index 2410044..1927e94 100644
--- a/netomaton/topology/networks.py
+++ b/netomaton/topology/networks.py
@@ -65,6 +65,9 @@ def lattice(dim, periodic=False, self_loops=False, first_label=0):
             continue
         network.add_edge(edge[1], edge[0])
         network.add_edge(edge[0], edge[1])
+    # nodes without any connections are also part of the network
+    for node in G.nodes:
+        network.add_node(node)
     return network
 
 
@@ -88,6 +91,9 @@ def from_adjacency_matrix(adj):
         for j, val in enumerate(row):
             if val != 0:
                 network.add_edge(i, j, weight=val)
+    # nodes without any connections are also part of the network
+    for i in range(len(adj)):
+        network.add_node(i)
     return network
 
 
@@ -142,6 +148,9 @@ def bipartite(set1, set2, edge_attributes=None):
             else:
                 attrs = edge_attributes[node1][node2]
                 network.add_edge_bidir(node1, node2, **attrs)
+    # the nodes of one set are also part of the network when the other set is empty
+    for node in [*set1, *set2]:
+        network.add_node(node)
     return network
 
 
-- 
2.43.0


From aa952a895f1ea840a394961aae1f118601c24b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:58 +0000
Subject: [PATCH 16/25] fix: lattice connects each node to itself, once, when
 self_loops is True

---
 netomaton/topology/networks.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/netomaton/topology/networks.py b/netomaton/topology/networks.py
index 1927e94..c9e6e1a 100644
--- a/netomaton/topology/networks.py
+++ b/netomaton/topology/networks.py
@@ -61,13 +61,16 @@ def lattice(dim, periodic=False, self_loops=False, first_label=0):
     G = nx.convert_node_labels_to_integers(G, first_label=first_label)
     network = ntm.Network()
     for edge in G.edges:
-        if edge[0] == edge[1] and not self_loops:
+        if edge[0] == edge[1]:
+            # a periodic dimension of size 1 gives a self-loop
             continue
         network.add_edge(edge[1], edge[0])
         network.add_edge(edge[0], edge[1])
     # nodes without any connections are also part of the network
     for node in G.nodes:
         network.add_node(node)
+        if self_loops:
+            network.add_edge(node, node)
     return network
 
 
-- 
2.43.0


From 843dfa10358145f69c4fe473d930a8df5e11bbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:58 +0000
Subject: [PATCH 17/25] fix: a cellular automaton that isn't periodic is
 rejected as unsupported instead of being made periodic

---
 netomaton/topology/networks.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/netomaton/topology/networks.py b/netomaton/topology/networks.py
index c9e6e1a..70716ed 100644
--- a/netomaton/topology/networks.py
+++ b/netomaton/topology/networks.py
@@ -26,7 +26,7 @@ def _shift_to_center(nodes, node_to_center_on):
 
 
 def cellular_automaton(n=200, r=1, ordered=True, periodic=True):
-    adjacency_matrix = adjacency.cellular_automaton(n, r, boundary="periodic")
+    adjacency_matrix = adjacency.cellular_automaton(n, r, boundary="periodic" if periodic else "fixed")
     network = from_adjacency_matrix(adjacency_matrix)
     if ordered:
         network.rotation_system = {node: _shift_to_center(list(network.in_edges(node).keys()), node)
@@ -35,7 +35,8 @@ def cellular_automaton(n=200, r=1, ordered=True, periodic=True):
 
 
 def cellular_automaton2d(rows, cols, r=1, neighbourhood="Moore", ordered=True, periodic=True):
-    adjacency_matrix = adjacency.cellular_automaton2d(rows, cols, r, neighbourhood, "periodic")
+    adjacency_matrix = adjacency.cellular_automaton2d(rows, cols, r, neighbourhood,
+                                                        "periodic" if periodic else "fixed")
     network = from_adjacency_matrix(adjacency_matrix)
     if ordered:
         network.rotation_system = {node: _shift_to_center(list(network.in_edges(node).keys()), node)
-- 
2.43.0


From 8f5b9c0f45bdfacca2c324920cf01cf295a4da0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:58 +0000
Subject: [PATCH 18/25] fix: SubstitutionSystem does not modify the rules it is
 given

---
 netomaton/substitution_system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/netomaton/substitution_system.py b/netomaton/substitution_system.py
index a561ae2..08f968e 100644
--- a/netomaton/substitution_system.py
+++ b/netomaton/substitution_system.py
@@ -4,10 +4,10 @@ from .state import Network
 
 class SubstitutionSystem:
     def __init__(self, axiom, rules, constants=None):
-        self._rules = rules
+        self._rules = dict(rules)
         self._constants = constants if constants else []
         self._rules.update({c: c for c in self._constants})
-        self._neighbourhood_size = self._get_neighbourhood_size(rules)
+        self._neighbourhood_size = self._get_neighbourhood_size(self._rules)
         self._initial_conditions = [s for s in axiom]
         self._dtype = type(self._initial_conditions[0])
         self._network = self._init_network(len(self._initial_conditions))
-- 
2.43.0


From a381a1f7bc78a9f861ce94f42ab18933b6456d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:58 +0000
Subject: [PATCH 19/25] fix: FungalGrowthModel uses a seed of 0, and a resource
 layer given as an array

---
 netomaton/fungal_growth_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/netomaton/fungal_growth_model.py b/netomaton/fungal_growth_model.py
index c1adeb7..7cb2917 100644
--- a/netomaton/fungal_growth_model.py
+++ b/netomaton/fungal_growth_model.py
@@ -29,7 +29,7 @@ class FungalGrowthModel:
         """
         self._R_E = R_E
         self._d = 4  # the maximum node degree allowable
-        if seed:
+        if seed is not None:
             np.random.seed(seed)
         self._verbose = verbose
 
@@ -42,7 +42,7 @@ class FungalGrowthModel:
         self._initial_network = ntm.Network(self._num_agents)
 
         # a boolean matrix (flattened to a vector) representing the availability of resource to an agent
-        if resource_layer:
+        if resource_layer is not None:
             assert len(resource_layer) == self._num_agents, \
                 "the size of the resource layer must match the number of agents"
             self._resource_layer = resource_layer
-- 
2.43.0


From 3c485fa0916904aacc122516c7073bf6ea646dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:58 +0000
Subject: [PATCH 20/25] fix: the temporal distance is limited by the number of
 timesteps, not by the number of nodes

---
 netomaton/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/analysis.py b/netomaton/analysis.py
index f8b2430..4f84561 100644
--- a/netomaton/analysis.py
+++ b/netomaton/analysis.py
@@ -105,7 +105,7 @@ def average_mutual_information(trajectory_or_activities, temporal_distance=1):
     else:
         activities = trajectory_or_activities
     num_cols = len(activities[0])
-    if not (0 < temporal_distance < num_cols):
+    if not (0 < temporal_distance < len(activities)):
         raise Exception("the temporal distance must be greater than 0 and less than the number of time steps")
     mutual_informations = []
     for i in range(0, num_cols):
-- 
2.43.0


From 821670c78c77850b4da04e481a3c1cee4ab4ad2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:58 +0000
Subject: [PATCH 21/25] fix: entropies of node states are computed over states,
 not over the characters of their names

---
 netomaton/analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/netomaton/analysis.py b/netomaton/analysis.py
index 4f84561..1a39fc0 100644
--- a/netomaton/analysis.py
+++ b/netomaton/analysis.py
@@ -40,7 +40,7 @@ def average_node_entropy(trajectory_or_activities):
     num_cols = len(activities[0])
     entropies = []
     for i in range(0, num_cols):
-        node_states_over_time = ''.join([str(x) for x in [y[i] for y in activities]])
+        node_states_over_time = [str(x) for x in [y[i] for y in activities]]
         entropy = shannon_entropy(node_states_over_time)
         entropies.append(entropy)
     return np.mean(entropies)
@@ -109,7 +109,7 @@ def average_mutual_information(trajectory_or_activities, temporal_distance=1):
         raise Exception("the temporal distance must be greater than 0 and less than the number of time steps")
     mutual_informations = []
     for i in range(0, num_cols):
-        node_states_over_time = ''.join([str(x) for x in [y[i] for y in activities]])
+        node_states_over_time = [str(x) for x in [y[i] for y in activities]]
         mi = mutual_information(node_states_over_time[:-temporal_distance], node_states_over_time[temporal_distance:])
         mutual_informations.append(mi)
     return np.mean(mutual_informations)
-- 
2.43.0


From b74ce206442bc0bd72c7e151c6b62523867b9ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:58 +0000
Subject: [PATCH 22/25] fix: network_to_config keeps the order of ten or more
 relations

---
 netomaton/wolfram_physics_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/wolfram_physics_model.py b/netomaton/wolfram_physics_model.py
index 36be62e..da1dbb8 100644
--- a/netomaton/wolfram_physics_model.py
+++ b/netomaton/wolfram_physics_model.py
@@ -70,7 +70,7 @@ class WolframPhysicsModel:
                 merged_hyperedges[edge_label] = tuple(merged)
 
         edges.update(merged_hyperedges)
-        config = [edges[label] for label in sorted(edges)]  # sort so that we can preserve the order of the relations
+        config = [edges[label] for label in sorted(edges, key=int)]  # sort so that we can preserve the order of the relations
 
         return config
 
-- 
2.43.0


From ff304025817035c662085db20744576a8f5f4b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:58 +0000
Subject: [PATCH 23/25] fix: AsynchronousRule shuffles the given update order,
 not the indices of its entries

---
 netomaton/asynchronous_rule.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/netomaton/asynchronous_rule.py b/netomaton/asynchronous_rule.py
index 2016ae7..2b5afee 100644
--- a/netomaton/asynchronous_rule.py
+++ b/netomaton/asynchronous_rule.py
@@ -25,16 +25,17 @@ class AsynchronousRule:
         self._activity_rule = activity_rule
         if update_order is not None:
             self._update_order = update_order
+            self._node_labels = list(update_order)
         else:
-            self._shuffle_update_order(n)
+            self._node_labels = list(range(n))
+            self._shuffle_update_order()
         self._curr = 0
         self._num_applied = 0
         self._randomize_each_cycle = randomize_each_cycle
 
-    def _shuffle_update_order(self, n):
-        self._update_order = np.arange(n)
+    def _shuffle_update_order(self):
+        self._update_order = list(self._node_labels)
         np.random.shuffle(self._update_order)
-        self._update_order = self._update_order.tolist()
 
     def __call__(self, ctx):
         if ctx.node_label in self._update_order:
@@ -53,4 +54,4 @@ class AsynchronousRule:
             self._curr = (self._curr + 1) % len(self._update_order)
             self._num_applied = 0
             if self._randomize_each_cycle:
-                self._shuffle_update_order(len(self._update_order))
+                self._shuffle_update_order()
-- 
2.43.0


From a968aa8fc23d59771550d032a1021e47388b68e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:53 +0000
Subject: [PATCH 24/25] fix: each node receives its own input when the inputs
 are given as a NumPy array

---
 netomaton/evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index db7b581..02234d2 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -426,7 +426,7 @@ def _get_input_function(timesteps=None, input=None):
 
 
 def _is_indexable(obj):
-    return isinstance(obj, collections.abc.Sequence)
+    return isinstance(obj, (collections.abc.Sequence, np.ndarray))
 
 
 class _TimestepInputFunction:
-- 
2.43.0


From 099b7cc44e2199306ea47a5784c96016303af0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:33 +0000
Subject: [PATCH 25/25] fix: joint entropies are summed in an order that does
 not depend on string hashing

---
 netomaton/analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/netomaton/analysis.py b/netomaton/analysis.py
index 1a39fc0..418c49f 100644
--- a/netomaton/analysis.py
+++ b/netomaton/analysis.py
@@ -59,8 +59,8 @@ def joint_shannon_entropy(stringX, stringY):
     X = np.array(list(stringX))
     Y = np.array(list(stringY))
     joint_symbol_probabilities = []
-    for x in set(X):
-        for y in set(Y):
+    for x in dict.fromkeys(X):
+        for y in dict.fromkeys(Y):
             joint_symbol_probabilities.append(np.mean(np.logical_and(X == x, Y == y)))
     return sum(-p * np.log2(p) for p in joint_symbol_probabilities if p != 0)
 
-- 
2.43.0

