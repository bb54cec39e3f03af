From d7b8177154cf8aa183bb931d9735a8395667e0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:54 +0000
Subject: [PATCH 01/25] fix: build one trajectory tree per possible start state

ndarray.nonzero() returns one index array per dimension; iterating over it gave
a single tree starting from a vector that is not even normalised.
---
 task_models/lib/pomdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/lib/pomdp.py b/task_models/lib/pomdp.py
index 338e83d..daf7d5f 100644
--- a/task_models/lib/pomdp.py
+++ b/task_models/lib/pomdp.py
@@ -505,7 +505,7 @@ class GraphPolicyBeliefRunner(GraphPolicyRunner):
     def trajectory_trees_from_starts(self, horizon=5):
         start = self.pomdp.start
         trees = []
-        for s in start.nonzero():
+        for s in start.nonzero()[0]:
             b = np.zeros(start.shape)
             b[s] = 1.
             self.reset(belief=b)
-- 
2.43.0


From b5360dd12c631cddfca8ea155857b7d9c26d8fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:03 +0000
Subject: [PATCH 02/25] fix: refuse solver successors beyond the last node and
 skip blank lines

A successor equal to the number of nodes was accepted and made the policy fail
later; a policy graph without any successor or with a blank line could not be
loaded at all.
---
 task_models/lib/pomdp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/task_models/lib/pomdp.py b/task_models/lib/pomdp.py
index daf7d5f..089f7f9 100644
--- a/task_models/lib/pomdp.py
+++ b/task_models/lib/pomdp.py
@@ -44,13 +44,13 @@ def parse_value_function(reader):
 def parse_policy_graph(reader):
     actions = []
     transitions = []
-    for i, line in enumerate(reader):
+    for line in reader:
         line = line.rstrip('\n').rstrip()
-        if not line.isspace():
+        if line:
             # 'N A  Z1 Z2 Z3'.split(' ') -> ['N', 'A', '', 'Z1', 'Z2', 'Z3']
             l = line.split(' ')
             n = int(l[0])  # Node name
-            assert(n == i)
+            assert(n == len(actions))
             actions.append(int(l[1]))
             transitions.append([None if x == '-' else int(x) for x in l[3:]])
     return actions, transitions
@@ -372,7 +372,7 @@ class POMDP:
             actions2, pg = parse_policy_graph(pf)
         assert(actions == actions2)  # policy and value function share actions
         assert(max(actions) < len(self.actions))  # actions are well-formed
-        assert(max([t for ts in pg for t in ts if t is not None]) <= len(pg))
+        assert(all([t < len(pg) for ts in pg for t in ts if t is not None]))
         # (transitions are well-formed)
         action_names = [self.actions[a] for a in actions]
         return GraphPolicy(action_names, self.observations, pg, vf,
-- 
2.43.0


From bc26ba81ff57e21ebfd48f2c25aa9cd2720554f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:46:40 +0000
Subject: [PATCH 03/25] fix: hash states, beliefs, conditions and boards
 consistently with equality

Equal values hashed differently when their arrays had different number types or
their parts were inserted in different orders; vector states could not be
compared at all and comparisons of different shapes or with other actions raised.
---
 task_models/action.py       | 4 ++--
 task_models/lib/belief.py   | 4 ++--
 task_models/snap_circuit.py | 2 +-
 task_models/state.py        | 8 +++++++-
 4 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/task_models/action.py b/task_models/action.py
index 40e3fd2..834241e 100644
--- a/task_models/action.py
+++ b/task_models/action.py
@@ -24,7 +24,7 @@ class Condition(object):
         self.value = value
 
     def __hash__(self):
-        return hash((self.mask.tostring(), self.value.tostring()))
+        return hash((tuple(self.mask.flatten()), tuple(self.value.flatten())))
 
     def __eq__(self, other):
         return (isinstance(other, Condition) and
@@ -86,7 +86,7 @@ class PrePostConditionAction(Action):
         return hash((self.pre, self.post))
 
     def __eq__(self, other):
-        return (isinstance(other, Action) and
+        return (isinstance(other, PrePostConditionAction) and
                 self.pre == other.pre and
                 self.post == other.post)
 
diff --git a/task_models/lib/belief.py b/task_models/lib/belief.py
index 0e43555..2eebd36 100644
--- a/task_models/lib/belief.py
+++ b/task_models/lib/belief.py
@@ -22,11 +22,11 @@ class ArrayBelief(BaseBelief):
         assert_normal(self.array, name='probabilities')
 
     def __hash__(self):
-        return hash(self.array.tostring())
+        return hash(tuple(self.array.flatten()))
 
     def __eq__(self, other):
         return (isinstance(other, ArrayBelief) and
-                (self.array == other.array).all())
+                np.array_equal(self.array, other.array))
 
     def sample(self):
         return np.random.choice(self.array.shape[0], p=self.array)
diff --git a/task_models/snap_circuit.py b/task_models/snap_circuit.py
index 3b120c6..88ce6e4 100644
--- a/task_models/snap_circuit.py
+++ b/task_models/snap_circuit.py
@@ -48,7 +48,7 @@ class SnapCircuitState(State):
         self._parts = set(parts)
 
     def __hash__(self):
-        return hash((self._shape, tuple(self.parts)))
+        return hash((self._shape, frozenset(self.parts)))
 
     def __eq__(self, other):
         return (isinstance(other, SnapCircuitState) and
diff --git a/task_models/state.py b/task_models/state.py
index af9bb40..ab115da 100644
--- a/task_models/state.py
+++ b/task_models/state.py
@@ -6,6 +6,8 @@ with the `task.py` module, states must be hashable and implement a method
 that yield a feature vector from the state.
 """
 
+import numpy as np
+
 
 class State(object):
     """Any kind of state. Must be hashable and are immutable.
@@ -32,7 +34,11 @@ class NDimensionalState(State):
         self.features = vector
 
     def __hash__(self):
-        return hash(self.features.tostring())
+        return hash(tuple(self.features.flatten()))
+
+    def __eq__(self, other):
+        return (isinstance(other, NDimensionalState) and
+                np.array_equal(self.features, other.features))
 
     @property
     def n_dim(self):
-- 
2.43.0


From e3d5e1b359f7a0d087c379126476ff77231437af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:22:11 +0000
Subject: [PATCH 04/25] fix: keep the final flag when copying a horizon

---
 task_models/evaluation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/task_models/evaluation.py b/task_models/evaluation.py
index b34228f..4dde7b0 100644
--- a/task_models/evaluation.py
+++ b/task_models/evaluation.py
@@ -31,7 +31,9 @@ class FinishedOrNTransitionsHorizon(NTransitionsHorizon):
         self._is_final = self.model._int_to_state(new_s).is_final()
 
     def copy(self):
-        return FinishedOrNTransitionsHorizon(self.model, self.n)
+        other = FinishedOrNTransitionsHorizon(self.model, self.n)
+        other._is_final = self._is_final
+        return other
 
     @classmethod
     def generator(cls, model, n=100):
-- 
2.43.0


From 0319b698dc9290348a67973c26d95c443fd6ef2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:47:55 +0000
Subject: [PATCH 05/25] fix: label exported quotient-belief children by their
 position

---
 task_models/lib/pomcp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/task_models/lib/pomcp.py b/task_models/lib/pomcp.py
index 4194f96..0e02cf1 100644
--- a/task_models/lib/pomcp.py
+++ b/task_models/lib/pomcp.py
@@ -622,8 +622,8 @@ def export_pomcp(policy, destination, belief_as_quotient=False):
                 child = children[i]
                 d['observations'] = child['observations']
                 d['children'] = child['children']
-                for c, o in zip(d['children'], d['observations']):
-                    c['observed'] = model.observations.index(o)
+                for i, c in enumerate(d['children']):
+                    c['observed'] = i  # index in d['observations']
             return d
 
         dic['graphs'] = [policy.tree.map(to_dict, join_children)]
-- 
2.43.0


From ac15736f2eefcf6f717e0093b40f2127b872c444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:54:14 +0000
Subject: [PATCH 06/25] fix: stop the exploring thread on current Python
 versions

Thread.isAlive is gone, and overriding Thread._stop keeps is_alive true.
---
 task_models/lib/pomcp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/task_models/lib/pomcp.py b/task_models/lib/pomcp.py
index 0e02cf1..f4dbbe2 100644
--- a/task_models/lib/pomcp.py
+++ b/task_models/lib/pomcp.py
@@ -532,11 +532,11 @@ class AsyncPOMCPPolicyRunner(POMCPPolicyRunner):
             self._done = False
             self._lock = threading.Lock()
 
-        def _stop(self):
+        def _set_done(self):
             self._done = True
 
         def stop(self):
-            self.execute(self._stop)
+            self.execute(self._set_done)
 
         def execute(self, fun, *args, **kwargs):
             """Waits until current exploration is done and execute fun.
@@ -583,7 +583,7 @@ class AsyncPOMCPPolicyRunner(POMCPPolicyRunner):
 
     def stop(self):
         self.thread.stop()
-        if self.thread.isAlive():
+        if self.thread.is_alive():
             self.thread.join()
 
     def execute(self, *args, **kwargs):
-- 
2.43.0


From 4bfe8ac5ce0649cc319eb30e0b540cbeb9665825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:54:14 +0000
Subject: [PATCH 07/25] fix: move to the next node between two explorations

---
 task_models/lib/pomcp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/task_models/lib/pomcp.py b/task_models/lib/pomcp.py
index f4dbbe2..ea52b4e 100644
--- a/task_models/lib/pomcp.py
+++ b/task_models/lib/pomcp.py
@@ -568,8 +568,12 @@ class AsyncPOMCPPolicyRunner(POMCPPolicyRunner):
         self.thread.start()
 
     def step(self, observation):
+        # The lookup may create nodes so must not happen during exploration
+        self.thread.execute(self._step, observation)
+
+    def _step(self, observation):
         super(AsyncPOMCPPolicyRunner, self).step(observation)
-        self.thread.execute(self.thread.set_node, self._node)
+        self.thread.set_node(self._node)
 
     def reset(self, belief=None):
         self._reset(belief=belief)
-- 
2.43.0


From 877212c680a4bfa61d599bb2c2f9c3ff5c50c8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:09:29 +0000
Subject: [PATCH 08/25] fix: index preference marginals with a tuple

---
 task_models/supportive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/supportive.py b/task_models/supportive.py
index 800c26e..8adfc24 100644
--- a/task_models/supportive.py
+++ b/task_models/supportive.py
@@ -209,7 +209,7 @@ class _SupportivePOMDPState(object):
         def sum_all_but(arr, axis):
             iii = [slice(None) for _ in arr.shape]
             iii[axis] = -1
-            return arr[iii].sum()
+            return arr[tuple(iii)].sum()
 
         return [sum_all_but(pp, i) for i, _ in enumerate(pp.shape)]
 
-- 
2.43.0


From aa511e2f5c7159e080fd8d15037843b8d4f8f4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:09:29 +0000
Subject: [PATCH 09/25] fix: copy supportive states with their number of task
 nodes

---
 task_models/supportive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/supportive.py b/task_models/supportive.py
index 8adfc24..444c4fd 100644
--- a/task_models/supportive.py
+++ b/task_models/supportive.py
@@ -224,7 +224,7 @@ class _SupportivePOMDPState(object):
             self.set_preference(i, 1 - self.has_preference(i))
 
     def copy(self):
-        return type(self)(self.n_htm + 1, self.n_preferences,
+        return type(self)(self.n_htm, self.n_preferences,
                           self.n_body_features, self.n_objects, s=self.s)
 
 
-- 
2.43.0


From 8deb8cf9ff55e5d05881c4629093527edea156b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:15:41 +0000
Subject: [PATCH 10/25] fix: keep all attributes of the actions of parallel
 tasks

Copies made by ParallelCombination.to_alternative lost the class and the
attributes of the action (conditions, hold, object).
---
 task_models/action.py        | 8 ++++++++
 task_models/task.py          | 3 ---
 task_models/task_to_pomdp.py | 6 ------
 3 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/task_models/action.py b/task_models/action.py
index 834241e..1d67b78 100644
--- a/task_models/action.py
+++ b/task_models/action.py
@@ -8,6 +8,8 @@ simultaneously satisfied.
 """
 
 
+from copy import copy
+
 import numpy as np
 
 
@@ -65,6 +67,12 @@ class Action(object):
     def __str__(self):
         return self.name
 
+    def copy(self, rename_format='{}'):
+        """Copies the action with all its attributes, under a new name."""
+        new = copy(self)
+        new.name = rename_format.format(self.name)
+        return new
+
     def check(self, before, after):
         """Checks whether the action can explain a transition from the before
         and after states.
diff --git a/task_models/task.py b/task_models/task.py
index 6c7866e..4a91afa 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -226,9 +226,6 @@ class AbstractAction(Action):
     def check(self, pre, post):
         return True
 
-    def copy(self, rename_format='{}'):
-        return AbstractAction(rename_format.format(self.name))
-
 
 class ConjugateTaskGraph(BaseGraph):
 
diff --git a/task_models/task_to_pomdp.py b/task_models/task_to_pomdp.py
index 8293350..bd5871e 100644
--- a/task_models/task_to_pomdp.py
+++ b/task_models/task_to_pomdp.py
@@ -40,12 +40,6 @@ class CollaborativeAction(AbstractAction):
         self.no_proba = no_probability
         self.fail_proba = fail_probability
 
-    def copy(self, rename_format):
-        return CollaborativeAction(
-            rename_format.format(self.name), self.durations,
-            human_probability=self.h_proba, fail_probability=self.fail_proba,
-            no_probability=self.no_proba)
-
 
 def _name_radix(action):
     return action.name.lower().replace(' ', '-')
-- 
2.43.0


From 2a1751c4ae29ff3fb76ca9fca965286316a8215b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:15:56 +0000
Subject: [PATCH 11/25] fix: keep the probabilities given to an alternative

---
 task_models/task.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/task_models/task.py b/task_models/task.py
index 4a91afa..71ca616 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -470,7 +470,6 @@ class AlternativeCombination(Combination):
 
     def __init__(self, children, **xargs):
         super(AlternativeCombination, self).__init__(children, **xargs)
-        self.proba = None
 
     @property
     def proba(self):
-- 
2.43.0


From 715e423682e0ead4827cd339ca9933a788c266af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:33:06 +0000
Subject: [PATCH 12/25] fix: conjugate task graphs with states that no action
 leaves

---
 task_models/task.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/task_models/task.py b/task_models/task.py
index 71ca616..4f9d712 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -238,7 +238,7 @@ class ConjugateTaskGraph(BaseGraph):
         tg.check_only_deterministic_transitions()
         # Add transitions of the form: initial --(s_init)--> a
         for s in tg.initial:
-            for (a, _) in tg.transitions[s]:
+            for (a, _) in tg.transitions.get(s, ()):
                 ctg.add_transition(ctg.initial, s, a)
         for outgoings in tg.transitions.values():  # Whatever origin state
             for (a, next_state) in outgoings:
@@ -247,7 +247,8 @@ class ConjugateTaskGraph(BaseGraph):
                     ctg.add_transition(a, next_state, ctg.terminal)
                 else:
                     # Look ahead...
-                    for (next_action, _) in tg.transitions[next_state]:
+                    for (next_action, _) in tg.transitions.get(
+                            next_state, ()):
                         # ...and add transitions of the form: a --(s')--> a'
                         ctg.add_transition(a, next_state, next_action)
         return ctg
-- 
2.43.0


From f79e89bc6c487a1efccb6aaab595904f1ce632bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:33:06 +0000
Subject: [PATCH 13/25] fix: ignore loops when searching cliques of a task
 graph

---
 task_models/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/task.py b/task_models/task.py
index 4f9d712..cf9aabe 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -316,7 +316,7 @@ class ConjugateTaskGraph(BaseGraph):
         unique = set((s, d) for (s, _, d) in self.all_transitions())
         symmetric = {n: set() for n in self.all_nodes()}
         for s, d in unique:
-            if (d, s) in unique:
+            if s != d and (d, s) in unique:
                 symmetric[s].add(d)
                 symmetric[d].add(s)
         return max_cliques(symmetric)
-- 
2.43.0


From 8407f0b3bc0f2a4eca4d0463fa54af10826d22fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:33:06 +0000
Subject: [PATCH 14/25] fix: report each chain once and terminate on cycles and
 empty graphs

---
 task_models/task.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/task_models/task.py b/task_models/task.py
index cf9aabe..5e46dd1 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -266,8 +266,9 @@ class ConjugateTaskGraph(BaseGraph):
 
         :returns: iterator over chains (as lists)
         """
-        in_degree = {}
+        in_degree = {self.initial: 1}  # entered by starting
         unique_transitions = {n: set() for n in self.all_nodes()}
+        unique_transitions.setdefault(self.initial, set())
         for (s, l, d) in self.all_transitions():
             if d not in unique_transitions[s]:
                 in_degree[d] = in_degree.get(d, 0) + 1
@@ -300,7 +301,8 @@ class ConjugateTaskGraph(BaseGraph):
                         done = True
                         explore_successors(next_node)
                 else:
-                    to_explore.add(next_node)
+                    if next_node not in explored:
+                        to_explore.add(next_node)
                     done = True
                 if done:
                     if len(chain) > 1:
-- 
2.43.0


From 868d3411cca060ee12c6acb2187ae4e4add7870d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:33:06 +0000
Subject: [PATCH 15/25] fix: convert meta-actions to the combination of their
 kind

---
 task_models/task.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/task_models/task.py b/task_models/task.py
index 5e46dd1..a644689 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -358,7 +358,7 @@ class MetaAction(AbstractAction):
         children = [
             a.to_combination() if isinstance(a, MetaAction) else LeafCombination(a)
             for a in self.actions]
-        return COMBINATION_CLASSES[self.kind](children)
+        return META_COMBINATION_CLASSES[self.kind](children)
 
     @classmethod
     def _name(cls, kind, actions):
@@ -605,3 +605,9 @@ COMBINATION_CLASSES = {'Sequential': SequentialCombination,
                        'Parallel': ParallelCombination,
                        'Alternative': AlternativeCombination,
                        }
+
+# For the kinds of meta-actions
+META_COMBINATION_CLASSES = {'sequence': SequentialCombination,
+                            'parallel': ParallelCombination,
+                            'alternative': AlternativeCombination,
+                            }
-- 
2.43.0


From db9386313d2f6a8796e229d144e17c2267796553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:33:06 +0000
Subject: [PATCH 16/25] fix: build leaves without agent and highlighted nodes
 of task trees

---
 task_models/json_to_htm.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/task_models/json_to_htm.py b/task_models/json_to_htm.py
index 0efbf1a..fb0b791 100644
--- a/task_models/json_to_htm.py
+++ b/task_models/json_to_htm.py
@@ -14,10 +14,14 @@ def build_htm(node):
     idx = node['id']
     parent = node['parent']
 
-    # Base case, if no children than node is an action
-    if node['attributes']:
+    highlighted = 'highlighted' in node['attributes']
+
+    # Base case, if no combination then node is an action
+    if combination is None:
         agent = [a for a in node['attributes'] if not a == 'highlighted']
-        return LeafCombination(Action(name=name, agent=agent[0]), idx=idx, parent=parent)
+        action = Action(name=name, agent=agent[0]) if agent else Action(name=name)
+        return LeafCombination(action, idx=idx, parent=parent,
+                               highlighted=highlighted)
 
     children = []
     for c in node['children']:
@@ -25,7 +29,8 @@ def build_htm(node):
         children.append(build_htm(c))
 
     # Will wrap subtree in a combination depending on combination attribute
-    return COMBINATION_CLASSES[combination](children, name=name, idx=idx, parent=parent)
+    return COMBINATION_CLASSES[combination](children, name=name, idx=idx, parent=parent,
+                                            highlighted=highlighted)
 
 
 def json_to_htm(json_path):
-- 
2.43.0


From 936b8d0c845815b7529c5138aa5865116da414e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:08:06 +0000
Subject: [PATCH 17/25] fix: return to the start distribution at the end of
 looping tasks

---
 task_models/task_to_pomdp.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/task_models/task_to_pomdp.py b/task_models/task_to_pomdp.py
index bd5871e..9fc62a1 100644
--- a/task_models/task_to_pomdp.py
+++ b/task_models/task_to_pomdp.py
@@ -403,12 +403,12 @@ class HTMToPOMDP:
         if subtask_reward is not None:
             self.flags.add('subtask_reward')
 
-    def update_T_end(self, T, init):
+    def update_T_end(self, T, start):
+        if 'reward_state' in self.flags:
+            T[:, self.endr, self.end] = 1.  # go to end after reward
         if 'loop' in self.flags:
-            T[:, self.end, init] = 1.  # go back to start
+            T[:, self.end, :] = start  # go back to start
         else:
-            if 'reward_state' in self.flags:
-                T[:, self.endr, self.end] = 1.  # go to end after reward
             T[:, self.end, self.end] = 1.  # end stats is stable
 
     def update_O_wait(self, O):
@@ -444,7 +444,7 @@ class HTMToPOMDP:
         durations = [self.t_wait] + n2p.durations
         T = np.zeros((n_a, n_s, n_s))
         n2p.update_T(T, self.wait, 1, 0, [end], [1.], durations)
-        self.update_T_end(T, n2p.init)
+        self.update_T_end(T, start)
         O = np.zeros((n_a, n_s, n_o))
         n2p.update_O(O, 1, 0, [end], [], [end])
         self.update_O_wait(O)
-- 
2.43.0


From 909a4ca630dab246deb4152f0ae758649f65e778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:08:07 +0000
Subject: [PATCH 18/25] fix: leave deterministic steps with the probabilities
 of their next steps

---
 task_models/task_to_pomdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/task_to_pomdp.py b/task_models/task_to_pomdp.py
index 9fc62a1..6f58112 100644
--- a/task_models/task_to_pomdp.py
+++ b/task_models/task_to_pomdp.py
@@ -195,7 +195,7 @@ class _LeafToPOMDP(_NodeToPOMDP):
         if 'deterministic' in self.flags:
             T[:, s_h, s_h] = 1.
             T[a_af, s_h, s_h] = 0.
-            T[a_af, s_h, s_next] = uniform(len(s_next))
+            T[a_af, s_h, s_next] = s_next_probas
         else:
             p_h_not_finish = self._h_probas_not_finished_from_d(
                     np.asarray(durations))
-- 
2.43.0


From f7f2c836436b603325b5afb02b6ad3b9b4fbea45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:08:20 +0000
Subject: [PATCH 19/25] fix: start alternatives with their own probabilities

---
 task_models/bring_next_to_pomdp.py | 7 ++-----
 task_models/task_to_pomdp.py       | 5 +----
 2 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/task_models/bring_next_to_pomdp.py b/task_models/bring_next_to_pomdp.py
index 4381b6f..31bf46f 100644
--- a/task_models/bring_next_to_pomdp.py
+++ b/task_models/bring_next_to_pomdp.py
@@ -4,8 +4,7 @@ from .lib.pomdp import POMDP
 from .task import (AbstractAction, SequentialCombination,
                    AlternativeCombination, LeafCombination,
                    ParallelCombination)
-from .task_to_pomdp import (_name_radix, _start_indices_from, concatenate,
-                            uniform)
+from .task_to_pomdp import _name_radix, _start_indices_from, concatenate
 
 
 LOOP = 'loop'
@@ -156,10 +155,8 @@ class _AlternativesToPOMDP(_ParentNodeToPOMDP):
 
     @property
     def start(self):
-        ps = uniform(len(self.children))  # Use uniform probability by default
-        # TODO: add argument to AlternativeCombination for other probabilities
         return concatenate([[x * p for x in c.start]
-                            for c, p in zip(self.children, ps)])
+                            for c, p in zip(self.children, self.node.proba)])
 
     def update_T(self, T, builder, s_start, s_next, s_next_probas):
         for i, c in enumerate(self.children):
diff --git a/task_models/task_to_pomdp.py b/task_models/task_to_pomdp.py
index 6f58112..ea82865 100644
--- a/task_models/task_to_pomdp.py
+++ b/task_models/task_to_pomdp.py
@@ -356,11 +356,8 @@ class _AlternativesToPOMDP(_ParentNodeToPOMDP):
 
     @property
     def start(self):
-        nc = len(self.children)
-        ps = uniform(nc)  # Use uniform probability by default
-        # TODO: add argument to AlternativeCombination for other probabilities
         return concatenate([[x * p for x in c.start]
-                            for c, p in zip(self.children, ps)])
+                            for c, p in zip(self.children, self.node.proba)])
 
     def update_T(self, T, a_wait, a_start, s_start, s_next, s_next_probas,
                  durations):
-- 
2.43.0


From ca6eeb1c841e2f918c571699986334407bca2d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:08:20 +0000
Subject: [PATCH 20/25] fix: cost of telling intentions in structured models

---
 task_models/task_to_pomdp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/task_models/task_to_pomdp.py b/task_models/task_to_pomdp.py
index ea82865..f581ebc 100644
--- a/task_models/task_to_pomdp.py
+++ b/task_models/task_to_pomdp.py
@@ -264,8 +264,8 @@ class _LeafToPOMDP(_NodeToPOMDP):
         R[a_phy, s_r, :, :] = self.t_rob + intr_cost
         if 'structured' in self.flags:
             R[a_ti, :, :, :] = 100
-            R[a_ti, s_i, s_h, :] = self.t_com + intr_cost
-            R[a_ti, s_i, s_r, :] = self.t_com + intr_cost
+            R[a_ti, s_i, s_h, :] = self.t_tell + intr_cost
+            R[a_ti, s_i, s_r, :] = self.t_tell + intr_cost
         if 'subtask_reward' in self.flags:
             # Value transitions to any other node
             R[:, s_start:(s_start + 3), :s_start, :] -= self.subtask_reward
-- 
2.43.0


From 95c01656fba66df2258130bdf04adbe596159bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:08:20 +0000
Subject: [PATCH 21/25] fix: report unknown combinations with the intended
 error

---
 task_models/task_to_pomdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/task_to_pomdp.py b/task_models/task_to_pomdp.py
index f581ebc..c8bcce0 100644
--- a/task_models/task_to_pomdp.py
+++ b/task_models/task_to_pomdp.py
@@ -112,7 +112,7 @@ class _NodeToPOMDP(object):
                                         subtask_reward=subtask_reward,
                                         flags=flags)
         else:
-            raise ValueError('Unkown combination: ' + type(node))
+            raise ValueError('Unkown combination: ' + str(type(node)))
 
 
 class _LeafToPOMDP(_NodeToPOMDP):
-- 
2.43.0


From 5b628afb92ffd51ca79fad6193b5d7628005015d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:39:23 +0000
Subject: [PATCH 22/25] fix: report worker processes ended by a signal

---
 task_models/utils/multiprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/utils/multiprocess.py b/task_models/utils/multiprocess.py
index 5f6ad23..f9700f6 100644
--- a/task_models/utils/multiprocess.py
+++ b/task_models/utils/multiprocess.py
@@ -57,7 +57,7 @@ class RepeatPool:
                         for w in self.workers]
 
     def _clean_job(self, w):
-        if w.exitcode > 0:
+        if w.exitcode != 0:
             raise RuntimeError("A subprocess has failed.")
         w.join()
         return None
-- 
2.43.0


From 5544453d55471d0872634ae1aac1f81ee867e2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:39:23 +0000
Subject: [PATCH 23/25] fix: discount evaluated returns from the first reward
 on

---
 task_models/evaluation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/task_models/evaluation.py b/task_models/evaluation.py
index 4dde7b0..042c3db 100644
--- a/task_models/evaluation.py
+++ b/task_models/evaluation.py
@@ -72,6 +72,7 @@ def simulate_one_evaluation(model, pol, max_horizon=200, logger=None,
     h_r = []
     horizon = FinishedOrNTransitionsHorizon(model, max_horizon)
     full_return = 0
+    factor = 1.  # discount of the next reward
     while not horizon.is_reached():
         a = model.actions.index(pol.get_action())
         h_a.append(a)
@@ -81,7 +82,8 @@ def simulate_one_evaluation(model, pol, max_horizon=200, logger=None,
         horizon.decrement(a, h_s[-1], s, o)
         pol.step(model.observations[o])
         h_s.append(s)
-        full_return = r + gamma * full_return
+        full_return += factor * r
+        factor *= gamma
     elapsed = get_process_elapsed_time()
     n_calls = model.n_simulator_calls - init_calls
     if logger is not None:
-- 
2.43.0


From 48e6f75fdd3cd979d0b049cd4847a925ec11ed89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:32:01 +0000
Subject: [PATCH 24/25] fix: let the never-hold policy of the preference job
 wait instead of holding

---
 samples/supportive_evaluation_preference_job.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/samples/supportive_evaluation_preference_job.py b/samples/supportive_evaluation_preference_job.py
index d45ef2e..1da57cd 100644
--- a/samples/supportive_evaluation_preference_job.py
+++ b/samples/supportive_evaluation_preference_job.py
@@ -33,7 +33,7 @@ class Experiment(SupportiveExperiment):
             self.policy = PolicyLongSupportiveSequence(self.model)
         elif self.parameters['policy'] == 'never-hold':
             self.policy = PolicyLongSupportiveSequence(self.model)
-            self.policy._a_next = self.policy._a_wait
+            self.policy._a_next_list = [self.policy._a_wait]
         else:
             raise NotImplementedError
 
-- 
2.43.0


From 2fc0833b3117f283fc2eb4977e1c5c76df3ed11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:41 +0000
Subject: [PATCH 25/25] fix: let remove_chartjunk remove tick labels

---
 task_models/utils/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/task_models/utils/plot.py b/task_models/utils/plot.py
index b44a103..517ab9f 100644
--- a/task_models/utils/plot.py
+++ b/task_models/utils/plot.py
@@ -208,8 +208,8 @@ def remove_chartjunk(ax, spines, grid=None, ticks=None, ticklabels=None):
     if ticklabels is not None:
         if type(ticklabels) is str:
             ticklabels = [ticklabels]
-        assert set(ticklabels) | set(('x', 'y')) > 0
+        assert set(ticklabels) <= set(('x', 'y'))
         if 'x' in ticklabels:
             ax.set_xticklabels([])
-        elif 'y' in ticklabels:
+        if 'y' in ticklabels:
             ax.set_yticklabels([])
-- 
2.43.0

