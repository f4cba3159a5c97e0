From 47bbdae6edf456d2491092b9e594fd6fc2c9ea61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:27 +0000
Subject: [PATCH 01/36] fix: Automaton.add_edge no longer overwrites a
 transition to state 0

---
 src/pybgl/automaton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/automaton.py b/src/pybgl/automaton.py
index ab74894..27a7d1b 100644
--- a/src/pybgl/automaton.py
+++ b/src/pybgl/automaton.py
@@ -89,7 +89,7 @@ class Automaton(DirectedGraph):
         """
         assert q is not None
         assert r is not None
-        if self.delta(q, a):
+        if self.delta(q, a) is not BOTTOM:
             return (None, False)
         self.adjacencies[q][a] = r
         return (EdgeDescriptor(q, r, a), True)
-- 
2.43.0


From 105323d851173ca2294e656ded507a8b4f16460d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:03 +0000
Subject: [PATCH 02/36] fix: NodeAutomaton.delta returns BOTTOM from the absent
 state instead of raising

---
 src/pybgl/node_automaton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/node_automaton.py b/src/pybgl/node_automaton.py
index 714eda4..7d0ff0a 100644
--- a/src/pybgl/node_automaton.py
+++ b/src/pybgl/node_automaton.py
@@ -65,7 +65,7 @@ class NodeAutomaton(Automaton):
         Returns:
             The reached state (if any), :py:data:`BOTTOM` otherwise.
         """
-        return self.adjacencies[q].get(a, BOTTOM)
+        return self.adjacencies.get(q, dict()).get(a, BOTTOM)
 
     def add_edge(self, q: int, r: int) -> tuple:
         """
-- 
2.43.0


From 10d8c1c08171d685c2549e9c4246e58b5f536cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:10 +0000
Subject: [PATCH 03/36] fix: make_node_automaton looks final states up by
 vertex name

---
 src/pybgl/node_automaton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/node_automaton.py b/src/pybgl/node_automaton.py
index 7d0ff0a..10ad10e 100644
--- a/src/pybgl/node_automaton.py
+++ b/src/pybgl/node_automaton.py
@@ -324,7 +324,7 @@ def make_node_automaton(
     for vertex_name in vertex_names:
         a = pmap_vlabel[vertex_name]
         u = g.add_vertex(a)
-        if pmap_vfinal[u]:
+        if pmap_vfinal[vertex_name]:
             g.set_final(u)
     for (qn, rn) in transitions:
         q = map_vertices[qn]
-- 
2.43.0


From ca9ba4400b35aceb590258cb2f6288ad5e5ebfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:16 +0000
Subject: [PATCH 04/36] fix: IncidenceNodeAutomaton passes its keyword
 arguments to NodeAutomaton

---
 src/pybgl/incidence_node_automaton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/incidence_node_automaton.py b/src/pybgl/incidence_node_automaton.py
index c0b0cd1..b2cea0a 100644
--- a/src/pybgl/incidence_node_automaton.py
+++ b/src/pybgl/incidence_node_automaton.py
@@ -25,7 +25,7 @@ class IncidenceNodeAutomaton(NodeAutomaton):
                 each state with its corresponding symbol.
         """
         self.predecessors = defaultdict(set)  # predecessors[r] = {q}
-        super().__init__(*args, pmap_vsymbol=pmap_vsymbol)  # UGLY
+        super().__init__(*args, pmap_vsymbol=pmap_vsymbol, **kwargs)  # UGLY
 
     # TODO: Factorize with IncidenceAutomaton
     def add_edge(self, q: int, r: int) -> tuple:
-- 
2.43.0


From 34b75ce9ffab6f6c4030b0b2f723d818132182aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:34 +0000
Subject: [PATCH 05/36] fix: Nfa forgets a symbol once its last transition is
 removed

---
 src/pybgl/nfa.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pybgl/nfa.py b/src/pybgl/nfa.py
index 4637ce5..47dda29 100644
--- a/src/pybgl/nfa.py
+++ b/src/pybgl/nfa.py
@@ -174,7 +174,11 @@ class Nfa(DirectedGraph):
         r = self.target(e)
         (a, n) = e.distinguisher
         try:
-            del self.adjacencies[q][a][r]
+            rn = self.adjacencies[q][a]
+            del rn[r]
+            if not rn:
+                # No more transition from q labeled by a
+                del self.adjacencies[q][a]
         except KeyError:
             pass
 
-- 
2.43.0


From f5764dece75195a1fcd3df57465f7b8767ac1fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:43 +0000
Subject: [PATCH 06/36] fix: Nfa lists hashable edge descriptors

---
 src/pybgl/nfa.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pybgl/nfa.py b/src/pybgl/nfa.py
index 47dda29..f525d94 100644
--- a/src/pybgl/nfa.py
+++ b/src/pybgl/nfa.py
@@ -194,9 +194,9 @@ class Nfa(DirectedGraph):
             An iterator over the out-edges of ``u``.
         """
         return (
-            EdgeDescriptor(q, r, (a, n))
+            EdgeDescriptor(q, r, (a, max(s)))
             for (a, rn) in self.adjacencies.get(q, dict()).items()
-            for (r, n) in rn.items()
+            for (r, s) in rn.items()
         )
 
     def edges(self):
@@ -208,10 +208,10 @@ class Nfa(DirectedGraph):
             An iterator over the transitions.
         """
         return (
-            EdgeDescriptor(q, r, (a, n))
+            EdgeDescriptor(q, r, (a, max(s)))
             for (q, arn) in self.adjacencies.items()
             for (a, rn) in arn.items()
-            for (r, n) in rn.items()
+            for (r, s) in rn.items()
         )
 
     def alphabet(self) -> set:
-- 
2.43.0


From 04fbcc1fdb9b8d9dab6e4ab1293be76ce07d6664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:23 +0000
Subject: [PATCH 07/36] fix: breadth_first_search works without visitor

---
 src/pybgl/breadth_first_search.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pybgl/breadth_first_search.py b/src/pybgl/breadth_first_search.py
index 02bc7e4..6f307dd 100644
--- a/src/pybgl/breadth_first_search.py
+++ b/src/pybgl/breadth_first_search.py
@@ -231,6 +231,8 @@ def breadth_first_search(
     if pmap_vcolor is None:
         map_vcolor = defaultdict(int)
         pmap_vcolor = make_assoc_property_map(map_vcolor)
+    if vis is None:
+        vis = DefaultBreadthFirstSearchVisitor()
     for u in g.vertices():
         vis.initialize_vertex(u, g)
         pmap_vcolor[u] = WHITE
-- 
2.43.0


From c6cd7f0252bf3025602ccaaeaa393284bc05ec2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:41 +0000
Subject: [PATCH 08/36] fix: breadth_first_search_graph explores the whole
 graph without sources instead of raising

---
 src/pybgl/breadth_first_search.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pybgl/breadth_first_search.py b/src/pybgl/breadth_first_search.py
index 6f307dd..816a589 100644
--- a/src/pybgl/breadth_first_search.py
+++ b/src/pybgl/breadth_first_search.py
@@ -167,6 +167,9 @@ def breadth_first_search_graph(
     if not if_push:
         if_push = (lambda e, g: True)
 
+    if sources is None:
+        sources = g.vertices()
+
     stack = deque()
     for s in sources:
         pmap_vcolor[s] = GRAY
-- 
2.43.0


From 0847c9bacace072a7b592d1d125188f621f5b6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:48 +0000
Subject: [PATCH 09/36] fix: depth_first_search_graph explores nothing from an
 empty set of sources

---
 src/pybgl/depth_first_search.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/depth_first_search.py b/src/pybgl/depth_first_search.py
index eebb8d8..ce5fa77 100644
--- a/src/pybgl/depth_first_search.py
+++ b/src/pybgl/depth_first_search.py
@@ -223,6 +223,6 @@ def depth_first_search_graph(
     if pmap_vcolor is None:
         map_vcolor = defaultdict(int)
         pmap_vcolor = make_assoc_property_map(map_vcolor)
-    for u in (sources if sources else g.vertices()):
+    for u in (sources if sources is not None else g.vertices()):
         if pmap_vcolor[u] == WHITE:
             depth_first_search(u, g, pmap_vcolor, vis, if_push)
-- 
2.43.0


From accaf0e0c361e95999ff8237d729c3eaca53593f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:54 +0000
Subject: [PATCH 10/36] fix: topological_sort fills an empty container given by
 the caller

---
 src/pybgl/topological_sort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/topological_sort.py b/src/pybgl/topological_sort.py
index 928fe83..4539ee2 100644
--- a/src/pybgl/topological_sort.py
+++ b/src/pybgl/topological_sort.py
@@ -50,7 +50,7 @@ def topological_sort(g: DirectedGraph, stack: deque = None) -> deque:
     Returns:
         The stack containing the vertices, sorted by topological order.
     """
-    stack = stack if stack else deque()
+    stack = stack if stack is not None else deque()
     depth_first_search_graph(
         g,
         pmap_vcolor=make_assoc_property_map(defaultdict(int)),
-- 
2.43.0


From 49b35e737b8a2c1d1baee4ee96e8c5a539558f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:43 +0000
Subject: [PATCH 11/36] fix: make_shortest_path terminates on zero-weight
 cycles

---
 src/pybgl/dijkstra_shortest_paths.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/pybgl/dijkstra_shortest_paths.py b/src/pybgl/dijkstra_shortest_paths.py
index 2abb979..36a6124 100644
--- a/src/pybgl/dijkstra_shortest_paths.py
+++ b/src/pybgl/dijkstra_shortest_paths.py
@@ -357,12 +357,23 @@ def make_shortest_path(
         this function returns an arbitrary shortest path.
     """
 # USELESS |    arcs = make_dag(g, s, t, pmap_vpreds, single_path=True)
-    u = t
+    # Walk back from t to s. Zero-weight edges may form cycles in
+    # pmap_vpreds, so each vertex is reached at most once.
+    next_edges = {t: None}
+    to_process = [t]
+    while s not in next_edges:
+        u = to_process.pop()
+        for e in pmap_vpreds[u]:
+            v = g.source(e)
+            if v not in next_edges:
+                next_edges[v] = e
+                to_process.append(v)
     path = list()
-    while u != s:
-        e = list(pmap_vpreds[u])[0]
-        path.insert(0, e)
-        u = g.source(e)
+    u = s
+    while u != t:
+        e = next_edges[u]
+        path.append(e)
+        u = g.target(e)
     return path
 
 
-- 
2.43.0


From bd1a2c33213102cd42bbd66c74d8a9d5f2088cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:21 +0000
Subject: [PATCH 12/36] fix: zero_or_one no longer accepts extra words when its
 operand has loops

---
 src/pybgl/thompson_compile_nfa.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/thompson_compile_nfa.py b/src/pybgl/thompson_compile_nfa.py
index 489458d..b6be9b2 100644
--- a/src/pybgl/thompson_compile_nfa.py
+++ b/src/pybgl/thompson_compile_nfa.py
@@ -196,8 +196,17 @@ def zero_or_one(nfa: Nfa, q0: int, f: int) -> tuple:
         ``f`` is its initial state.
     """
     eps = nfa.epsilon
-    nfa.add_edge(q0, f, eps)
-    return (nfa, q0, f)
+    # The epsilon-transition must not link q0 to f directly, as q0 may
+    # have in-edges and f may have out-edges.
+    new_q0 = nfa.add_vertex()
+    new_f = nfa.add_vertex()
+    nfa.add_edge(new_q0, q0, eps)
+    nfa.add_edge(f, new_f, eps)
+    nfa.add_edge(new_q0, new_f, eps)
+    nfa.set_initials({new_q0})
+    nfa.set_final(f, False)
+    nfa.set_final(new_f, True)
+    return (nfa, new_q0, new_f)
 
 
 def zero_or_more(nfa: Nfa, q0: int, f: int) -> tuple:
-- 
2.43.0


From d8622ef4fc36cd537740e4d94093ab53e9973ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:27 +0000
Subject: [PATCH 13/36] fix: repetition_range keeps the right initial state and
 accepts no extra word when its operand has loops

---
 src/pybgl/thompson_compile_nfa.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pybgl/thompson_compile_nfa.py b/src/pybgl/thompson_compile_nfa.py
index b6be9b2..f4c8d43 100644
--- a/src/pybgl/thompson_compile_nfa.py
+++ b/src/pybgl/thompson_compile_nfa.py
@@ -336,7 +336,7 @@ def repetition_range(nfa: Nfa, q0: int, f: int, m: int, n: int) -> tuple:
         return concatenation(nfa1, q01, f1, nfa2, q02, f2)
     else:
         (q0_ori, f_ori, ori) = (q0, f, copy.deepcopy(nfa))
-        (nfa, _, f) = repetition(nfa, q0, f, m)
+        (nfa, q0, f) = repetition(nfa, q0, f, m)
         final_states = {f}
         # The m-n following NFA instances are optional. We add them
         # one by one to get their respective final states to build an
@@ -345,9 +345,13 @@ def repetition_range(nfa: Nfa, q0: int, f: int, m: int, n: int) -> tuple:
             (nfa, q0, f) = concatenation(nfa, q0, f, ori, q0_ori, f_ori)
             final_states.add(f)
         eps = nfa.epsilon
-        for pred_f in final_states:
-            if pred_f != f:
+        if len(final_states) > 1:
+            # This final state is a new one, as f may have out-edges.
+            f = nfa.add_vertex()
+            for pred_f in final_states:
+                nfa.set_final(pred_f, False)
                 nfa.add_edge(pred_f, f, eps)
+            nfa.set_final(f)
         return (nfa, q0, f)
 
 
-- 
2.43.0


From 656eafb4ab36a1f8388b720ec6f9465ceaa2a2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:50 +0000
Subject: [PATCH 14/36] fix: parse_bracket reads a final or misplaced '-' as a
 symbol

---
 src/pybgl/thompson_compile_nfa.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/pybgl/thompson_compile_nfa.py b/src/pybgl/thompson_compile_nfa.py
index f4c8d43..d6538ea 100644
--- a/src/pybgl/thompson_compile_nfa.py
+++ b/src/pybgl/thompson_compile_nfa.py
@@ -453,7 +453,7 @@ def parse_bracket(s: str, whole_alphabet: iter = None) -> set:
 
     while i < imax - 1:
         a = s[i]
-        if a == "-" and last_non_hat:
+        if a == "-" and last_non_hat and i + 2 < imax:
             m = ord(last_non_hat)
             n = ord(s[i + 1])
             if m > n:
@@ -463,13 +463,14 @@ def parse_bracket(s: str, whole_alphabet: iter = None) -> set:
             for c in range(m, n + 1):
                 accepted.add(chr(c))
             i += 1
+            last_non_hat = None
+        elif a == "\\":
+            accepted |= parse_escaped(s[i:i+2])
+            i += 1
+            last_non_hat = None
         else:
-            if a == "\\":
-                accepted |= parse_escaped(s[i:i+2])
-                i += 1
-            else:
-                accepted.add(a)
-        last_non_hat = a
+            accepted.add(a)
+            last_non_hat = a
         i += 1
     return accepted if not reverse else set(whole_alphabet) - accepted
 
-- 
2.43.0


From cb0e4fc9a04d4d2727a1430b2e4fd47b8116e7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:13 +0000
Subject: [PATCH 15/36] fix: stacked postfix operators of a regular expression
 apply from left to right

---
 src/pybgl/shunting_yard_postfix.py | 2 +-
 src/pybgl/thompson_compile_nfa.py  | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index 16e3bd6..97cb965 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -137,7 +137,7 @@ MAP_OPERATORS_RE = {
     # Unary operators
     "*":  Op(cardinality=1, precedence=4, associativity=LEFT),
     "+":  Op(cardinality=1, precedence=4, associativity=LEFT),
-    "?":  Op(cardinality=1, precedence=3, associativity=LEFT),
+    "?":  Op(cardinality=1, precedence=4, associativity=LEFT),
     # Binary operators
     ".":  Op(cardinality=2, precedence=2, associativity=LEFT),
     "|":  Op(cardinality=2, precedence=1, associativity=LEFT),
diff --git a/src/pybgl/thompson_compile_nfa.py b/src/pybgl/thompson_compile_nfa.py
index d6538ea..466024b 100644
--- a/src/pybgl/thompson_compile_nfa.py
+++ b/src/pybgl/thompson_compile_nfa.py
@@ -600,8 +600,14 @@ def thompson_compile_nfa(expression: str, whole_alphabet: iter = None) -> Nfa:
                 (nfa1, q01, f1) = literal(a)
             self.nfas.append((nfa1, q01, f1))
 
+    # Like "*", the repetitions (e.g., "{2,3}") are postfix operators.
+    map_operators = dict(MAP_OPERATORS_RE)
+    for a in expression:
+        if a[0] == "{":
+            map_operators[a] = MAP_OPERATORS_RE["*"]
+
     vis = ThompsonShuntingYardVisitor()
-    shunting_yard_postfix(expression, map_operators=MAP_OPERATORS_RE, vis=vis)
+    shunting_yard_postfix(expression, map_operators=map_operators, vis=vis)
     assert len(vis.nfas) == 1
     (nfa, q0, f) = vis.nfas.pop()
     return (nfa, q0, f)
-- 
2.43.0


From f60cb7da7159a1fb0f45aa9a32e5b769a250dc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:51 +0000
Subject: [PATCH 16/36] fix: the unary plus can be computed

---
 src/pybgl/shunting_yard_postfix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index 97cb965..a2d3b08 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -742,7 +742,7 @@ class RpnDequeAlg(RpnDequeOperation):
             return x ** y
         elif a == "u-":
             return -x
-        elif a == "u-":
+        elif a == "u+":
             return x
         else:
             raise ValueError(f"Unsupported operator '{a}'")
-- 
2.43.0


From 4080ffcf22d95f564a4ec683a2f3cd7dc78bb8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:57 +0000
Subject: [PATCH 17/36] fix: a unary sign may follow a tighter binary operator

---
 src/pybgl/shunting_yard_postfix.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index a2d3b08..2a959fd 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -386,8 +386,15 @@ def shunting_yard_postfix(
                 push_output(o)
                 o = pop_operator()
         elif a in map_operators.keys():
+            # A prefix operator has no left operand, so it never pops the
+            # operators that precede it.
+            is_prefix = (
+                map_operators[a].cardinality == 1
+                and map_operators[a].associativity == RIGHT
+            )
             while (
                 operators
+                and not is_prefix
                 and operators[-1] in map_operators.keys()
                 and preceeds(operators[-1], a)
             ):
-- 
2.43.0


From 51b642503102107a186cf649f906a0f30b7804c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:04 +0000
Subject: [PATCH 18/36] fix: shunting_yard_compute accepts an already tokenized
 expression

---
 src/pybgl/shunting_yard_postfix.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index 2a959fd..0020ca6 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -782,10 +782,9 @@ def shunting_yard_compute(
     Returns:
         The output ``float`` result.
     """
-    if tokenize:
-        output = RpnDequeAlg(map_operators=map_operators)
+    output = RpnDequeAlg(map_operators=map_operators)
     ret = shunting_yard_postfix(
-        tokenizer_alg(expression),
+        tokenizer_alg(expression) if tokenize else expression,
         map_operators,
         output,
         vis
-- 
2.43.0


From 47da6a578ceaa7e874f871d3a8a816b86a248437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:10 +0000
Subject: [PATCH 19/36] fix: Ast.to_expr writes the tree built by
 shunting_yard_ast

---
 src/pybgl/shunting_yard_postfix.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index 0020ca6..0829878 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -591,14 +591,14 @@ class Ast(DirectedGraph):
             if d == 0:
                 return a
             elif d == 1:
-                child = self.children(u)[0]
+                child = next(self.children(u))
                 return f"({to_expr_rec(child)}){a}"
             else:
                 return "(%s)" % a.join(
                     to_expr_rec(child)
                     for child in self.children(u)
                 )
-        if self.root:
+        if self.root is None:
             raise RuntimeError("self.root is not initialized")
         return to_expr_rec(self.root)
 
@@ -684,6 +684,7 @@ def shunting_yard_ast(
     ret = shunting_yard_postfix(expression, map_operators, output, vis)
     assert len(ret) == 1
     root = ret.pop()
+    ast.root = root
     return (ast, root)
 
 
-- 
2.43.0


From ded1276edcea27665572c78998123eae2726fc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:18 +0000
Subject: [PATCH 20/36] fix: deterministic_intersection keeps exploring when a
 transition leads to state 0

---
 src/pybgl/deterministic_intersection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/deterministic_intersection.py b/src/pybgl/deterministic_intersection.py
index 377b5db..3b3f95f 100644
--- a/src/pybgl/deterministic_intersection.py
+++ b/src/pybgl/deterministic_intersection.py
@@ -81,9 +81,9 @@ def deterministic_intersection(
         vis=vis,
         if_push=lambda e1, g1, e2, g2: (
             e1 is not None
-            and g1.target(e1)
+            and g1.target(e1) is not BOTTOM
             and e2 is not None
-            and g2.target(e2)
+            and g2.target(e2) is not BOTTOM
         )
     )
     return g12
-- 
2.43.0


From 38fcf2eb7812d2519f1a809609c5d306f275680c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:24 +0000
Subject: [PATCH 21/36] fix: the product automaton only starts from the pair of
 initial states

---
 src/pybgl/product_mixin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/product_mixin.py b/src/pybgl/product_mixin.py
index 894f68d..165c110 100644
--- a/src/pybgl/product_mixin.py
+++ b/src/pybgl/product_mixin.py
@@ -52,7 +52,7 @@ class ProductMixin:
             i.e. ``self.g12``.
         """
         q12 = self.g12.add_vertex()
-        if self.operator(g1.is_initial(q1), g2.is_initial(q2)):
+        if g1.is_initial(q1) and g2.is_initial(q2):
             self.g12.set_initial(q12)
         if self.operator(g1.is_final(q1), g2.is_final(q2)):
             self.g12.set_final(q12)
-- 
2.43.0


From e24338536a7e6c0b903924e10a6e29f414c7b666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:31 +0000
Subject: [PATCH 22/36] fix: union and intersection keep the empty word when no
 transition leaves the initial pair

---
 src/pybgl/deterministic_intersection.py | 21 +++++++++++++++++++++
 src/pybgl/deterministic_union.py        | 23 ++++++++++++++++++++++-
 2 files changed, 43 insertions(+), 1 deletion(-)

diff --git a/src/pybgl/deterministic_intersection.py b/src/pybgl/deterministic_intersection.py
index 3b3f95f..3f61b08 100644
--- a/src/pybgl/deterministic_intersection.py
+++ b/src/pybgl/deterministic_intersection.py
@@ -30,6 +30,27 @@ class DeterministicIntersectionVisitor(
         """
         super().__init__(g12, lambda a, b: a and b)
 
+    def start_vertex(
+        self,
+        s1: int,
+        g1: Automaton,
+        s2: int,
+        g2: Automaton
+    ):
+        """
+        Method invoked on the initial pair of states. It creates
+        the initial state of the output automaton, even if no transition
+        leaves the initial pair.
+
+        Args:
+            s1 (int): The initial state of ``g1``.
+            g1 (Automaton): The left operand.
+            s2 (int): The initial state of ``g2``.
+            g2 (Automaton): The right operand.
+        """
+        if s1 is not BOTTOM and s2 is not BOTTOM:
+            self.get_or_create_product_vertex(s1, g1, s2, g2)
+
     def examine_edge(
         self,
         e1: EdgeDescriptor,
diff --git a/src/pybgl/deterministic_union.py b/src/pybgl/deterministic_union.py
index 73e0d85..80dfe45 100644
--- a/src/pybgl/deterministic_union.py
+++ b/src/pybgl/deterministic_union.py
@@ -4,7 +4,7 @@
 # This file is part of the pybgl project.
 # https://github.com/nokia/pybgl
 
-from .automaton import Automaton, EdgeDescriptor
+from .automaton import BOTTOM, Automaton, EdgeDescriptor
 from .parallel_breadth_first_search import (
     ParallelBreadthFirstSearchVisitor,
     parallel_breadth_first_search,
@@ -30,6 +30,27 @@ class DeterministicUnionVisitor(
         """
         super().__init__(g12, lambda a, b: a or b)
 
+    def start_vertex(
+        self,
+        s1: int,
+        g1: Automaton,
+        s2: int,
+        g2: Automaton
+    ):
+        """
+        Method invoked on the initial pair of states. It creates
+        the initial state of the output automaton, even if no transition
+        leaves the initial pair.
+
+        Args:
+            s1 (int): The initial state of ``g1``.
+            g1 (Automaton): The left operand.
+            s2 (int): The initial state of ``g2``.
+            g2 (Automaton): The right operand.
+        """
+        if s1 is not BOTTOM or s2 is not BOTTOM:
+            self.get_or_create_product_vertex(s1, g1, s2, g2)
+
     def examine_edge(
         self,
         e1: EdgeDescriptor,
-- 
2.43.0


From a056db0dafad7811379db0c921a3c659281d1ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:16 +0000
Subject: [PATCH 23/36] fix: deterministic_intersection accepts an automaton
 without initial state

---
 src/pybgl/deterministic_intersection.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pybgl/deterministic_intersection.py b/src/pybgl/deterministic_intersection.py
index 3f61b08..d9c9196 100644
--- a/src/pybgl/deterministic_intersection.py
+++ b/src/pybgl/deterministic_intersection.py
@@ -72,7 +72,12 @@ class DeterministicIntersectionVisitor(
                 of the intersection.
             a (str): The symbol that labels ``e1`` and ``e2``.
         """
-        if g1.target(e1) is not BOTTOM and g2.target(e2) is not BOTTOM:
+        if (
+            e1 is not None
+            and g1.target(e1) is not BOTTOM
+            and e2 is not None
+            and g2.target(e2) is not BOTTOM
+        ):
             self.add_product_edge(e1, g1, e2, g2)
 
 
-- 
2.43.0


From 7f4f8ec600093397ee3fb43e470d4efb6640df42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:34 +0000
Subject: [PATCH 24/36] fix: parallel_breadth_first_search reports a finished
 pair with the right automata

---
 src/pybgl/parallel_breadth_first_search.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/parallel_breadth_first_search.py b/src/pybgl/parallel_breadth_first_search.py
index bde529e..b8ff0bf 100644
--- a/src/pybgl/parallel_breadth_first_search.py
+++ b/src/pybgl/parallel_breadth_first_search.py
@@ -285,4 +285,4 @@ def parallel_breadth_first_search(
             else:
                 vis.black_target(e1, g1, e2, g2, a)
         pmap_vcolor[(q1, q2)] = BLACK
-        vis.finish_vertex(q1, g2, q2, g2)
+        vis.finish_vertex(q1, g1, q2, g2)
-- 
2.43.0


From 960c23711e321f1964223814b8ea3a98ba5cfaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:58 +0000
Subject: [PATCH 25/36] fix: parallel_breadth_first_search examines the
 starting pairs only once

---
 src/pybgl/parallel_breadth_first_search.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pybgl/parallel_breadth_first_search.py b/src/pybgl/parallel_breadth_first_search.py
index b8ff0bf..5be637a 100644
--- a/src/pybgl/parallel_breadth_first_search.py
+++ b/src/pybgl/parallel_breadth_first_search.py
@@ -247,20 +247,23 @@ def parallel_breadth_first_search(
 
     if vis is None:
         vis = ParallelBreadthFirstSearchVisitor()
+
+    if not pmap_vcolor:
+        map_vcolor = defaultdict(int)
+        pmap_vcolor = make_assoc_property_map(map_vcolor)
+
     if source_pairs is None:
         q01 = g1.initial()
         q02 = g2.initial()
+        pmap_vcolor[(q01, q02)] = GRAY
         stack.appendleft((q01, q02))
         vis.start_vertex(q01, g1, q02, g2)
     else:
         for (s1, s2) in source_pairs:
+            pmap_vcolor[(s1, s2)] = GRAY
             stack.appendleft((s1, s2))
             vis.start_vertex(s1, g1, s2, g2)
 
-    if not pmap_vcolor:
-        map_vcolor = defaultdict(int)
-        pmap_vcolor = make_assoc_property_map(map_vcolor)
-
     if not if_push:
         if_push = (lambda e1, g1, e2, g2: True)
 
-- 
2.43.0


From bbd3e4ed83a3fae79be44813722fb3ffb876c273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:04 +0000
Subject: [PATCH 26/36] fix: the difference of two graph views only keeps edges
 of the first one

---
 src/pybgl/graph_view.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pybgl/graph_view.py b/src/pybgl/graph_view.py
index 18fc175..1213f47 100644
--- a/src/pybgl/graph_view.py
+++ b/src/pybgl/graph_view.py
@@ -114,10 +114,11 @@ class GraphView:
             ),
             make_func_property_map(
                 lambda e: (
-                    self.pmap_erelevant[e] and
-                    not gv.pmap_erelevant[e] or (
-                        not gv.pmap_vrelevant[self.source(e)] and
-                        not gv.pmap_vrelevant[self.target(e)]
+                    self.pmap_erelevant[e] and (
+                        not gv.pmap_erelevant[e] or (
+                            not gv.pmap_vrelevant[self.source(e)] and
+                            not gv.pmap_vrelevant[self.target(e)]
+                        )
                     )
                 )
             )
-- 
2.43.0


From 6b865e07bccf0fa4464861ff3e4e04b7ff4fc392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:11 +0000
Subject: [PATCH 27/36] fix: automaton_copy works without the property maps of
 the caller

---
 src/pybgl/automaton_copy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/automaton_copy.py b/src/pybgl/automaton_copy.py
index f1cfec5..36efcca 100644
--- a/src/pybgl/automaton_copy.py
+++ b/src/pybgl/automaton_copy.py
@@ -96,10 +96,10 @@ def automaton_copy(
 
     # Prepare the AutomatonCopyVisitor
     if not pmap_vertices:
-        map_vertices = dict()
+        map_vertices = defaultdict(None)
         pmap_vertices = make_assoc_property_map(map_vertices)
     if not pmap_edges:
-        map_edges = dict()
+        map_edges = defaultdict(None)
         pmap_edges = make_assoc_property_map(map_edges)
 
     vis = AutomatonCopyVisitor(
-- 
2.43.0


From 8b2f0a9041bdc2260a7c2129b23e13d96206ac5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:17 +0000
Subject: [PATCH 28/36] fix: enrich_kwargs no longer changes the dictionary of
 the caller

---
 src/pybgl/graphviz_impl.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pybgl/graphviz_impl.py b/src/pybgl/graphviz_impl.py
index e4417e4..6f6d69b 100644
--- a/src/pybgl/graphviz_impl.py
+++ b/src/pybgl/graphviz_impl.py
@@ -351,8 +351,7 @@ def enrich_kwargs(default_d: dict, key: str, **kwargs) -> dict:
         The updated ``**kwargs``.
     """
     if default_d:
-        if key not in kwargs:
-            kwargs[key] = dict()
+        kwargs[key] = dict(kwargs[key]) if kwargs.get(key) else dict()
         for (k, v) in default_d.items():
             if k not in kwargs[key].keys():
                 kwargs[key][k] = v
-- 
2.43.0


From 948b9ea8189c2148626d93c9e56ba39a59467072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:20 +0000
Subject: [PATCH 29/36] fix: GraphDp.get_dpe returns the edge properties and
 GraphDp.to_dot accepts extra style

---
 src/pybgl/graph_dp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pybgl/graph_dp.py b/src/pybgl/graph_dp.py
index 5066e9f..209c5d7 100644
--- a/src/pybgl/graph_dp.py
+++ b/src/pybgl/graph_dp.py
@@ -73,7 +73,7 @@ class GraphDp:
         return self.dpv
 
     def get_dpe(self) -> dict:
-        return self.dpve
+        return self.dpe
 
     def get_dg(self) -> dict:
         return self.dg
@@ -97,7 +97,8 @@ class GraphDp:
         kwargs = enrich_kwargs(self.dg, "dg", **kwargs)
         kwargs = enrich_kwargs(self.dv, "dv", **kwargs)
         kwargs = enrich_kwargs(self.de, "de", **kwargs)
-        kwargs = enrich_kwargs(self.extra_style, "extra_style", **kwargs)
+        if self.extra_style and "extra_style" not in kwargs:
+            kwargs["extra_style"] = ";\n  ".join(self.extra_style)
         return to_dot(self.g, **kwargs)
 
     # TODO GraphView
-- 
2.43.0


From 3ac843c815592e10eb3a6ff3e5276948de42a5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:26 +0000
Subject: [PATCH 30/36] fix: hopcroft_minimize accepts automata whose states
 are all final or all not final

---
 src/pybgl/hopcroft_minimize.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/pybgl/hopcroft_minimize.py b/src/pybgl/hopcroft_minimize.py
index 85564c5..fb82a78 100644
--- a/src/pybgl/hopcroft_minimize.py
+++ b/src/pybgl/hopcroft_minimize.py
@@ -31,11 +31,8 @@ def hopcroft_agglomerate_states(g: IncidenceAutomaton) -> set:
     aggregated_states = {
         frozenset(final_states),
         frozenset(g.vertices()) - final_states
-    }
-    waiting_states = {
-        frozenset(final_states),
-        frozenset(g.vertices()) - final_states
-    }
+    } - {frozenset()}
+    waiting_states = set(aggregated_states)
     while waiting_states != set():
         current_states = waiting_states.pop()
         for a in g_alphabet:
-- 
2.43.0


From 66dfb58936136d5504f756cca2c59ef33f4aebd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:33 +0000
Subject: [PATCH 31/36] fix: AggregatedVisitor forwards keyword arguments

---
 src/pybgl/aggregated_visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/aggregated_visitor.py b/src/pybgl/aggregated_visitor.py
index 9bbdc66..1c28389 100644
--- a/src/pybgl/aggregated_visitor.py
+++ b/src/pybgl/aggregated_visitor.py
@@ -29,7 +29,7 @@ class AggregatedVisitor:
         """
         def wrapper(*args, **kwargs):
             for vis in self.visitors:
-                getattr(vis, method_name)(*args)
+                getattr(vis, method_name)(*args, **kwargs)
         return wrapper
 
     @staticmethod
-- 
2.43.0


From fee93069aa9dca928f8ded96e556d22ac88a7182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:41 +0000
Subject: [PATCH 32/36] fix: read_graphviz_dp no longer raises and ignores the
 attributes that were not asked for

---
 src/pybgl/graphviz.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pybgl/graphviz.py b/src/pybgl/graphviz.py
index c5979c1..52191fb 100644
--- a/src/pybgl/graphviz.py
+++ b/src/pybgl/graphviz.py
@@ -176,17 +176,17 @@ class ReadGraphvizDpVisitor(ReadGraphvizVisitor):
     Graphviz file.
     """
     def __init__(self, g, dpv: dict, dpe: dict):
-        super().__init__(g)
+        super().__init__()
         self.dpv = dpv
         self.dpe = dpe
 
     def on_install_vertex_property(self, u, g, key, value):
-        pmap = self.dpv[key] if self.dpv else None
+        pmap = self.dpv.get(key) if self.dpv else None
         if pmap:
             pmap[u] = value
 
     def on_install_edge_property(self, e, g, key, value):
-        pmap = self.dpe[key] if self.dpe else None
+        pmap = self.dpe.get(key) if self.dpe else None
         if pmap:
             pmap[e] = value
 
-- 
2.43.0


From c368b7a3510a3ba3c81c6a8e503eebb2507667a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:47 +0000
Subject: [PATCH 33/36] fix: read_graphviz reads the edges of an undirected
 graph

---
 src/pybgl/graphviz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/graphviz.py b/src/pybgl/graphviz.py
index 52191fb..b435c44 100644
--- a/src/pybgl/graphviz.py
+++ b/src/pybgl/graphviz.py
@@ -106,7 +106,7 @@ class ReadGraphvizVisitor(GraphvizVisitor):
 
 PATTERN_SPACE = "\\s*"
 PATTERN_VERTEX_ID = "([0-9]+)"
-PATTERN_EDGE_CONNECTOR = "->"  # TODO manage -- for undirected graphs
+PATTERN_EDGE_CONNECTOR = "(?:->|--)"  # TODO manage -- for undirected graphs
 PATTERN_OPTS = "(\\[(.*)\\])?"
 PATTERN_LINE_VERTEX = PATTERN_SPACE.join(
     [PATTERN_VERTEX_ID, PATTERN_OPTS, ";"]
-- 
2.43.0


From dfc68c65a97939def9f126b8e99b94a8b2541649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:25 +0000
Subject: [PATCH 34/36] fix: graph_copy copies each edge of an undirected graph
 once

---
 src/pybgl/graph_copy.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/pybgl/graph_copy.py b/src/pybgl/graph_copy.py
index 9cb3af1..79af31a 100644
--- a/src/pybgl/graph_copy.py
+++ b/src/pybgl/graph_copy.py
@@ -76,6 +76,7 @@ class DepthFirstSearchCopyVisitor(DepthFirstSearchExtractVisitor):
         self.pmap_vertices = pmap_vertices
         self.pmap_edges = pmap_edges
         self.dup_vertices = set()  # Needed to keep track of pmap_vertices
+        self.dup_edges = dict()  # Needed if both graphs are undirected
 
     def dup_vertex(self, u: int, g: Graph) -> int:
         """
@@ -105,7 +106,17 @@ class DepthFirstSearchCopyVisitor(DepthFirstSearchExtractVisitor):
             self.pmap_vertices[v] if v in self.dup_vertices
             else self.dup_vertex(v, g)
         )
-        (e_dup, _) = self.g_dup.add_edge(u_dup, v_dup)
+        if not g.directed and not self.g_dup.directed:
+            # Each edge is examined from both of its ends.
+            key = (min(u, v), max(u, v), e.distinguisher)
+            if key in self.dup_edges:
+                if self.pmap_edges:
+                    self.pmap_edges[e] = self.dup_edges[key]
+                return
+            (e_dup, _) = self.g_dup.add_edge(u_dup, v_dup)
+            self.dup_edges[key] = e_dup
+        else:
+            (e_dup, _) = self.g_dup.add_edge(u_dup, v_dup)
         if self.pmap_edges:
             self.pmap_edges[e] = e_dup
         if self.callback_dup_edge:
-- 
2.43.0


From dab0831501655dfc84b51dfba15b3f9bc35da0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:47 +0000
Subject: [PATCH 35/36] fix: repeating an automaton zero times keeps its mark
 of the empty move

---
 src/pybgl/thompson_compile_nfa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybgl/thompson_compile_nfa.py b/src/pybgl/thompson_compile_nfa.py
index 466024b..ccab197 100644
--- a/src/pybgl/thompson_compile_nfa.py
+++ b/src/pybgl/thompson_compile_nfa.py
@@ -289,7 +289,7 @@ def repetition(nfa: Nfa, q0: int, f: int, m: int) -> tuple:
     """
     assert m >= 0
     if m == 0:
-        nfa = Nfa(1)
+        nfa = Nfa(1, epsilon=nfa.epsilon)
         nfa.set_final(0)
         (nfa, q0, f) = (nfa, 0, 0)
     elif m > 1:
-- 
2.43.0


From 79d9103acb1e7053d5ff44bcbc67addbdc8b6b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:03 +0000
Subject: [PATCH 36/36] fix: an opening parenthesis that is never closed is an
 error

---
 src/pybgl/shunting_yard_postfix.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pybgl/shunting_yard_postfix.py b/src/pybgl/shunting_yard_postfix.py
index 0829878..8888caa 100644
--- a/src/pybgl/shunting_yard_postfix.py
+++ b/src/pybgl/shunting_yard_postfix.py
@@ -405,7 +405,10 @@ def shunting_yard_postfix(
             push_output(a)
 
     while operators:
-        push_output(pop_operator())
+        o = pop_operator()
+        if o == "(":
+            raise RuntimeError("Unbalanced parentheses: '(' is never closed")
+        push_output(o)
     return output
 
 
-- 
2.43.0

