from oracles.base import *
from collections import defaultdict
from pybgl.graph import DirectedGraph, UndirectedGraph
from pybgl.property_map import make_assoc_property_map, make_func_property_map
from pybgl.algebra import INFINITY, Less, ClosedPlus
from pybgl.dijkstra_shortest_paths import *
from pybgl.dijkstra_shortest_paths import DijkstraVisitor
RULE = ("all digraphs on <= 2 vertices with weights 0..2, random weighted multigraphs (zero, equal, large and fractional weights); distances against Bellman-Ford, "
        "predecessors against tight edges, order of examination; non-trivial: an edge leaves the source")
INTS, _ = harvest(["dijkstra_shortest_paths.py", "heap.py", "algebra.py"])

def wcases(rng, tier):
    for n, es in graph_cases(rng, 2, nmax=8):
        if n == 0: continue
        kind = rng.choice(["zero", "small", "small", "mid", "frac", "big"])
        W = {"zero": [0, 0, 1], "small": [0, 1, 2, 3], "mid": list(range(20)) + INTS[:5], "frac": [0.5, 0.25, 1.75, 0.0, 2.5], "big": [10**6, 1, 10**12, 0, 10**9]}[kind]
        yield n, [[u, v, rng.choice(W)] for u, v in es]

def gen(rng, tier):
    for n, es in wcases(rng, tier):
        yield dict(n=n, es=es, und=rng.random() < .25, s=rng.randrange(n), cmp=rng.random() < .4, color=rng.random() < .5, dirty=rng.random() < .3)

def build(case):
    g = (UndirectedGraph if case["und"] else DirectedGraph)(case["n"]); w = {}
    key = lambda e: (min(e.source, e.target), max(e.source, e.target), e.distinguisher) if case["und"] else (e.source, e.target, e.distinguisher)
    for u, v, x in case["es"]:
        e, _ = g.add_edge(u, v); w[key(e)] = x
    return g, (lambda e: w[key(e)])

def true_dist(g, wt, s):
    D = {u: None for u in g.vertices()}; D[s] = 0
    arcs = [(e.source, e.target, wt(e)) for u in g.vertices() for e in g.out_edges(u)]
    ch = True
    while ch:
        ch = False
        for u, v, x in arcs:
            if D[u] is not None and (D[v] is None or D[u] + x < D[v]): D[v] = D[u] + x; ch = True
    return D

def run(case):
    g, wt = build(case); s = case["s"]; D = true_dist(g, wt, s)
    preds = defaultdict(set); dist = defaultdict(int); ex = []; fin = []; disc = []
    class V(DijkstraVisitor):
        def examine_vertex(self, u, g): ex.append(u)
        def finish_vertex(self, u, g): fin.append(u)
    color = defaultdict(int)
    if case["dirty"]:
        for u in g.vertices(): dist[u] = u
    kw = dict(vis=V())
    if case["cmp"]: kw["compare"] = Less()
    if case["color"]: kw["pmap_vcolor"] = make_assoc_property_map(color)
    dijkstra_shortest_paths(g, s, make_func_property_map(wt), make_assoc_property_map(preds), make_assoc_property_map(dist), **kw)
    for u in g.vertices():
        same(dist[u], INFINITY if D[u] is None else D[u], "distance of %r" % u)
        if u != s:
            got = set(preds[u]) if u in preds else set()
            want = {e for p in g.vertices() for e in g.out_edges(p) if e.target == u and D[p] is not None and D[p] + wt(e) == D[u]} if D[u] is not None else set()
            same(got, want, "predecessors of %r" % u)
    same(msort(ex), msort(u for u in D if D[u] is not None), "examined vertices"); same(fin, ex, "finished vertices")
    same([D[u] for u in ex], sorted(D[u] for u in ex), "distances in order of examination")

def trivial(case): return not any(e[0] == case["s"] for e in case["es"])
