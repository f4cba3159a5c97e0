from oracles.base import *
from collections import defaultdict
from pybgl.property_map import make_assoc_property_map, make_func_property_map
from pybgl.algebra import INFINITY, Less
from pybgl.dijkstra_shortest_paths import *
from pybgl.dijkstra_shortest_paths import DijkstraVisitor
from oracles.C11 import wcases, build, true_dist
RULE = ("random weighted multigraphs (zero-weight cycles included), every target: returned path, path and DAG extracted from the predecessors of a full search; "
        "non-trivial: there is an edge")
CPU = 4.0

def gen(rng, tier):
    for n, es in wcases(rng, tier):
        yield dict(n=n, es=es, und=rng.random() < .25, s=rng.randrange(n), t=rng.randrange(n), vis=rng.random() < .3)

def check_path(p, g, wt, s, t, d, what):
    need(isinstance(p, (list, tuple)), "%s: %r is no path", what, p)
    u = s; w = 0; E = {(e.source, e.target, e.distinguisher) for x in g.vertices() for e in g.out_edges(x)}
    for e in p:
        need((e.source, e.target, e.distinguisher) in E, "%s: %r is no edge", what, e)
        same(e.source, u, what + ": start of the next edge"); u = e.target; w += wt(e)
    same(u, t, what + ": end of the path"); same(w, d, what + ": total weight")

def run(case):
    g, wt = build(case); s, t = case["s"], case["t"]; D = true_dist(g, wt, s)
    def maps(): return defaultdict(set), defaultdict(int)
    preds, dist = maps()
    seen = []
    class V(DijkstraVisitor):
        def examine_vertex(self, u, g): seen.append(u)
    kw = dict(vis=V()) if case["vis"] else {}
    p = dijkstra_shortest_path(g, s, t, make_func_property_map(wt), make_assoc_property_map(preds), make_assoc_property_map(dist), **kw)
    if D[t] is None: need(p is None, "a path %r to a target that cannot be reached", p)
    else:
        check_path(p, g, wt, s, t, D[t], "dijkstra_shortest_path"); same(dist[t], D[t], "distance of the target")
        if case["vis"]: need(seen and seen[-1] == t and t not in seen[:-1], "the caller's visitor saw %r", seen)
    preds, dist = maps()
    dijkstra_shortest_paths(g, s, make_func_property_map(wt), make_assoc_property_map(preds), make_assoc_property_map(dist))
    P = {u: set(preds[u]) for u in list(g.vertices())}
    for x in g.vertices():
        if D[x] is not None:
            check_path(make_shortest_path(g, s, x, make_assoc_property_map(preds)), g, wt, s, x, D[x], "make_shortest_path to %r" % x)
        back = reach(lambda u: [e.source for e in P[u]], [x])
        same(set(make_shortest_paths_dag(g, s, x, make_assoc_property_map(preds))), {e for u in back for e in P[u]}, "make_shortest_paths_dag to %r" % x)
        if D[x] is not None and all(e[2] > 0 for e in case["es"]):
            k = make_shortest_paths_dag(g, s, x, make_assoc_property_map(preds), single_path=True); q = []; u = x
            need(len({e.target for e in k}) == len(k), "single path %r is no path", k)
            while u != s:
                e = [e for e in k if e.target == u]; need(e, "single path %r to %r is broken at %r", k, x, u); q.insert(0, e[0]); u = e[0].source
            same(len(q), len(k), "edges of the single path"); check_path(q, g, wt, s, x, D[x], "single path")
    for u in P: same(set(preds[u]), P[u], "predecessors of %r after the extraction" % u)

def trivial(case): return not case["es"]
