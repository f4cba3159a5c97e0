from oracles.base import *
from collections import defaultdict
from pybgl.graph import DirectedGraph
from pybgl.property_map import make_assoc_property_map
from pybgl.strong_components import strong_components
RULE = "all digraphs on <= 3 vertices, random multigraphs (up to 40 vertices); components compared with mutual reachability; non-trivial: there is an edge"

def gen(rng, tier):
    for n, es in graph_cases(rng, 3, nmax=9):
        yield dict(n=n, es=es, drop=rng.random() < .1)

def run(case):
    n = case["n"]; g = DirectedGraph(n)
    for u, v in case["es"]: g.add_edge(u, v)
    V = list(range(n))
    if case["drop"] and n > 1: g.remove_vertex(n // 2); V.remove(n // 2)
    d = defaultdict(int)
    k = strong_components(g, make_assoc_property_map(d))
    need(set(V) <= set(d), "vertices without a component: %r", set(V) - set(d))
    succ = defaultdict(list)
    for e in g.edges(): succ[e.source].append(e.target)
    R = {u: reach(lambda x: succ[x], [u]) for u in V}
    for u in V:
        for v in V:
            m = v in R[u] and u in R[v]
            need((d[u] == d[v]) == m, "vertices %r and %r: components %r and %r, mutually reachable: %r", u, v, d[u], d[v], m)
    same(k, len({d[u] for u in V}), "number of components")

def trivial(case): return not case["es"]
