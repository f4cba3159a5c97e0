from oracles.base import *
from collections import deque
from pybgl.graph import DirectedGraph
from pybgl.topological_sort import topological_sort
RULE = "all digraphs on <= 3 vertices, random multigraphs (acyclic shapes half of the time), with and without a caller's container; non-trivial: there is an edge"

def gen(rng, tier):
    for n, es in graph_cases(rng, 3, nmax=8):
        if rng.random() < .4:
            p = list(range(n)); rng.shuffle(p); es = [[p[min(a, b)], p[max(a, b)]] for a, b in es if a != b]
            if es and rng.random() < .3: es.append(rng.choice(es)[::-1])
        yield dict(n=n, es=es, stack=rng.choice([None, "empty", "empty", "list"]), drop=rng.random() < .15)

def run(case):
    n = case["n"]; g = DirectedGraph(n)
    for u, v in case["es"]: g.add_edge(u, v)
    V = list(range(n))
    if case["drop"] and n > 1: g.remove_vertex(0); V = V[1:]
    E = [(e.source, e.target) for e in g.edges()]
    indeg = {v: 0 for v in V}; 
    for u, v in E: indeg[v] += 1
    todo = [v for v in V if not indeg[v]]; k = 0
    while todo:
        u = todo.pop(); k += 1
        for a, b in E:
            if a == u:
                indeg[b] -= 1
                if not indeg[b]: todo.append(b)
    cyclic = k < len(V)
    st = None if case["stack"] is None else deque()
    try: r = topological_sort(g) if st is None else topological_sort(g, st)
    except CaseTimeout: raise
    except Exception as e:
        need(cyclic, "error on an acyclic graph: %r", e)
        need(not isinstance(e, (TypeError, KeyError, AttributeError, IndexError, NameError)), "a cyclic graph raised %r", e); return
    need(not cyclic, "an order was returned for a cyclic graph: %r", list(r))
    if st is not None: need(r is st, "the caller's container was not the one filled")
    r = list(r); same(msort(r), msort(V), "vertices of the order")
    pos = {u: i for i, u in enumerate(r)}
    for u, v in E: need(pos[u] < pos[v], "edge %r -> %r goes backwards in %r", u, v, r)

def trivial(case): return not case["es"]
