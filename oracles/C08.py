from oracles.base import *
from collections import defaultdict
from pybgl.graph import DirectedGraph, UndirectedGraph, EdgeDescriptor
from pybgl.property_map import make_assoc_property_map
from pybgl.depth_first_search import *
from oracles.C07 import make
RULE = ("all digraphs on <= 2 vertices and random directed/undirected multigraphs, random source collections (empty and absent included), edge filters; "
        "the whole event log is replayed against the graph; non-trivial: there is an edge")

def gen(rng, tier):
    for n, es in graph_cases(rng, 2 if tier == "quick" else 3):
        yield dict(n=n, es=es, und=rng.random() < .25, src=rng.choice([None, "none"]) if rng.random() < .3 else [rng.randrange(n) for _ in range(rng.randrange(0, 4))] if n else [],
                   filt=rng.choice([0, 0, 2, 3]), color=rng.random() < .5, vis=rng.random() < .95, s=rng.randrange(n) if n else 0, api=rng.choice(["graph", "graph", "single"]))
    
def run(case):
    g = make(case); n = case["n"]
    if n == 0 and case["api"] == "single": return
    keep = (lambda e: True) if not case["filt"] else (lambda e: (e.source + 2 * e.target + e.distinguisher) % case["filt"] != 0)
    fl = (lambda e, g_: keep(e)) if case["filt"] else None
    ev = []
    names = ("initialize_vertex", "start_vertex", "discover_vertex", "examine_edge", "tree_edge", "back_edge", "forward_or_cross_edge", "finish_vertex")
    vis = type("V", (DefaultDepthFirstSearchVisitor,), {k: (lambda self, x, g_, k=k: ev.append((k, x))) for k in names})() if case["vis"] else None
    d = defaultdict(int); pm = make_assoc_property_map(d) if case["color"] else None
    if case["api"] == "single":
        srcs = [case["s"]]; depth_first_search(case["s"], g, pm, vis, fl)
    elif case["src"] is None: srcs = list(range(n)); depth_first_search_graph(g, pmap_vcolor=pm, vis=vis, if_push=fl)
    elif case["src"] == "none": srcs = list(range(n)); depth_first_search_graph(g, None, pm, vis, fl)
    else:
        srcs = case["src"]; depth_first_search_graph(g, set(srcs) if len(srcs) % 2 else list(srcs), pm, vis, fl)
    R = reach(lambda u: [e.target for e in g.out_edges(u) if keep(e)], srcs)
    if pm is not None:
        same({u for u in range(n) if d[u] == 2}, R, "black vertices after the search"); same({u for u in range(n) if d[u] == 1}, set(), "gray vertices left")
    if vis is None: return
    for k in ("discover_vertex", "finish_vertex"):
        same(msort(x for n_, x in ev if n_ == k), msort(R), k + " events")
    T = lambda e: (e.source, e.target, e.distinguisher)
    same(msort(T(e) for k, e in ev if k == "examine_edge"), msort(T(e) for u in R for e in g.out_edges(u) if keep(e)), "examined edges")
    seen = set(); path = []; expect = None; i = 0
    while i < len(ev):
        k, x = ev[i]; i += 1
        if expect is not None:
            need((k, x) == ("discover_vertex", expect), "after a tree edge to %r came %r", expect, (k, x))
        if k == "start_vertex":
            need(not path and x in srcs and x not in seen, "start_vertex(%r) out of place", x)
        elif k == "discover_vertex":
            need(x not in seen and (expect is not None or not path), "discover_vertex(%r) out of place", x); expect = None
            seen.add(x); path.append(x)
        elif k == "finish_vertex":
            need(path and path[-1] == x, "finish_vertex(%r) while the path is %r", x, path); path.pop()
        elif k == "examine_edge":
            need(path and path[-1] == x.source, "edge %r examined while the path is %r", x, path)
            v = x.target; want = "tree_edge" if v not in seen else "back_edge" if v in path else "forward_or_cross_edge"
            need(i < len(ev) and ev[i] == (want, x), "edge %r: expected %s, got %r", x, want, ev[i:i + 1]); i += 1
            if want == "tree_edge": expect = v
        else: raise Bad("unexpected event %s" % k)
    need(not path and expect is None, "path %r left open", path)

def trivial(case): return not case["es"]
