from oracles.base import *
from collections import defaultdict
from pybgl.graph import DirectedGraph, UndirectedGraph, EdgeDescriptor
from pybgl.property_map import make_assoc_property_map
from pybgl.breadth_first_search import *
RULE = ("all digraphs on <= 2 vertices and random directed/undirected multigraphs (self-loops, parallels), random source sets, edge filters, omitted arguments; "
        "the whole event log is checked; non-trivial: an edge leaves a source")

def gen(rng, tier):
    for n, es in graph_cases(rng, 2 if tier == "quick" else 3):
        src = rng.choice([None, "one", "all"]) if rng.random() < .3 else sorted({rng.randrange(n) for _ in range(rng.randrange(0, 3))}) if n else []
        yield dict(n=n, es=es, und=rng.random() < .3, src=src, filt=rng.choice([0, 0, 2, 3]), color=rng.random() < .5, vis=rng.random() < .95, s=rng.randrange(n) if n else 0,
                   perm=rng.sample(range(n), n) if rng.random() < .3 else None, api=rng.choice(["graph", "graph", "single"]))

class Log:
    def __init__(self): self.ev = []
    def __getattr__(self, name):
        if name.startswith("_"): raise AttributeError(name)
        def f(x, g): self.ev.append((name, x))
        return f
    def __bool__(self): return True

def make(case):
    g = (UndirectedGraph if case["und"] else DirectedGraph)(case["n"])
    for u, v in case["es"]: g.add_edge(u, v)
    return g

def run(case):
    g = make(case); n = case["n"]
    if n == 0 and case["api"] == "single": return
    keep = (lambda e: True) if not case["filt"] else (lambda e: (e.source + 2 * e.target + e.distinguisher) % case["filt"] != 0)
    d = defaultdict(int)
    if case["api"] == "single" or case["src"] == "one": srcs = [case["s"]] if n else []
    elif case["src"] in (None, "all"): srcs = list(range(n))
    else: srcs = case["src"]
    log = Log()
    if case["vis"] is False: vis = None
    else:
        vis = type("V", (DefaultBreadthFirstSearchVisitor,), {k: (lambda self, x, g_, k=k: log.ev.append((k, x, d[x] if k == "discover_vertex" else d[g_.target(x)] if k in ("tree_edge", "non_tree_edge", "gray_target", "black_target") else None)))
              for k in ("initialize_vertex", "examine_vertex", "examine_edge", "tree_edge", "discover_vertex", "non_tree_edge", "gray_target", "black_target", "finish_vertex")})()
    pm = make_assoc_property_map(d) if case["color"] or case["vis"] else None
    fl = (lambda e, g_: keep(e)) if case["filt"] else None
    kw = dict(pmap_vcolor=pm, vis=vis, if_push=fl)
    if case["filt"] and case["n"] % 2: pass
    if case["api"] == "single":
        d2 = d
        for u in range(n): d2[u] = (u * 7 + 1) % 3 if case["color"] else 0     # leftovers of an earlier search
        breadth_first_search(case["s"], g, **kw)
    elif case["src"] is None: breadth_first_search_graph(g, **kw)
    else: breadth_first_search_graph(g, (set(srcs) if len(srcs) % 2 else srcs), **kw)
    succ = lambda u: [e.target for e in g.out_edges(u) if keep(e)]
    dist = bfs_dist(succ, srcs)
    if pm is not None:
        same({u for u in range(n) if d[u] == 2}, set(dist), "black vertices after the search"); same({u for u in range(n) if d[u] == 1}, set(), "gray vertices after the search")
    if vis is None: return
    ev = log.ev
    disc = [x for k, x, _ in ev if k == "discover_vertex"]
    for k in ("discover_vertex", "examine_vertex", "finish_vertex"):
        same(msort(x for n_, x, _ in ev if n_ == k), msort(dist), k + " events")
    same([dist[u] for u in disc], sorted(dist[u] for u in disc), "order of discovery (distances)")
    if case["api"] == "single": same(msort(x for k, x, _ in ev if k == "initialize_vertex"), msort(range(n)), "initialize_vertex events")
    exam = [(e.source, e.target, e.distinguisher) for k, e, _ in ev if k == "examine_edge"]
    same(msort(exam), msort((e.source, e.target, e.distinguisher) for u in dist for e in g.out_edges(u) if keep(e)), "examined edges")
    color = {u: 0 for u in range(n)}; cur = None; i = 0; ev = [x for x in ev if x[0] != "initialize_vertex"]
    pending = list(srcs)
    while i < len(ev):
        k, x, c = ev[i]; i += 1
        if k == "discover_vertex":
            need(cur is None and x in pending, "unexpected discovery of %r", x); pending.remove(x); color[x] = 1
        elif k == "examine_vertex":
            need(cur is None and color[x] == 1 and not pending, "examine_vertex(%r) out of place", x); cur = x
        elif k == "finish_vertex":
            need(cur == x, "finish_vertex(%r) while %r is examined", x, cur); color[x] = 2; cur = None
        elif k == "examine_edge":
            need(x.source == cur, "edge %r examined while %r is", x, cur)
            v = x.target; nxt = ev[i:i + 2]
            names = [y[0] for y in nxt]; i += 2
            want = {0: ["tree_edge", "discover_vertex"], 1: ["non_tree_edge", "gray_target"], 2: ["non_tree_edge", "black_target"]}[color[v]]
            for y in nxt: need(y[1] is x or (y[0] == 'discover_vertex' and y[1] == v), "event %r while examining %r", y[:2], x)
            same(names, want, "events for edge %r whose target had colour %d" % (x, color[v]))
            if color[v] == 0: color[v] = 1
        else: raise Bad("unexpected event %s" % k)

def trivial(case): return not case["es"]
