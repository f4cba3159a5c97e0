from oracles.base import *
from pybgl.graph import DirectedGraph, UndirectedGraph
from pybgl.incidence_graph import IncidenceGraph
from pybgl.automaton import Automaton
from pybgl.graph_view import GraphView
from pybgl.property_map import make_func_property_map, make_assoc_property_map
from collections import defaultdict
RULE = ("random (un)directed, incidence graphs and automata, two random pairs of vertex and edge predicates (absent ones included), expressions of union, intersection and difference of their views, then changes of the graph and of the "
        "predicates; non-trivial: at least one edge")

def gen(rng, tier):
    for n, es in graph_cases(rng, 2, 5):
        ms = sorted(rng.sample(range(max(1, len(es))), min(len(es), rng.randrange(4))))
        pred = lambda m: None if rng.random() < .15 else sorted(x for x in range(m) if rng.random() < rng.choice([.5, .8]))
        yield dict(c=rng.choice("dduia"), n=n, es=es, v=[pred(n + 2), pred(n + 2), pred(n + 2)], e=[pred(len(es) + 3) for _ in range(3)], ops=[rng.choice("|&-") for _ in range(2)], left=rng.random() < .5,
                   late=[[rng.randrange(n + 2), rng.randrange(n + 2)] for _ in range(rng.randrange(3))] if n else [], rm=ms[:1], fn=rng.random() < .5)

def run(case):
    n, c = case["n"], case["c"]; g = {"d": DirectedGraph, "u": UndirectedGraph, "i": IncidenceGraph, "a": Automaton}[c](n)
    key = (lambda e: (min(e.source, e.target), max(e.source, e.target), e.distinguisher)) if c == "u" else (lambda e: (e.source, e.target, e.distinguisher))
    idx = {}; E = []
    def add(u, v):
        e, ok = g.add_edge(u, v, "s%d" % len(idx)) if c == "a" else g.add_edge(u, v); idx[key(e)] = len(idx); E.append(key(e)); return e
    real = [add(u, v) for u, v in case["es"]]
    vs = [None if p is None else set(p) for p in case["v"]]; es = [None if p is None else set(p) for p in case["e"]]
    vp = [(lambda u, p=p: p is None or u in p) for p in vs]; ep = [(lambda k, p=p: p is None or idx[k] in p) for p in es]
    def pm(f, none):
        if none: return None
        return make_func_property_map(f)
    views = []
    for i in range(3):
        if case["fn"] or vs[i] is None: pv = pm(vp[i], vs[i] is None)
        else: d = defaultdict(bool); [d.__setitem__(u, True) for u in vs[i]]; pv = make_assoc_property_map(d)
        pe = pm(lambda e, f=ep[i]: f(key(e)), es[i] is None)
        views.append(GraphView(g, pv, pe) if i or pv is not None else GraphView(g, pmap_erelevant=pe))
    def comb(o, A, B):
        (v1, e1), (v2, e2) = A, B
        if o == "|": return (lambda u: v1(u) or v2(u)), (lambda k: e1(k) or e2(k))
        if o == "&": return (lambda u: v1(u) and v2(u)), (lambda k: e1(k) and e2(k))
        return (lambda u: v1(u) and not v2(u)), (lambda k: e1(k) and (not e2(k) or not (v2(k[0]) or v2(k[1]))))
    do = lambda o, x, y: x | y if o == "|" else x & y if o == "&" else x - y
    S = list(zip(vp, ep)); o1, o2 = case["ops"]
    if case["left"]: X, SX = do(o2, do(o1, views[0], views[1]), views[2]), comb(o2, comb(o1, S[0], S[1]), S[2])
    else: X, SX = do(o1, views[0], do(o2, views[1], views[2])), comb(o1, S[0], comb(o2, S[1], S[2]))
    todo = [(views[0], S[0], "view"), (do(o1, views[0], views[1]), comb(o1, S[0], S[1]), "view %s view" % o1), (X, SX, "views combined by %s %s" % (o1, o2))]
    def look():
        V = list(g.vertices())
        for x, (pv, pe), what in todo:
            R = [u for u in V if pv(u)]; K = [k for k in E if pe(k) and pv(k[0]) and pv(k[1])]
            same(msort(x.vertices()), msort(R), what + ": vertices"); same(msort(map(key, x.edges())), msort(K), what + ": edges")
            same((x.num_vertices(), x.num_edges()), (len(R), len(K)), what + ": counts")
            for u in V:
                out = [k for k in K if k[0] == u or (c == "u" and k[1] == u)]
                same(msort(map(key, x.out_edges(u))), msort(out), what + ": out_edges(%r)" % u); same(x.out_degree(u), len(out), what + ": out_degree(%r)" % u)
                if c in "ui":
                    inn = [k for k in K if k[1] == u or (c == "u" and k[0] == u)]
                    same(msort(map(key, x.in_edges(u))), msort(inn), what + ": in_edges(%r)" % u); same(x.in_degree(u), len(inn), what + ": in_degree(%r)" % u)
        same(msort(map(key, g.edges())), msort(E), "edges of the viewed graph")
    look()
    for i in case["rm"]:
        if i < len(real): g.remove_edge(real[i]); E.remove(key(real[i]))
    for u, v in case["late"]:
        while len(list(g.vertices())) <= max(u, v): g.add_vertex()
        add(u, v)
    look()
    if c == "d" and n and case["n"] > 1:
        u = n - 1; g.remove_vertex(u); E[:] = [k for k in E if u not in k[:2]]; look()
    for p in vs: 
        if p is not None and case["fn"]: p ^= {0, 1}
    if case["fn"]: look()

def trivial(case): return not case["es"]
