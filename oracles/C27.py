from oracles.nfatools import *
from pybgl.graph import DirectedGraph, UndirectedGraph
from pybgl.incidence_graph import IncidenceGraph
from pybgl.incidence_automaton import IncidenceAutomaton
from pybgl.property_map import make_func_property_map, make_assoc_property_map
from pybgl.graph_copy import graph_copy
from pybgl.automaton_copy import automaton_copy
from pybgl.graph_extract import graph_extract
from pybgl.cut import cut
from collections import defaultdict
RULE = ("random directed, undirected and incidence multigraphs and automata, a random source and random relevance predicates (absent ones included), with and without the maps and callbacks of the caller; random edge cuts; "
        "non-trivial: at least one edge leaves the source")

def gen(rng, tier):
    for n, es in graph_cases(rng, 2, 6):
        if not n: continue
        pred = lambda m: None if rng.random() < .35 else sorted(x for x in range(m) if rng.random() < .75)
        yield dict(k=rng.choice(["copy", "copy", "extract", "auto", "cut"]), c=rng.choice("ddui"), n=n, es=es, s=rng.randrange(n) if rng.random() < .5 else 0, v=pred(n), e=pred(len(es)), maps=rng.random() < .6, cb=rng.random() < .7,
                   cut=sorted(x for x in range(len(es)) if rng.random() < .3), pre=rng.random() < .15)

def run(case):
    k, n, c, s = case["k"], case["n"], case["c"], case["s"]
    if k == "auto": C = [Automaton, IncidenceAutomaton][c == "i"]; und = False
    else: C = {"d": DirectedGraph, "u": UndirectedGraph, "i": IncidenceGraph}[c]; und = c == "u"
    g = C(n); key = (lambda e: (min(e.source, e.target), max(e.source, e.target), e.distinguisher)) if und else (lambda e: (e.source, e.target, e.distinguisher))
    es, ei = [], {}
    for u, v in case["es"]:
        e, ok = g.add_edge(u, v, "s%d" % (len(es) % 3)) if k == "auto" else g.add_edge(u, v)
        if ok: ei[key(e)] = len(es); es.append(key(e))
    before = msort(map(key, g.edges()))
    relv = lambda u: case["v"] is None or u in case["v"]; rele = lambda q: case["e"] is None or ei[q] in case["e"]
    kw = {}
    if case["v"] is not None: kw["pmap_vrelevant"] = make_func_property_map(relv)
    if case["e"] is not None: kw["pmap_erelevant"] = make_func_property_map(lambda e: rele(key(e)))
    ok = lambda q, t: rele(q) and relv(t)
    def outs(u): return [(q, q[1] if q[0] == u else q[0]) for q in es if q[0] == u or (und and q[1] == u)]
    R = reach(lambda u: [t for q, t in outs(u) if ok(q, t)], [s]); K = [q for q in es if (q[0] in R and ok(q, q[1])) or (und and q[1] in R and ok(q, q[0]))]
    if k == "cut":
        C_ = {es[i] for i in case["cut"] if i < len(es)}
        R = reach(lambda u: [t for q, t in outs(u) if q not in C_], [s])
        want = {t for u in R for q, t in outs(u) if q in C_} | {u for u in R if not outs(u)}
        same(set(cut(s, g, lambda e, g_: key(e) in C_)), want, "cut"); same(msort(map(key, g.edges())), before, "graph after the call"); return
    if k == "extract":
        V, X = [], []
        graph_extract(s, g, callback_vertex_extract=lambda u, g_: V.append(u), callback_edge_extract=lambda e, g_: X.append((e.source, e.target, e.distinguisher)), **kw)
        same(msort(V), msort(R), "vertices visited")
        want = [(u, t, q[2]) for u in R for q, t in outs(u) if ok(q, t)]
        same(msort(X), msort(want), "edges visited"); graph_extract(s, g, **kw)
        same(msort(map(key, g.edges())), before, "graph after the call"); return
    # copies
    d = C(2 if case["pre"] else 0); V, X = [], []
    if case["maps"]: mv, me = defaultdict(), defaultdict(); kw.update(pmap_vertices=make_assoc_property_map(mv), pmap_edges=make_assoc_property_map(me))
    if case["cb"]:
        def cbv(u, g_, ud, gd):
            need(g_ is g and gd is d, "callback given other graphs"); V.append((u, ud))
            if k == "auto": gd.set_final(ud, u % 2 == 0)
        kw.update(callback_dup_vertex=cbv, callback_dup_edge=lambda e, g_, ed, gd: X.append((e, ed)))
    (automaton_copy if k == "auto" else graph_copy)(s, g, d, **kw)
    same(msort(map(key, g.edges())), before, "graph after the call")
    p0 = 2 if case["pre"] else 0; nv = d.num_vertices() - p0
    same(nv, len(R), "number of copied vertices"); same(d.num_edges(), len(K), "number of copied edges")
    maps = []
    if case["maps"]: maps.append(dict(mv))
    if case["cb"]: same(len(V), len(R), "vertex callbacks"); maps.append(dict(V))
    for m in maps:
        same(set(m), R, "vertices with a copy"); same(len(set(m.values())), len(R), "distinct copies"); need(set(m.values()) <= set(d.vertices()), "copies are vertices")
        mk = lambda q: (min(m[q[0]], m[q[1]]), max(m[q[0]], m[q[1]])) if und else (m[q[0]], m[q[1]])
        lab = (lambda q: q[2]) if k == "auto" else (lambda q: None)
        same(msort((mk(q), lab(q)) for q in K), msort((key(e)[:2], lab(key(e))) for e in d.edges()), "copied edges")
        pairs = ([(e, ed) for e, ed in me.items()] if case["maps"] else [])
        if case["maps"]: same({key(e) for e in me}, set(K), "edges with a copy"); same(len({key(x) for x in me.values()}), len(K), "distinct copies of edges")
        if case["cb"]: same(msort(key(e) for e, _ in X), msort(K), "edge callbacks"); pairs += X; same(len({key(x) for _, x in X}), len(K), "distinct copies of edges given to the callback")
        for e, ed in pairs:
            same(key(ed)[:2], mk(key(e)), "ends of the copy of %r" % (key(e),)); same(lab(key(ed)), lab(key(e)), "symbol of the copy"); need(key(ed) in set(map(key, d.edges())), "copy of an edge which is not in the copy")
    if k == "auto" and case["cb"] and not case["pre"]:
        D = {(q[0], q[2]): q[1] for q in K}
        d.set_initial(dict(V)[s]); agree(read_dfa(d), [(D, s, {u for u in R if u % 2 == 0})], lambda x: x, "the copied automaton")

def trivial(case): return not any(case["s"] in e for e in case["es"])
