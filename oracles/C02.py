from oracles.base import *
from pybgl.graph import *
import pybgl.graph as G
RULE = ("histories of add_vertex / add_edge / remove_edge (from either end) / remove_vertex / clear on UndirectedGraph, observed in full "
        "after every step against a multiset of unordered edges; non-trivial: at least one edge was added")
INTS, _ = harvest(["graph.py"])
import oracles.C01 as C01

def gen(rng, tier):
    for c in C01.gen(rng, tier):
        c["ops"] = [o + [rng.randrange(2)] if o[0] == "re" else o for o in c["ops"]]
        yield c

def K(e): return (min(e.source, e.target), max(e.source, e.target), e.distinguisher)

def observe(g, V, E, fn):
    same(msort(G.vertices(g) if fn else g.vertices()), msort(V), "vertices")
    same((G.num_vertices(g) if fn else g.num_vertices()), len(V), "num_vertices")
    same(msort(K(e) for e in (G.edges(g) if fn else g.edges())), msort(E), "edges")
    same((G.num_edges(g) if fn else g.num_edges()), len(E), "num_edges")
    same(bool(g.has_edge()), bool(E), "has_edge"); same(bool(g.has_vertex()), bool(V), "has_vertex")
    need(g.directed is False and not G.is_directed(g), "directed")
    VV = msort(V)
    if len(VV) > 12: VV = VV[:6] + VV[-6:]
    for u in VV:
        want = [(u, (k[1] if k[0] == u else k[0]), k[2]) for k in E if u in k[:2]]
        for nm, f, d in (("out", G.out_edges, G.out_degree), ("in", G.in_edges, G.in_degree)):
            es = list(f(u, g) if fn else getattr(g, nm + "_edges")(u))
            got = [(e.source, e.target, e.distinguisher) if nm == "out" or e.source == u else (e.target, e.source, e.distinguisher) for e in es]
            same(msort(got), msort(want), "%s_edges(%r)" % (nm, u))
            same((d(u, g) if fn else getattr(g, nm + "_degree")(u)), len(want), "%s_degree(%r)" % (nm, u))
        for v in VV:
            uv = [k for k in want if k[1] == v]
            e, ok = G.edge(u, v, g) if fn else g.edge(u, v)
            same(ok, len(uv) == 1, "edge(%r, %r) found" % (u, v))
            if ok: same(K(e), (min(u, v), max(u, v), uv[0][2]), "edge(%r, %r)" % (u, v))

def run(case):
    g = UndirectedGraph(case["n"]); fn = case["fn"]
    V = list(range(case["n"])); E = []
    observe(g, V, E, fn)
    for op in case["ops"]:
        k = op[0]
        if k == "v":
            u = g.add_vertex(); need(u not in V, "add_vertex returned %r, already in use", u); V.append(u)
        elif k == "e" and V:
            u, v = V[op[1] % len(V)], V[op[2] % len(V)]
            e, ok = G.add_edge(u, v, g) if fn else g.add_edge(u, v)
            need(ok is True, "add_edge refused")
            same(K(e)[:2], (min(u, v), max(u, v)), "ends of the added edge")
            need(K(e) not in E, "added edge %r equals a stored one", K(e)); E.append(K(e))
        elif k == "re" and E:
            key = E[op[1] % len(E)]
            e = EdgeDescriptor(*key) if op[2] == 0 else EdgeDescriptor(key[1], key[0], key[2])
            G.remove_edge(e, g) if fn else g.remove_edge(e); E.remove(key)
        elif k == "rv" and V:
            u = V[op[1] % len(V)]
            G.remove_vertex(u, g) if fn else g.remove_vertex(u); V.remove(u); E = [x for x in E if u not in x[:2]]
        elif k == "clear":
            g.clear(); V = []; E = []
        observe(g, V, E, fn)

trivial = C01.trivial
