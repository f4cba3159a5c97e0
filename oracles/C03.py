from oracles.base import *
import pybgl.graph as G
from pybgl.graph import EdgeDescriptor
from pybgl.incidence_graph import IncidenceGraph
from pybgl.incidence_automaton import IncidenceAutomaton, make_incidence_automaton
from pybgl.incidence_node_automaton import IncidenceNodeAutomaton, make_incidence_node_automaton
RULE = ("histories of additions and removals on IncidenceGraph, IncidenceAutomaton and IncidenceNodeAutomaton, in/out/all edges and degrees "
        "compared with a model after every step; non-trivial: at least one edge addition")
SY = ["a", "b", "", "ab", "é", 0, "0"]

def gen(rng, tier):
    while True:
        kind = rng.choice(["graph", "auto", "node"])
        n = rng.choice([0, 1, 2, 3, 4]); k = rng.choice([3, 6, 10, 16, 30])
        few = rng.random() < .5
        ops = []
        for _ in range(k):
            r = rng.random()
            a = rng.randrange(2 if few else 12); b = rng.randrange(2 if few else 12)
            ops.append(["e", a, b, rng.randrange(2 if few else len(SY))] if r < .58 else ["re", a + 2 * b] if r < .78 else ["v", rng.randrange(len(SY))] if r < .9 else ["rv", a] if r < .985 else ["clear"])
        yield dict(kind=kind, n=n, ops=ops)

def T(e): return (e.source, e.target, e.distinguisher)

def observe(g, V, E):
    same(msort(g.vertices()), msort(V), "vertices")
    same(msort(map(T, g.edges())), msort(E), "edges")
    same(g.num_edges(), len(E), "num_edges"); same(g.num_vertices(), len(V), "num_vertices")
    for u in V:
        wo = [k for k in E if k[0] == u]; wi = [k for k in E if k[1] == u]
        same(msort(map(T, g.out_edges(u))), msort(wo), "out_edges(%r)" % u)
        same(msort(map(T, g.in_edges(u))), msort(wi), "in_edges(%r)" % u)
        same((g.out_degree(u), g.in_degree(u)), (len(wo), len(wi)), "degrees of %r" % u)
        same(msort(map(T, G.in_edges(u, g))), msort(wi), "in_edges(%r)" % u)

def run(case):
    kind = case["kind"]; n = case["n"]
    V = list(range(n)); E = []; sym = {}
    g = {"graph": IncidenceGraph, "auto": IncidenceAutomaton, "node": IncidenceNodeAutomaton}[kind](0 if kind == "node" else n)
    if kind == "node":
        for i in range(n):
            u = g.add_vertex(SY[i % 3]); same(u, i, "identifier"); sym[i] = SY[i % 3]
    observe(g, V, E)
    for op in case["ops"]:
        k = op[0]
        if k == "v":
            if kind == "node": u = g.add_vertex(SY[op[1]]); sym[u] = SY[op[1]]
            else: u = g.add_vertex()
            need(u not in V, "identifier %r already in use", u); V.append(u)
        elif k == "e" and V:
            u, v = V[op[1] % len(V)], V[op[2] % len(V)]
            if kind == "graph":
                e, ok = g.add_edge(u, v); need(ok, "add_edge refused"); need(T(e) not in E, "same edge twice"); same(T(e)[:2], (u, v), "ends"); E.append(T(e))
            else:
                if kind == "auto": a = SY[op[3]]; e, ok = g.add_edge(u, v, a)
                else: a = sym[v]; e, ok = g.add_edge(u, v)
                free = not any(x[0] == u and x[2] == a for x in E)
                same(bool(ok), free, "add_edge(%r, %r, %r) accepted" % (u, v, a))
                if free: same(T(e), (u, v, a), "added edge"); E.append((u, v, a))
        elif k == "re" and E:
            key = E[op[1] % len(E)]; g.remove_edge(EdgeDescriptor(*key)); E.remove(key)
        elif k == "rv" and V:
            u = V[op[1] % len(V)]; g.remove_vertex(u); V.remove(u); E = [x for x in E if u not in x[:2]]
        elif k == "clear":
            g.clear(); V = []; E = []
        observe(g, V, E)

def trivial(case):
    return not any(o[0] == "e" for o in case["ops"])
