from oracles.base import *
from pybgl.graph import *
import pybgl.graph as G
RULE = ("histories of add_vertex / add_edge / remove_edge / remove_vertex / clear on DirectedGraph (through methods and free "
        "functions), observed in full after every step against a multiset-of-edges model; non-trivial: at least one edge was added")
INTS, _ = harvest(["graph.py"])

def gen(rng, tier):
    for a in itertools.product(range(3), repeat=4):       # all 4-step add/remove patterns on two vertices
        yield dict(n=2, ops=[["e", x // 1 % 2, x // 2] if x < 2 else ["re", 0] for x in a], fn=False)
    while True:
        n = rng.choice([0, 1, 2, 3, 4])
        k = rng.choice([3, 6, 10, 16, 30])
        if rng.random() < 0.02:
            n = rng.choice([12, 30] + [i for i in INTS if i < 60]); k = 60
        ops = []
        few = rng.random() < 0.4
        for _ in range(k):
            r = rng.random()
            a = rng.randrange(2 if few else 60); b = rng.randrange(2 if few else 60)
            ops.append(["e", a, b] if r < .55 else ["re", a + 2 * b] if r < .78 else ["v"] if r < .88 else ["rv", a] if r < .985 else ["clear"])
        if rng.random() < 0.05:
            ops += [["e", 0, 1]] * rng.choice([5, 20] + [i + 1 for i in INTS if i < 300])
            ops += [["re", rng.randrange(50)] for _ in range(4)] + [["e", 0, 1]] * 3
        yield dict(n=n, ops=ops, fn=rng.random() < .3)

def observe(g, V, E, fn):
    vs = list(G.vertices(g) if fn else g.vertices())
    same(msort(vs), msort(V), "vertices")
    same((G.num_vertices(g) if fn else g.num_vertices()), len(V), "num_vertices")
    es = [(e.source, e.target, e.distinguisher) for e in (G.edges(g) if fn else g.edges())]
    same(msort(es), msort(E), "edges")
    same((G.num_edges(g) if fn else g.num_edges()), len(E), "num_edges")
    same(bool(g.has_vertex()), bool(V), "has_vertex"); same(bool(g.has_edge()), bool(E), "has_edge")
    same(bool(G.has_vertex(g)), bool(V), "has_vertex()"); same(bool(G.has_edge(g)), bool(E), "has_edge()")
    need(g.directed is True and G.is_directed(g), "not directed")
    VV = msort(V)
    if len(VV) > 12: VV = VV[:6] + VV[-6:]
    for u in VV:
        want = [k for k in E if k[0] == u]
        got = [(e.source, e.target, e.distinguisher) for e in (G.out_edges(u, g) if fn else g.out_edges(u))]
        same(msort(got), msort(want), "out_edges(%r)" % u)
        same((G.out_degree(u, g) if fn else g.out_degree(u)), len(want), "out_degree(%r)" % u)
        for v in VV:
            uv = [k for k in want if k[1] == v]
            e, ok = G.edge(u, v, g) if fn else g.edge(u, v)
            same(ok, len(uv) == 1, "edge(%r, %r) found" % (u, v))
            if ok: same((e.source, e.target, e.distinguisher), uv[0], "edge(%r, %r)" % (u, v))
            else: need(e is None, "edge(%r, %r) absent but returned", u, v)
    for e in g.edges():
        same((g.source(e), g.target(e)), (e.source, e.target), "source/target")
        same((G.source(e, g), G.target(e, g)), (e.source, e.target), "source()/target()")

def run(case):
    g = DirectedGraph(case["n"]); fn = case["fn"]
    V = list(range(case["n"])); E = []
    observe(g, V, E, fn)
    for step, op in enumerate(case["ops"]):
        k = op[0]
        if k == "v":
            u = G.add_vertex(g) if fn else g.add_vertex()
            need(u not in V, "add_vertex returned %r, already in use", u); V.append(u)
        elif k == "e" and V:
            u, v = V[op[1] % len(V)], V[op[2] % len(V)]
            e, ok = G.add_edge(u, v, g) if fn else g.add_edge(u, v)
            need(ok is True, "add_edge refused")
            key = (e.source, e.target, e.distinguisher)
            same((e.source, e.target), (u, v), "ends of the added edge")
            need(key not in E, "added edge %r equals a stored one", key); E.append(key)
        elif k == "re" and E:
            key = E[op[1] % len(E)]
            e = EdgeDescriptor(*key)
            G.remove_edge(e, g) if fn else g.remove_edge(e); E.remove(key)
        elif k == "rv" and V:
            u = V[op[1] % len(V)]
            G.remove_vertex(u, g) if fn else g.remove_vertex(u); V.remove(u); E = [x for x in E if u not in x[:2]]
        elif k == "clear":
            g.clear(); V = []; E = []
        observe(g, V, E, fn)

def trivial(case):
    return not any(o[0] == "e" for o in case["ops"])
