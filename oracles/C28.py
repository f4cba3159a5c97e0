from oracles.nfatools import *
from pybgl.incidence_graph import IncidenceGraph
from pybgl.incidence_automaton import IncidenceAutomaton
from pybgl.incidence_node_automaton import IncidenceNodeAutomaton
from pybgl.prune_incidence_automaton import prune_incidence_automaton, find_reachable_vertices
from pybgl.reverse import reverse_graph, reverse_dict
RULE = ("random incidence automata (no final state, unreachable parts, self-loops) pruned and compared with the states lying on a path from the initial to a final state; random incidence structures reversed once and twice, "
        "searched while reversed; non-trivial: at least two transitions")

def gen(rng, tier):
    while True:
        yield dict(k=rng.choice(["prune", "reverse"]), c=rng.choice("gan"), d=rand_dfa(rng, rng.choice([1, 2, 4, 6, 9]), rng.choice(["ab", "a", "abc"])))

def run(case):
    d = case["d"]; D, q0, F = ddict(d)
    if case["k"] == "prune":
        g = build_dfa(d, IncidenceAutomaton); V = set(range(d["n"]))
        fw = reach(lambda u: [r for (q, a), r in D.items() if q == u], [q0]); bw = reach(lambda u: [q for (q, a), r in D.items() if r == u], F); K = fw & bw
        same(set(find_reachable_vertices(g, {q0})), fw, "reachable states")
        prune_incidence_automaton(g)
        same(set(g.vertices()), K, "states kept")
        want = msort((q, r, a) for (q, a), r in D.items() if q in K and r in K)
        same(msort((g.source(e), g.target(e), g.label(e)) for e in g.edges()), want, "transitions kept")
        same(msort((g.source(e), g.target(e), g.label(e)) for q in K for e in g.in_edges(q)), want, "incoming transitions kept")
        same({q for q in K if g.is_final(q)}, F & K, "final states kept"); same(g.initial(), q0, "initial state")
        agree(read_dfa(g), [(D, q0, F)], lambda x: x, "pruned automaton"); agree_words(g, [(D, q0, F)], lambda x: x, "pruned automaton", "ab", 4)
        prune_incidence_automaton(g); same(set(g.vertices()), K, "states kept by a second pruning")
        return
    n = d["n"]
    if case["c"] == "g":
        g = IncidenceGraph(n)
        for (q, a), r in D.items(): g.add_edge(q, r)
    elif case["c"] == "a": g = build_dfa(d, IncidenceAutomaton)
    else:
        g = IncidenceNodeAutomaton(n)
        for q in range(n): g.pmap_vsymbol[q] = "ab"[q % 2]
        for (q, a), r in D.items(): g.add_edge(q, r)
    def look():
        V = list(g.vertices()); ed = [(g.source(e), g.target(e), e.distinguisher) for e in g.edges()]
        out = {q: msort((g.source(e), g.target(e), e.distinguisher) for e in g.out_edges(q)) for q in V}; inn = {q: msort((g.source(e), g.target(e), e.distinguisher) for e in g.in_edges(q)) for q in V}
        return V, msort(ed), out, inn, {q: g.out_degree(q) for q in V}, {q: g.in_degree(q) for q in V}, (g.num_vertices(), g.num_edges())
    a = look(); flip = lambda l: msort((v, u, x) for u, v, x in l)
    reverse_graph(g); b = look()
    want = a[0], flip(a[1]), {q: flip(a[3][q]) for q in a[0]}, {q: flip(a[2][q]) for q in a[0]}, a[5], a[4], a[6]
    for x, y, w in zip(b, want, ["vertices", "edges", "out_edges", "in_edges", "out degrees", "in degrees", "counts"]): same(x, y, "reversed graph: " + w)
    for q in a[0]: need(all(x[0] == q for x in b[2][q]) and all(x[1] == q for x in b[3][q]), "edges attached to the wrong end in the reversed graph")
    pr = {}
    for u, v, _ in a[1]: pr.setdefault(v, []).append(u)
    for s in a[0][:2]: same(set(find_reachable_vertices(g, {s})), reach(lambda u: pr.get(u, ()), [s]), "vertices reachable in the reversed graph from %r" % s)
    reverse_graph(g); c = look()
    for x, y, w in zip(c, a, ["vertices", "edges", "out_edges", "in_edges", "out degrees", "in degrees", "counts"]): same(x, y, "graph reversed twice: " + w)
    dd = {k: -k - 1 for k in range(n)}; same(reverse_dict(dd), {v: k for k, v in dd.items()}, "reverse_dict")

def trivial(case): return len(case["d"]["tr"]) < 2
