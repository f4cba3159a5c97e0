from oracles.base import *
from collections import defaultdict
import pybgl.node_automaton as N
from pybgl.node_automaton import NodeAutomaton, make_node_automaton
from pybgl.incidence_node_automaton import IncidenceNodeAutomaton, make_incidence_node_automaton
from pybgl.incidence_automaton import IncidenceAutomaton, make_incidence_automaton
from pybgl.automaton import Automaton, make_automaton
from pybgl.graph import EdgeDescriptor
from pybgl.property_map import make_assoc_property_map, make_func_property_map
RULE = ("histories of additions and removals on NodeAutomaton and IncidenceNodeAutomaton against a model with all words of length <= 3, "
        "and the four constructors from transition lists with integer and text names; non-trivial: a transition was added or listed")
SY = "abc"

def gen(rng, tier):
    while True:
        few = rng.random() < .5; inc = rng.random() < .4; n = rng.choice([1, 2, 3, 4, 5])
        if rng.random() < .45:
            names = rng.choice([list(range(n)), [3 * i + 5 for i in range(n)], ["s%d" % i for i in range(n)], ["x", "b", "Z", "", "aa"][:n]])
            lab = [rng.choice(SY) for _ in names]
            tr = []; seen = set()
            for _ in range(rng.randrange(0, 9)):
                i, j, a = rng.randrange(n), rng.randrange(n), rng.choice(SY)
                tr.append([i, j, a])
            ctor = rng.choice(["auto", "node"])
            keep = []
            for i, j, a in tr:
                k = (i, a if ctor == "auto" else lab[j])
                if k in seen: continue
                seen.add(k); keep.append([i, j, a])
            yield dict(kind="make", ctor=ctor, inc=inc, names=names, lab=lab, tr=keep, q0=rng.randrange(n), fin=[i for i in range(n) if rng.random() < .4], nofin=rng.random() < .2)
            continue
        ops = []
        for _ in range(rng.choice([3, 6, 10, 18])):
            r = rng.random(); a = rng.randrange(2 if few else 12); b = rng.randrange(2 if few else 12)
            ops.append(["e", a, b] if r < .55 else ["re", a + 2 * b] if r < .68 else ["v", rng.randrange(3)] if r < .78
                       else ["rv", a] if r < .83 else ["f", a, rng.random() < .7] if r < .94 else ["i", a])
        yield dict(kind="ops", lab=[rng.randrange(3) for _ in range(n)], ops=ops, inc=inc, fn=rng.random() < .3, pm=rng.random() < .4, nolab=rng.random() < .15)

def T(e): return (e.source, e.target, e.distinguisher)

def observe(g, V, D, sym, F, q0, fn):
    same(msort(g.vertices()), msort(V), "vertices")
    E = [(q, r, a) for (q, a), r in D.items()]
    same(msort(map(T, g.edges())), msort(E), "edges")
    same(set(g.alphabet()), {sym[q] for q in V if q != q0}, "alphabet")
    for q in V + [None]:
        same(set(g.sigma(q)), {a for p, a in D if p == q}, "sigma(%r)" % q)
        for a in SY + "Z":
            same(g.delta(q, a), D.get((q, a)), "delta(%r, %r)" % (q, a))
        if q is None: continue
        same(N.symbol(q, g) if fn else g.symbol(q), sym[q], "symbol(%r)" % q)
        same(msort(map(T, g.out_edges(q))), msort([x for x in E if x[0] == q]), "out_edges(%r)" % q)
        for e in g.out_edges(q): same(g.label(e), sym[e.target], "label")
        same(bool(g.is_final(q)), q in F, "is_final(%r)" % q)
        for r in V:
            e, ok = N.edge(q, r, g) if fn else g.edge(q, r)
            want = [x for x in E if x[:2] == (q, r)]
            same(bool(ok), bool(want), "edge(%r, %r) found" % (q, r))
            if ok: same(T(e), want[0], "edge")
    if q0 not in V: return
    for w in words(SY, 3 if len(V) < 4 else 2):
        q = q0
        for x in w: q = D.get((q, x))
        same(bool(g.accepts(w)), q is not None and q in F, "accepts(%r)" % w)
        same(g.delta_word(q0, w), q, "delta_word(%r)" % w)

def run(case):
    if case["kind"] == "make":
        names, lab = case["names"], case["lab"]; used = {names[i] for t in case["tr"] for i in t[:2]}
        order = sorted(used); idx = {x: i for i, x in enumerate(order)}
        q0n = names[case["q0"]]
        if used and q0n not in used: q0n = order[0]
        fin = defaultdict(bool); 
        for i in case["fin"]: fin[names[i]] = True
        pf = None if case["nofin"] else make_assoc_property_map(fin)
        if case["ctor"] == "auto":
            tr = [(names[i], names[j], a) for i, j, a in case["tr"]]
            g = (make_incidence_automaton if case["inc"] else make_automaton)(tr, q0n, pf)
            need(type(g) is (IncidenceAutomaton if case["inc"] else Automaton), "type")
        else:
            tr = [(names[i], names[j], lab[j]) for i, j, a in case["tr"]]
            m = dict(zip(names, lab))
            g = (make_incidence_node_automaton if case["inc"] else make_node_automaton)([t[:2] for t in tr], make_func_property_map(lambda n_: m[n_]), q0n, pf)
            need(type(g) is (IncidenceNodeAutomaton if case["inc"] else NodeAutomaton), "type")
            for x in order: same(g.symbol(idx[x]), m[x], "symbol of %r" % x)
        same(msort(g.vertices()), msort(range(len(order))), "states")
        same(msort(map(T, g.edges())), msort((idx[q], idx[r], a) for q, r, a in tr), "transitions")
        if case["inc"]:
            same(msort(T(e) for v in g.vertices() for e in g.in_edges(v)), msort((idx[q], idx[r], a) for q, r, a in tr), "incoming transitions")
        if order: same(g.initial(), idx[q0n], "initial state")
        same({q for q in g.vertices() if g.is_final(q)}, set() if case["nofin"] else {idx[x] for x in order if fin[x]}, "final states")
        return
    fn = case["fn"]; pf = None; ps = None
    fd, sd = defaultdict(bool), defaultdict(lambda: None)
    C = IncidenceNodeAutomaton if case["inc"] else NodeAutomaton
    g = C(0, pmap_vfinal=make_assoc_property_map(fd), pmap_vsymbol=make_assoc_property_map(sd), q0=0) if case["pm"] else C(0)
    V = []; D = {}; sym = {}; F = set(); q0 = 0
    for i, l in enumerate(case["lab"]):
        if i == 0 and case["nolab"]: u = g.add_vertex(); sym[u] = None
        else: u = N.add_vertex(SY[l], g) if fn else g.add_vertex(SY[l]); sym[u] = SY[l]
        need(u not in V, "identifier in use"); V.append(u)
    observe(g, V, D, sym, F, q0, fn)
    for op in case["ops"]:
        k = op[0]
        if k == "v":
            u = g.add_vertex(SY[op[1]]); need(u not in V, "identifier in use"); V.append(u); sym[u] = SY[op[1]]
            (F.add if g.is_final(u) else F.discard)(u)
        elif k == "e" and V:
            q, r = V[op[1] % len(V)], V[op[2] % len(V)]; a = sym[r]
            e, ok = N.add_edge(q, r, g) if fn else g.add_edge(q, r)
            same(bool(ok), (q, a) not in D, "add_edge(%r, %r) accepted" % (q, r))
            if ok: same(T(e), (q, r, a), "added edge"); D[q, a] = r
        elif k == "re" and D:
            q, a = sorted(D, key=repr)[op[1] % len(D)]; g.remove_edge(EdgeDescriptor(q, D.pop((q, a)), a))
        elif k == "rv" and V:
            u = V[op[1] % len(V)]; g.remove_vertex(u); V.remove(u); D = {(q, a): r for (q, a), r in D.items() if u not in (q, r)}
        elif k == "f" and V:
            q = V[op[1] % len(V)]; g.set_final(q, op[2]); (F.add if op[2] else F.discard)(q)
            if case["pm"]: same(bool(fd[q]), op[2], "final flag in the caller's map")
        elif k == "i" and V:
            q0 = V[op[1] % len(V)]; g.set_initial(q0)
        observe(g, V, D, sym, F, q0, fn)
    if case["pm"]:
        for q in V: same(sd[q], sym[q], "symbol in the caller's map")

def trivial(case):
    return not (case["tr"] if case["kind"] == "make" else any(o[0] == "e" for o in case["ops"]))
