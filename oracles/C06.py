from oracles.base import *
import pybgl.nfa as M
from pybgl.nfa import Nfa
from pybgl.graph import EdgeDescriptor
RULE = ("histories of additions and removals of states and labelled transitions (empty moves, parallels, cycles) on Nfa, observed after every step against a "
        "set of transitions, with the states reached by all words of length <= 3; non-trivial: a transition was added")
SY = ["ε", "a", "b", "c", "é"]

def gen(rng, tier):
    while True:
        few = rng.random() < .5; n = rng.choice([1, 2, 3, 4, 5]); ops = []
        for _ in range(rng.choice([2, 5, 9, 16])):
            r = rng.random(); a = rng.randrange(2 if few else 12); b = rng.randrange(2 if few else 12)
            ops.append(["e", a, b, rng.randrange(3 if few else len(SY))] if r < .62 else ["re", a + 2 * b] if r < .76 else ["v"] if r < .8
                       else ["rv", a] if r < .83 else ["f", a, rng.random() < .7] if r < .93 else ["i", a, rng.random() < .7] if r < .97 else ["is", a, b])
        yield dict(n=n, ops=ops, eps=rng.choice(["ε", "ε", "#"]), init=rng.choice([None, [0], [0, n - 1]]), fn=rng.random() < .3)

def observe(g, V, E, I, F, eps, fn):
    same(msort(g.vertices()), msort(V), "vertices")
    es = list(g.edges())
    same(msort((e.source, e.target, g.label(e)) for e in es), msort(k[:3] for k in E), "edges")
    same(len({e for e in es}), len(E), "distinct edges listed")
    same(g.num_edges(), len(E), "num_edges")
    same(set(g.alphabet()), {a for q, r, a, _ in E if a != eps}, "alphabet")
    same({q for q in V if g.is_initial(q)}, I & set(V), "initial states"); same(set(M.initials(g)), I, "initials()")
    same(set(g.finals()), F & set(V), "final states")
    step = lambda Q, a: {r for q, r, b, _ in E if b == a and q in Q}
    clos = lambda Q: reach(lambda u: [r for q, r, b, _ in E if b == eps and q == u], Q)
    for q in V:
        same(msort((e.source, e.target, g.label(e)) for e in g.out_edges(q)), msort(k[:3] for k in E if k[0] == q), "out_edges(%r)" % q)
        same(g.out_degree(q), len([k for k in E if k[0] == q]), "out_degree(%r)" % q)
        for r in V[:3]:
            one = [k for k in E if k[:2] == (q, r)]
            e, ok = g.edge(q, r)
            same(bool(ok), len(one) == 1, "edge(%r, %r) found" % (q, r))
            if ok: same((e.source, e.target, g.label(e)), one[0][:3], "edge(%r, %r)" % (q, r))
        for e in g.out_edges(q): same(bool(g.is_epsilon_transition(e)), g.label(e) == eps, "is_epsilon_transition")
        c = clos({q})
        same(set(g.delta_epsilon({q})), c, "delta_epsilon({%r})" % q)
        same(set(g.sigma(q)), {a for p, r, a, _ in E if p in c and a != eps}, "sigma(%r)" % q)
        for a in "abZ":
            same(set(g.delta_one_step({q}, a)), step({q}, a), "delta_one_step({%r}, %r)" % (q, a))
            same(set(g.delta(q, a)), clos(step(c, a)), "delta(%r, %r)" % (q, a))
    same(set(g.delta_epsilon(set(V))), clos(set(V)), "delta_epsilon(all)"); same(set(g.delta_epsilon(set())), set(), "delta_epsilon(empty)")
    if not I <= set(V): return
    for w in words("ab", 3):
        Q = clos(I)
        for a in w: Q = clos(step(Q, a))
        same(set(M.delta_word(w, g) if fn else g.delta_word(w)), Q, "delta_word(%r)" % w)
        same(bool(g.accepts(w)), bool(Q & F), "accepts(%r)" % w)

def run(case):
    n, eps, fn = case["n"], case["eps"], case["fn"]; kw = {}
    if eps != "ε": kw["epsilon"] = eps
    if case["init"] is not None: kw["initials"] = set(case["init"])
    g = Nfa(n, **kw); V = list(range(n)); E = []; I = set(case["init"] or [0]); F = set()
    same(M.epsilon(g), eps, "epsilon")
    observe(g, V, E, I, F, eps, fn)
    for op in case["ops"]:
        k = op[0]
        if k == "v":
            u = g.add_vertex(); need(u not in V, "identifier %r already in use", u); V.append(u)
            (F.add if g.is_final(u) else F.discard)(u)
        elif k == "e" and V:
            q, r, a = V[op[1] % len(V)], V[op[2] % len(V)], SY[op[3]]
            if a == "ε": a = eps
            e, ok = g.add_edge(q, r, a)
            need(ok, "add_edge refused"); same((e.source, e.target, g.label(e)), (q, r, a), "added edge")
            key = (e.source, e.target, e.distinguisher)
            if (q, r, a) not in [x[:3] for x in E]: E.append((q, r, a, key))
        elif k == "re" and E:
            x = E.pop(op[1] % len(E))
            if op[1] % 2: g.remove_edge(EdgeDescriptor(*x[3]))
            else: g.remove_edge(next(e for e in g.out_edges(x[0]) if (e.target, g.label(e)) == x[1:3]))
        elif k == "rv" and V:
            u = V[op[1] % len(V)]; g.remove_vertex(u); V.remove(u); E = [x for x in E if u not in x[:2]]
        elif k == "f" and V:
            q = V[op[1] % len(V)]; g.set_final(q, op[2]); (F.add if op[2] else F.discard)(q)
        elif k == "i" and V:
            q = V[op[1] % len(V)]; g.set_initial(q, op[2]); (I.add if op[2] else I.discard)(q)
        elif k == "is" and V:
            I = {V[op[1] % len(V)], V[op[2] % len(V)]}; M.set_initials(set(I), g)
        observe(g, V, E, I, F, eps, fn)

def trivial(case):
    return not any(o[0] == "e" for o in case["ops"])
