from oracles.nfatools import *
from pybgl.revuz_minimize import revuz_minimize
from pybgl.incidence_automaton import IncidenceAutomaton
from pybgl.incidence_node_automaton import IncidenceNodeAutomaton
RULE = ("random acyclic trimmed automata (tries of random word sets, partly merged, states renumbered), with symbols on transitions or on states; language compared exactly, minimality by Moore's table; "
        "non-trivial: at least three states")

def gen(rng, tier):
    while True:
        sy = rng.choice(["ab", "ab", "a", "abc"])
        ws = sorted({"".join(rng.choice(sy) for _ in range(rng.choice([0, 1, 2, 3, 3, 4, 5]))) for _ in range(rng.choice([1, 2, 3, 5, 8, 14]))})
        if rng.random() < .4:       # concatenations make shared tails
            t = ["".join(rng.choice(sy) for _ in range(rng.randrange(3))) for _ in range(3)]; ws = sorted({x[:2] + y for x in ws for y in t})
        yield dict(words=ws, seed=rng.randrange(10**6), part=rng.random() < .4, node=rng.random() < .4)

def build(case):
    import random as R
    rng = R.Random(case["seed"]); ws = case["words"]
    D = {}; F = set(); n = 1
    for w in ws:
        q = 0
        for a in w:
            if (q, a) not in D: D[q, a] = n; n += 1
            q = D[q, a]
        F.add(q)
    lab = {r: a for (q, a), r in D.items()}
    if case["part"]:                # merge some equivalent subtrees beforehand: not a tree any more
        def sub(q): return (q in F, lab.get(q) if case["node"] else None, tuple(sorted((a, sub(r)) for (p, a), r in D.items() if p == q)))
        cl = {}
        for q in range(1, n): cl.setdefault(sub(q), []).append(q)
        rep = {}
        for l in cl.values():
            if rng.random() < .5:
                for q in l: rep[q] = l[0]
        D = {(q, a): rep.get(r, r) for (q, a), r in D.items()}
    V = sorted(reach(lambda u: [r for (q, a), r in D.items() if q == u], [0]))
    p = list(range(len(V))); rng.shuffle(p); ix = {q: p[i] for i, q in enumerate(V)}
    return len(V), {(ix[q], a): ix[r] for (q, a), r in D.items() if q in ix}, ix[0], {ix[q] for q in F if q in ix}, {ix[r]: a for (q, a), r in D.items() if q in ix}

def run(case):
    if not case["words"]: return
    n, D, q0, F, lab = build(case); sy = sorted({a for _, a in D}) or ["a"]
    if case["node"]:
        g = IncidenceNodeAutomaton(n)
        for q, a in lab.items(): g.pmap_vsymbol[q] = a
        for (q, a), r in D.items(): g.add_edge(q, r)
    else:
        g = IncidenceAutomaton(n)
        for (q, a), r in D.items(): g.add_edge(q, r, a)
    g.set_initial(q0)
    for f in F: g.set_final(f)
    revuz_minimize(g)
    m0 = (D, q0, F); V = set(g.vertices()); need(q0 in V and g.initial() == q0, "the initial state is lost")
    M = ({}, q0, {q for q in V if g.is_final(q)})
    for e in g.edges():
        a = g.symbol(g.target(e)) if case["node"] else g.label(e)
        need((g.source(e), a) not in M[0], "two transitions from %r on %r", g.source(e), a); need(g.target(e) in V, "transition to a removed state"); M[0][g.source(e), a] = g.target(e)
    same(msort((g.source(e), g.target(e)) for q in V for e in g.in_edges(q)), msort((q, r) for (q, a), r in M[0].items()), "incoming transitions")
    agree(M, [m0], lambda x: x, "minimized automaton"); agree_words(g, [m0], lambda x: x, "minimized automaton", sy[:2], 4)
    V2 = V
    if case["node"]:                # two states with different symbols cannot be merged
        for l in {lab.get(q) for q in V}:
            e = [x for x in classes(M, V) if len([q for q in x if g.symbol(q) == l]) > 1]; e = [[q for q in x if g.symbol(q) == l and q != q0] for x in e]; e = [x for x in e if len(x) > 1]
            need(not e, "equivalent states %r", e)
    else:
        e = inequivalent(M[0], V2, M[2]); need(not e, "equivalent states %r", e)

def classes(M, V): return inequivalent(M[0], V, M[2])
def trivial(case): return len(set("".join(case["words"]))) == 0 or sum(map(len, case["words"])) < 3
