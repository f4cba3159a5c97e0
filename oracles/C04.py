from oracles.base import *
import pybgl.automaton as A
from pybgl.automaton import Automaton
from pybgl.graph import EdgeDescriptor
from pybgl.incidence_automaton import IncidenceAutomaton
RULE = ("histories of state/transition additions and removals, initial/final changes and word insertions on Automaton and IncidenceAutomaton, "
        "observed after every step against a partial function, with all words of length <= 3; non-trivial: a transition was added")
SY = "abc0 ε\n"

def gen(rng, tier):
    while True:
        few = rng.random() < .5
        if rng.random() < .25:
            ws = ["".join(rng.choice(SY[:2] if few else SY) for _ in range(rng.choice([0, 1, 2, 3, 3, 5]))) for _ in range(rng.randrange(1, 7))]
            yield dict(kind="words", words=ws, fn=rng.random() < .3)
            continue
        n = rng.choice([1, 2, 3, 4]); ops = []
        for _ in range(rng.choice([3, 6, 10, 18])):
            r = rng.random(); a = rng.randrange(2 if few else 12); b = rng.randrange(2 if few else 12)
            ops.append(["e", a, b, rng.randrange(2 if few else len(SY))] if r < .55 else ["re", a + 2 * b] if r < .68 else ["v"] if r < .74
                       else ["rv", a] if r < .79 else ["f", a, rng.random() < .7] if r < .92 else ["i", a, rng.random() < .8] if r < .99 else ["clear"])
        yield dict(kind="ops", n=n, ops=ops, fn=rng.random() < .3, inc=rng.random() < .3)

def T(e): return (e.source, e.target, e.distinguisher)

def observe(g, V, D, F, q0, fn):
    same(msort(g.vertices()), msort(V), "vertices")
    E = [(q, r, a) for (q, a), r in D.items()]
    same(msort(map(T, g.edges())), msort(E), "edges"); same(g.num_edges(), len(E), "num_edges")
    al = {a for q, a in D}
    same(set(A.alphabet(g) if fn else g.alphabet()), al, "alphabet")
    comp = True
    for q in V[:6] + [None]:
        sg = {a for p, a in D if p == q}
        same(set(A.sigma(q, g) if fn else g.sigma(q)), sg, "sigma(%r)" % q)
        if q is not None:
            comp = comp and sg == al
            same(msort(map(T, g.out_edges(q))), msort([x for x in E if x[0] == q]), "out_edges(%r)" % q)
            same(bool(A.is_final(q, g) if fn else g.is_final(q)), q in F, "is_final(%r)" % q)
            same(bool(A.is_initial(q, g) if fn else g.is_initial(q)), q == q0, "is_initial(%r)" % q)
        for a in sorted(al | {"a", "Z"}):
            r = D.get((q, a))
            same(A.delta(q, a, g) if fn else g.delta(q, a), r, "delta(%r, %r)" % (q, a))
            if q is not None:
                for s in V[:4]:
                    e, ok = A.edge(q, s, a, g) if fn else g.edge(q, s, a)
                    same(bool(ok), r == s and r is not None, "edge(%r, %r, %r)" % (q, s, a))
                    if ok: same(T(e), (q, s, a), "edge found"); same(g.label(e), a, "label")
    if len(V) <= 6: same(bool(g.is_complete()), all({a for p, a in D if p == q} == al for q in V), "is_complete")
    same(set(A.finals(g) if fn else g.finals()), F & set(V), "finals")
    same(A.initial(g) if fn else g.initial(), q0, "initial")
    if q0 is not None and q0 not in V: return
    sy = sorted(al)[:3] or ["a"]
    for w in words(sy, 3 if len(sy) < 3 else 2):
        q = q0; n = 0
        for x in w:
            if (q, x) not in D: break
            q = D[q, x]; n += 1
        end = q if n == len(w) else None
        for s in (V[-1:] if q0 is None else []): same(g.delta_word(s, ""), s, "empty walk")
        same(A.delta_word(q0, w, g) if fn else g.delta_word(q0, w), end, "delta_word(%r, %r)" % (q0, w))
        same(bool(A.accepts(w, g) if fn else g.accepts(w)), end is not None and end in F, "accepts(%r)" % w)
        same(tuple(A.delta_best_effort(g, w) if fn else g.delta_best_effort(w)), (q, n), "delta_best_effort(%r)" % w)

def run(case):
    fn = case["fn"]
    if case["kind"] == "words":
        g = Automaton(1); done = set()
        for w in case["words"]:
            A.automaton_insert_string(g, w) if fn else g.automaton_insert_string(w)
            done.add(w)
            al = sorted(set("".join(done)) | {"a"})
            probe = set(words(al[:2], 3)) | {x[:i] for x in done for i in range(len(x) + 1)} | {x + y for x in done for y in al} | {x[:i] + x[i + 1:] for x in done for i in range(len(x))} | {x + y for x in done for y in done}
            for p in probe: same(bool(g.accepts(p)), p in done, "accepts(%r) after inserting %r" % (p, sorted(done)))
            pre = {x[:i] for x in done for i in range(len(x) + 1)}
            same(g.num_vertices(), len(pre), "number of states after inserting %r" % sorted(done))
            for p in probe:
                n = max(i for i in range(len(p) + 1) if p[:i] in pre)
                q, i = g.delta_best_effort(p); same(i, n, "symbols consumed on %r" % p); same(q, g.delta_word(g.initial(), p[:n]), "state of the best-effort walk on %r" % p)
        return
    n = case["n"]; g = (IncidenceAutomaton if case["inc"] else Automaton)(n)
    V = list(range(n)); D = {}; F = set(); q0 = 0
    observe(g, V, D, F, q0, fn)
    for op in case["ops"]:
        k = op[0]
        if k == "v":
            u = g.add_vertex(); need(u not in V, "identifier %r already in use", u); V.append(u)
            if g.is_final(u): F.add(u)
            else: F.discard(u)
        elif k == "e" and V:
            q, r, a = V[op[1] % len(V)], V[op[2] % len(V)], SY[op[3]]
            e, ok = A.add_edge(q, r, a, g) if fn else g.add_edge(q, r, a)
            same(bool(ok), (q, a) not in D, "add_edge(%r, %r, %r) accepted" % (q, r, a))
            if ok: same(T(e), (q, r, a), "added edge"); D[q, a] = r
            else: need(e is None, "refused edge returned")
        elif k == "re" and D:
            q, a = sorted(D)[op[1] % len(D)]; g.remove_edge(EdgeDescriptor(q, D.pop((q, a)), a))
        elif k == "rv" and V:
            u = V[op[1] % len(V)]; g.remove_vertex(u); V.remove(u); D = {(q, a): r for (q, a), r in D.items() if u not in (q, r)}
        elif k == "f" and V:
            q = V[op[1] % len(V)]
            if op[2] and not fn: g.set_final(q)
            else: A.set_final(q, g, op[2])
            (F.add if op[2] else F.discard)(q)
        elif k == "i" and V:
            q = V[op[1] % len(V)]; A.set_initial(q, g, op[2]) if fn else g.set_initial(q, op[2])
            q0 = q if op[2] else None if q0 == q else q0
        elif k == "clear":
            g.clear(); V = []; D = {}
        observe(g, V, D, F, q0, fn)

def trivial(case):
    return not (any(case["words"]) if case["kind"] == "words" else any(o[0] == "e" for o in case["ops"]))
