from oracles.base import *
from pybgl.nfa import Nfa
from pybgl.automaton import Automaton
EPS = "ε"

def rand_nfa(rng, nmax=5, syms="ab", triple=False):
    n = rng.randrange(1, nmax + 1); m = rng.choice([0, 1, n, 2 * n, 3 * n]); tr = []
    for _ in range(m):
        tr.append([rng.randrange(n), rng.randrange(n), EPS if rng.random() < .25 else rng.choice(syms)])
    if triple: return dict(n=n, tr=tr, q0=rng.randrange(n), f=rng.randrange(n))
    return dict(n=n, tr=tr, init=sorted({rng.randrange(n) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))}), fin=[i for i in range(n) if rng.random() < .4])

def build_nfa(d, mark=None):
    g = Nfa(d["n"]) if mark is None else Nfa(d["n"], epsilon=mark)
    for q, r, a in d["tr"]: g.add_edge(q, r, g.epsilon if a == EPS else a)
    if "q0" in d: g.set_initials({d["q0"]}); g.set_final(d["f"])
    else:
        g.set_initials(set(d["init"]))
        for f in d["fin"]: g.set_final(f)
    return g

def lang_nfa(n, tr, init, fin, al, L):
    "Words of length <= L accepted, independently of the code under test."
    eps = {}; stp = {}
    for q, r, a in tr:
        if a == EPS: eps.setdefault(q, set()).add(r)
        else: stp.setdefault((q, a), set()).add(r)
    clos = lambda Q: frozenset(reach(lambda u: eps.get(u, ()), Q))
    fin = set(fin); out = set(); cur = {"": clos(init)}
    for k in range(L + 1):
        for w, Q in cur.items():
            if Q & fin: out.add(w)
        if k < L: cur = {w + a: clos({r for q in Q for r in stp.get((q, a), ())}) for w, Q in cur.items() for a in al if Q}
    return out

def lang_of(d, al, L):
    return lang_nfa(d["n"], d["tr"], [d["q0"]] if "q0" in d else d["init"], [d["f"]] if "f" in d else d["fin"], al, L)

def lang_real(g, al, L):
    return {w for w in words(al, L) if g.accepts(w)}

def rand_dfa(rng, nmax=5, syms="ab", complete=False, fin=None):
    n = rng.randrange(1, nmax + 1); D = {}
    p = 1.0 if complete else rng.choice([.3, .6, .9])
    for q in range(n):
        for a in syms:
            if rng.random() < p: D[q, a] = rng.randrange(n)
    pf = rng.choice([0, .3, .5, 1]) if fin is None else fin
    return dict(n=n, tr=[[q, r, a] for (q, a), r in D.items()], q0=rng.choice([0, 0, rng.randrange(n)]), fin=[i for i in range(n) if rng.random() < pf])

def build_dfa(d, C=Automaton):
    g = C(d["n"])
    for q, r, a in d["tr"]: g.add_edge(q, r, a)
    g.set_initial(d["q0"])
    for f in d["fin"]: g.set_final(f)
    return g

def dfa_run(d, w):
    D = {(q, a): r for q, r, a in d["tr"]}; q = d["q0"]
    for a in w:
        q = D.get((q, a))
        if q is None: return None
    return q

def dfa_acc(d, w):
    q = dfa_run(d, w); return q is not None and q in d["fin"]

def lang_dfa(d, al, L):
    return {w for w in words(al, L) if dfa_acc(d, w)}

def snapshot(g):
    return (msort(g.vertices()), msort((e.source, e.target, g.label(e)) for e in g.edges()), msort(q for q in g.vertices() if g.is_final(q)), g.initial() if hasattr(g, "initial") else set(g.initials))

def diff(got, want, what):
    if got != want:
        x = sorted(got ^ want, key=lambda w: (len(w), w))[0]
        raise Bad("%s: the word %r is %s" % (what, x, "accepted and should not be" if x in got else "not accepted and should be"))

# ------------------------------------------------------------------ exact comparison of deterministic automata
def read_dfa(g):
    "Transition dict, initial state and final states of a real automaton, as its listings show them; checks the listings agree with delta."
    D = {}
    for e in g.edges():
        k = (g.source(e), g.label(e)); need(k not in D, "two transitions from state %r on %r", *k); D[k] = g.target(e)
    for (q, a), r in D.items(): same(g.delta(q, a), r, "delta(%r, %r)" % (q, a))
    return D, g.initial(), {q for q in g.vertices() if g.is_final(q)}

def ddict(d):
    return {(q, a): r for q, r, a in d["tr"]}, d["q0"], set(d["fin"])

def joint(*ms):
    "All tuples of states (None: absent) reached jointly, with a shortest word for each."
    start = tuple(m[1] for m in ms); seen = {start: ""}; todo = [start]
    out = [{} for _ in ms]
    for i, m in enumerate(ms):
        for (q, a) in m[0]: out[i].setdefault(q, set()).add(a)
    for t in todo:
        for a in sorted(set().union(*[out[i].get(q, ()) for i, q in enumerate(t)])):
            n = tuple(m[0].get((q, a)) for m, q in zip(ms, t))
            if n not in seen: seen[n] = seen[t] + a; todo.append(n)
    return seen

def agree(got, ops, rule, what):
    "The automaton got accepts w exactly when rule(bits of the operands on w)."
    for t, w in joint(got, *ops).items():
        r = bool(rule(*[q in m[2] and q is not None for q, m in zip(t[1:], ops)])); s = t[0] is not None and t[0] in got[2]
        if r != s: raise Bad("%s: the word %r is %s" % (what, w, "accepted and should not be" if s else "not accepted and should be"))

def agree_words(g, ops, rule, what, al, L):
    for w in words(al, L):
        bits = []
        for D, q, F in ops:
            for a in w: q = D.get((q, a)) if q is not None else None
            bits.append(q is not None and q in F)
        need(bool(g.accepts(w)) == bool(rule(*bits)), "%s: accepts(%r)", what, w)

def inequivalent(D, V, F):
    "Pairs of distinct equivalent states (Moore's table)."
    al = sorted({a for _, a in D}); cls = {q: (q in F) for q in V}; cls[None] = "absent"
    while True:
        sig = {q: (cls[q],) + tuple(cls[D.get((q, a))] for a in al) for q in V}
        ids = {}; new = {q: ids.setdefault(s, len(ids)) for q, s in sig.items()}; new[None] = "absent"
        if len(set(new.values())) == len(set(cls.values())): break
        cls = new
    by = {}
    for q in V: by.setdefault(new[q], []).append(q)
    return [x for x in by.values() if len(x) > 1]
