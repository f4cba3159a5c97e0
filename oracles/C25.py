from oracles.nfatools import *
from pybgl.suffix_trie import make_suffix_trie, factors, slices
from pybgl.trie import Trie
from pybgl.trie_matching import trie_matching
from pybgl.digital_sequence import DigitalSequence
from pybgl.deterministic_inclusion import deterministic_inclusion
RULE = ("random words (periodic ones included) with and without a maximal length: suffix trie, factors, slices; digital sequences of random words against the word automaton; pairs of tries (a digital sequence or a suffix trie now and then) for the "
        "matching counters; non-trivial: a word of length >= 2")

def rword(rng, n=None):
    sy = rng.choice(["a", "ab", "ab", "abc", "aé\n"]); n = rng.choice([0, 1, 2, 3, 5, 8, 12]) if n is None else n
    w = "".join(rng.choice(sy) for _ in range(n))
    return w[:3] * 3 if rng.random() < .15 else w

def gen(rng, tier):
    while True:
        r = rng.random()
        if r < .4: yield dict(k="suffix", w=rword(rng), more=rword(rng) if rng.random() < .2 else None, m=rng.choice([None, None, 1, 2, 3, 5, 20]))
        elif r < .65: yield dict(k="digital", w=rword(rng), p=rword(rng, 4))
        else: yield dict(k="match", a=[rword(rng, rng.randrange(5)) for _ in range(rng.randrange(5))], b=[rword(rng, rng.randrange(5)) for _ in range(rng.randrange(5))], sa=rng.random() < .2, sb=rng.random() < .2)

def run(case):
    if case["k"] == "suffix":
        w, m = case["w"], case["m"]
        F = lambda w: {w[i:j] for i in range(len(w) + 1) for j in range(i, len(w) + 1) if m is None or j - i <= m}
        want = sorted([(0, 0)] + [(i, j) for i in range(len(w)) for j in range(i + 1, len(w) + 1) if m is None or j - i <= m])
        same(sorted(slices(len(w), m)), want, "slices"); same(sorted(factors(w, m)), sorted(w[i:j] for i, j in want), "factors")
        g = make_suffix_trie(w, m) if m is not None else make_suffix_trie(w); fs = F(w)
        if case["more"] is not None: make_suffix_trie(case["more"], m, g); fs |= F(case["more"])
        D, q0, fin = read_dfa(g); same(fin, set(g.vertices()), "final states"); same(len(fin), len(fs), "number of states")
        for x in fs | {x + a for x in fs for a in set(w) | {"z"}}: same(bool(g.accepts(x)), x in fs, "accepts(%r)" % x)
    elif case["k"] == "digital":
        w = case["w"]; g = DigitalSequence(w); n = len(w)
        E = [(i, i + 1, w[i]) for i in range(n)]; T = lambda es: [(e.source, e.target, g.label(e)) for e in es]
        same(sorted(g.vertices()), list(range(n + 1)), "vertices"); same(T(g.edges()), E, "edges"); same((g.num_vertices(), g.num_edges()), (n + 1, n), "counts"); same(set(g.alphabet()), set(w), "alphabet")
        same((g.initial(), set(g.finals())), (0, {n}), "initial and final states")
        for q in list(range(n + 1)):
            same(T(g.out_edges(q)), E[q:q + 1], "out_edges"); same(T(g.in_edges(q)), E[q - 1:q] if q else [], "in_edges"); same(set(g.sigma(q)), set(w[q:q + 1]), "sigma")
            same((bool(g.is_initial(q)), bool(g.is_final(q))), (q == 0, q == n), "flags")
            for a in set(w) | set(case["p"]): same(g.delta(q, a), q + 1 if q < n and w[q] == a else None, "delta(%r, %r)" % (q, a))
        same(g.delta(None, "a"), None, "delta from the absent state"); same(set(g.sigma(None)), set(), "sigma of the absent state")
        for x in {w, w + "a", w[:-1], case["p"], "", w[1:]}: same(bool(g.accepts(x)), x == w, "accepts(%r)" % x)
        t = Trie(); t.insert(case["p"]); t.insert(w)
        same(deterministic_inclusion(g, t), 0 if case["p"] == w else 1, "inclusion in a trie")
        for f, args in (g.add_edge, (0, 1, "a")), (g.add_vertex, ()), (g.insert, ("a",)):
            try: f(*args)
            except RuntimeError: continue
            raise Bad("a modification of a digital sequence is not refused")
        same(T(g.edges()), E, "edges after refused modifications")
    else:
        ts = []
        for ws, s in (case["a"], case["sa"]), (case["b"], case["sb"]):
            t = Trie(); W = set(ws)
            for x in ws: t.insert(x)
            if s and ws: t = make_suffix_trie(ws[0]); W = {ws[0][i:j] for i in range(len(ws[0]) + 1) for j in range(i, len(ws[0]) + 1)}
            ts.append((t, W, {x[:i] for x in W for i in range(len(x) + 1)} | {""}))
        (t1, W1, P1), (t2, W2, P2) = ts; want = [0] * 4
        for x in P1 | P2: want[(x in W1) + 2 * (x in W2)] += 1
        same(list(trie_matching(t1, t2)), want, "trie_matching")

def trivial(case): return len(case.get("w", "".join(case.get("a", [])))) < 2
