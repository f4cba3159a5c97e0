from oracles.nfatools import *
from pybgl.hopcroft_minimize import hopcroft_minimize
from pybgl.incidence_automaton import IncidenceAutomaton
RULE = ("random complete deterministic automata (also partial ones for the language), up to 9 states, none or all states final included, unreachable and dead states included, plus automata with cloned states; language compared exactly, "
        "minimality by Moore's table; non-trivial: at least two states")

def gen(rng, tier):
    while True:
        n = rng.choice([1, 2, 3, 4, 5, 7, 9]); sy = rng.choice(["ab", "ab", "a", "abc"]); full = rng.random() < .85
        d = rand_dfa(rng, n, sy, complete=full)
        if rng.random() < .5:       # clone states: targets spread over k copies
            k = rng.choice([2, 3]); m = d["n"]
            d = dict(n=m * k, q0=d["q0"] + m * rng.randrange(k), fin=[f + m * i for f in d["fin"] for i in range(k)],
                     tr=[[q + m * i, r + m * rng.randrange(k), a] for q, r, a in d["tr"] for i in range(k)])
        p = list(range(d["n"])); rng.shuffle(p)
        d = dict(n=d["n"], q0=p[d["q0"]], fin=[p[f] for f in d["fin"]], tr=[[p[q], p[r], a] for q, r, a in d["tr"]])
        yield dict(dfa=d)

def run(case):
    d = case["dfa"]; m0 = ddict(d); g = build_dfa(d, IncidenceAutomaton)
    al = sorted({a for _, a in m0[0]})
    h = hopcroft_minimize(g)
    agree(read_dfa(g), [m0], lambda x: x, "the argument after the call")
    M = read_dfa(h); agree(M, [m0], lambda x: x, "minimized automaton")
    agree_words(h, [m0], lambda x: x, "minimized automaton", al[:2] or ["a"], 4)
    V = set(h.vertices()); need(h.initial() in V, "no initial state")
    if len(m0[0]) == d["n"] * len(al):
        e = inequivalent(M[0], V, M[2]); need(not e, "equivalent states %r", e)
        for q in V:
            for a in al: need((q, a) in M[0], "no transition from state %r on %r", q, a)

def trivial(case): return case["dfa"]["n"] < 2
