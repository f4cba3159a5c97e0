from oracles.nfatools import *
from pybgl.moore_determination import moore_determination
from pybgl.automaton import Automaton
RULE = ("random NFAs (empty moves, several or no initial states, cycles, unreachable states) determinized with and without completion; all words up to length 6 on two symbols, "
        "independent subset semantics; non-trivial: at least one transition")

def gen(rng, tier):
    while True:
        d = rand_nfa(rng, rng.choice([1, 2, 3, 5, 7]), rng.choice(["ab", "ab", "a", "abc"])); yield dict(nfa=d, complete=rng.random() < .5, give=rng.random() < .2)

def run(case):
    d = case["nfa"]; g = build_nfa(d); snap = snapshot(g)
    al = sorted({a for _, _, a in d["tr"] if a != EPS})
    kw = dict(dfa=Automaton()) if case["give"] else {}
    D = moore_determination(g, complete=case["complete"], **kw)
    if case["give"]: need(D is kw["dfa"], "the caller's automaton is not the one returned")
    same(snapshot(g), snap, "the NFA after the call")
    L = {0: 1, 1: 7, 2: 6, 3: 4}[len(al)]
    diff(lang_real(D, al, L), lang_of(d, al, L), "determinized automaton")
    q0 = D.initial(); need(q0 in set(D.vertices()), "no initial state")
    same(reach(lambda u: [e.target for e in D.out_edges(u)], [q0]), set(D.vertices()), "states reachable from the initial one")
    ks = [(e.source, D.label(e)) for e in D.edges()]; same(len(set(ks)), len(ks), "transitions by state and symbol"); need({a for _, a in ks} <= set(al), "symbols %r", ks)
    if case["complete"]:
        for q in D.vertices(): same({a for p, a in ks if p == q}, set(al), "symbols from state %r" % q)

def trivial(case): return not case["nfa"]["tr"]
