from oracles.nfatools import *
from pybgl.deterministic_union import deterministic_union
from pybgl.deterministic_intersection import deterministic_intersection
from pybgl.automaton import Automaton
from pybgl.incidence_automaton import IncidenceAutomaton
RULE = ("random pairs of deterministic automata (partial, with cycles, different alphabets, any initial state, no initial state now and then); the products compared with the operands on every jointly "
        "reachable tuple of states (exact on the languages) and word by word up to length 4; non-trivial: both operands have transitions")

def gen(rng, tier):
    while True:
        n = rng.choice([1, 2, 3, 4, 6])
        a = rand_dfa(rng, n, rng.choice(["ab", "ab", "a", "abc", "bc"])); b = rand_dfa(rng, rng.choice([n, 2, 3]), rng.choice(["ab", "ab", "a", "abc"]))
        if rng.random() < .1: b = json_copy(a)
        if rng.random() < .04: a = dict(a, q0=None)
        if rng.random() < .04: b = dict(b, q0=None)
        yield dict(a=a, b=b, give=rng.random() < .2, inc=rng.random() < .2)

def json_copy(x):
    import json; return json.loads(json.dumps(x))

def run(case):
    C = IncidenceAutomaton if case["inc"] else Automaton
    ops = [ddict(case["a"]), ddict(case["b"])]
    for f, rule, name in (deterministic_union, lambda x, y: x or y, "union"), (deterministic_intersection, lambda x, y: x and y, "intersection"):
        g1, g2 = build_dfa(case["a"], C), build_dfa(case["b"], C); s1, s2 = snapshot(g1), snapshot(g2)
        kw = dict(g12=Automaton()) if case["give"] else {}
        g = f(g1, g2, **kw)
        if kw: need(g is kw["g12"], "%s: the caller's automaton is not the one returned", name)
        same((snapshot(g1), snapshot(g2)), (s1, s2), name + ": the operands after the call")
        P = read_dfa(g); agree(P, ops, rule, name)
        agree_words(g, ops, rule, name, sorted({a for m in ops for _, a in m[0]})[:2] or ["a"], 4)
        V = set(g.vertices()); n = len(V)
        absent = [m[1] is None for m in ops]
        if not (all(absent) if name == "union" else any(absent)):
            need(P[1] in V, "%s: the initial state %r is no state", name, P[1])
            # every state stands for one pair: the pairs of operand states met along the product
            seen = joint(P, *ops); pair = {}
            for t in seen:
                if t[0] is not None:
                    need(pair.setdefault(t[0], t[1:]) == t[1:], "%s: state %r stands for the pairs %r and %r", name, t[0], pair[t[0]], t[1:])
            for q in V: need(q in pair, "%s: state %r is not reached from the initial state", name, q)
            need(len(set(pair.values())) == n, "%s: two states for one pair of states", name)

def trivial(case): return not (case["a"]["tr"] and case["b"]["tr"])
