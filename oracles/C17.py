from oracles.nfatools import *
from pybgl.thompson_compile_nfa import *
from pybgl.thompson_compile_nfa import literal, bracket, concatenation, alternation, zero_or_one, zero_or_more, one_or_more, repetition, repetition_range
RULE = ("each combinator on random NFA operands with one initial and one final state (equal now and then, loops and empty moves on both, the empty move marked by default or not), and chains of combinators; "
        "language on all words of length <= 5 over two symbols; non-trivial: an operand has a transition")
AL = "ab"; L = 5

def gen(rng, tier):
    ops = ["cat", "alt", "opt", "star", "plus", "rep", "range", "range", "lit", "bra"]
    while True:
        k = rng.choice([1, 1, 1, 2, 3]); prog = []
        for _ in range(k):
            o = rng.choice(ops[:8]); m = rng.randrange(0, 4); prog.append([o, rand_nfa(rng, 3, AL, True) if o in ("cat", "alt") else None, m, rng.choice([None, m, m + 1, m + 2])])
        yield dict(base=rng.choice(["lit", "bra", "nfa", "nfa", "nfa"]), mark=rng.choice([None, None, "_"]), nfa=rand_nfa(rng, rng.choice([1, 2, 3]), AL, True), prog=prog, letter=rng.choice(AL), chars=rng.choice(["", "a", "ab", "aa", "b"]))

def cat(A, B): return {x + y for x in A for y in B if len(x) + len(y) <= L}
def power(A, m):
    R = {""}
    for _ in range(m): R = cat(R, A)
    return R
def star(A):
    R = {""}
    while True:
        N = R | cat(R, A)
        if N == R: return R
        R = N

def check(t, S, what):
    g, q0, f = t
    same((set(g.initials), set(g.finals())), ({q0}, {f}), what + ": initial and final states")
    diff(lang_real(g, AL, L), S, what)

def run(case):
    if case["base"] == "lit": t = literal(case["letter"]); S = {case["letter"]}
    elif case["base"] == "bra": t = bracket(case["chars"]); S = set(case["chars"])
    else:
        d = case["nfa"]; t = (build_nfa(d, case.get("mark")), d["q0"], d["f"]); S = lang_of(d, AL, L)
    mark = case.get("mark") if case["base"] == "nfa" else None
    check(t, S, case["base"]); name = case["base"]
    for o, d2, m, n in case["prog"]:
        if o in ("cat", "alt"):
            h = build_nfa(d2, mark); s2 = snapshot(h); S2 = lang_of(d2, AL, L)
            t = (concatenation if o == "cat" else alternation)(*t, h, d2["q0"], d2["f"]); S = cat(S, S2) if o == "cat" else S | S2
            same(snapshot(h), s2, "second operand after " + o); name = "%s(%s, ..)" % (o, name)
        elif o == "opt": t = zero_or_one(*t); S = S | {""}
        elif o == "star": t = zero_or_more(*t); S = star(S)
        elif o == "plus": t = one_or_more(*t); S = cat(S, star(S))
        elif o == "rep": t = repetition(*t, m); S = power(S, m)
        elif o == "range":
            t = repetition_range(*t, m, n)
            if n is None: S = cat(power(S, m), star(S))
            else: S = set().union(*(power(S, i) for i in range(m, n + 1)))
        if o not in ("cat", "alt"): name = "%s%s(%s)" % (o, (m, n) if o == "range" else m if o == "rep" else "", name)
        check(t, S, name)

def trivial(case): return case["base"] == "nfa" and not case["nfa"]["tr"]
