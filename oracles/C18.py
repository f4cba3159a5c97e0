from oracles.nfatools import *
from pybgl.regexp import compile_nfa, compile_dfa
from pybgl.thompson_compile_nfa import thompson_compile_nfa, DEFAULT_ALPHABET
RULE = ("random expressions generated as trees (literals, escapes, classes with ranges / negation / final minus, groups, alternation, *, +, ?, {m}, {m,}, {m,n}, stacked postfix operators), written with random "
        "redundant parentheses; language of the tree on all words up to length 4 over the expression's letters; NFA and DFA; non-trivial: an operator is used")
ESC = {r"\d": "0123456789", r"\w": "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz", r"\s": " \t", r"\n": "\n", r"\t": "\t", r"\a": "\a", r"\f": "\f", r"\r": "\r", r"\v": "\v", r"\b": "\b"}
for c_ in "+*?.|[](){}": ESC["\\" + c_] = c_
for c_ in "dws": ESC["\\" + c_.upper()] = "".join(sorted(set(DEFAULT_ALPHABET) - set(ESC["\\" + c_])))

def gen(rng, tier):
    for e in (["lit", ""],): yield dict(e=None, seed=0)
    for a, b in itertools.product("*+?", repeat=2): yield dict(e=[a, [b, ["lit", "a"]]], seed=0)
    for b in "*+?":
        for mn in ([2, 2], [0, 2], [1, None], [2, 3]):
            yield dict(e=["rep", [b, ["lit", "a"]]] + mn, seed=0); yield dict(e=[b, ["rep", ["lit", "a"]] + mn], seed=0)
    lits = "ab"
    def cls():
        parts = []
        for _ in range(rng.randrange(1, 4)):
            r = rng.random()
            if r < .5: parts.append(rng.choice("abcxz019_ A"))
            elif r < .8: lo = rng.choice("abA0"); parts.append(lo + "-" + chr(ord(lo) + rng.randrange(0, 4)))
            else: parts.append(rng.choice([r"\s", r"\d", r"\w", "+", "*", "|", "(", "{", "."]))
        if rng.random() < .2: parts.append("-")
        if rng.random() < .1: parts.insert(0, "-")
        return ["cls", parts, rng.random() < .2]
    def tree(k):
        if k <= 0:
            r = rng.random()
            return ["lit", rng.choice(lits)] if r < .75 else cls() if r < .9 else ["esc", rng.choice(sorted(ESC))] if r < .97 else ["lit", rng.choice("é0 -,:\"'é^$#"[:-3])]
        r = rng.random()
        if r < .35: return ["cat", tree(k - 1), tree(rng.randrange(k))]
        if r < .6: return ["alt", tree(k - 1), tree(rng.randrange(k))]
        if r < .85: return [rng.choice("*+?"), tree(k - 1)]
        m = rng.randrange(0, 4); return ["rep", tree(k - 1), m, rng.choice([None, m, m + 1, m + 2])]
    while True: yield dict(e=tree(rng.choice([0, 1, 2, 3, 4])), seed=rng.randrange(1000))

def chars(e):
    "set of characters of a leaf"
    if e[0] == "lit": return {e[1]}
    if e[0] == "esc": return set(ESC[e[1]])
    S = set()
    for p in e[1]:
        if len(p) == 3: S |= {chr(c) for c in range(ord(p[0]), ord(p[2]) + 1)}
        elif p[0] == "\\": S |= set(ESC[p])
        else: S.add(p)
    return set(DEFAULT_ALPHABET) - S if e[2] else S

def text(e, rng):
    "(text, level): 0 alternation, 1 concatenation, 2 postfix, 3 atom"
    def par(x, need_):
        t, l = x
        return "(%s)" % t if l < need_ or rng.random() < .08 else t
    k = e[0]
    if k == "lit": return e[1], 3
    if k == "esc": return e[1], 3
    if k == "cls": return "[%s%s]" % ("^" if e[2] else "", "".join(e[1])), 3
    if k == "cat": return par(text(e[1], rng), 1) + par(text(e[2], rng), 1), 1
    if k == "alt": return par(text(e[1], rng), 0) + "|" + par(text(e[2], rng), 0), 0
    if k in "*+?": return par(text(e[1], rng), 2) + k, 2
    m, n = e[2], e[3]; sp = rng.choice(["", "", "", " "])
    r = "{%s%d%s}" % (sp, m, sp) if m == n and rng.random() < .7 else "{%s%d%s,%s}" % (sp, m, sp, "" if n is None else "%s%d%s" % (sp, n, sp))
    return par(text(e[1], rng), 2) + r, 2

def leaves(e):
    if e[0] in ("lit", "esc", "cls"): yield e
    else:
        for x in e[1:]:
            if isinstance(x, list): yield from leaves(x)

def lang(e, al, L):
    cat = lambda A, B: {x + y for x in A for y in B if len(x) + len(y) <= L}
    def star(A):
        R = {""}
        while True:
            N = R | cat(R, A)
            if N == R: return R
            R = N
    k = e[0]
    if k in ("lit", "esc", "cls"): return chars(e) & set(al) if L else set()
    A = lang(e[1], al, L)
    if k == "cat": return cat(A, lang(e[2], al, L))
    if k == "alt": return A | lang(e[2], al, L)
    if k == "*": return star(A)
    if k == "+": return cat(A, star(A))
    if k == "?": return A | {""}
    m, n = e[2], e[3]; R = {""}; out = set()
    for i in range(m): R = cat(R, A)
    if n is None: return cat(R, star(A))
    for i in range(m, n + 1): out |= R; R = cat(R, A)
    return out

def run(case):
    if case["e"] is None:
        for f in (compile_nfa, compile_dfa, lambda r: compile_dfa(r, complete=True)):
            diff(lang_real(f(""), "ab", 2), {""}, "the empty expression")
        return
    e = case["e"]; r, _ = text(e, random.Random(case["seed"]))
    al = []
    for l in leaves(e):
        s = sorted(chars(l)); al += s[:1] + s[-1:] if l[0] != "lit" else s
    others = [c for c in "abz0 -],\n" if c not in al]
    al = list(dict.fromkeys(al))[:4] + others[:1 if case["seed"] % 2 else 2]
    L = 4 if len(al) <= 3 else 3 if len(al) <= 5 else 2
    want = lang(e, al, L)
    nfa, q0, f = thompson_compile_nfa(r)
    same((set(nfa.initials), set(nfa.finals())), ({q0}, {f}), "initial and final states of %r" % r)
    diff(lang_real(nfa, al, L), want, "NFA of %r" % r)
    diff(lang_real(compile_dfa(r), al, L), want, "DFA of %r" % r)
    if case["seed"] % 5 == 0:
        diff(lang_real(compile_nfa(r), al, L), want, "compile_nfa of %r" % r); diff(lang_real(compile_dfa(r, complete=True), al, L), want, "complete DFA of %r" % r)
    one = {w for w in (chr(i) for i in range(32, 127)) if nfa.accepts(w)}
    same(one, {w for w in lang(e, [chr(i) for i in range(32, 127)], 1) if len(w) == 1} if e[0] in ("lit", "esc", "cls") else one, "characters accepted by %r" % r)

def trivial(case): return case["e"] is None or case["e"][0] in ("lit", "esc", "cls")
