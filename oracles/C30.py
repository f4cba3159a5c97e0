from oracles.base import *
import re
from pybgl.tokenize import tokenize, TokenizeVisitor
from pybgl.shunting_yard_postfix import catify, tokenizer_re
RULE = ("random texts and random token patterns (alternatives, empty matches, overlapping choices, none or all of the text matched), compared with the successive matches of the pattern; random regular expressions given as token lists, with concatenation "
        "marks expected between adjacent operands; non-trivial: the text is not empty")
PATS = ["a", "a|b", "ab|a", "a*", "b+", "[0-9]+", r"\s+", "", "x|$", "^a", "(a)(b)?", "aa", "é", r"\b", ".", "(?=a)", "ab*|", "[^a]", "a|", "(a|b)+c?", r"[+*/()-]"]
OPS = ["*", "+", "?", "|", "(", ")"]

def gen(rng, tier):
    while True:
        if rng.random() < .6:
            yield dict(k="tok", p=rng.choice(PATS), s="".join(rng.choice("aabbc0 é+(") for _ in range(rng.choice([0, 1, 2, 4, 8, 15]))), none=rng.random() < .05)
        else:
            t = []
            for _ in range(rng.choice([0, 1, 2, 3, 5, 9])):
                r = rng.random()
                t.append(rng.choice("abz09 é-,\"^") if r < .5 else rng.choice(OPS) if r < .75 else rng.choice(["[abc]", "[a-z]", "[]", "[^*+]", "[(|)]", "[{2}]"]) if r < .85 else rng.choice(["{2}", "{1,3}", "{0,}", "{ 2 , 3 }"]) if r < .92 else "\\" + rng.choice("abdDfnrsStvwW*+?.|[](){}"))
            yield dict(k="cat", t=t, cat=rng.choice([".", ".", "·", None]))

class V(TokenizeVisitor):
    def __init__(self): self.ev = []
    def on_unmatched(self, x, a, b, s): self.ev.append(("u", x, a, b, s))
    def on_matched(self, x, a, b, s): self.ev.append(("m", x, a, b, s))

def run(case):
    if case["k"] == "tok":
        s, p = case["s"], re.compile(case["p"])
        if case["none"]: tokenize(p, s); return
        v = V(); tokenize(p, s, v); ev = v.ev
        same("".join(e[1] for e in ev), s, "pieces put back together"); need(all(e[1] for e in ev), "empty piece reported: %r", ev)
        same([(e[1], e[2], e[3]) for e in ev if e[0] == "m"], [(m.group(0), m.start(), m.end()) for m in p.finditer(s) if m.group(0)], "tokens")
        pos = 0
        for k, x, a, b, s_ in ev:
            same((a, s_), (pos, s), "start of the piece %r" % x); pos += len(x)
            need(b == pos or (k == "u" and b is None and pos == len(s)), "end of the piece %r: %r", x, b)
        cuts = {q for m in p.finditer(s) for q in (m.start(), m.end())}     # text between tokens comes in whole pieces
        for k, x, a, b, s_ in ev:
            if k == "u": need(not any(a < q < a + len(x) for q in cuts) and (a in cuts or a == 0) and (a + len(x) in cuts or a + len(x) == len(s)), "the piece %r is not the text between two successive matches", x)
        return
    t, cat = case["t"], case["cat"]; s = "".join(t)
    start = lambda x: x[0] in "[(\\" or len(x) == 1 and x not in OPS
    end = lambda x: x not in ("(", "|")
    want = []
    for i, x in enumerate(t):
        if cat is not None and i and end(t[i - 1]) and start(x): want.append(cat)
        if cat is None and want and len(x) == 1 and x not in OPS and i and len(t[i - 1]) == 1 and t[i - 1] not in OPS: want[-1] += x; continue
        want.append(x)
    for f in catify, tokenizer_re: same(list(f(s, cat) if cat != "." else f(s)), want, "%s(%r)" % (f.__name__, s))

def trivial(case): return not (case.get("s") or case.get("t"))
