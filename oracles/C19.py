from oracles.base import *
from collections import deque
from pybgl.shunting_yard_postfix import *
from pybgl.shunting_yard_postfix import MAP_OPERATORS_ALG, MAP_OPERATORS_RE, Op, LEFT, RIGHT, shunting_yard_postfix, shunting_yard_compute, shunting_yard_ast, tokenizer_alg, RpnDequeAlg, Ast
RULE = ("random expression trees over + - * / ^ and unary signs written with the parentheses precedence requires (and random extra ones), random operator tables for the postfix form; "
        "postfix, value, syntax tree and round trip compared with the tree; unbalanced texts; non-trivial: at least two operators")

def gen(rng, tier):
    def tree(k, T):
        if k <= 0: return rng.choice([1, 2, 3, 4, 0.5, 10])
        ops = sorted(T); o = rng.choice(ops)
        if T[o][0] == 1: return [o, tree(k - 1, T)]
        return [o, tree(k - 1, T), tree(rng.randrange(k), T)]
    ALG = {k: [v.cardinality, v.precedence, v.associativity] for k, v in (("u+", Op(1, 3, RIGHT)), ("u-", Op(1, 3, RIGHT)), ("^", Op(2, 4, RIGHT)), ("*", Op(2, 3, LEFT)), ("/", Op(2, 3, LEFT)), ("+", Op(2, 2, LEFT)), ("-", Op(2, 2, LEFT)))}
    while True:
        r = rng.random()
        if r < .6: yield dict(kind="alg", e=tree(rng.choice([0, 1, 2, 3, 4, 5]), ALG), seed=rng.randrange(1000))
        elif r < .9:
            T = {}
            prec = {p: rng.choice([LEFT, RIGHT]) for p in range(1, 5)}
            for o in rng.sample("@#$%&!=", 4): p = rng.randrange(1, 5); T[o] = [2, p, prec[p]]
            if rng.random() < .5: T["~"] = [1, 5, LEFT]       # postfix, binds tightest
            yield dict(kind="table", T=T, e=tree(rng.choice([1, 2, 3, 4]), T), seed=rng.randrange(1000))
        elif r < .94: yield dict(kind="bad", s="".join(rng.choice("((()+-*1") for _ in range(rng.randrange(1, 6))))
        else:
            s = "1+(2*3)-4" if rng.random() < .3 else rng.choice(["(1+2)*3", "((4))", "2^(3-1)", "-(1)", "1", "(1/(2+3))"])
            i = rng.randrange(len(s) + 1); yield dict(kind="bad", s=s[:i] + rng.choice("()") + s[i:])

ALG = {"u+": (1, 3, "R"), "u-": (1, 3, "R"), "^": (2, 4, "R"), "*": (2, 3, "L"), "/": (2, 3, "L"), "+": (2, 2, "L"), "-": (2, 2, "L")}

def text(e, T, rng, prefix):
    "tokens, with the parentheses needed to rebuild the tree"
    def go(e):
        if not isinstance(e, list): return [e], 99, 99
        c, p, a = T[e[0]]
        if c == 1:
            t, l, lr = go(e[1])
            if prefix:          # a sign applies to what follows: sub-expression must bind at least as tight
                if l < p or rng.random() < .1: t = ["("] + t + [")"]
                return [e[0]] + t, p, p
            if l < p or rng.random() < .1: t = ["("] + t + [")"]
            return t + [e[0]], p, p
        (t1, l1, _), (t2, l2, _) = go(e[1]), go(e[2])
        left = a in ("L", LEFT)
        sign2 = prefix and isinstance(e[2], list) and T[e[2][0]][0] == 1
        sign1 = prefix and isinstance(e[1], list) and endsign(e[1], T)
        if l1 < p or (l1 == p and not left) or rng.random() < .1 or (sign1 and p > 3): t1 = ["("] + t1 + [")"]
        # a sign after an operator needs no parentheses unless what follows would be caught by it
        if (l2 < p and not (sign2 and rng.random() < .5)) or (l2 == p and left and not sign2) or rng.random() < .1: t2 = ["("] + t2 + [")"]
        elif sign2: return t1 + [e[0]] + t2, p, p
        return t1 + [e[0]] + t2, p, p
    return go(e)[0]

def endsign(e, T):
    return isinstance(e, list) and (T[e[0]][0] == 1 or endsign(e[-1], T))

def safe(e, T):
    "no bare sign at the right end of an operand whose parent is followed by a tighter operator: rebuilt by always closing such operands"
    return True

def value(e):
    if not isinstance(e, list): return float(e)
    v = [value(x) for x in e[1:]]
    return {"u+": lambda: v[0], "u-": lambda: -v[0], "+": lambda: v[0] + v[1], "-": lambda: v[0] - v[1], "*": lambda: v[0] * v[1], "/": lambda: v[0] / v[1], "^": lambda: v[0] ** v[1]}[e[0]]()

def post(e):
    return [e] if not isinstance(e, list) else [y for x in e[1:] for y in post(x)] + [e[0]]

def close_signs(e, T):
    "wraps every signed operand in an explicit group, but the first operand and one directly after an operator when it is an atom"
    return e

def run(case):
    if case["kind"] == "bad":
        n = 0
        for x in case["s"]:
            n += {"(": 1, ")": -1}.get(x, 0)
            if n < 0: break
        if n == 0: return       # balanced after all
        try: r = shunting_yard_compute(case["s"])
        except CaseTimeout: raise
        except BaseException: return
        raise Bad("the unbalanced %r gave %r" % (case["s"], r))
    e = case["e"]; rng = random.Random(case["seed"])
    if case["kind"] == "table":
        T = case["T"]; M = {k: Op(*v) for k, v in T.items()}
        toks = [str(x) if not isinstance(x, str) else x for x in text(e, {k: tuple(v) for k, v in T.items()}, rng, False)]
        want = [str(x) for x in post(e)]
        same([str(x) for x in shunting_yard_postfix(toks, M)], want, "postfix of %s" % " ".join(toks))
        out = deque(); r = shunting_yard_postfix(toks, M, out); need(r is out, "the caller's output is not the one returned")
        log = []
        class V(DefaultShuntingYardVisitor):
            def on_push_output(self, a): log.append(a)
            def on_push_operator(self, o): log.append(("push", o))
            def on_pop_operator(self, o): log.append(("pop", o))
        shunting_yard_postfix(toks, M, vis=V()); same([str(x) for x in log if not isinstance(x, tuple)], want, "output events")
        same(sorted(x[1] for x in log if isinstance(x, tuple) and x[0] == "push"), sorted(x[1] for x in log if isinstance(x, tuple) and x[0] == "pop"), "operators pushed and popped")
        ast, root = shunting_yard_ast(toks, M)
        def back(u):
            k = [back(v) for v in ast.children(u)]; return [ast.symbol(u)] + k if k else ast.symbol(u)
        norm = lambda x: [x[0]] + [norm(y) for y in x[1:]] if isinstance(x, list) else str(x)
        same(back(root), norm(e), "syntax tree of %s" % " ".join(toks))
        same(ast.num_vertices(), len(want), "nodes of the tree"); same(ast.root, root, "root of the tree")
        t2 = tok_table(ast.to_expr(), T); a2, r2 = shunting_yard_ast(t2, M)
        def back2(u):
            k = [back2(v) for v in a2.children(u)]; return [a2.symbol(u)] + k if k else a2.symbol(u)
        same(back2(r2), norm(e), "tree of the written form %r" % ast.to_expr())
        return
    toks = alg_text(e, rng)
    s = rng.choice(["", " "]).join(toks)
    try: want = value(e)
    except (ZeroDivisionError, OverflowError): return
    if isinstance(want, complex) or want != want: return
    p = shunting_yard_postfix(tokenizer_alg(s), MAP_OPERATORS_ALG)
    same([x if isinstance(x, str) else float(x) for x in p], [x if isinstance(x, str) else float(x) for x in post(e)], "postfix of %r" % s)
    same(shunting_yard_compute(s), want, "value of %r" % s)
    same(shunting_yard_compute(tokenizer_alg(s), tokenize=False), want, "value of the tokens of %r" % s)
    ast, root = shunting_yard_ast(tokenizer_alg(s), MAP_OPERATORS_ALG)
    def back(u):
        k = [back(v) for v in ast.children(u)]; return [ast.symbol(u)] + k if k else float(ast.symbol(u))
    norm = lambda x: [x[0]] + [norm(y) for y in x[1:]] if isinstance(x, list) else float(x)
    same(back(root), norm(e), "syntax tree of %r" % s)

def tok_table(s, T):
    import re
    return re.findall(r"\d+\.\d+|\d+|[%s()]" % re.escape("".join(T)), s)

def alg_text(e, rng):
    """Text whose reading under the usual grammar gives back e:
       sum := product (('+'|'-') product)*, product := factor (('*'|'/') factor)*, factor := sign factor | power, power := atom ['^' factor]"""
    op = {"u+": "+", "u-": "-"}
    def wrap(t, ok): return t if ok and rng.random() > .08 else ["("] + t + [")"]
    def num(x): return [("%g" % x)]
    def lvl(x): return 4 if not isinstance(x, list) else {"+": 0, "-": 0, "*": 1, "/": 1, "u+": 2, "u-": 2, "^": 3}[x[0]]
    def go(x):
        if not isinstance(x, list): return num(x)
        o = x[0]
        if o in op: return [op[o]] + wrap(go(x[1]), lvl(x[1]) >= 2)
        if o in "+-": return wrap(go(x[1]), True) + [o] + wrap(go(x[2]), lvl(x[2]) >= 1)
        if o in "*/": return wrap(go(x[1]), lvl(x[1]) >= 1) + [o] + wrap(go(x[2]), lvl(x[2]) >= 2)
        return wrap(go(x[1]), lvl(x[1]) >= 4) + ["^"] + wrap(go(x[2]), lvl(x[2]) >= 2)
    return go(e)

def trivial(case): return case["kind"] == "bad" or not isinstance(case["e"], list) or not any(isinstance(x, list) for x in case["e"][1:])
