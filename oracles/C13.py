from oracles.base import *
from pybgl.heap import Heap, Comparable, compare_to_key
RULE = ("histories of push / pop / decrease_key / iteration with repeated elements and equal priorities under ascending, descending and modular preorders; "
        "every pair of values for the comparison wrapper; non-trivial: a pop happened")
INTS, _ = harvest(["heap.py"])

def gen(rng, tier):
    while True:
        if rng.random() < .15:
            yield dict(kind="cmp", x=rng.randrange(-3, 4), y=rng.randrange(-3, 4), z=rng.randrange(-3, 4), pre=rng.choice(["le", "ge", "mod"])); continue
        m = rng.choice([2, 4, 8, 20]); ops = []
        for _ in range(rng.choice([2, 5, 10, 25, 60])):
            r = rng.random()
            ops.append(["push", rng.randrange(m)] if r < .5 else ["pop"] if r < .8 else ["dec", rng.randrange(m), rng.randrange(1, 6)])
        yield dict(kind="ops", init=[rng.randrange(m) for _ in range(rng.choice([0, 0, 1, 3, 8]))], ops=ops, prio=[rng.randrange(0, 6) for _ in range(m)], pre=rng.choice(["key", "le", "ge", "mod", "none"]), tup=rng.random() < .2)

PRE = {"le": lambda a, b: a <= b, "ge": lambda a, b: a >= b, "mod": lambda a, b: a % 3 <= b % 3}

def run(case):
    if case["kind"] == "cmp":
        p = PRE[case["pre"]]; x, y = case["x"], case["y"]; X, Y = Comparable(x, p), compare_to_key(p)(y)
        xy, yx = p(x, y), p(y, x)
        same(bool(X <= Y), xy, "<="); same(bool(X >= Y), yx, ">="); same(bool(X < Y), xy and not yx, "<"); same(bool(X > Y), yx and not xy, ">")
        same(bool(X == Y), xy and yx, "=="); same(bool(X != Y), not (xy and yx), "!=")
        vals = [x, y, case["z"], x]
        same([bool(p(a, b)) for a, b in zip(*(lambda s: (s, s[1:]))(sorted(vals, key=compare_to_key(p))))], [True] * 3, "sorted order")
        return
    prio = list(case["prio"]); pre = case["pre"]
    E = (lambda i: (i, "x")) if case["tup"] else (lambda i: i)
    I = (lambda e: e[0]) if case["tup"] else (lambda e: e)
    before = {"key": lambda a, b: prio[a] <= prio[b], "none": lambda a, b: a <= b}.get(pre) or (lambda a, b: PRE[pre](prio[a], prio[b]))
    to = {"key": lambda e: prio[I(e)], "none": None}.get(pre, lambda e: Comparable(prio[I(e)], PRE.get(pre)))
    init = case["init"]
    h = Heap([E(i) for i in init], to_comparable=to) if init or pre != "none" else Heap()
    have = list(init)
    def look():
        same(len(h), len(have), "size"); same(bool(h), bool(have), "truth value")
        it = [I(e) for e in h]; same(sorted(it), sorted(have), "elements")
        for a, b in zip(it, it[1:]): need(before(a, b), "iteration order %r", it)
    look()
    for op in case["ops"]:
        if op[0] == "push": h.push(E(op[1])); have.append(op[1])
        elif op[0] == "pop":
            if not have: continue
            x = I(h.pop()); need(x in have, "popped %r, which is not stored", x); have.remove(x)
            for y in have: need(before(x, y) or not before(y, x), "popped %r while %r precedes it", x, y)
        else:
            i = op[1]
            if pre == "none" or pre == "mod": continue
            prio[i] += -op[2] if pre in ("key", "le") else op[2]
            h.decrease_key(E(i))
        look()

def trivial(case): return case["kind"] == "ops" and not any(o[0] == "pop" for o in case["ops"])
