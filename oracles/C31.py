from oracles.base import *
from collections import defaultdict
from pybgl import property_map as P, algebra as G
from pybgl.aggregated_visitor import AggregatedVisitor
RULE = ("histories of reads and writes on maps of every kind, shared and separate storage, several defaults and key types; relations and operations on integers, fractions, infinities and absorbing values; aggregates of recording visitors under random "
        "events with positional and keyword arguments; non-trivial: at least two steps")
KEYS = [0, 1, -1, "a", "", None, (1, 2), 1.5, "0", (), True, 7]
VALS = [0, 1, None, "x", "", [], 5, False, True, -3, 2.5]
NUM = [0, 1, -1, 2, 3, 0.5, -2.5, 10**9, "INF", "FINF", "-FINF", 7, 1e-9]
EV = ["discover_vertex", "examine_edge", "tree_edge", "start_vertex", "finish_vertex", "custom", "_hidden", "keys_", "on_matched"]

def gen(rng, tier):
    R = lambda l: rng.randrange(len(l))
    while True:
        r = rng.random()
        if r < .4: yield dict(k="map", d=R(VALS), init=[[R(KEYS), R(VALS)] for _ in range(rng.randrange(3))], ops=[[rng.choice("rrwWg"), R(KEYS), R(VALS)] for _ in range(rng.choice([2, 5, 12]))], c=R(VALS))
        elif r < .7: yield dict(k="alg", x=R(NUM), y=R(NUM), ab=rng.choice([None, 0, 1, 5, 8, 9]))
        else: yield dict(k="agg", n=rng.randrange(5), ev=[[rng.choice(EV), [R(VALS) for _ in range(rng.randrange(4))], {n: R(VALS) for n in rng.sample(["u", "g", "x"], rng.randrange(3))}] for _ in range(rng.randrange(1, 6))], late=rng.random() < .3)

def num(i):
    x = NUM[i]; return G.INFINITY if x == "INF" else float("inf") if x == "FINF" else float("-inf") if x == "-FINF" else x

def refused(f, *exc):
    try: f()
    except exc: return
    raise Bad("not refused")

def run(case):
    if case["k"] == "map":
        mk = lambda: defaultdict(lambda: VALS[case["d"]], {KEYS[a]: VALS[b] for a, b in case["init"]})
        d1, d2 = mk(), mk(); m = P.make_assoc_property_map(d1); m1 = P.AssocPropertyMap(d1); other = P.make_assoc_property_map(d2); model = {KEYS[a]: VALS[b] for a, b in case["init"]}
        f = P.make_func_property_map(lambda k: (k, "f")); idn = P.identity_property_map(); cst = P.make_constant_property_map(VALS[case["c"]])
        typed = lambda x: (type(x).__name__, x)
        for o, a, b in case["ops"]:
            k, v = KEYS[a], VALS[b]
            if o == "r": same(typed(m[k]), typed(model.get(k, VALS[case["d"]])), "value of %r" % (k,))
            elif o == "g": same(typed(P.get(m1, k)), typed(model.get(k, VALS[case["d"]])), "value of %r" % (k,))
            elif o == "w": m[k] = v; model[k] = v
            else: P.put(m1, k, v); model[k] = v
            for q in KEYS: same(typed(m1[q]), typed(model.get(q, VALS[case["d"]])), "value of %r after %r" % (q, (o, k, v)))
            init = {KEYS[a]: VALS[b] for a, b in case["init"]}
            same(typed(other[k]), typed(init.get(k, VALS[case["d"]])), "value of %r in another map" % (k,))
            same(f[k], (k, "f"), "function map"); need(idn[k] is k, "identity map"); need(cst[k] is VALS[case["c"]], "constant map"); same(P.get(f, k), (k, "f"), "get")
            for x in f, idn, cst: refused(lambda: x.__setitem__(k, v), RuntimeError)
            same((f[k], cst[k] is VALS[case["c"]]), ((k, "f"), True), "after a refused write")
        refused(lambda: P.make_assoc_property_map({}), TypeError)
    elif case["k"] == "alg":
        x, y = num(case["x"]), num(case["y"])
        same(bool(G.Less()(x, y)), x < y, "Less"); same(bool(G.GreaterThan()(x, y)), x > y, "GreaterThan")
        for C, impl, dflt in (G.ClosedPlus, lambda a, b: a + b, G.INFINITY), (G.ClosedTime, lambda a, b: a * b, G.INFINITY), (G.ClosedMax, max, G.INFINITY), (G.ClosedMin, min, 0):
            ab = dflt if case["ab"] is None else num(case["ab"])
            f = C() if case["ab"] is None else C(ab); got = f(x, y); want = ab if x == ab or y == ab else impl(x, y)
            need(got == want or (got != got and want != want), "%s(%r)(%r, %r): got %r, expected %r", C.__name__, ab, x, y, got, want)
            need(f(x, y) == f(y, x) or want != want, "%s is not commutative on %r, %r", C.__name__, x, y)
    else:
        log = []
        class A:
            def __init__(self, i): self.i = i
            def __getattr__(self, name):
                if name.startswith("__"): raise AttributeError(name)
                return lambda *a, **k: log.append((self.i, name, a, tuple(sorted(k.items()))))
        class B(A): pass
        vs = [(A if i % 2 else B)(i) for i in range(case["n"])]; l = list(vs); agg = AggregatedVisitor(l) if l or case["late"] else AggregatedVisitor(); n = len(vs)
        for e, a, k in case["ev"]:
            del log[:]; a = tuple(VALS[i] for i in a); k = {x: VALS[i] for x, i in k.items()}
            getattr(agg, e)(*a, **k)
            same(log, [(i, e, a, tuple(sorted(k.items()))) for i in range(n)], "events received")
        names = {str(type(v)).split("'")[1] for v in vs}; same(set(agg.keys()), names, "keys")
        for nme in names: need(agg.get(nme) is next(v for v in vs if str(type(v)).split("'")[1] == nme), "get(%r)", nme)
        same(agg.get("nothing", 5), 5, "get of an absent key")

def trivial(case): return len(case.get("ops", case.get("ev", [1, 2]))) < 2
