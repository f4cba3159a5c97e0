from oracles.nfatools import *
from pybgl.deterministic_inclusion import deterministic_inclusion
RULE = ("random pairs of trimmed deterministic automata, related to each other or not, the relation of their languages decided on all jointly reachable pairs of states; both orders of the arguments; "
        "non-trivial: both languages have a non-empty word")

def trim(d):
    D, q0, F = ddict(d)
    fw = reach(lambda u: [r for (q, a), r in D.items() if q == u], [q0]); bw = reach(lambda u: [q for (q, a), r in D.items() if r == u], F)
    K = sorted(fw & bw | {q0}); ix = {q: i for i, q in enumerate(K)}
    return dict(n=len(K), tr=[[ix[q], ix[r], a] for (q, a), r in D.items() if q in ix and r in ix and r in bw and q in fw & bw], q0=ix[q0], fin=[ix[q] for q in K if q in F])

def gen(rng, tier):
    while True:
        sy = rng.choice(["ab", "ab", "a", "abc"])
        a = rand_dfa(rng, rng.choice([1, 2, 3, 5, 7]), sy, fin=rng.choice([.3, .6, 1])); b = rand_dfa(rng, rng.choice([1, 2, 4]), sy)
        r = rng.random()
        if r < .6:          # a variant of the first: unrolled, plus or minus transitions and final states
            k = rng.choice([1, 1, 2]); n = a["n"]
            tr = [[q + i * n, r_ + ((i + 1) % k) * n, x] for q, r_, x in a["tr"] for i in range(k)]
            fin = [f + i * n for f in a["fin"] for i in range(k)]
            if rng.random() < .4 and fin: fin.remove(rng.choice(fin))
            if rng.random() < .4: fin = sorted(set(fin) | {rng.randrange(n * k)})
            if rng.random() < .3 and tr: tr.remove(rng.choice(tr))
            b = dict(n=n * k, tr=tr, q0=a["q0"], fin=fin)
        yield dict(a=trim(a), b=trim(b))

def run(case):
    ops = [ddict(case["a"]), ddict(case["b"])]
    only1 = only2 = False
    for (p, q) in joint(*ops):
        x, y = p in ops[0][2] and p is not None, q in ops[1][2] and q is not None
        only1 |= x and not y; only2 |= y and not x
    want = None if only1 and only2 else -1 if only1 else 1 if only2 else 0
    g1, g2 = build_dfa(case["a"]), build_dfa(case["b"]); s = snapshot(g1), snapshot(g2)
    same(deterministic_inclusion(g1, g2), want, "deterministic_inclusion")
    same(deterministic_inclusion(g2, g1), None if want is None else -want, "deterministic_inclusion with the arguments swapped")
    same((snapshot(g1), snapshot(g2)), s, "operands after the call")

def trivial(case): return not (case["a"]["tr"] and case["b"]["tr"])
