from oracles.base import *
from pybgl.bk_tree import *
from pybgl.bk_tree import make_bk_tree, BKTree
from pybgl.levenshtein_distance import levenshtein_distance
RULE = ("random insertion histories (repeats, prefixes, the empty word) under the edit distance and |x-y|, all queries close to the inserted words, all radii 0..6 and none; "
        "non-trivial: at least two words")

def gen(rng, tier):
    while True:
        k = rng.choice([0, 1, 2, 4, 8, 16])
        if rng.random() < .35:
            ws = [rng.randrange(0, 40) for _ in range(k)]; qs = [rng.randrange(-3, 45) for _ in range(8)]; kind = "int"
        else:
            al = rng.choice(["ab", "abcd"]); W = lambda: "".join(rng.choice(al) for _ in range(rng.randrange(0, 7)))
            ws = [W() for _ in range(k)]; qs = [W() for _ in range(5)] + ws[:3]; kind = "lev"
        yield dict(kind=kind, ws=ws, qs=qs, make=rng.random() < .4)

def run(case):
    dist = levenshtein_distance if case["kind"] == "lev" else (lambda x, y: abs(x - y)); memo = {}
    def d(x, y):
        if (x, y) not in memo: memo[x, y] = dist(x, y)
        return memo[x, y]
    if case["make"]: t = make_bk_tree(iter(case["ws"]), d) if case["kind"] == "int" or case["ws"] else make_bk_tree(case["ws"])
    else:
        t = BKTree(d); ids = {}
        for w in case["ws"]:
            n = t.num_vertices()
            u = t.insert(w)
            same(t.element(u), w, "word of the node returned by insert(%r)" % w)
            if w in ids: same(u, ids[w], "second insert(%r)" % w); same(t.num_vertices(), n, "number of nodes after inserting %r twice" % w)
            ids[w] = u
    S = set(case["ws"])
    same(sorted(t.element(u) for u in t.vertices()), sorted(S), "stored words")
    same(t.num_edges(), max(0, len(S) - 1), "number of branches")
    for u in t.vertices():
        for e in t.out_edges(u):
            for v in reach(lambda x: [f.target for f in t.out_edges(x)], [e.target]):
                same(d(t.element(v), t.element(u)), t.label(e), "distance of %r below %r" % (t.element(v), t.element(u)))
    if S: same(len(reach(lambda x: [f.target for f in t.out_edges(x)], [t.root])), len(S), "nodes below the root")
    for q in case["qs"]:
        best = min((d(q, w) for w in S), default=None)
        for r in (None, 0, 1, 2, 3, 6):
            got = t.search(q) if r is None else t.search(q, r)
            if best is None or (r is not None and best > r): need(got is None, "search(%r, %r) = %r although no word is that close", q, r, got)
            else:
                need(got is not None, "search(%r, %r) found nothing, %r is at distance %r", q, r, [w for w in S if d(q, w) == best], best)
                w, x = got; need(w in S and d(q, w) == x, "search(%r, %r) = %r, which is no inserted word with its distance", q, r, got)
                same(x, best, "distance found by search(%r, %r)" % (q, r))
        if S:
            for u in list(t.vertices())[:4]:
                sub = [t.element(v) for v in reach(lambda x: [f.target for f in t.out_edges(x)], [u])]
                same(t.search(q, r=u)[1], min(d(q, w) for w in sub), "search(%r) from node %r" % (q, u))

def trivial(case): return len(set(case["ws"])) < 2
