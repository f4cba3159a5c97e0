from oracles.nfatools import *
from pybgl.trie import Trie
RULE = ("histories of word insertions and merges (of tries built the same way, nested merges included) on several tries, words with shared prefixes and the empty word; after every step the exact set of accepted words, the set of prefixes as states "
        "and the merged trie are checked; non-trivial: at least two words")

def gen(rng, tier):
    while True:
        sy = rng.choice(["ab", "ab", "a", "abé "]); k = rng.choice([1, 2, 2, 3]); ops = []
        for _ in range(rng.choice([2, 4, 7, 12])):
            ops.append(["w", rng.randrange(k), "".join(rng.choice(sy) for _ in range(rng.choice([0, 1, 2, 3, 4])))] if rng.random() < .7 else ["m", rng.randrange(k), rng.randrange(k)])
        if k > 1: ops.append(["m", 0, 1])
        yield dict(k=k, ops=ops, clone=rng.random() < .5)

def words_of(g):
    D, q0, F = read_dfa(g); V = set(g.vertices()); ind = {}
    for (q, a), r in D.items(): ind[r] = ind.get(r, 0) + 1
    need(all(c == 1 for c in ind.values()) and q0 not in ind, "not a tree: %r", D)
    pre = {q0: ""}; todo = [q0]
    for q in todo:
        for (p, a), r in D.items():
            if p == q: pre[r] = pre[q] + a; todo.append(r)
    same(set(pre), V, "states reached from the root")
    return {pre[q] for q in F}, set(pre.values())

def run(case):
    ts = [Trie() for _ in range(case["k"])]; W = [set() for _ in ts]
    def check(i):
        acc, pre = words_of(ts[i]); same(acc, W[i], "words of the trie"); same(pre, {w[:j] for w in W[i] for j in range(len(w) + 1)} | {""}, "prefixes")
        same(ts[i].num_edges(), len(pre) - 1, "num_edges"); same(ts[i].num_vertices(), len(pre), "num_vertices")
        for w in pre | W[i] | {"zz"}:
            same(bool(ts[i].accepts(w)), w in W[i], "accepts(%r)" % w); same(bool(ts[i].accepts(w + "a")), w + "a" in W[i], "accepts(%r)" % (w + "a"))
    for op in case["ops"]:
        if op[0] == "w": ts[op[1]].insert(op[2]); W[op[1]].add(op[2]); check(op[1])
        else:
            i, j = op[1], op[2]
            if i == j: continue
            s = snapshot(ts[j]); ts[i].insert(ts[j]); W[i] |= W[j]; same(snapshot(ts[j]), s, "the merged trie after the call"); check(i); check(j)

def trivial(case): return sum(o[0] == "w" for o in case["ops"]) < 2
