from oracles.base import *
from pybgl.levenshtein_distance import *
from pybgl.lcs_distance import *
from pybgl.damerau_levenshtein_distance import *
from pybgl.levenshtein_distance import levenshtein_distance_naive, LevenshteinDistance
from pybgl.lcs_distance import lcs_distance_naive, LcsDistance
from pybgl.damerau_levenshtein_distance import damerau_levenshtein_distance_naive, DamerauLevenshteinDistance
RULE = ("all pairs of words of length <= 4 over two letters and <= 3 over three, random pairs up to length 12 (40 now and then) of related words, unusual characters; against the full "
        "dynamic programme (no greedy step); non-trivial: both words are non-empty")

def ref(x, y, sub, swap):
    D = [[0] * (len(y) + 1) for _ in range(len(x) + 1)]
    for i in range(len(x) + 1):
        for j in range(len(y) + 1):
            if i == 0 or j == 0: D[i][j] = i + j; continue
            b = min(D[i - 1][j] + 1, D[i][j - 1] + 1)
            if x[i - 1] == y[j - 1]: b = min(b, D[i - 1][j - 1])
            elif sub: b = min(b, D[i - 1][j - 1] + 1)
            if swap and i > 1 and j > 1 and x[i - 1] == y[j - 2] and x[i - 2] == y[j - 1]: b = min(b, D[i - 2][j - 2] + 1)
            D[i][j] = b
    return D[len(x)][len(y)]

def gen(rng, tier):
    for al, n in (("ab", 4), ("abc", 3)):
        ws = list(words(al, n))
        ps = [(x, y) for x in ws for y in ws]
        rng.shuffle(ps)
        for x, y in ps: yield [x, y]
    while True:
        al = rng.choice(["ab", "abc", "abcdefgh", "aA é\0"])
        x = "".join(rng.choice(al) for _ in range(rng.choice([0, 3, 6, 9, 12] if rng.random() < .97 else [40])))
        y = list(x)
        for _ in range(rng.randrange(0, 6)):
            r = rng.random(); i = rng.randrange(len(y) + 1)
            if r < .3: y.insert(i, rng.choice(al))
            elif r < .6 and y: del y[i % len(y)]
            elif r < .8 and len(y) > 1: i = i % (len(y) - 1); y[i], y[i + 1] = y[i + 1], y[i]
            elif y: y[i % len(y)] = rng.choice(al)
        yield [x, "".join(y)] if rng.random() < .8 else [x, "".join(rng.choice(al) for _ in range(rng.randrange(0, 9)))]

def run(case):
    x, y = case
    for nm, f, nv, C, a in (("levenshtein", levenshtein_distance, levenshtein_distance_naive, LevenshteinDistance, (True, False)),
                     ("lcs", lcs_distance, lcs_distance_naive, LcsDistance, (False, False)),
                     ("damerau_levenshtein", damerau_levenshtein_distance, damerau_levenshtein_distance_naive, DamerauLevenshteinDistance, (True, True))):
        d = ref(x, y, *a)
        same(f(x, y), d, "%s(%r, %r)" % (nm, x, y)); same(f(y, x), d, "%s(%r, %r)" % (nm, y, x))
        need((f(x, y) == 0) == (x == y), "%s(%r, %r) zero", nm, x, y); same(f(x, x), 0, nm + " of a word and itself")
        if len(x) + len(y) <= 9: same(nv(x, y), d, "%s naive(%r, %r)" % (nm, x, y))
        o = C(x, y)
        for i, j in ((len(x) // 2, len(y) // 3), (0, 0)):
            same(o.compute(i, j), ref(x[i:], y[j:], *a), "%s of the suffixes %d, %d of %r, %r" % (nm, i, j, x, y))

def trivial(case): return not (case[0] and case[1])
