from oracles.nfatools import *
from collections import defaultdict
from pybgl.parallel_breadth_first_search import parallel_breadth_first_search, ParallelBreadthFirstSearchVisitor
from pybgl.graph_traversal import dfs_tree, bfs_tree, DefaultTreeTraversalVisitor
from pybgl.graph import DirectedGraph
from pybgl.incidence_graph import IncidenceGraph
from pybgl.property_map import make_assoc_property_map
RULE = ("random pairs of deterministic automata walked from the initial pair or given pairs, with and without a filter on the pairs, every event compared with the product; random trees walked from a random node, every event compared with the tree; "
        "non-trivial: at least two pairs or nodes")

def gen(rng, tier):
    while True:
        if rng.random() < .65:
            a = rand_dfa(rng, rng.choice([1, 2, 3, 5]), rng.choice(["ab", "a", "abc"])); b = rand_dfa(rng, rng.choice([1, 2, 4]), rng.choice(["ab", "b", "abc"]))
            ps = sorted({(rng.choice([None] + list(range(a["n"]))), rng.randrange(b["n"])) for _ in range(rng.randrange(4))}, key=repr) if rng.random() < .3 else None
            yield dict(k="par", a=a, b=b, src=ps, filt=rng.choice([None, None, "both", "left", "mod"]), color=rng.random() < .3, novis=rng.random() < .03)
        else:
            n = rng.choice([1, 2, 3, 5, 9, 16]); par = [None] + [rng.randrange(i) if rng.random() < .7 else max(0, i - 1) for i in range(1, n)]; p = list(range(n)); rng.shuffle(p)
            yield dict(k="tree", par=[[p[i], p[x]] for i, x in enumerate(par) if x is not None], n=n, s=p[0] if rng.random() < .7 else rng.randrange(n), inc=rng.random() < .2, novis=rng.random() < .03)

class Rec(ParallelBreadthFirstSearchVisitor):
    def __init__(self, g1, g2): self.ev = []; self.gs = g1, g2
    def chk(self, g1, g2): need(g1 is self.gs[0] and g2 is self.gs[1], "event given other automata")
def _v(name):
    def f(self, q1, g1, q2, g2): self.chk(g1, g2); self.ev.append((name, (q1, q2)))
    return f
def _e(name):
    T = lambda e: None if e is None else (e.source, e.target, e.distinguisher)
    def f(self, e1, g1, e2, g2, a): self.chk(g1, g2); self.ev.append((name, T(e1), T(e2), a))
    return f
for n_ in "start_vertex examine_vertex discover_vertex finish_vertex".split(): setattr(Rec, n_, _v(n_))
for n_ in "examine_edge tree_edge gray_target black_target".split(): setattr(Rec, n_, _e(n_))
def _sym(self, q1, g1, q2, g2, a): self.chk(g1, g2); self.ev.append(("symbol", (q1, q2), a))
Rec.examine_symbol = _sym

def run(case):
    if case["k"] == "tree": return tree(case)
    g1, g2 = build_dfa(case["a"]), build_dfa(case["b"]); (D1, s1, _), (D2, s2, _) = ddict(case["a"]), ddict(case["b"])
    snap = snapshot(g1), snapshot(g2); vis = Rec(g1, g2); kw = {}
    keep = {None: lambda p, q: True, "both": lambda p, q: p is not None and q is not None, "left": lambda p, q: p is not None, "mod": lambda p, q: p is None or p % 2 == 0}[case["filt"]]
    if case["filt"]:
        tg = lambda e: None if e is None else e.target
        def f(e1, h1, e2, h2): vis.chk(h1, h2); return keep(tg(e1), tg(e2))
        kw["if_push"] = f
    src = [(s1, s2)]
    if case["src"] is not None: src = [tuple(x) for x in case["src"]]; kw["source_pairs"] = list(src)
    col = defaultdict(int)
    if case["color"]: kw["pmap_vcolor"] = make_assoc_property_map(col)
    parallel_breadth_first_search(g1, g2, vis=None if case["novis"] else vis, **kw)
    same((snapshot(g1), snapshot(g2)), snap, "automata after the walk")
    if case["novis"]: return
    sig = lambda t: {a for (q, a) in D1 if q == t[0]} | {a for (q, a) in D2 if q == t[1]}
    nxt = lambda t, a: (D1.get((t[0], a)), D2.get((t[1], a)))
    disc = set(src); dist = {t: 0 for t in src}; todo = list(dist)
    for t in todo:
        for a in sig(t):
            n = nxt(t, a)
            if n not in disc:
                disc.add(n)
                if keep(*n): dist[n] = dist[t] + 1; todo.append(n)
    ev = vis.ev; ns = len(src); same([e for e in ev[:ns]], [("start_vertex", t) for t in src], "start events")
    color = {t: 1 for t in src}; i = ns; seen = []; found = []
    while i < len(ev):
        need(ev[i][0] == "examine_vertex", "unexpected event %r", ev[i]); t = ev[i][1]; i += 1
        need(t in dist, "the pair %r is examined", t); need(t not in seen, "the pair %r is examined twice", t); seen.append(t); syms = []
        while i < len(ev) and ev[i][0] == "symbol":
            same(ev[i][1], t, "pair of the examined symbol"); a = ev[i][2]; syms.append(a); n = nxt(t, a); i += 1
            e1 = None if t[0] is None else (t[0], n[0], a); e2 = None if t[1] is None else (t[1], n[1], a)
            want = [("examine_edge", e1, e2, a)]; c = color.get(n, 0)
            want += [("tree_edge", e1, e2, a), ("discover_vertex", n)] if c == 0 else [("gray_target", e1, e2, a)] if c == 1 else [("black_target", e1, e2, a)]
            if c == 0: color[n] = 1; found.append(n)
            same(ev[i:i + len(want)], want, "events on symbol %r of %r" % (a, t)); i += len(want)
        same(msort(syms), msort(sig(t)), "symbols examined from %r" % (t,)); same(ev[i] if i < len(ev) else None, ("finish_vertex", t), "end of the examination"); i += 1; color[t] = 2
    same(set(seen), set(dist), "pairs examined"); same(set(found) | set(src), disc, "pairs discovered")
    ds = [dist[t] for t in seen]; same(ds, sorted(ds), "distances of the examined pairs")
    if case["color"]: same({t: c for t, c in col.items() if c}, color, "colours")

def tree(case):
    n = case["n"]; g = (IncidenceGraph if case["inc"] else DirectedGraph)(n)
    for c, p in case["par"]: g.add_edge(p, c)
    kids = lambda u: [c for c, p in case["par"] if p == u]
    for bfs in False, True:
        ev = []
        class V(DefaultTreeTraversalVisitor):
            def start_vertex(self, s, g_): need(g_ is g, "graph"); ev.append(("s", s))
            def discover_vertex(self, u, g_): need(g_ is g, "graph"); ev.append(("d", u))
            def examine_edge(self, e, g_): need(g_ is g, "graph"); ev.append(("e", e.source, e.target))
            def finish_vertex(self, u, g_): need(g_ is g, "graph"); ev.append(("f", u))
        f = bfs_tree if bfs else dfs_tree; name = f.__name__
        if case["novis"]: f(case["s"], g); continue
        f(case["s"], g, V())
        dist = bfs_dist(kids, [case["s"]]); order = [e[1] for e in ev if e[0] == "d"]
        same(ev[0], ("s", case["s"]), name + ": first event"); same(sum(e[0] == "s" for e in ev), 1, name + ": start events")
        same(msort(order), msort(dist), name + ": nodes discovered"); i = 1
        for u in order:
            same(ev[i], ("d", u), name + ": event"); i += 1; ks = []
            while i < len(ev) and ev[i][0] == "e": same(ev[i][1], u, name + ": source of the examined edge"); ks.append(ev[i][2]); i += 1
            same(msort(ks), msort(kids(u)), name + ": edges examined from %r" % u); same(ev[i] if i < len(ev) else None, ("f", u), name + ": end of node %r" % u); i += 1
        same(i, len(ev), name + ": events"); pos = {u: i for i, u in enumerate(order)}
        for c, p in case["par"]:
            if c in dist and p in dist: need(pos[p] < pos[c], "%s: %r comes before its parent", name, c)
        if bfs: ds = [dist[u] for u in order]; same(ds, sorted(ds), name + ": depths")
        else:
            for u in order:
                S = reach(kids, [u]); same(sorted(pos[x] for x in S), list(range(pos[u], pos[u] + len(S))), name + ": positions of the nodes below %r" % u)

def trivial(case): return case["n"] < 2 if case["k"] == "tree" else not case["a"]["tr"]
