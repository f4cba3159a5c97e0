from contracts.search import *
NOTE = "depth first search proved against the ghost record of its events and of its current path, for every graph, filter, visitor and list of starts, given or absent"
TRUSTED = TRUSTED_BASE
ASSUMPTIONS = ASSUME_BASE + GRAPH_NOTE + ["the colours supplied by the caller are all white at first", "out_edges and the filter give the same answers, in the same order, each time they are asked"]
def theory(S):
    for a_ in PATH_AX: S.assume(a_)
def one(pmap, vis, push):
    def f(S):
        theory(S); g = a_graph(S); s = S.int("s")
        S.assume(VERT(s.t), fa([x], IS_SRC(x) == (x == s.t), IS_SRC(x)))
        if not push: S.assume(fa([e], PUSH(e), PUSH(e)))
        return [s, g, a_pmap(S) if pmap else NONE_, dfs_visitor(S, given=vis), a_filter(S) if push else NONE_]
    return f
def many(sources, pmap, vis, push):
    def f(S):
        theory(S); g = a_graph(S)
        if sources:
            s = S.cont(VL, "sources"); t = S.term(s); W_ = z3.Function("start_place", z3.IntSort(), z3.IntSort())
            S.assume(lo(VL, t) == 0, fa([i], Implies(And(0 <= i, i < hi(VL, t)), IS_SRC(Select(arr(VL, t), i))), Select(arr(VL, t), i)),
                fa([x], Implies(IS_SRC(x), And(VERT(x), 0 <= W_(x), W_(x) < hi(VL, t), Select(arr(VL, t), W_(x)) == x)), IS_SRC(x)))
        else:
            s = NONE_; S.assume(fa([x], IS_SRC(x) == VERT(x), IS_SRC(x), VERT(x)))
        if not push: S.assume(fa([e], PUSH(e), PUSH(e)))
        return [g, s, a_pmap(S) if pmap else NONE_, dfs_visitor(S, given=vis), a_filter(S) if push else NONE_]
    return f
EVC = [event_contract(DFSV, n_, a_) for n_, a_ in DFS_EVENTS.items()]
KW = dict(post=dfs_end, loops=DFS_LOOPS, types={"map_vcolor": DC}, configure=lifting)
L = [Fn("search from one vertex", DFS, one(True, True, True), **KW),
     Fn("search from one vertex, by default", DFS, one(False, False, False), uses=EVC, **KW),
     Fn("search from several", DFSG, many(True, True, True, True), **KW),
     Fn("search of the whole graph", DFSG, many(False, True, True, True), **KW),
     Fn("search of the whole graph, by default", DFSG, many(False, False, False, False), uses=EVC, **KW)]
L += [do_nothing(DFSV, n_, a_) for n_, a_ in DFS_EVENTS.items()]
PROOFS = [f.proof() for f in L]
