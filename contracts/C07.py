from contracts.search import *
NOTE = "breadth first search proved against the ghost record of its events, for every graph, filter, visitor and set of starts, given absent or not"
TRUSTED = TRUSTED_BASE
ASSUMPTIONS = ASSUME_BASE + GRAPH_NOTE + ["the colours supplied by the caller are all white at first"]
LOOPS = {(BFSG, 0): LoopSpec(inv=bfs_sources), (BFSG, 1): LoopSpec(inv=bfs_outer, lemma=bfs_progress), (BFSG, 2): LoopSpec(inv=bfs_inner)}
def theory(S):
    for a_ in PATH_AX: S.assume(a_)
def setup(sources=True, pmap=True, vis=True, push=True):
    def f(S):
        theory(S)
        g = a_graph(S)
        if sources:
            s = S.cont(VS, "sources"); S.assume(fa([x], And(IS_SRC(x) == Select(S.term(s), x), Implies(IS_SRC(x), VERT(x))), IS_SRC(x), Select(S.term(s), x)))
        else:
            s = NONE_; S.assume(fa([x], IS_SRC(x) == VERT(x), IS_SRC(x), VERT(x)))
        if not push: S.assume(fa([e], PUSH(e), PUSH(e)))
        return [g, s, a_pmap(S) if pmap else NONE_, bfs_visitor(S, given=vis), a_filter(S) if push else NONE_]
    return f
L = []
EVC = [event_contract(BFSV, n_, a_) for n_, a_ in BFS_EVENTS.items()]
def variant(**k_):
    nm = "search" + "".join(", without %s" % n_ for n_, b in k_.items() if not b)
    L.append(Fn(nm, BFSG, setup(**k_), post=bfs_end, loops=LOOPS, types={"map_vcolor": DC}, uses=[] if k_.get("vis", True) else EVC))
variant()
variant(sources=False)
variant(pmap=False, push=False)
variant(sources=False, pmap=False, vis=False, push=False)
L += [do_nothing(BFSV, n_, a_) for n_, a_ in BFS_EVENTS.items()]
def one_setup(pmap, vis, push):
    def f(S):
        theory(S); g = a_graph(S); s = S.int("s")
        S.assume(VERT(s.t), fa([x], IS_SRC(x) == (x == s.t), IS_SRC(x)))
        if not push: S.assume(fa([e], PUSH(e), PUSH(e)))
        return [s, g, a_pmap(S, white=False) if pmap else NONE_, bfs_visitor(S, given=vis), a_filter(S) if push else NONE_]
    return f
def one_end(c):
    return [("every vertex is initialised, and nothing else", fa([x], isin(c.g("I"), x) == VERT(x), isin(c.g("I"), x), VERT(x)))] + bfs_end(c)
for pm, vi, pu in ((True, True, True), (False, False, False)):
    L.append(Fn("search from one vertex" + ("" if pm else ", by default"), BFS, one_setup(pm, vi, pu), post=one_end, loops={**LOOPS, (BFS, 0): LoopSpec(inv=bfs_init)}, types={"map_vcolor": DC}, uses=[] if vi else EVC))
PROOFS = [f.proof() for f in L]
