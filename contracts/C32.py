from contracts.pbfs import *
NOTE = "parallel walks proved against the ghost record of their events, for every pair of automata, starting pairs, filter and visitor"
TRUSTED = TRUSTED_BASE
ASSUMPTIONS = ASSUME_BASE + NOTES
L = []
def setup(src=True, pmap=True, vis=True, push=True):
    def f(S):
        theory(S)
        g1, g2 = a_automaton(S, 1), a_automaton(S, 2)
        if src:
            s = S.cont(PSET, "source_pairs"); S.assume(fa([p_], ISS(p_) == isin(S.term(s), p_), ISS(p_), isin(S.term(s), p_)))
        else:
            s = NONE_; S.assume(fa([p_], ISS(p_) == (p_ == mkp(IN[1], IN[2])), ISS(p_)))
        if not push: S.assume(fa([p_], PASS(p_), PASS(p_)))
        return [g1, g2, s, a_pmap(S) if pmap else NONE_, visitor(S, given=vis), a_filter(S) if push else NONE_]
    return f
def variant(**k_):
    nm = "parallel walk" + "".join(", without %s" % n_ for n_, b_ in k_.items() if not b_)
    L.append(Fn(nm, PB, setup(**k_), post=end, loops=LOOPS, types={"map_vcolor": PDC}))
variant()
variant(src=False)
variant(pmap=False, push=False)
variant(src=False, pmap=False, vis=False, push=False)

# ---------------------------------------------------------------- trees
import contracts.search as se
from contracts.search import x, e, MEM, SRC, TGT_, VS, ESET, LV, VERT
TV = "graph_traversal:DefaultTreeTraversalVisitor"; BT_ = "pybgl.graph_traversal:bfs_tree"; DT_ = "pybgl.graph_traversal:dfs_tree"
I_ = z3.IntSort(); ROOT = Int("root"); INTO = z3.Function("edge_into", I_, sort(se.E_)); DEPTH = z3.Function("depth", I_, I_); BELOW = z3.Function("is_below", I_, I_, z3.BoolSort()); PAR = lambda x_: SRC(INTO(x_))
TREE_AX = [fa([e], Implies(MEM(SRC(e), e), And(INTO(TGT_(e)) == e, TGT_(e) != ROOT, DEPTH(TGT_(e)) == DEPTH(SRC(e)) + 1)), MEM(SRC(e), e)), fa([u, e], Implies(MEM(u, e), SRC(e) == u), MEM(u, e)), DEPTH(ROOT) == 0,
    fa([x], BELOW(x, x), BELOW(x, x)), fa([x, e], Implies(And(BELOW(x, SRC(e)), MEM(SRC(e), e)), BELOW(x, TGT_(e))), z3.MultiPattern(BELOW(x, SRC(e)), MEM(SRC(e), e)))]
def tree_setup(bfs, given):
    def f(S):
        for t in se.PATH_AX + TREE_AX: S.assume(t)
        g = se.a_graph(S); s = S.int("s"); S.assume(s.t == ROOT, VERT(ROOT), fa([x], se.IS_SRC(x) == (x == ROOT), se.IS_SRC(x)), fa([e], se.PUSH(e), se.PUSH(e)))
        for n_ in ("D", "F"): S.ghost(n_, VS, empty(VS))
        S.ghost("EX", ESET, empty(ESET)); S.ghost("num", LV, S.eng.havoc(LV, "number", S.st)); S.ghost("count", INT, IntVal(0)); S.ghost("last", INT, IntVal(0)); S.ghost("started", BOOL, BoolVal(False)); S.ghost("cur", INT, IntVal(-1))
        g_ = G_
        num = lambda st, x_: Select(val(LV, g_(st, "num")), x_)
        def ob(eng, st, name, t): eng.oblige(st, "event:" + name, t)
        def start(eng, st, t):
            ob(eng, st, "the walk starts once, at the node given", And(t == ROOT, Not(g_(st, "started")))); gset(st, "started", BOOL, BoolVal(True))
        def discover(eng, st, t):
            ob(eng, st, "a node is visited once, after its parent", And(g_(st, "started"), Not(isin(g_(st, "D"), t)), Or(t == ROOT, And(isin(g_(st, "F"), PAR(t)), MEM(PAR(t), INTO(t)), TGT_(INTO(t)) == t))))
            if bfs: ob(eng, st, "level by level", DEPTH(t) >= g_(st, "last"))
            else: ob(eng, st, "subtree by subtree: the nodes visited since its parent are below its parent", Or(t == ROOT, fa([x], Implies(And(isin(g_(st, "D"), x), num(st, x) >= num(st, PAR(t))), BELOW(PAR(t), x)), isin(g_(st, "D"), x))))
            add(st, "D", t); ty, m = st.ghost["num"]; st.ghost["num"] = (ty, mk(LV, dom(LV, m), z3.Store(val(LV, m), t, g_(st, "count")))); gset(st, "count", INT, g_(st, "count") + 1); gset(st, "last", INT, eng.named(st, DEPTH(t))); gset(st, "cur", INT, t)
        def exedge(eng, st, t):
            ob(eng, st, "an edge leaving the current node is examined, once", And(SRC(t) == g_(st, "cur"), MEM(SRC(t), t), Not(isin(g_(st, "EX"), t)))); add(st, "EX", t)
        def finish(eng, st, t):
            ob(eng, st, "the current node is finished, once", And(t == g_(st, "cur"), isin(g_(st, "D"), t), Not(isin(g_(st, "F"), t)))); add(st, "F", t)
        hs = dict(start_vertex=start, discover_vertex=discover, examine_edge=exedge, finish_vertex=finish)
        S.eng.events = hs; S.eng.observed = cls(TV)
        def ev(f_):
            def h(eng, st, slf, args, kw):
                f_(eng, st, eng.term(st, args[0])); return [(st, NONE_)]
            return h
        return [s, g] + ([S.eng.new_obj(S.st, cls(TV), {}, {n_: ev(f_) for n_, f_ in hs.items()})] if given else [])
    return f
def tree_inv(bfs, inner):
    def f(c):
        g = c.g; D, F, EX = g("D"), g("F"), g("EX"); num = c.named(val(LV, g("num"))); N_ = lambda x_: Select(num, x_); cur = g("cur"); cn, ln, at_, l_, h_, typed = se.queue(c)
        pat = [cn(x)] if typed else []; ap = [at_(i)] if typed else []; ap2 = [z3.MultiPattern(at_(i), at_(j))] if typed else []
        ex = lambda x_: And(isin(EX, INTO(x_)), TGT_(INTO(x_)) == x_)
        R = [("started", g("started")),
            ("visited nodes are finished", fa([x], isin(F, x) == (And(isin(D, x), x != cur) if inner else isin(D, x)), isin(D, x), isin(F, x))),
            ("the stack holds the nodes met and not visited, once each", fa([x], cn(x) == If(And(Not(isin(D, x)), Or(x == ROOT, ex(x))), IntVal(1), IntVal(0)), isin(D, x), *pat)),
            ("nodes met", fa([x], Implies(cn(x) > 0, VERT(x)), *pat)) if typed else ("nodes met", BoolVal(True)),
            ("visited nodes are met", fa([x], Implies(isin(D, x), And(VERT(x), se.PATH(x, DEPTH(x)), DEPTH(x) >= 0, N_(x) < g("count"), Or(x == ROOT, ex(x)))), isin(D, x))),
            ("examined edges", fa([e], Implies(isin(EX, e), And(MEM(SRC(e), e), isin(D, SRC(e)))), isin(EX, e))),
            ("edges of finished nodes", fa([x, e], Implies(And(isin(F, x), MEM(x, e)), isin(EX, e)), z3.MultiPattern(isin(F, x), MEM(x, e)))),
            ("the first node", Or(isin(D, ROOT), And(D == empty(VS), EX == empty(ESET), h_ == l_ + 1, at_(l_) == ROOT, g("last") == 0)))]
        if bfs:
            R += [("the queue goes level by level", fa([i, j], Implies(And(l_ <= i, i < j, j < h_), DEPTH(at_(i)) >= DEPTH(at_(j))), *ap2)),
                ("the next level at most", fa([i], Implies(And(l_ <= i, i < h_), And(DEPTH(at_(i)) >= g("last"), DEPTH(at_(i)) <= g("last") + 1)), *ap))]
        else:
            R += [("parents on the stack are visited", fa([i], Implies(And(l_ <= i, i < h_), Or(at_(i) == ROOT, And(isin(D, PAR(at_(i))), MEM(PAR(at_(i)), INTO(at_(i))), TGT_(INTO(at_(i))) == at_(i)))), *ap)),
                ("parents on the stack follow a branch", fa([i, j], Implies(And(l_ <= i, i < j, j < h_, isin(D, ROOT)), And(BELOW(PAR(at_(i)), PAR(at_(j))), at_(i) != ROOT, at_(j) != ROOT)), *ap2)),
                ("nodes visited since a parent are below it", fa([i, x], Implies(And(l_ <= i, i < h_, isin(D, x), isin(D, ROOT), N_(x) >= N_(PAR(at_(i)))), BELOW(PAR(at_(i)), x)), *([z3.MultiPattern(at_(i), isin(D, x))] if typed else [])))]
        if inner:
            key = c.it.key; kp = lambda j_: Select(se.OARR(cur), j_)
            R += [("at the current node", And(cur == c.t("u"), isin(D, cur), g("last") == DEPTH(cur))),
                ("edges so far", fa([j], Implies(And(0 <= j, j < c.n), isin(EX, kp(j)) == (j < c.k)), kp(j)))]
            if not bfs: R += [("below the current node", fa([i], Implies(And(l_ <= i, i < h_), BELOW(PAR(at_(i)), cur)), *ap)), ("numbers", fa([x], Implies(And(isin(D, x), x != cur), N_(x) < N_(cur)), isin(D, x)))]
        return R
    return f
def tree_end(c):
    g = c.g; D, F, EX = g("D"), g("F"), g("EX")
    induct(c, "paths end at visited nodes", lambda k_: fa([x], Implies(se.PATH(x, k_), isin(D, x)), se.PATH(x, k_)), IntVal(0), hints=lambda K: [fa([x], se.PATH_ELIM(x, K), se.PATH(x, K + 1))])
    return [("every node below is visited", fa([x, k], Implies(And(k >= 0, se.PATH(x, k)), isin(D, x)), se.PATH(x, k))), ("no other node", fa([x], Implies(isin(D, x), And(DEPTH(x) >= 0, se.PATH(x, DEPTH(x)))), isin(D, x))),
        ("visited nodes are finished", fa([x], isin(D, x) == isin(F, x), isin(D, x), isin(F, x))), ("each edge below is examined", fa([e], isin(EX, e) == And(MEM(SRC(e), e), isin(D, SRC(e))), isin(EX, e)))]
for key, bfs in ((BT_, True), (DT_, False)):
    for given in (True, False):
        L.append(Fn("%s walk of a tree%s" % ("level by level" if bfs else "subtree by subtree", "" if given else ", by default"), key, tree_setup(bfs, given), post=tree_end,
            loops={(key, 0): LoopSpec(inv=tree_inv(bfs, False), lemma=se.grows("F", "finishes")), (key, 1): LoopSpec(inv=tree_inv(bfs, True))}))
PROOFS = [f.proof() for f in L]
