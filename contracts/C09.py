from contracts.search import *
NOTE = "the order, the refusal of cycles (with a path closing one whenever the error is raised) and the container returned are proved for every graph, with or without a container given"
TRUSTED = TRUSTED_BASE
ASSUMPTIONS = ASSUME_BASE + GRAPH_NOTE + ["out_edges gives the same answers, in the same order, each time it is asked"]
TS = "pybgl.topological_sort:topological_sort"
RANK = z3.Function("rank", z3.IntSort(), z3.IntSort())
WALK = z3.Function("walk_of_length", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.BoolSort())
WU = z3.Function("walk_before", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort()); WE = z3.Function("walk_last_edge", z3.IntSort(), z3.IntSort(), z3.IntSort(), sort(E_))
WALK_AX = [fa([x, y, k], Implies(WALK(x, y, k), And(k >= 1, MEM(WU(x, y, k), WE(x, y, k)), TGT_(WE(x, y, k)) == y, If(k == 1, WU(x, y, k) == x, WALK(x, WU(x, y, k), k - 1)))), WALK(x, y, k))]

def the_stack(c, st=None):
    st = st or c.st
    v_ = c.eng.order_ref(c)
    t_ = c.eng.typeof(st, v_)
    if t_.kind == "Untyped": return empty(PS)
    return c.eng.term(st, v_)

def setup(given, ranked):
    def f(S):
        for a_ in PATH_AX + WALK_AX: S.assume(a_)
        g = a_graph(S)
        S.assume(fa([x], IS_SRC(x) == VERT(x), IS_SRC(x), VERT(x)), fa([e], PUSH(e), PUSH(e)))
        if ranked: S.assume(fa([x, e], Implies(MEM(x, e), RANK(SRC(e)) < RANK(TGT_(e))), MEM(x, e)))
        s = S.cont(PS, "order") if given else NONE_
        S.ghost("tpos", LV, empty(LV)); S.ghost("parent", MAP(INT, E_), S.eng.havoc(MAP(INT, E_), "parent", S.st))
        t0 = S.term(s) if given else empty(PS)
        S.eng.order0 = (lo(PS, t0), hi(PS, t0), t0)
        def extra(hs):
            fin, tree, back = hs["finish_vertex"], hs["tree_edge"], hs["back_edge"]
            def bk(eng, st, t):
                back(eng, st, t)
                gset(st, "last_back", E_, t)
            def finish(eng, st, t):
                fin(eng, st, t)
                ty, m = st.ghost["tpos"]
                n_ = st.ghost["nf"][1]
                st.ghost["tpos"] = (ty, mk(LV, dom(LV, m), z3.Store(val(LV, m), t, S.eng.order0[0] - 1 - n_)))
                gset(st, "nf", INT, n_ + 1)
            def tr(eng, st, t):
                tree(eng, st, t)
                ty, m = st.ghost["parent"]
                st.ghost["parent"] = (ty, mk(ty, dom(ty, m), z3.Store(val(ty, m), TGT_(t), t)))
            return dict(hs, finish_vertex=finish, tree_edge=tr, back_edge=bk)
        S.ghost("nf", INT, IntVal(0)); S.ghost("last_back", E_, Const("no_edge", sort(E_)))
        dfs_visitor(S, given=False, extra=extra)
        S.eng.observed = cls(DFSV)
        return [g] + ([s] if given else [])
    return f

def topo_J(c):
    g = c.g; D, F, EX = g("D"), g("F"), g("EX"); t_ = c.named(the_stack(c)); l0, h0, t0 = c.eng.order0
    tp = c.named(val(LV, g("tpos"))); P_ = lambda x_: Select(tp, x_); pr_ = c.named(val(MAP(INT, E_), g("parent"))); par = lambda x_: Select(pr_, x_)
    at_ = lambda i_: Select(arr(PS, t_), i_); pi_ = c.named(val(LV, g("pidx"))); px = lambda x_: Select(pi_, x_)
    pt = c.eng.term(c.st, c.eng.path); pa = lambda i_: Select(arr(PS, pt), i_); ph = hi(PS, pt)
    return [("one more place for each finished vertex", And(lo(PS, t_) == l0 - g("nf"), hi(PS, t_) == h0, g("nf") >= 0)),
        ("finished vertices have their place", fa([x], Implies(isin(F, x), And(lo(PS, t_) <= P_(x), P_(x) < l0, at_(P_(x)) == x)), isin(F, x))),
        ("places hold finished vertices", fa([i], Implies(And(lo(PS, t_) <= i, i < l0), And(isin(F, at_(i)), P_(at_(i)) == i)), at_(i))),
        ("earlier contents stay", fa([i], Implies(And(l0 <= i, i < h0), at_(i) == Select(arr(PS, t0), i)), at_(i))),
        ("targets of finished vertices come after them", fa([x, e], Implies(And(isin(F, x), MEM(x, e)), And(isin(F, TGT_(e)), P_(x) < P_(TGT_(e)))), z3.MultiPattern(isin(F, x), MEM(x, e)))),
        ("examined edges lead to finished vertices or along the path", fa([e], Implies(isin(EX, e), Or(isin(F, TGT_(e)), And(isin(D, TGT_(e)), px(TGT_(e)) == px(SRC(e)) + 1))), isin(EX, e))),
        ("the path follows edges", fa([i], Implies(And(1 <= i, i < ph), And(MEM(SRC(par(pa(i))), par(pa(i))), SRC(par(pa(i))) == pa(i - 1), TGT_(par(pa(i))) == pa(i))), pa(i)))]
def ranked_J(c):
    if not c.eng.ranked: return []
    pt = c.eng.term(c.st, c.eng.path); pa = lambda i_: Select(arr(PS, pt), i_); ph = hi(PS, pt)
    return [("ranks grow along the path", fa([i, j], Implies(And(0 <= i, i < j, j < ph), RANK(pa(i)) < RANK(pa(j))), z3.MultiPattern(pa(i), pa(j))))]
both = lambda f: lambda c: f(c) + topo_J(c) + ranked_J(c)
LOOPS = {(DFS, 0): LoopSpec(inv=both(dfs_outer), lemma=grows("F", "finishes")), (DFS, 1): LoopSpec(inv=both(dfs_inner), lemma=grows("EX", "examines")), (DFSG, 0): LoopSpec(inv=both(dfs_g_inv))}

def post(c):
    R = dfs_end(c)
    t_ = c.named(the_stack(c)); l0, h0, t0 = c.eng.order0
    at_ = lambda i_: Select(arr(PS, t_), i_); tp = c.named(val(LV, c.g("tpos"))); P_ = lambda x_: Select(tp, x_)
    F = c.g("F")
    induct(c, "walks go forward", lambda k_: fa([x, y], Implies(WALK(x, y, k_), And(VERT(x), VERT(y), P_(x) + k_ <= P_(y))), WALK(x, y, k_)), IntVal(1))
    return [("every vertex is discovered", fa([x], Implies(VERT(x), isin(c.g("D"), x)), VERT(x))),
        ("the container returned", BoolVal(isinstance(c.res, Ref) and (not c.eng.given or c.res.loc == c.args["stack"].loc))),
        ("the result is the order", c.t(c.res) == t_ if c.ty(c.res).kind != "Untyped" else seqlen(PS, t_) == 0),
        ("each place of the order holds a vertex, once, in front of what was there", And(lo(PS, t_) <= l0, hi(PS, t_) == h0, fa([i, j], Implies(And(lo(PS, t_) <= i, i < j, j < l0), And(VERT(at_(i)), VERT(at_(j)), at_(i) != at_(j))), z3.MultiPattern(at_(i), at_(j))))),
        ("a single vertex", fa([i], Implies(And(lo(PS, t_) <= i, i < l0), VERT(at_(i))), at_(i))),
        ("each vertex has a place", fa([x], Implies(VERT(x), And(lo(PS, t_) <= P_(x), P_(x) < l0, at_(P_(x)) == x)), VERT(x))),
        ("what was there stays", fa([i], Implies(And(l0 <= i, i < h0), at_(i) == Select(arr(PS, t0), i)), at_(i))),
        ("the source of every edge comes before its target", fa([x, e], Implies(MEM(x, e), P_(SRC(e)) < P_(TGT_(e))), MEM(x, e))),
        ("an order is only returned when no walk comes back to its start", fa([x, k], Implies(k >= 1, Not(WALK(x, x, k))), WALK(x, x, k)))]

def on_error(c):
    "the error comes with a cycle: the path from the target of the back edge to its source, closed by the edge"
    pt = c.eng.term(c.st, c.eng.path); pa = lambda i_: Select(arr(PS, pt), i_); ph = hi(PS, pt)
    pr_ = c.named(val(MAP(INT, E_), c.g("parent"))); par = lambda x_: Select(pr_, x_); px = lambda x_: Select(val(LV, c.g("pidx")), x_)
    be = c.eng.back_edge_of(c)
    return [("the back edge closes a path", And(MEM(SRC(be), be), ph > 0, SRC(be) == pa(ph - 1), 0 <= px(TGT_(be)), px(TGT_(be)) < ph, pa(px(TGT_(be))) == TGT_(be))),
        ("the path follows edges", fa([i], Implies(And(1 <= i, i < ph), And(MEM(pa(i - 1), par(pa(i))), TGT_(par(pa(i))) == pa(i))), pa(i)))]

def conf(given, ranked):
    def f(eng):
        eng.lift_comp = True; eng.given = given; eng.ranked = ranked
        def order_ref(c):
            if given: return c.eng.proof_args["stack"]
            if c.st.frames.get(getattr(c.eng, "toplevel_frame", None)): return c.res
            return c.attr(c.v("vis"), "stack")
        eng.order_ref = order_ref
        eng.back_edge_of = lambda c: c.g("last_back")
    return f
PROOFS = []
for given in (True, False):
    for ranked in (True, False):
        PROOFS.append(Proof("order of %s%s" % ("a graph without cycles" if ranked else "any graph", ", container given" if given else ""), TS, setup(given, ranked), post=post, loops=LOOPS, configure=conf(given, ranked), raises={} if ranked else {RuntimeError: on_error}))
