"""Dijkstra: any graph (out-edges listed once each), any non-negative weights, the heap through its contract (C13)."""
from contracts.search import *
M_ = "pybgl.dijkstra_shortest_paths:"
INIT_, ITER, DSP = M_ + "dijkstra_shortest_paths_initialization", M_ + "dijkstra_shortest_paths_iteration", M_ + "dijkstra_shortest_paths"
DV = "dijkstra_shortest_paths:DijkstraVisitor"
WW = globals().get("PARAM_W", INT)
DD, DP, NM, HKT = DMAP(INT, WW), DMAP(INT, SET(E_)), MAP(INT, INT), MAP(INT, WW)
I_, B_, wS = z3.IntSort(), z3.BoolSort(), sort(WW)
zero = IntVal(0) if WW is INT else z3.RealVal(0)
INF = IntVal(2 ** 63 - 1) if WW is INT else z3.RealVal(2 ** 63 - 1)
WT = z3.Function("weight", sort(E_), wS)
# PW(x, w, k): a path of k edges and total weight w leads from the source to x; RW(x, w): for some k
PW, RW = z3.Function("path_of_weight", I_, wS, I_, B_), z3.Function("reached_with_weight", I_, wS, B_); LENW = z3.Function("length_of_that_path", I_, wS, I_)
PWU, PWE, PWW = z3.Function("vertex_before", I_, wS, I_, I_), z3.Function("last_edge", I_, wS, I_, sort(E_)), z3.Function("weight_before", I_, wS, I_, wS)
K_TRUE = z3.K(I_, BoolVal(True)); w_ = Const("w_", wS)
def theory(S, s):
    S.eng.src = s
    for a_ in [fa([e], Implies(MEM(SRC(e), e), WT(e) >= 0), WT(e)),
        fa([x, w_], PW(x, w_, 0) == And(x == s, w_ == zero), PW(x, w_, 0)), RW(s, zero),
        fa([x, w_, k], Implies(And(k >= 0, PW(x, w_, k)), RW(x, w_)), PW(x, w_, k)),
        fa([u, e, w_], Implies(And(RW(u, w_), MEM(u, e)), And(RW(TGT_(e), w_ + WT(e)), w_ + WT(e) < INF)), z3.MultiPattern(RW(u, w_), MEM(u, e)))]: S.assume(a_)
ELIM = lambda x_, W_, k_: Implies(And(PW(x_, W_, k_ + 1), k_ >= 0), And(PW(PWU(x_, W_, k_), PWW(x_, W_, k_), k_), MEM(PWU(x_, W_, k_), PWE(x_, W_, k_)), TGT_(PWE(x_, W_, k_)) == x_, W_ == PWW(x_, W_, k_) + WT(PWE(x_, W_, k_))))
CHOICE = fa([x, w_], Implies(RW(x, w_), And(LENW(x, w_) >= 0, PW(x, w_, LENW(x, w_)))), RW(x, w_))
NOTES_D = ["weights are exact numbers, at least zero, and every path sum is below INFINITY (float rounding is outside)", "the colours are all white and the recorded predecessors all empty at first"]

def pm_term(eng, st, o):
    d = st.objs[o.oid][1]["d"]
    return eng.typeof(st, d), eng.term(st, d)
def heap_class(eng):
    """Heap through the contract proved under C13: one element per announced push, the stored priorities; a pop needs every stored priority to be current and
    gives an element nothing precedes; decrease_key needs all but the one given to be current, and it not better than stored"""
    def make(eng, st, slf, args, kw):
        els, f = args[0], kw.get("to_comparable", args[1] if len(args) > 1 else None)
        eng.oblige(st, "event:the heap starts with the source", BoolVal(isinstance(els, LitV) and len(els.xs) == 1 and bool(z3.eq(z3.simplify(eng.term(st, els.xs[0])), z3.simplify(eng.src)))))
        x_ = Int(eng.uid("any"))
        for s2, v_ in eng.call(st.copy(), f, [Sc(INT, x_)], {}):
            ty, m = pm_term(eng, s2, eng.pdist); ok = True
            if isinstance(v_, ObjV):
                at_ = s2.objs[v_.oid][1]; cmp_ = at_["preorder"]
                ok = s2.objs[v_.oid][0].__name__ == "Comparable" and isinstance(cmp_, ObjV) and s2.objs[cmp_.oid][0].__name__ == "Less"
                v_ = at_["obj"]
            eng.oblige(s2, "event:the priority of a vertex is its distance", And(BoolVal(ok), eng.term(s2, v_, WW) == Select(val(ty, m), x_)) if ok else BoolVal(False))
        gset(st, "H", VS, z3.Store(empty(VS), eng.src, BoolVal(True)))
        ty, m = pm_term(eng, st, eng.pdist)
        gset(st, "HK", HKT, mk(HKT, K_TRUE, val(ty, m)))
        HKv = lambda st, x__: Select(val(HKT, G_(st, "HK")), x__)
        dist = lambda st, x__: (lambda tm: Select(val(tm[0], tm[1]), x__))(pm_term(eng, st, eng.pdist))
        def sync(st, x__): gset(st, "HK", HKT, eng.constant(st, mk(HKT, K_TRUE, z3.Store(val(HKT, G_(st, "HK")), x__, dist(st, x__)))))
        def current(st, but=None):
            return fa([x], Implies(And(isin(G_(st, "H"), x), BoolVal(True) if but is None else x != but), HKv(st, x) == dist(st, x)), isin(G_(st, "H"), x))
        def push(eng, st, slf, args, kw):
            t = eng.term(st, args[0])
            eng.oblige(st, "event:a vertex is pushed when the heap does not hold it, priorities being current", And(Not(isin(G_(st, "H"), t)), current(st)))
            add(st, "H", t); sync(st, t); relaxed(eng, st, t)
            return [(st, NONE_)]
        def decrease(eng, st, slf, args, kw):
            t = eng.term(st, args[0])
            eng.oblige(st, "event:the priority decreased is that of a vertex held, the others being current", And(isin(G_(st, "H"), t), current(st, t), HKv(st, t) >= dist(st, t)))
            sync(st, t); relaxed(eng, st, t)
            return [(st, NONE_)]
        def pop(eng, st, slf, args, kw):
            r_ = eng.fresh(INT, "popped", st)
            eng.oblige(st, "event:priorities are current when popping", current(st))
            eng.assume(st, isin(G_(st, "H"), r_)); D_ = dist(st, r_)
            eng.assume(st, fa([x], Implies(isin(G_(st, "H"), x), D_ <= dist(st, x)), isin(G_(st, "H"), x)))
            eng.oblige(st, "event:a vertex is popped once, nearest first", And(Not(isin(G_(st, "X"), r_)), G_(st, "last") <= D_))
            ty, s_ = st.ghost["H"]; gset(st, "H", VS, z3.Store(s_, r_, BoolVal(False)))
            add(st, "X", r_); gset(st, "cur", INT, r_); gset(st, "last", WW, D_); gset(st, "announced", BOOL, BoolVal(bool(getattr(eng, "own_visitor", False))))
            ty, m = st.ghost["rk"]; n_ = G_(st, "count")
            gset(st, "rk", NM, eng.constant(st, mk(NM, dom(NM, m), z3.Store(val(NM, m), r_, n_)))); gset(st, "count", INT, eng.named(st, n_ + 1))
            return [(st, Sc(INT, r_))]
        def some_left(eng, st, slf, args, kw):
            H = G_(st, "H"); b = eng.fresh(BOOL, "more", st); z_ = eng.fresh(INT, "held", st)
            eng.assume(st, And(Implies(b, isin(H, z_)), Implies(Not(b), fa([x], Not(isin(H, x)), isin(H, x)))))
            return [(st, Sc(BOOL, b))]
        return [(st, eng.new_obj(st, cls("heap:Heap"), {}, dict(push=push, decrease_key=decrease, pop=pop, __bool__=some_left)))]
    eng.opaque["Heap"] = make
def relaxed(eng, st, t):
    "the edge being examined is now a recorded predecessor of t"
    ty, m = st.ghost["wit"]
    gset(st, "wit", MAP(INT, E_), eng.constant(st, mk(ty, dom(ty, m), z3.Store(val(ty, m), t, G_(st, "ce")))))
EVENTS = dict(initialize_vertex="u", examine_vertex="u", examine_edge="e", discover_vertex="u", edge_relaxed="e", edge_not_relaxed="e", finish_vertex="u")
def d_visitor(S, given=True):
    S.ghost("X", VS, empty(VS)); S.ghost("F", VS, empty(VS)); S.ghost("EX", ESET, empty(ESET)); S.ghost("H", VS, empty(VS)); S.ghost("I", VS, empty(VS))
    S.ghost("HK", HKT, S.eng.havoc(HKT, "stored", S.st)); S.ghost("cur", INT, IntVal(-1)); S.ghost("last", WW, zero); S.ghost("announced", BOOL, BoolVal(True))
    S.ghost("rk", NM, empty(NM)); S.ghost("count", INT, IntVal(0)); S.ghost("ce", E_, S.eng.havoc(E_, "none", S.st)); S.ghost("wit", MAP(INT, E_), S.eng.havoc(MAP(INT, E_), "none", S.st))
    def ob(eng, st, name, t): eng.oblige(st, "event:" + name, t)
    def init(eng, st, t):
        ob(eng, st, "a vertex is initialised once", And(VERT(t), Not(isin(G_(st, "I"), t)))); add(st, "I", t)
    def examine(eng, st, t):
        ob(eng, st, "a vertex popped is examined, once", And(t == G_(st, "cur"), Not(G_(st, "announced")))); gset(st, "announced", BOOL, BoolVal(True))
    def exedge(eng, st, t):
        ob(eng, st, "an edge leaving the vertex is examined, once", And(MEM(G_(st, "cur"), t), Not(isin(G_(st, "EX"), t)))); add(st, "EX", t); gset(st, "ce", E_, t)
    def finish(eng, st, t):
        ob(eng, st, "an examined vertex is finished, once", And(t == G_(st, "cur"), G_(st, "announced"), Not(isin(G_(st, "F"), t)))); add(st, "F", t)
    def discover(eng, st, t): ob(eng, st, "the target of the edge is discovered", And(t == TGT_(G_(st, "ce")), isin(G_(st, "H"), t)))
    def same_edge(eng, st, t): ob(eng, st, "the edge examined", t == G_(st, "ce"))
    hs = dict(initialize_vertex=init, examine_vertex=examine, examine_edge=exedge, finish_vertex=finish, discover_vertex=discover, edge_relaxed=same_edge, edge_not_relaxed=same_edge)
    S.eng.events = hs
    def ev(f):
        def h(eng, st, slf, args, kw):
            f(eng, st, eng.term(st, args[0])); return [(st, NONE_)]
        return h
    return S.eng.new_obj(S.st, cls(DV), {}, {n_: ev(f) for n_, f in hs.items()}) if given else NONE_
EVC = [event_contract(DV, n_, a_) for n_, a_ in EVENTS.items()]
def pmap(S, ty, name): return S.obj(cls("property_map:AssocPropertyMap"), d=S.cont(ty, name))
def weights(S): return S.obj(cls("property_map:FuncPropertyMap"), f=HandV(lambda eng, st, slf, args, kw: [(st, Sc(WW, WT(eng.term(st, args[0]))))], "weight"))
def setup(vis=True, color=True, compare=False, numbers=False):
    def f(S):
        s = S.int("s"); S.assume(VERT(s.t)); theory(S, s.t); g = a_graph(S); heap_class(S.eng)
        pd, pp = pmap(S, DD, "dist"), pmap(S, DP, "preds"); S.eng.pdist, S.eng.ppreds = pd, pp
        ty, m = pm_term(S.eng, S.st, pp); S.assume(fa([x, e], Not(Select(Select(val(DP, m), x), e)), Select(Select(val(DP, m), x), e)))
        pc = a_pmap(S) if color else NONE_
        kw = {"vis": d_visitor(S, vis), "pmap_vcolor": pc}
        if numbers: kw.update(zero=Sc(WW, zero), infty=Sc(WW, INF))
        if compare: kw["compare"] = S.obj(cls("algebra:Less"))
        return [g, s, weights(S), pp, pd], kw
    return f
def views(c):
    st = c.st; eng = c.eng
    ty, m = pm_term(eng, st, eng.pdist); vd = c.named(val(ty, m)); dist = lambda x_: Select(vd, x_)
    ty, m = pm_term(eng, st, eng.ppreds); vp = c.named(val(ty, m)); P = lambda x_, e_: Select(Select(vp, x_), e_)
    return dist, P
def J(c, X, done, at_u=None):
    "X: examined before (the current vertex left out); done(e): the edges handled"
    dist, P = views(c); col = color(c); g = c.g; H, HK = g("H"), g("HK"); s = c.eng.src; last = g("last"); rk, wit = c.named(val(NM, g("rk"))), c.named(val(MAP(INT, E_), g("wit"))); RK = lambda x_: Select(rk, x_); WI = lambda x_: Select(wit, x_)
    fin = lambda x_: dist(x_) != INF
    inX = lambda x_: isin(X, x_); Xn = g("X")
    return [("colours", fa([x], Implies(VERT(x), And(Or(col(x) == 0, col(x) == 1, col(x) == 2), (col(x) == 2) == inX(x))), col(x), inX(x))),
        ("the heap holds the gray vertices", fa([x], Implies(VERT(x), isin(H, x) == And(Or(col(x) == 1, And(x == s, col(x) == 0)), BoolVal(True) if at_u is None else x != at_u)), isin(H, x), col(x))),
        ("only vertices are held or examined", fa([x], And(Implies(isin(H, x), VERT(x)), Implies(isin(Xn, x), VERT(x))), isin(H, x), isin(Xn, x))),
        ("a white source is the only vertex seen", Implies(col(s) == 0, fa([x], And(Not(inX(x)), Implies(VERT(x), col(x) == 0) if at_u is None else at_u == s), col(x), inX(x)))),
        ("finite distances are of vertices seen", fa([x], Implies(VERT(x), fin(x) == Or(col(x) != 0, x == s)), dist(x), col(x))),
        ("finite distances are those of a path", fa([x], Implies(And(VERT(x), fin(x)), And(dist(x) >= 0, RW(x, dist(x)))), dist(x))), ("the source", dist(s) == zero),
        ("examined vertices are nearest", And(last >= 0, fa([x], Implies(inX(x), dist(x) <= last), inX(x)), fa([x], Implies(isin(H, x), last <= dist(x)), isin(H, x)))),
        ("priorities are current", fa([x], Implies(isin(H, x), Select(val(HKT, HK), x) == dist(x)), isin(H, x))),
        ("edges handled are relaxed", fa([e], Implies(done(e), And(VERT(TGT_(e)), fin(TGT_(e)), dist(TGT_(e)) <= dist(SRC(e)) + WT(e))), MEM(SRC(e), e))),
        ("recorded predecessors are the tight edges", fa([x, e], Implies(VERT(x), P(x, e) == And(done(e), TGT_(e) == x, dist(SRC(e)) + WT(e) == dist(x))), P(x, e))),
        ("the first recorded came earlier", And(g("count") >= 0, fa([x], Implies(isin(Xn, x), And(0 <= RK(x), RK(x) < g("count"))), isin(Xn, x)),
            fa([x], Implies(And(VERT(x), fin(x), x != s), And(P(x, WI(x)), Implies(isin(Xn, x), RK(SRC(WI(x))) < RK(x)))), dist(x))))]
def done_by(X): return lambda e_: And(MEM(SRC(e_), e_), isin(X, SRC(e_)))
def outer(c):
    X, F, EX = c.g("X"), c.g("F"), c.g("EX")
    return J(c, X, done_by(X)) + [("examined and finished", And(fa([x], isin(F, x) == isin(X, x), isin(F, x), isin(X, x)), fa([e], isin(EX, e) == done_by(X)(e), isin(EX, e)), c.g("announced")))]
def inner(c):
    uu = c.t("u"); X, F, EX = c.g("X"), c.g("F"), c.g("EX"); X0 = c.named(z3.Store(X, uu, BoolVal(False)))
    dn = lambda e_: And(MEM(SRC(e_), e_), Or(isin(X0, SRC(e_)), And(SRC(e_) == uu, POS(uu, e_) < c.k))); dist, P = views(c); col = color(c)
    return J(c, X0, dn, uu) + [("at the vertex popped", And(c.g("cur") == uu, isin(X, uu), VERT(uu), Not(isin(c.g("H"), uu)), c.g("announced"), c.t("w_su", WW) == dist(uu), c.g("last") == dist(uu), dist(uu) != INF, Or(col(uu) == 1, And(col(uu) == 0, uu == c.eng.src)))),
        ("the others are seen", fa([x], Implies(isin(X0, x), x != uu), isin(X0, x))), ("its rank is the last", And(Select(val(NM, c.g("rk")), uu) == c.g("count") - 1, fa([x], Implies(isin(X0, x), Select(val(NM, c.g("rk")), x) < c.g("count") - 1), isin(X0, x)))),
        ("examined and finished", And(fa([x], isin(F, x) == isin(X0, x), isin(F, x), isin(X0, x)), fa([e], isin(EX, e) == dn(e), isin(EX, e))))]
def init_inv(c):
    dist, P = views(c); col = color(c); ty, m = pm_term(c.eng, c.st, c.eng.ppreds)
    return [("distances so far", fa([x], Implies(And(VERT(x), VPOS(x) < c.k), dist(x) == If(x == c.eng.src, zero, INF)), dist(x))), ("white", fa([x], Implies(VERT(x), col(x) == 0), col(x))),
        ("initialised so far", fa([x], isin(c.g("I"), x) == And(VERT(x), VPOS(x) < c.k), isin(c.g("I"), x), VERT(x))), ("no predecessor", fa([x, e], Not(P(x, e)), P(x, e)))]
def progress(c):
    X = c.g("X"); X0 = c.head.ghost["X"][1]; c.eng.carry(c.st, X0); X0 = c.named(X0)
    return [("each turn examines one more vertex (hence termination)", And(Not(isin(X0, c.g("cur"))), isin(X, c.g("cur")), fa([x], Implies(isin(X0, x), isin(X, x)), isin(X0, x))))]
LOOPS = {(INIT_, 0): LoopSpec(inv=init_inv), (DSP, 0): LoopSpec(inv=outer, lemma=progress), (ITER, 0): LoopSpec(inv=inner)}
def facts(c):
    "what the recorded distances and predecessors mean at the end"
    dist, P = views(c); X = c.g("X"); s = c.eng.src; fin = lambda x_: dist(x_) != INF
    c.eng.assume(c.st, CHOICE)
    induct(c, "a path is at least as long as the distance", lambda k_: fa([x, w_], Implies(PW(x, w_, k_), And(isin(X, x), dist(x) <= w_)), PW(x, w_, k_)), IntVal(0), hints=lambda K: [fa([x, w_], ELIM(x, w_, K), PW(x, w_, K + 1))])
    lemma(c, "distances are minimal", fa([x, w_], Implies(RW(x, w_), And(isin(X, x), dist(x) <= w_)), RW(x, w_)))
    return [("the distance is that of a path", fa([x], Implies(And(VERT(x), fin(x)), RW(x, dist(x))), dist(x))), ("no path is shorter", fa([x, w_], Implies(RW(x, w_), dist(x) <= w_), RW(x, w_))),
        ("infinite: no path", fa([x, w_], Implies(And(VERT(x), Not(fin(x))), Not(RW(x, w_))), z3.MultiPattern(dist(x), RW(x, w_)))), ("a path: finite", fa([x, w_], Implies(RW(x, w_), fin(x)), RW(x, w_))),
        ("predecessors are the edges that end a shortest path", fa([x, e], Implies(VERT(x), P(x, e) == And(MEM(SRC(e), e), TGT_(e) == x, fin(SRC(e)), fin(x), dist(SRC(e)) + WT(e) == dist(x))), P(x, e))),
        ("a reached vertex has one, met earlier", fa([x], Implies(And(VERT(x), fin(x), x != s), And(P(x, Select(val(MAP(INT, E_), c.g("wit")), x)))), dist(x))),
        ("exactly the vertices reached are examined, and finished", fa([x], Implies(VERT(x), And(isin(X, x) == fin(x), isin(c.g("F"), x) == fin(x))), isin(X, x))), ("every edge leaving them is examined, once", fa([e], isin(c.g("EX"), e) == And(MEM(SRC(e), e), isin(X, SRC(e))), isin(c.g("EX"), e))),
        ("every vertex is initialised", fa([x], isin(c.g("I"), x) == VERT(x), isin(c.g("I"), x)))]
