from contracts.dijkstra import *
from contracts.construct import local
NOTE = "make_shortest_path and make_shortest_paths_dag proved from predecessors as Dijkstra leaves them, and dijkstra_shortest_path proved (a real path of minimum weight, none exactly when unreachable), over any graph and any non-negative weights; a visitor of the caller combined with the target, and single_path, bounded"
TRUSTED = TRUSTED_BASE + ["Heap under the comparison wrapper of a strict order: as its contract (C13 proves it for preorders and for keys)"]
ASSUMPTIONS = ASSUME_BASE + GRAPH_NOTE[:1] + NOTES_D + ["an edge never equals a vertex", "make_shortest_path is given recorded predecessors as Dijkstra leaves them (C11): tight edges between reached vertices, each reached vertex but the source having one met earlier, and a reached target"]
MSP, DAG, ONE = M_ + "make_shortest_path", M_ + "make_shortest_paths_dag", M_ + "dijkstra_shortest_path"
# what a caller of make_shortest_path knows: P(v, e) recorded, REACH, distances, an order of arrival
class View:
    def __init__(s, P, reach, dist, rank, wit, src, tgt): s.P, s.reach, s.dist, s.rank, s.wit, s.s, s.t = P, reach, dist, rank, wit, src, tgt
REACH, DI, RKF, WIT_ = z3.Function("is_reached", I_, B_), z3.Function("distance_of", I_, wS), z3.Function("arrival_of", I_, I_), z3.Function("first_predecessor", I_, sort(E_))
IRK = z3.Function("depth_in_the_walk_back", I_, I_)
def given(V):
    return [("the target is reached", V.reach(V.t)), ("distance of the source", V.dist(V.s) == zero),
        ("recorded edges are tight edges between reached vertices", fa([x, e], Implies(And(V.reach(x), V.P(x, e)), And(MEM(SRC(e), e), TGT_(e) == x, V.reach(SRC(e)), V.dist(SRC(e)) + WT(e) == V.dist(x))), V.P(x, e))),
        ("a reached vertex has one met earlier", fa([x], Implies(V.reach(x), And(V.rank(x) >= 0, Implies(x != V.s, And(V.P(x, V.wit(x)), V.rank(SRC(V.wit(x))) < V.rank(x))))), V.reach(x)))]
PA = SEQ(E_); OE = OPT(E_); NX = MAP(INT, OE)
def is_path(V, n, at):
    "at(0..n-1): consecutive recorded edges of reached vertices from the source to the target"
    return [("a length", n >= 0), ("empty: already there", Implies(n == 0, V.s == V.t)), ("leaves the source, ends at the target", Implies(n > 0, And(SRC(at(IntVal(0))) == V.s, TGT_(at(n - 1)) == V.t))),
        ("edges of the graph", fa([i], Implies(And(0 <= i, i < n), And(MEM(SRC(at(i)), at(i)), V.dist(SRC(at(i))) + WT(at(i)) == V.dist(TGT_(at(i))))), at(i))),
        ("consecutive", fa([i, j], Implies(And(0 <= i, j == i + 1, j < n), TGT_(at(i)) == SRC(at(j))), z3.MultiPattern(at(i), at(j))))]
SW = z3.Function("weight_of_the_first", I_, wS)
def msp_setup(S):
    s, t = S.int("s"), S.int("t"); g = a_graph(S); pp = pmap(S, DP, "preds"); S.eng.ppreds = pp
    ty, m = pm_term(S.eng, S.st, pp); m0 = S.eng.constant(S.st, val(DP, m))
    S.eng.V = View(lambda x_, e_: Select(Select(m0, x_), e_), REACH, DI, RKF, WIT_, s.t, t.t)
    S.assume(*[t_ for _, t_ in given(S.eng.V)]); S.assume(IRK(t.t) == 0)
    return [g, s, t, pp]
def walk(c, at_u=None, k_=None, key=None):
    V = c.eng.V; ne = c.t("next_edges"); ty = c.ty("next_edges"); N = lambda x_: Select(dom(ty, ne), x_); nx = lambda x_: Select(val(ty, ne), x_)
    cn, ln, at_, l_, h_, typed = queue(c, "to_process"); E_of = lambda x_: optval(OE, nx(x_))
    m = val(DP, pm_term(c.eng, c.st, c.eng.ppreds)[1]); P = lambda x_, e_: Select(Select(m, x_), e_)
    handled = (lambda x_, e_: BoolVal(True)) if at_u is None else (lambda x_, e_: Or(x_ != at_u, key(e_) < k_))
    R = [("predecessors unchanged", fa([x, e], P(x, e) == V.P(x, e), P(x, e))), ("the target is known", N(V.t)), ("depth of the target", IRK(V.t) == 0),
        ("known vertices", fa([x], Implies(N(x), And(V.reach(x), IRK(x) >= 0, Implies(x != V.t, And(is_some(OE, nx(x)), SRC(E_of(x)) == x, V.P(TGT_(E_of(x)), E_of(x)), N(TGT_(E_of(x))), IRK(TGT_(E_of(x))) == IRK(x) - 1)))), N(x)))]
    if cn is not None:
        R += [("to process", And(fa([i], Implies(And(l_ <= i, i < h_), N(at_(i))), *([at_(i)] if typed else [])), fa([x], And(cn(x) <= 1, Implies(cn(x) > 0, N(x))), *([cn(x)] if typed else [N(x)])))),
            ("processed vertices", fa([x, e], Implies(And(N(x), cn(x) == 0, V.P(x, e), handled(x, e)), N(SRC(e))), z3.MultiPattern(N(x), V.P(x, e))))]
    return R
def msp_outer(c):
    V = c.eng.V; ne = c.t("next_edges"); ty = c.ty("next_edges"); cn, ln, at_, l_, h_, typed = queue(c, "to_process")
    return walk(c) + [("while the source is not known, something is left to process", Implies(Not(Select(dom(ty, ne), V.s)), ln > 0))]
def msp_step(c):
    V = c.eng.V; ne = c.t("next_edges"); ty = c.ty("next_edges"); N = lambda x_: Select(dom(ty, ne), x_); cn, ln, at_, l_, h_, typed = queue(c, "to_process")
    for nm, t in walk(c): lemma(c, nm, t)
    lemma(c, "nothing left: all processed", Implies(ln == 0, fa([x], cn(x) == 0, *([cn(x)] if typed else []))))
    induct(c, "vertices known, nothing left: the source is known", lambda k_: Implies(ln == 0, fa([x], Implies(And(N(x), V.rank(x) < k_), N(V.s)), N(x))), IntVal(0), pats=lambda k_: [])
    lemma(c, "the source is known", Implies(ln == 0, N(V.s)))
    return []
def msp_inner(c):
    uu = c.t("u"); cn = queue(c, "to_process")[0]; ne = c.t("next_edges"); ty = c.ty("next_edges")
    return walk(c, uu, c.k, c.it.pos) + [("the vertex taken", And(Select(dom(ty, ne), uu), cn(uu) == 0))]
def msp_def(c):
    "the depth of a vertex just met: one more than that of the vertex its edge leads to (each vertex is met once)"
    ty = c.ty("next_edges"); ne0 = c.t("next_edges", None, c.head); e_ = c.t("e")
    c.eng.assume(c.st, Implies(Not(Select(dom(ty, ne0), SRC(e_))), IRK(SRC(e_)) == IRK(TGT_(e_)) + 1))
    return []
def chain(c):
    V = c.eng.V; pv = c.v("path"); pt = c.ty(pv)
    if pt.kind == "Untyped": n, at = IntVal(0), None
    else: t = c.t("path"); n, at = seqlen(PA, t), lambda i_: seqat(PA, t, i_)
    return n, at
def msp_path(c):
    V = c.eng.V; n, at = chain(c); uu = c.t("u"); ne = c.t("next_edges"); ty = c.ty("next_edges")
    R = [("at a known vertex", And(Select(dom(ty, ne), uu), n >= 0, IRK(uu) + n == IRK(V.s))), ("nothing yet: at the source", Implies(n == 0, uu == V.s))]
    if at is not None:
        t = c.t("path")
        R += [("path", lo(PA, t) == 0), ("from the source to here", Implies(n > 0, And(SRC(at(IntVal(0))) == V.s, TGT_(at(n - 1)) == uu))),
            ("edges of the graph", fa([i], Implies(And(0 <= i, i < n), And(MEM(SRC(at(i)), at(i)), V.dist(SRC(at(i))) + WT(at(i)) == V.dist(TGT_(at(i))))), at(i))),
            ("consecutive", fa([i, j], Implies(And(0 <= i, j == i + 1, j < n), TGT_(at(i)) == SRC(at(j))), z3.MultiPattern(at(i), at(j))))]
    return R
def msp_post(c):
    V = c.eng.V; n, at = as_list(c, ety=E_)
    if isinstance(c.res, Ref) and c.ty(c.res).kind == "Seq":
        c.eng.assume(c.st, And(SW(0) == zero, fa([i], Implies(i >= 0, SW(i + 1) == SW(i) + WT(at(i))), at(i))))
        for nm, t in is_path(V, n, at): lemma(c, nm, t)
        induct(c, "weight of a beginning", lambda k_: And(Implies(k_ == 0, SW(k_) == zero), fa([i], Implies(And(i == k_ - 1, i >= 0), SW(k_) == V.dist(TGT_(at(i)))), at(i))), IntVal(0), n, hints=lambda K: [SW(K + 1) == SW(K) + WT(at(K)), Implies(K == 0, at(K) == at(0)), Implies(K >= 1, TGT_(at(K - 1)) == SRC(at(K)))])
        lemma(c, "weight", Implies(n > 0, SW(n) == V.dist(TGT_(at(n - 1)))))
        return is_path(V, n, at) + [("its weight is the distance of the target", SW(n) == V.dist(V.t))]
    return [("empty: already there", V.s == V.t)]
MSPP = Fn("a shortest path from the recorded predecessors", MSP, msp_setup, post=msp_post, types={"next_edges": NX, "path": PA}, loops={(MSP, 0): LoopSpec(inv=msp_outer, lemma=msp_step), (MSP, 1): LoopSpec(inv=msp_inner, lemma=msp_def), (MSP, 2): LoopSpec(inv=msp_path)})
# ---------------------------------------------------------------- the search restricted to one target
def one_setup(color=True):
    def f(S):
        s, t = S.int("s"), S.int("t"); S.assume(VERT(s.t), VERT(t.t)); theory(S, s.t); g = a_graph(S); heap_class(S.eng); S.eng.target = t.t; S.eng.own_visitor = True      # the code's own visitor is announced the vertices, as its class defines
        pd, pp = pmap(S, DD, "dist"), pmap(S, DP, "preds"); S.eng.pdist, S.eng.ppreds = pd, pp
        ty, m = pm_term(S.eng, S.st, pp); S.assume(fa([x, e], Not(Select(Select(val(DP, m), x), e)), Select(Select(val(DP, m), x), e)))
        d_visitor(S, False)
        return [g, s, t, weights(S), pp, pd], {"pmap_vcolor": a_pmap(S) if color else NONE_}
    return f
not_yet = lambda c: [("the target is not examined yet", Not(isin(c.g("X"), c.eng.target)))]
def one_outer(c): return outer(c) + not_yet(c)
class ExtractPath(CallContract):
    "make_shortest_path, by its contract: what it needs is proved here of the distances and predecessors recorded so far"
    key = MSP; label = "a shortest path from the recorded predecessors"
    def pre(s, c):
        dist, P = views(c); X = c.g("X"); rk, wit = c.named(val(NM, c.g("rk"))), c.named(val(MAP(INT, E_), c.g("wit")))
        same = And(BoolVal(isinstance(c.v("pmap_vpreds"), ObjV) and c.v("pmap_vpreds").oid == c.eng.ppreds.oid), c.t("s") == c.eng.src, c.t("t") == c.eng.target)
        V = c.eng.V = View(P, lambda x_: isin(X, x_), dist, lambda x_: Select(rk, x_), lambda x_: Select(wit, x_), c.eng.src, c.eng.target)
        return [("for this source and target", same)] + given(V)
    def modifies(s, c): return []
    def result(s, c):
        c.eng.path = new(c, PA, "path"); return c.eng.path
    def post(s, c):
        t = c.t(c.res); at = lambda i_: seqat(PA, t, i_); n = seqlen(PA, t)
        return is_path(c.eng.V, n, at) + [("its weight", And(SW(0) == zero, fa([i], Implies(i >= 0, SW(i + 1) == SW(i) + WT(at(i))), at(i)), SW(n) == c.eng.V.dist(c.eng.target)))]
def one_post(c):
    dist, P = views(c); X = c.g("X"); T_ = c.eng.target; F = c.g("F")
    if isinstance(c.res, Ref):
        induct(c, "no path leads to the target at a lower cost", lambda k_: fa([x, w_], Implies(PW(x, w_, k_), Or(And(isin(X, x), x != T_, dist(x) <= w_), dist(T_) <= w_)), PW(x, w_, k_)), IntVal(0), hints=lambda K: [fa([x, w_], ELIM(x, w_, K), PW(x, w_, K + 1))])
        c.eng.assume(c.st, CHOICE); t = c.t(c.res); at = lambda i_: seqat(PA, t, i_); n = seqlen(PA, t)
        return is_path(c.eng.V, n, at) + [("its weight is the distance recorded", SW(n) == dist(T_)), ("the distance of a path", RW(T_, dist(T_))), ("no path is shorter", fa([w_], Implies(RW(T_, w_), dist(T_) <= w_), RW(T_, w_)))]
    c.eng.assume(c.st, CHOICE)
    induct(c, "a path ends at an examined vertex", lambda k_: fa([x, w_], Implies(PW(x, w_, k_), isin(X, x)), PW(x, w_, k_)), IntVal(0), hints=lambda K: [fa([x, w_], ELIM(x, w_, K), PW(x, w_, K + 1))])
    return [("nothing is returned: no path", fa([w_], Not(RW(T_, w_)), RW(T_, w_)))]
ONEP = [Fn("the search restricted to one target" + nm, ONE, one_setup(col), post=one_post, types={"color": DC}, loops={**LOOPS, (DSP, 0): LoopSpec(inv=one_outer, lemma=progress)}, uses=EVC + [ExtractPath()]) for nm, col in (("", True), (", by default", False))]
# ---------------------------------------------------------------- all the shortest paths to a target
# BKK(x, k): walking back k recorded edges from the target leads to x; BK(x): for some k
BKK, BK, LENB = z3.Function("met_after", I_, I_, B_), z3.Function("met_walking_back", I_, B_), z3.Function("steps_to_meet", I_, I_); BKU, BKE = z3.Function("met_from", I_, I_, I_), z3.Function("met_by", I_, I_, sort(E_))
def dag_setup(S):
    s, t = S.int("s"), S.int("t"); g = a_graph(S); pp = pmap(S, DP, "preds"); S.eng.ppreds = pp
    ty, m = pm_term(S.eng, S.st, pp); m0 = S.eng.constant(S.st, val(DP, m)); S.eng.P0 = P0 = lambda x_, e_: Select(Select(m0, x_), e_); S.eng.t = t.t
    S.assume(BK(t.t), fa([x, e], Implies(P0(x, e), TGT_(e) == x), P0(x, e)), fa([x], BKK(x, 0) == (x == t.t), BKK(x, 0)), fa([x, e], Implies(And(BK(x), P0(x, e)), BK(SRC(e))), z3.MultiPattern(BK(x), P0(x, e))))
    return [g, s, t, pp]
BELIM = lambda c, x_, k_: Implies(And(BKK(x_, k_ + 1), k_ >= 0), And(BKK(BKU(x_, k_), k_), c.eng.P0(BKU(x_, k_), BKE(x_, k_)), SRC(BKE(x_, k_)) == x_))
def dag_inv(c):
    P0 = c.eng.P0; t = c.eng.t; P = views_p(c)
    kept, todo, done = (lambda tt: lambda x_: Select(tt, x_))(c.t("kept_edges")), (lambda tt: lambda x_: Select(tt, x_))(c.t("to_process")), (lambda tt: lambda x_: Select(tt, x_))(c.t("done"))
    return [("predecessors unchanged", fa([x, e], P(x, e) == P0(x, e), P(x, e))), ("the target is met", Or(done(t), todo(t))), ("handled or to handle, not both", fa([x], Not(And(done(x), todo(x))), todo(x))),
        ("those met walking back", fa([x], Implies(Or(done(x), todo(x)), BK(x)), done(x), todo(x))),
        ("vertices handled", fa([x, e], Implies(And(done(x), P0(x, e)), And(kept(e), Or(done(SRC(e)), todo(SRC(e))))), z3.MultiPattern(done(x), P0(x, e)))),
        ("edges kept are recorded for a vertex handled", fa([e], Implies(kept(e), And(done(TGT_(e)), P0(TGT_(e), e))), kept(e)))]
def dag_step(c):
    d0, d1 = c.t("done", None, c.head), c.t("done")
    return [("each turn handles more vertices (hence termination)", And(fa([x], Implies(Select(d0, x), Select(d1, x)), Select(d0, x)), Not(fa([x], Implies(Select(d1, x), Select(d0, x)), Select(d1, x)))))]
def dag_post(c):
    P0 = c.eng.P0; r_ = c.t(c.res)
    c.eng.assume(c.st, fa([x], Implies(BK(x), And(LENB(x) >= 0, BKK(x, LENB(x)))), BK(x)))
    done = c.t(local(c, "done"))
    induct(c, "vertices met walking back are handled", lambda k_: fa([x], Implies(BKK(x, k_), Select(done, x)), BKK(x, k_)), IntVal(0), hints=lambda K: [fa([x], BELIM(c, x, K), BKK(x, K + 1))])
    return [("exactly the recorded edges met walking back", fa([e], Select(r_, e) == And(BK(TGT_(e)), P0(TGT_(e), e)), Select(r_, e), P0(TGT_(e), e)))]
def views_p(c):
    m = val(DP, pm_term(c.eng, c.st, c.eng.ppreds)[1]); return lambda x_, e_: Select(Select(m, x_), e_)
def edges_apart(eng): eng.apart = [(E_, INT)]      # an edge never equals a vertex
DAGP = [Fn("all the shortest paths to a target", DAG, dag_setup, post=dag_post, types={"kept_edges": ESET, "done": VS}, configure=edges_apart, loops={(DAG, 0): LoopSpec(inv=dag_inv, lemma=dag_step)})]
PROOFS = [f.proof() for f in [MSPP] + ONEP + DAGP]
