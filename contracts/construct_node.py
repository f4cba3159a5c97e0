"""make_node_automaton: the transitions listed, nothing else."""
from contracts.nodeautomata import *
_c = instance("construct", PARAM_SY=OPT(SY0), PARAM_CLASS=NAU)
from contracts.construct import local, reads_only, NAME, FINN, x1, y1
T2 = TUP(NAME, NAME)
T2L = SEQ(T2)
VL = DMAP(NAME, SY0)
KN = "pybgl.node_automaton:make_node_automaton"
def t2(e, i_): return fld(T2, e, i_)
def tl(c): return c.named(c.eng.tl)
def tn(c): return seqlen(T2L, tl(c))
def at_(c, i_): return Select(arr(T2L, tl(c)), i_)
def mn_setup(pm, klass=NAU):
    def f(S):
        l = S.cont(T2L, "transitions"); S.eng.tl = S.term(l); S.assume(lo(T2L, S.eng.tl) == 0, hi(T2L, S.eng.tl) >= 0)
        vl = S.cont(VL, "vlabel"); S.eng.vl = vl
        fin = S.cont(FINN, "finn"); S.eng.pmf = fin if pm else None
        return [l, S.obj(PMAP, d=vl), S.const(NAME, "q0n"), S.obj(PMAP, d=fin) if pm else NONE_, ClassV(klass)]
    return f
def wantlab(c, x): return some(OS, Select(val(VL, c.eng.term(c.old, c.eng.vl)), x))
def wantfin(c, x): return BoolVal(False) if c.eng.pmf is None else Select(val(FINN, c.eng.term(c.old, c.eng.pmf)), x)
def names(c):
    x = local(c, "vertex_names"); t = c.t(x); ty = c.ty(x)
    return seqlen(ty, t), lambda i_: seqat(ty, t, i_)
def mn_pre(c):
    return [("one successor per symbol", fa([i, j], Implies(And(0 <= i, i < tn(c), 0 <= j, j < tn(c), t2(at_(c, i), 0) == t2(at_(c, j), 0), wantlab(c, t2(at_(c, i), 1)) == wantlab(c, t2(at_(c, j), 1))), t2(at_(c, i), 1) == t2(at_(c, j), 1)), z3.MultiPattern(at_(c, i), at_(c, j)))),
            ("the initial state is named", Implies(tn(c) > 0, Exists([i], And(0 <= i, i < tn(c), Or(t2(at_(c, i), 0) == c.t("q0n"), t2(at_(c, i), 1) == c.t("q0n"))))))]
def names_ok(c):
    n_, nm = names(c)
    return [("names are distinct", fa([i, j], Implies(And(0 <= i, i < j, j < n_), nm(i) != nm(j)), z3.MultiPattern(nm(i), nm(j)))),
            ("each name is used", fa([i], Implies(And(0 <= i, i < n_), Not(fa([j], Implies(And(0 <= j, j < tn(c)), And(t2(at_(c, j), 0) != nm(i), t2(at_(c, j), 1) != nm(i))), at_(c, j)))), nm(i))),
            ("each used name has a state", fa([j], Implies(And(0 <= j, j < tn(c)), And(Exists([i], And(0 <= i, i < n_, nm(i) == t2(at_(c, j), 0))), Exists([i], And(0 <= i, i < n_, nm(i) == t2(at_(c, j), 1))))), at_(c, j)))]
def vx_is(c, n1):
    g = local(c, "g"); adj = c.at(g, "adjacencies"); n_, nm = names(c)
    return [("states", fa([q], QX(adj, q) == And(0 <= q, q < n1), QX(adj, q))), ("symbols", fa([q], Implies(And(0 <= q, q < n1), sym(c, q, None, g) == wantlab(c, nm(q))), sym(c, q, None, g))),
            ("finals", fa([q], isfin(c, q, None, g) == And(0 <= q, q < n1, wantfin(c, nm(q))), isfin(c, q, None, g)))]
def lab_g(c, g): return [("each transition carries the symbol of its target", ft(Implies(HAS(c.at(g, "adjacencies"), q, a), sym(c, TGT(c.at(g, "adjacencies"), q, a), None, g) == a), c.at(g, "adjacencies")))]
def tr_is(c, upto):
    n_, nm = names(c)
    g = local(c, "g"); adj = c.at(g, "adjacencies")
    return [("only listed transitions", ft(Implies(HAS(adj, q, a), Exists([i], And(0 <= i, i < upto, t2(at_(c, i), 0) == nm(q), t2(at_(c, i), 1) == nm(TGT(adj, q, a))))), adj)),
            ("every listed transition", fa([i, q, r], Implies(And(0 <= i, i < upto, 0 <= q, q < n_, 0 <= r, r < n_, nm(q) == t2(at_(c, i), 0), nm(r) == t2(at_(c, i), 1)), TR(adj, q, sym(c, r, None, g), r)), z3.MultiPattern(at_(c, i), nm(q), nm(r))))]
def mn_inv0(c):
    g = local(c, "g"); adj = c.at(g, "adjacencies")
    return reads_only(c, "pmap_vfinal", lambda x_: wantfin(c, x_)) + reads_only(c, "pmap_vlabel", lambda x_: Select(val(VL, c.eng.term(c.old, c.eng.vl)), x_)) + ainv(c, g) + [("next", c.at(g, "last_vertex_id") == c.k), ("no transition", ft(Not(HAS(adj, q, a)), adj))] + vx_is(c, c.k) + [("no symbol yet", fa([q], Implies(q >= c.k, sym(c, q, None, g) == none(OS)), sym(c, q, None, g)))]
def mn_inv1(c):
    g = local(c, "g")
    return ainv(c, g) + lab_g(c, g) + vx_is(c, names(c)[0]) + tr_is(c, c.k) + names_ok(c)[1:]
def mn_post(c):
    g = c.res; n_, nm = names(c)
    for nm_, t in names_ok(c): lemma(c, nm_, t)
    lemma(c, "a transition names a state", Implies(tn(c) > 0, And(t2(at_(c, 0), 0) == t2(at_(c, 0), 0), n_ > 0)))
    return ainv(c, g) + lab_g(c, g) + vx_is(c, n_) + tr_is(c, tn(c)) + [
        ("the initial state", Implies(tn(c) > 0, And(is_some(OI, INIT(c, None, g)), 0 <= optval(OI, INIT(c, None, g)), optval(OI, INIT(c, None, g)) < n_, nm(optval(OI, INIT(c, None, g))) == c.t("q0n"))))]
mn_loops = {(G + "Graph.__init__", 0): NGI, (KN, 0): LoopSpec(inv=mn_inv0), (KN, 1): LoopSpec(inv=mn_inv1), (G + "Graph.has_vertex", 0): LoopSpec(inv=lambda c: [("first", c.k == 0)])}
mn_types = {"adjacencies": DADJ, "map_vfinal": FIN, "map_vsymbol": LAB, "$ddkey": NAME}
make_node = Fn("make_node_automaton", KN, mn_setup(True), mn_pre, mn_post, uses=[a_add_vertex, n_add_vertex, n_add_edge, set_final], types=mn_types, loops=mn_loops)
make_node0 = Fn("make_node_automaton without final states", KN, mn_setup(False), mn_pre, mn_post, uses=[a_add_vertex, n_add_vertex, n_add_edge, set_final], types=mn_types, loops=mn_loops)
