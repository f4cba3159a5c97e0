"""make_automaton and make_node_automaton: the transitions listed, nothing else."""
from contracts.automata import *
NAME = SYM("Name")
T3 = TUP(NAME, NAME, SY)
TL = SEQ(T3)
FINN = DMAP(NAME, BOOL)
x1, y1 = Consts("x1 y1", sort(NAME))
K = "pybgl.automaton:make_automaton"

def tf(e, i_): return fld(T3, e, i_)
def local(c, nm):
    "a local variable, in a loop or at the end of the function under proof"
    if c.fid is not None: return c.v(nm)
    x = c.st.frames[c.eng.toplevel_frame].get(nm)
    if x is None: raise Unsupported("specification names the local variable '%s', absent from the current source" % nm)
    return x
def m_setup(pm):
    def f(S):
        tl = S.cont(TL, "transitions"); S.eng.tl = S.term(tl)
        S.assume(lo(TL, S.eng.tl) == 0, hi(TL, S.eng.tl) >= 0)
        q0n = S.const(NAME, "q0n")
        fin = S.cont(FINN, "finn"); S.eng.pmf = fin
        return [tl, q0n, S.obj(PMAP, d=fin) if pm else NONE_]
    return f
def tl(c): return c.named(c.eng.tl)
def tn(c): return seqlen(TL, tl(c))
def at_(c, i_): return Select(arr(TL, tl(c)), i_)
def m_pre(c):
    return [("one target per state and symbol", fa([i, j], Implies(And(0 <= i, i < tn(c), 0 <= j, j < tn(c), tf(at_(c, i), 0) == tf(at_(c, j), 0), tf(at_(c, i), 2) == tf(at_(c, j), 2)), tf(at_(c, i), 1) == tf(at_(c, j), 1)), z3.MultiPattern(at_(c, i), at_(c, j)))),
            ("the initial state is named", Implies(tn(c) > 0, Exists([i], And(0 <= i, i < tn(c), Or(tf(at_(c, i), 0) == c.t("q0n"), tf(at_(c, i), 1) == c.t("q0n"))))))]
def names(c):
    x = local(c, "vertex_names"); t = c.t(x); ty = c.ty(x)
    return seqlen(ty, t), lambda i_: seqat(ty, t, i_)
def g_is(c, upto):
    """the transitions of g are the first `upto` of the list, up to the numbering of the names"""
    n_, nm = names(c)
    g = local(c, "g"); adj = c.at(g, "adjacencies")
    return [("states", fa([q], QX(adj, q) == And(0 <= q, q < n_), QX(adj, q))),
            ("only listed transitions", ft(Implies(HAS(adj, q, a), Exists([i], And(0 <= i, i < upto, tf(at_(c, i), 0) == nm(q), tf(at_(c, i), 2) == a, tf(at_(c, i), 1) == nm(TGT(adj, q, a))))), adj)),
            ("targets", ft(Implies(HAS(adj, q, a), QX(adj, TGT(adj, q, a))), adj)),
            ("every listed transition", fa([i, q, r], Implies(And(0 <= i, i < upto, 0 <= q, q < n_, 0 <= r, r < n_, nm(q) == tf(at_(c, i), 0), nm(r) == tf(at_(c, i), 1)), TR(adj, q, tf(at_(c, i), 2), r)), z3.MultiPattern(at_(c, i), nm(q), nm(r))))]
def names_ok(c):
    n_, nm = names(c)
    return [("names are distinct", fa([i, j], Implies(And(0 <= i, i < j, j < n_), nm(i) != nm(j)), z3.MultiPattern(nm(i), nm(j)))),
            ("each name is used", fa([i], Implies(And(0 <= i, i < n_), Not(fa([j], Implies(And(0 <= j, j < tn(c)), And(tf(at_(c, j), 0) != nm(i), tf(at_(c, j), 1) != nm(i))), at_(c, j)))), nm(i))),
            ("each used name has a state", fa([j], Implies(And(0 <= j, j < tn(c)), And(Exists([i], And(0 <= i, i < n_, nm(i) == tf(at_(c, j), 0))), Exists([i], And(0 <= i, i < n_, nm(i) == tf(at_(c, j), 1))))), at_(c, j)))]
def m_inv1(c):
    g = local(c, "g")
    return [x for x in ainv(c, g)] + g_is(c, c.k)
def wantfin(c, x):
    if c.eng.pmf is None: return BoolVal(False)
    return Select(val(FINN, c.eng.term(c.old, c.eng.pmf)), x)
def reads_only(c, name, want):
    "looking keys up in a dictionary with a default adds keys and changes no value"
    m = c.attr(c.v(name), "d"); ty = c.ty(m)
    if ty.kind == "Untyped": return []
    t = c.named(val(ty, c.t(m)))
    return [("%s keeps its values" % name, fa([x1], Select(t, x1) == want(x1), Select(t, x1)))]
def m_inv2(c):
    g = local(c, "g"); n_, nm = names(c)
    return reads_only(c, "pmap_vfinal", lambda x_: wantfin(c, x_)) + [("marked so far", fa([q], isfin(c, q, None, g) == And(QX(c.at(g, "adjacencies"), q), c.it.pos(q) < c.k, wantfin(c, nm(q))), isfin(c, q, None, g), c.it.pos(q)))]
def m_post(c):
    g = c.res; n_, nm = names(c)
    for nm_, t in names_ok(c): lemma(c, nm_, t)
    lemma(c, "a transition names a state", Implies(tn(c) > 0, And(tf(at_(c, 0), 0) == tf(at_(c, 0), 0), n_ > 0)))
    return ainv(c, g) + names_ok(c) + g_is(c, tn(c)) + [
        ("the initial state", Implies(tn(c) > 0, And(is_some(OI, INIT(c, None, g)), 0 <= optval(OI, INIT(c, None, g)), optval(OI, INIT(c, None, g)) < n_, nm(optval(OI, INIT(c, None, g))) == c.t("q0n")))),
        ("the final states", fa([q], isfin(c, q, None, g) == And(0 <= q, q < n_, wantfin(c, nm(q)))))]
GI = LoopSpec(inv=lambda c: ainv(c) + acon_inv(c, c.k))
make_aut = Fn("make_automaton", K, m_setup(True), m_pre, m_post, uses=[a_add_vertex, a_add_edge, set_final], types={"adjacencies": DADJ, "map_vfinal": FIN},
    loops={(G + "Graph.__init__", 0): GI, (K, 0): LoopSpec(inv=m_inv1), (K, 1): LoopSpec(inv=m_inv2), (G + "Graph.has_vertex", 0): LoopSpec(inv=lambda c: [("first", c.k == 0)])})
def m_setup0(S):
    r = m_setup(False)(S); S.eng.pmf = None
    return r
make_aut0 = Fn("make_automaton without final states", K, m_setup0, m_pre, m_post, uses=make_aut.uses, **dict(make_aut.kw, types={"adjacencies": DADJ, "map_vfinal": FIN, "$ddkey": NAME}))
