"""Contracts of the deterministic automaton (pybgl.automaton): a partial function (state, symbol) -> state."""
from contracts.graphs import *
AU = globals().get("PARAM_CLASS") or cls("automaton:Automaton")
PMAP = cls("property_map:AssocPropertyMap")
M = "pybgl.automaton:Automaton."
SY = globals().get("PARAM_SY") or SYM("Sym")
OI = OPT(INT)
DADJ = MAP(INT, MAP(SY, INT)); D2 = DADJ.args[1]
AED = REC("EdgeDescriptor", ["source", "target", "distinguisher"], INT, INT, SY)
FIN = DMAP(INT, BOOL)
W_ = WORD(SY)
a, b = Consts("a b", sort(SY))
q0 = Int("q0")

def QX(adj, x): return Select(dom(DADJ, adj), x)
def QROW(adj, x): return Select(val(DADJ, adj), x)
def HAS(adj, x, s): return And(QX(adj, x), Select(dom(D2, QROW(adj, x)), s))
def TGT(adj, x, s): return Select(val(D2, QROW(adj, x)), s)
def TR(adj, x, s, y): return And(HAS(adj, x, s), TGT(adj, x, s) == y)
def STEP(adj, o, s):
    "one step of the partial transition function, from an optional state"
    return If(And(is_some(OI, o), HAS(adj, optval(OI, o), s)), some(OI, TGT(adj, optval(OI, o), s)), none(OI))
def asrc(e): return fld(AED, e, 0)
def atgt(e): return fld(AED, e, 1)
def asym(e): return fld(AED, e, 2)
def is_tr(adj): return lambda e: TR(adj, asrc(e), asym(e), atgt(e))

def rowpat(adj, x, s): return Select(dom(D2, QROW(adj, x)), s)
def ft(body, *adjs):
    return ForAll([q, a], body, patterns=[rowpat(x, q, a) for x in adjs] + [TGT(x, q, a) for x in adjs])

def automaton_obj(S, c=AU):
    adj = S.cont(DADJ, "adj"); last = S.int("last"); fin = S.cont(FIN, "fin")
    pm = S.obj(PMAP, d=fin)
    init = S.const(OI, "init")
    return S.obj(c, directed=B(True), last_vertex_id=last, adjacencies=adj, q0=init, pmap_vfinal=pm)

def ref(c, g="self"): return c.attr(g, "adjacencies")
def finref(c, g="self"): return c.attr(c.attr(g, "pmap_vfinal"), "d")
def FN(c, st=None, g="self"): return c.named(c.eng.term(st or c.st, finref(c, g)))
def isfin(c, x, st=None, g="self"): return Select(val(FIN, FN(c, st, g)), x)
def INIT(c, st=None, g="self"): return c.t(c.attr(g, "q0", st), OI, st)

def abound(adj, last): return And(last >= 0, fa([q], Implies(QX(adj, q), And(0 <= q, q < last)), QX(adj, q)))
def ainv_weak(c, g="self"):
    adj = c.at(g, "adjacencies")
    return [("invariant: targets are states", ft(Implies(HAS(adj, q, a), QX(adj, TGT(adj, q, a))), adj))]
def ainv(c, g="self"):
    return ainv_weak(c, g) + [("invariant: identifiers in use are below the next one", abound(c.at(g, "adjacencies"), c.at(g, "last_vertex_id")))]
def abound_kept(c): return ("identifiers stay below the next one", Implies(abound(A0(c), c.at("self", "last_vertex_id", c.old)), abound(A(c), c.at("self", "last_vertex_id"))))
def asame_vertices(c): return ("states are unchanged", fa([q], QX(A(c), q) == QX(A0(c), q)))
def asame_edges(c): return ("transitions are unchanged", And(ft(HAS(A(c), q, a) == HAS(A0(c), q, a), A(c), A0(c)), ft(Implies(HAS(A0(c), q, a), TGT(A(c), q, a) == TGT(A0(c), q, a)), A(c), A0(c))))
def same_finals(c): return ("finals are unchanged", fa([q], isfin(c, q) == isfin(c, q, c.old)))

def iv(c, name):
    "the state passed as argument, known not to be the absent one"
    t = c.t(name)
    return t if t.sort() == z3.IntSort() else optval(OI, t)
def given(c, name):
    t = c.t(name)
    return BoolVal(True) if t.sort() == z3.IntSort() else is_some(OI, t)

isau = is_class("self", AU)

a_add_vertex = Fn("add_vertex", G + "Graph.add_vertex", lambda S: [automaton_obj(S)], ainv,
    lambda c: ainv(c) + [
        ("the identifier was free", And(Not(QX(A0(c), c.t(c.res))), c.t(c.res) >= 0)),
        ("states", fa([q], QX(A(c), q) == Or(QX(A0(c), q), q == c.t(c.res)))),
        ("identifiers", And(c.t(c.res) == c.at("self", "last_vertex_id", c.old), c.at("self", "last_vertex_id") == c.t(c.res) + 1)), asame_edges(c)],
    modifies=lambda c: [ref(c), (c.v("self"), "last_vertex_id")], result=lambda c: c.eng.fresh_value(INT, "vid", c.st), when=isau)

def delta_post(c, x):
    return [("the transition function", c.t(c.res, OI) == STEP(A0(c), x, c.t("a")))]
delta = Fn("delta", M + "delta", lambda S: [automaton_obj(S), S.int("q"), S.const(SY, "a")], ainv,
    lambda c: delta_post(c, c.t("q", OI)), modifies=lambda c: [], result=lambda c: c.eng.fresh_value(OI, "delta", c.st), when=isau)
delta_none = Fn("delta of the absent state", M + "delta", lambda S: [automaton_obj(S), NONE_, S.const(SY, "a")], ainv,
    lambda c: delta_post(c, c.t("q", OI)), modifies=lambda c: [])

def a_add_edge_post(c):
    uu, vv, s = iv(c, "q"), iv(c, "r"), c.t("a")
    e, added = c.res.xs
    ok = c.eng.truth(c.st, added)
    OE = OPT(AED); t = c.t(e, OE)
    old = HAS(A0(c), uu, s)
    return ainv(c) + [asame_vertices(c),
        ("refused exactly when there is already one", ok == Not(old)),
        ("nothing returned when refused", Implies(old, is_none(OE, t))),
        ("the edge returned", Implies(Not(old), And(is_some(OE, t), optval(OE, t) == mk(AED, uu, vv, s)))),
        ("domain", ft(HAS(A(c), q, a) == Or(HAS(A0(c), q, a), And(q == uu, a == s)), A(c), A0(c))),
        ("targets", ft(Implies(HAS(A(c), q, a), TGT(A(c), q, a) == If(HAS(A0(c), q, a), TGT(A0(c), q, a), vv)), A(c), A0(c)))]
a_add_edge = Fn("add_edge", M + "add_edge", lambda S: [automaton_obj(S), S.int("q"), S.int("r"), S.const(SY, "a")],
    lambda c: ainv(c) + [("q is given", given(c, "q")), ("q is a state", QX(A(c), iv(c, "q"))), ("r is a state", And(given(c, "r"), QX(A(c), iv(c, "r"))))],
    a_add_edge_post, modifies=lambda c: [ref(c)], when=isau,
    result=lambda c: TupV([c.eng.fresh_value(OPT(AED), "edge", c.st), B(c.eng.fresh(BOOL, "added", c.st))]))

def a_edge_post(c):
    e, found = c.eng.unpack(c.st, c.res, 2)
    f = c.eng.truth(c.st, found); OE = OPT(AED); t = c.t(e, OE)
    yes = TR(A0(c), c.t("q"), c.t("a"), c.t("r"))
    return [("found exactly when stored", f == yes), ("the edge", Implies(yes, And(is_some(OE, t), optval(OE, t) == mk(AED, c.t("q"), c.t("r"), c.t("a"))))), ("nothing otherwise", Implies(Not(yes), is_none(OE, t)))]
a_edge = Fn("edge", M + "edge", lambda S: [automaton_obj(S), S.int("q"), S.int("r"), S.const(SY, "a")], ainv, a_edge_post, modifies=lambda c: [])

def alisting(name, key, member, ety=AED, args=lambda S: []):
    return Fn(name, key, lambda S: [automaton_obj(S)] + args(S), ainv, lambda c: enumerates(*as_list(c, ety=ety), ety, member(c)), modifies=lambda c: [], consume=to_list)
def acounting(name, key, member, ety=AED, args=lambda S: []):
    return Fn(name, key, lambda S: [automaton_obj(S)] + args(S), ainv, lambda c: counted(c, (G + "__len_gen__", 0), ety, member(c), c.t(c.res)), modifies=lambda c: [], loops=LEN_GEN)
all_tr = lambda c: is_tr(A0(c))
tr_of = lambda c: lambda e: And(is_tr(A0(c))(e), asrc(e) == c.t("q"))
an_int_q = lambda S: [S.int("q")]
states = lambda c: lambda x: QX(A0(c), x)

def set_is(c, ty, member, x=None):
    "the set x (or the result) has exactly the members"
    x = c.res if x is None else x
    t = c.t(x, None) if c.eng.typeof(c.st, x).kind != "Untyped" else empty(SET(ty))
    y = Const("y!m", sort(ty))
    return [("exactly", fa([y], Select(t, y) == member(y)))]

sigma = Fn("sigma", M + "sigma", lambda S: [automaton_obj(S), S.int("q")], ainv, lambda c: set_is(c, SY, lambda y: HAS(A0(c), c.t("q"), y)), modifies=lambda c: [])
sigma_none = Fn("sigma of the absent state", M + "sigma", lambda S: [automaton_obj(S), NONE_], ainv, lambda c: set_is(c, SY, lambda y: BoolVal(False)), modifies=lambda c: [])
alphabet = Fn("alphabet", M + "alphabet", lambda S: [automaton_obj(S)], ainv, lambda c: set_is(c, SY, lambda y: Exists([q], HAS(A0(c), q, y))), modifies=lambda c: [])
finals = Fn("finals", M + "finals", lambda S: [automaton_obj(S)], ainv, lambda c: set_is(c, INT, lambda y: And(QX(A0(c), y), isfin(c, y, c.old))), modifies=lambda c: [finref(c)])

a_remove_edge = Fn("remove_edge", M + "remove_edge", lambda S: [automaton_obj(S), S.const(AED, "e")],
    lambda c: ainv_weak(c) + [("the transition is stored", is_tr(A(c))(c.t("e")))],
    lambda c: ainv_weak(c) + [asame_vertices(c), abound_kept(c),
        ("domain", ft(HAS(A(c), q, a) == And(HAS(A0(c), q, a), Not(And(q == asrc(c.t("e")), a == asym(c.t("e"))))), A(c), A0(c))),
        ("targets", ft(Implies(HAS(A(c), q, a), TGT(A(c), q, a) == TGT(A0(c), q, a)), A(c), A0(c)))],
    modifies=lambda c: [ref(c)], when=isau)

def a_rv(c, second):
    adj, adj0, uu = A(c), c.at("self", "adjacencies", c.entry), c.t("u")
    L = lambda x: c.it.key(x)
    gone = (lambda x, s: x == uu) if second else (lambda x, s: TGT(adj0, x, s) == uu)
    return ainv_weak(c) + [("states", fa([q], QX(adj, q) == QX(adj0, q))),
        ("only transitions touching u go", ft(HAS(adj, q, a) == And(HAS(adj0, q, a), Or(Not(gone(q, a)), HAS(adj, q, a))), adj, adj0)),
        ("targets", ft(Implies(HAS(adj, q, a), TGT(adj, q, a) == TGT(adj0, q, a)), adj, adj0)),
        ("the handled ones are gone", fa([j], Implies(And(0 <= j, j < c.k, (asrc if second else atgt)(L(j)) == uu), Not(is_tr(adj)(L(j)))), L(j))),
        ("the others are there", fa([j], Implies(And(c.k <= j, j < c.n), is_tr(adj)(L(j))), L(j)))]
a_remove_vertex = Fn("remove_vertex", G + "Graph.remove_vertex", lambda S: [automaton_obj(S), S.int("u")],
    lambda c: ainv_weak(c) + [("u is a state", QX(A(c), c.t("u")))],
    lambda c: ainv_weak(c) + [abound_kept(c), ("states", fa([q], QX(A(c), q) == And(QX(A0(c), q), q != c.t("u")))),
        ("domain", ft(HAS(A(c), q, a) == And(HAS(A0(c), q, a), q != c.t("u"), TGT(A0(c), q, a) != c.t("u")), A(c), A0(c))),
        ("targets", ft(Implies(HAS(A(c), q, a), TGT(A(c), q, a) == TGT(A0(c), q, a)), A(c), A0(c)))],
    modifies=lambda c: [ref(c)], uses=[a_remove_edge], when=isau,
    loops={(G + "Graph.remove_vertex", 0): LoopSpec(inv=lambda c: a_rv(c, False)), (G + "Graph.remove_vertex", 1): LoopSpec(inv=lambda c: a_rv(c, True))})

set_final = Fn("set_final", M + "set_final", lambda S: [automaton_obj(S), S.int("q"), S.const(BOOL, "is_final")], ainv,
    lambda c: [("finals", fa([r], isfin(c, r) == If(And(given(c, "q"), r == iv(c, "q")), c.eng.truth(c.st, c.v("is_final")), isfin(c, r, c.old))))], modifies=lambda c: [finref(c)], when=isau)
is_final = Fn("is_final", M + "is_final", lambda S: [automaton_obj(S), S.int("q")], ainv,
    lambda c: [("answer", c.eng.truth(c.st, c.res) == isfin(c, c.t("q"), c.old)), same_finals(c)], modifies=lambda c: [finref(c)], result=lambda c: B(c.eng.fresh(BOOL, "final", c.st)), when=isau)
set_initial = Fn("set_initial", M + "set_initial", lambda S: [automaton_obj(S), S.int("q"), S.const(BOOL, "is_initial")], ainv,
    lambda c: [("initial", INIT(c) == If(c.t("is_initial"), some(OI, c.t("q")), If(INIT(c, c.old) == some(OI, c.t("q")), none(OI), INIT(c, c.old))))], modifies=lambda c: [(c.v("self"), "q0")])
initial = Fn("initial", M + "initial", lambda S: [automaton_obj(S)], ainv, lambda c: [("the initial state", c.t(c.res, OI) == INIT(c, c.old))], modifies=lambda c: [], result=lambda c: c.eng.fresh_value(OI, "initial", c.st), when=isau)
is_initial = Fn("is_initial", M + "is_initial", lambda S: [automaton_obj(S), S.int("q")], ainv, lambda c: [("answer", c.eng.truth(c.st, c.res) == (INIT(c, c.old) == some(OI, c.t("q"))))], modifies=lambda c: [])

# ---------------------------------------------------------------- words
def run_of(c, name, adj, start, w):
    key = ("run", adj.get_id(), start.get_id(), (w if z3.is_expr(w) else c.t(w)).get_id())
    reg = c.eng.__dict__.setdefault("runs", {})
    if key in reg:
        for x in reg[key].axioms(): c.eng.assume(c.st, x)
        return reg[key]
    reg[key] = r_ = Run(c.eng, name, lambda o, s: STEP(adj, o, s), start, c.t(w) if not z3.is_expr(w) else w, W_)
    for x in r_.axioms(): c.eng.assume(c.st, x)
    return r_

def dead_stays(c, R):
    "once the run is lost it stays lost"
    f = z3.Function
    K0 = Int(c.eng.uid("lost"))
    # forall k. lost(k) -> forall j >= k. lost(j), by induction on the distance
    jj = Int("jj!d")
    P = lambda k_: fa([jj], Implies(And(0 <= jj, jj <= k_, is_none(OI, R(jj))), is_none(OI, R(k_))))
    induct(c, "a lost run stays lost", P, IntVal(0), hints=lambda K: [R.unfold(K)], pats=lambda k_: [R(k_)])

def run_setup(S, g, w):
    """ghost: the run of w from the initial state"""
    pass

def dw_pre(c):
    c.eng.R = run_of(c, "run", A(c), c.t("q", OI), c.v("w"))
    return ainv(c)
def dw_post(c):
    R = c.eng.R
    dead_stays(c, R)
    return [("the state reached by following the symbols", c.t(c.res, OI) == R(R.n))]
delta_word = Fn("delta_word", M + "delta_word", lambda S: [automaton_obj(S), S.const(OI, "q"), S.word(SY, "w")], dw_pre, dw_post, modifies=lambda c: [], uses=[delta],
    loops={(M + "delta_word", 0): LoopSpec(inv=lambda c: [("the run", c.t("q", OI) == c.eng.R(c.k))])})

def acc_pre(c):
    c.eng.R = run_of(c, "run", A(c), INIT(c), c.v("w"))
    return ainv(c)
def acc_post(c):
    R = c.eng.R
    dead_stays(c, R)
    return [("accepted exactly when the run ends in a final state", c.eng.truth(c.st, c.res) == And(is_some(OI, R(R.n)), isfin(c, optval(OI, R(R.n)), c.old))), same_finals(c)]
accepts = Fn("accepts", M + "accepts", lambda S: [automaton_obj(S), S.word(SY, "w")], acc_pre, acc_post, modifies=lambda c: [finref(c)],
    loops={(M + "delta_word", 0): LoopSpec(inv=lambda c: [("the run", c.t("q", OI) == c.eng.R(c.k))])})

def leads_to_state(c, x):
    init = INIT(c, c.old)
    return Implies(And(is_some(OI, init), QX(A0(c), optval(OI, init))), And(is_some(OI, x), QX(A0(c), optval(OI, x))))
def be_post(c):
    R = run_of(c, "run", A0(c), INIT(c, c.old), c.v("w"))
    qq, ii = c.eng.unpack(c.st, c.res, 2)
    qq, ii = c.t(qq, OI), c.t(ii)
    return [("symbols consumed", And(0 <= ii, ii <= R.n)), ("state", qq == R(ii)), ("no symbol lost", Implies(is_some(OI, R(0)), is_some(OI, R(ii)))),
            ("a state stays a state", leads_to_state(c, R(ii))),
            ("stops at the first missing transition", Implies(ii < R.n, is_none(OI, R(ii + 1))))]
best_effort = Fn("delta_best_effort", M + "delta_best_effort", lambda S: [automaton_obj(S), S.word(SY, "w")], acc_pre, be_post, modifies=lambda c: [], when=isau,
    result=lambda c: TupV([c.eng.fresh_value(OI, "be_q", c.st), c.eng.fresh_value(INT, "be_i", c.st)]),
    loops={(M + "delta_best_effort", 0): LoopSpec(inv=lambda c: [("the run", c.t("q", OI) == c.eng.R(c.k)), ("not lost", Implies(is_some(OI, c.eng.R(IntVal(0))), is_some(OI, c.eng.R(c.k)))),
                                                               ("a state stays a state", leads_to_state(c, c.t("q", OI)))])})

def ic_post(c):
    full = fa([q, r, a], Implies(And(QX(A0(c), q), HAS(A0(c), r, a)), HAS(A0(c), q, a)))
    return [("complete exactly when every state has a transition for every symbol of the alphabet", c.eng.truth(c.st, c.res) == full)]
is_complete = Fn("is_complete", M + "is_complete", lambda S: [automaton_obj(S)], ainv, ic_post, modifies=lambda c: [],
    loops={(M + "is_complete", 0): LoopSpec(inv=lambda c: [("full so far", fa([j, a], Implies(And(0 <= j, j < c.k), HAS(A0(c), c.it.key(j), a) == Select(c.t("alpha"), a)), rowpat(A0(c), c.it.key(j), a)))])})

# ---------------------------------------------------------------- insertion of a word in a tree-shaped automaton
p1, p2, s1, s2 = Int("p1"), Int("p2"), Const("s1", sort(SY)), Const("s2", sort(SY))
def tree_inv(c, st=None, g="self"):
    """every state is entered by at most one transition, the initial one by none; final states are states"""
    adj = c.at(g, "adjacencies", st)
    ini = optval(OI, INIT(c, st, g))
    return [("the initial state is a state", And(is_some(OI, INIT(c, st, g)), QX(adj, ini))),
            ("the initial state is not entered", fa([p1, s1], Implies(HAS(adj, p1, s1), TGT(adj, p1, s1) != ini), rowpat(adj, p1, s1))),
            ("each state is entered once", fa([p1, s1, p2, s2], Implies(And(HAS(adj, p1, s1), HAS(adj, p2, s2), TGT(adj, p1, s1) == TGT(adj, p2, s2)), And(p1 == p2, s1 == s2)), z3.MultiPattern(rowpat(adj, p1, s1), rowpat(adj, p2, s2)))),
            ("final states are states", fa([r], Implies(isfin(c, r, st, g), QX(adj, r))))]

def ins_setup(S):
    g = automaton_obj(S)
    S.eng.x = S.word(SY, "x")
    return [g, S.word(SY, "w")]
def ins_pre(c):
    c.eng.R = run_of(c, "run", A(c), INIT(c), c.v("w"))
    c.eng.X = run_of(c, "runx", A(c), INIT(c), c.eng.x)
    return ainv(c) + tree_inv(c)

def node(c, k_, i_):
    "the state at position k of w, once w is inserted (i: symbols already there)"
    l0 = c.at("self", "last_vertex_id", c.old)
    return If(k_ <= i_, optval(OI, c.eng.R(k_)), l0 + k_ - i_ - 1)

def ins_state(c, i_, done):
    """the automaton after the positions i..done-1 of w were added"""
    R, l0 = c.eng.R, c.at("self", "last_vertex_id", c.old)
    new = lambda q_, a_: Or(And(q_ == optval(OI, R(i_)), i_ < done, a_ == R.at(i_)), And(l0 <= q_, q_ < l0 + done - i_ - 1, a_ == Select(arr(W_, R.w), q_ - l0 + i_ + 1)))
    return [("next identifier", c.at("self", "last_vertex_id") == l0 + done - i_),
            ("states", fa([q], QX(A(c), q) == Or(QX(A0(c), q), And(l0 <= q, q < l0 + done - i_)), QX(A(c), q), QX(A0(c), q))),
            ("domain", ft(HAS(A(c), q, a) == Or(HAS(A0(c), q, a), new(q, a)), A(c), A0(c))),
            ("targets", ft(Implies(HAS(A(c), q, a), TGT(A(c), q, a) == If(HAS(A0(c), q, a), TGT(A0(c), q, a), If(And(l0 <= q, q < l0 + done - i_), q + 1, l0))), A(c), A0(c)))]

def ins_inv(c):
    i_ = c.t("i")
    R = c.eng.R
    first = [("the reading stopped in a state", leads_to_state(c, R(i_))),
             ("no transition where the reading stopped", Implies(And(is_some(OI, R(IntVal(0))), i_ < R.n), Not(HAS(A0(c), optval(OI, R(i_)), R.at(i_))))),
             ("identifiers given later have no transition", fa([q, a], Implies(q >= c.at("self", "last_vertex_id", c.old), Not(HAS(A0(c), q, a))), rowpat(A0(c), q, a)))]
    return ainv(c) + first + ins_state(c, i_, i_ + c.k) + [("current state", c.t("q", OI) == some(OI, node(c, i_ + c.k, i_)))]

def ins_post(c):
    e, st, R, X = c.eng, c.st, c.eng.R, c.eng.X
    i_ = c.eng.term(st, st.frames[e.toplevel_frame]["i"])
    Y = run_of(c, "runx_after", A(c), INIT(c), e.x)
    nw, nx = R.n, X.n
    A_w, A_x = arr(W_, R.w), arr(W_, X.w)
    pre_eq = lambda k_: fa([j], Implies(And(0 <= j, j < k_), Select(A_x, j) == Select(A_w, j)), Select(A_x, j), Select(A_w, j))
    dead_stays(c, R); dead_stays(c, X)
    inside = lambda RR, k_: Implies(is_some(OI, RR(k_)), QX(A0(c), optval(OI, RR(k_))))
    induct(c, "the run of w stays in the states", lambda k_: inside(R, k_), IntVal(0), hints=lambda K: [R.unfold(K)], pats=lambda k_: [R(k_)])
    induct(c, "the run of x stays in the states", lambda k_: inside(X, k_), IntVal(0), hints=lambda K: [X.unfold(K)], pats=lambda k_: [X(k_)])
    induct(c, "a common prefix leads to the same state", lambda k_: Implies(pre_eq(k_), X(k_) == R(k_)), IntVal(0), hints=lambda K: [X.unfold(K), R.unfold(K), X.at(K) == X.at(K)], pats=lambda k_: [X(k_)])
    m = Int("m!t")
    same = lambda k_: fa([m], Implies(And(0 <= m, is_some(OI, X(k_)), X(k_) == R(m)), And(m == k_, pre_eq(k_))), R(m))
    m1 = Int("m1!t")
    induct(c, "only the empty word leads to the initial state", lambda k_: Implies(k_ > 0, R(k_) != INIT(c, c.old)), IntVal(0), hints=lambda K: [R.unfold(K)], pats=lambda k_: [R(k_)])
    induct(c, "a state is reached by one word only", same, IntVal(0), hints=lambda K: [X.unfold(K), fa([m1], Implies(m1 >= 0, R.unfold(m1)), R(m1 + 1)), R(IntVal(0)) == R(IntVal(0)), fa([m1], Implies(m1 > 0, R.unfold(m1 - 1)), R(m1))], pats=lambda k_: [X(k_)])
    after = lambda k_: Y(k_) == If(is_some(OI, X(k_)), X(k_), If(And(k_ > i_, k_ <= nw, pre_eq(k_)), some(OI, node(c, k_, i_)), none(OI)))
    induct(c, "the runs after the insertion", after, IntVal(0), hints=lambda K: [X.unfold(K), Y.unfold(K), R.unfold(K), R.unfold(i_), X.unfold(i_)], pats=lambda k_: [Y(k_)])
    acc = lambda RR, s_: And(is_some(OI, RR(nx)), isfin(c, optval(OI, RR(nx)), s_))
    eqw = And(nx == nw, pre_eq(nx))
    l0 = c.at("self", "last_vertex_id", c.old)
    return ainv(c) + tree_inv(c) + [("the language grows by exactly the word", acc(Y, st) == Or(acc(X, c.old), eqw)),
        ("words lead where they led before, and the prefixes of the word to a state", And(Implies(is_some(OI, X(nx)), Y(nx) == X(nx)), is_some(OI, Y(nx)) == Or(is_some(OI, X(nx)), And(nx <= nw, pre_eq(nx))))),
        ("each new state is that of a prefix of the word", And(fa([q], Implies(And(QX(A(c), q), Not(QX(A0(c), q))), And(l0 <= q, q < l0 + nw - i_)), QX(A(c), q)),
            Implies(And(i_ < nx, nx <= nw, pre_eq(nx)), Y(nx) == some(OI, l0 + nx - i_ - 1))))]

insert_string = Fn("automaton_insert_string", M + "automaton_insert_string", ins_setup, ins_pre, ins_post, uses=[best_effort, a_add_vertex, a_add_edge, set_final],
    modifies=lambda c: [ref(c), (c.v("self"), "last_vertex_id"), finref(c)],
    loops={(M + "automaton_insert_string", 0): LoopSpec(inv=ins_inv)})

# ---------------------------------------------------------------- construction
def new_automaton(S, c=AU):
    g = S.obj(c)
    return [g, S.int("num_vertices"), S.int("q0")]
def acon_inv(c, k_):
    return [("next", c.at("self", "last_vertex_id") == k_), ("states", fa([q], QX(A(c), q) == And(0 <= q, q < k_))), ("no transition", ft(Not(HAS(A(c), q, a)), A(c)))]
a_constructor = Fn("constructor", M + "__init__", new_automaton, lambda c: [("size", c.t("num_vertices") >= 0)],
    lambda c: ainv(c) + acon_inv(c, c.t("num_vertices")) + [("the initial state", INIT(c) == some(OI, c.t("q0"))), ("no final state", fa([q], Not(isfin(c, q))))],
    uses=[a_add_vertex], types={"adjacencies": DADJ, "map_vfinal": FIN},
    loops={(G + "Graph.__init__", 0): LoopSpec(inv=lambda c: ainv(c) + acon_inv(c, c.k))})
is_det = Fn("is_deterministic", M + "is_deterministic", lambda S: [], lambda c: [], lambda c: [("by construction", c.eng.truth(c.st, c.res))])
