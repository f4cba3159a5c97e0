"""Contracts of the non-deterministic automaton (pybgl.nfa): a finite set of transitions (state, symbol, state)."""
from contracts.graphs import *
NFA = cls("nfa:Nfa")
PMAP = cls("property_map:AssocPropertyMap")
N = "pybgl.nfa:Nfa."
SY = SYM("Sym")
NADJ = MAP(INT, MAP(SY, MAP(INT, SET(INT)))); B2 = NADJ.args[1]; B3 = B2.args[1]
NED = REC("EdgeDescriptor", ["source", "target", "distinguisher"], INT, INT, TUP(SY, INT))
TRI = TUP(INT, SY, INT)
FIN = DMAP(INT, BOOL)
W_ = WORD(SY)
IS = SET(INT)
a, b = Consts("a b", sort(SY))

def QX(adj, x): return Select(dom(NADJ, adj), x)
def QROW(adj, x): return Select(val(NADJ, adj), x)
def SYMD(adj, x, s): return Select(dom(B2, QROW(adj, x)), s)
def SROW(adj, x, s): return Select(val(B2, QROW(adj, x)), s)
def TD(adj, x, s, y): return Select(dom(B3, SROW(adj, x, s)), y)
def TRN(adj, x, s, y): return And(QX(adj, x), SYMD(adj, x, s), TD(adj, x, s, y))
def NCELL(adj, x, s, y): return Select(val(B3, SROW(adj, x, s)), y)
def fn_(body, *adjs): return ForAll([q, a, r], body, patterns=[TD(x, q, a, r) for x in adjs])
def A(c, g="self"): return c.at(g, "adjacencies")
def A0(c, g="self"): return c.at(g, "adjacencies", c.old)
def ref(c, g="self"): return c.attr(g, "adjacencies")
def nsrc(e): return fld(NED, e, 0)
def ntgt(e): return fld(NED, e, 1)
def nsym(e): return fld(TUP(SY, INT), fld(NED, e, 2), 0)
def nnum(e): return fld(TUP(SY, INT), fld(NED, e, 2), 1)
def tri(e): return mk(TRI, nsrc(e), nsym(e), ntgt(e))
def is_tri(adj): return lambda t: TRN(adj, fld(TRI, t, 0), fld(TRI, t, 1), fld(TRI, t, 2))
def finref(c, g="self"): return c.attr(c.attr(g, "pmap_vfinal"), "d")
def FN(c, st=None, g="self"): return c.named(c.eng.term(st or c.st, finref(c, g)))
def isfin(c, x, st=None, g="self"): return Select(val(FIN, FN(c, st, g)), x)
def iniref(c, g="self"): return c.attr(g, "initials")
def INI(c, st=None, g="self"): return c.named(c.eng.term(st or c.st, iniref(c, g)))
def EPS(c, g="self"): return c.t(c.attr(g, "epsilon"))

def nfa_obj(S, k=NFA):
    fin = S.cont(FIN, "fin")
    return S.obj(k, directed=B(True), last_vertex_id=S.int("last"), adjacencies=S.cont(NADJ, "adj"), initials=S.cont(IS, "initials"), pmap_vfinal=S.obj(PMAP, d=fin), epsilon=S.const(SY, "epsilon"))
isnfa = is_class("self", NFA)

def nbound(adj, last): return And(last >= 0, fa([q], Implies(QX(adj, q), And(0 <= q, q < last)), QX(adj, q)))
def nwk(c, g="self"):
    adj = A(c, g)
    return [("invariant: targets are states", fn_(Implies(TRN(adj, q, a, r), QX(adj, r)), adj)),
            ("invariant: no empty bundle", And(fn_(Implies(TRN(adj, q, a, r), NCELL(adj, q, a, r) != EMPTYSET), adj), fa([q, a], Implies(And(QX(adj, q), SYMD(adj, q, a)), Exists([r], TD(adj, q, a, r))), SYMD(adj, q, a))))]
def ninv(c, g="self"):
    return nwk(c, g) + [("invariant: identifiers in use are below the next one", nbound(A(c, g), c.at(g, "last_vertex_id")))]
def nsame_vertices(c): return ("states are unchanged", fa([q], QX(A(c), q) == QX(A0(c), q), QX(A(c), q), QX(A0(c), q)))
def nsame_tr(c): return ("transitions are unchanged", fn_(TRN(A(c), q, a, r) == TRN(A0(c), q, a, r), A(c), A0(c)))
def nbound_kept(c): return ("identifiers stay below the next one", Implies(nbound(A0(c), c.at("self", "last_vertex_id", c.old)), nbound(A(c), c.at("self", "last_vertex_id"))))

n_add_vertex = Fn("add_vertex", G + "Graph.add_vertex", lambda S: [nfa_obj(S)], ninv,
    lambda c: ninv(c) + [("the identifier was free", And(Not(QX(A0(c), c.t(c.res))), c.t(c.res) >= 0)), ("states", fa([q], QX(A(c), q) == Or(QX(A0(c), q), q == c.t(c.res)), QX(A(c), q), QX(A0(c), q))),
        ("identifiers", And(c.t(c.res) == c.at("self", "last_vertex_id", c.old), c.at("self", "last_vertex_id") == c.t(c.res) + 1)), nsame_tr(c)],
    modifies=lambda c: [ref(c), (c.v("self"), "last_vertex_id")], result=lambda c: c.eng.fresh_value(INT, "vid", c.st), when=isnfa)
def n_add_edge_post(c):
    e, added = c.eng.unpack(c.st, c.res, 2); t = c.t(e, NED); uu, vv, s = c.t("q"), c.t("r"), c.t("a")
    return ninv(c) + [nsame_vertices(c), ("accepted", c.eng.truth(c.st, added)), ("the edge returned", And(tri(t) == mk(TRI, uu, s, vv))),
        ("transitions", fn_(TRN(A(c), q, a, r) == Or(TRN(A0(c), q, a, r), And(q == uu, a == s, r == vv)), A(c), A0(c)))]
n_add_edge = Fn("add_edge", N + "add_edge", lambda S: [nfa_obj(S), S.int("q"), S.int("r"), S.const(SY, "a")], lambda c: ninv(c) + [("q is a state", QX(A(c), c.t("q"))), ("r is a state", QX(A(c), c.t("r")))], n_add_edge_post,
    modifies=lambda c: [ref(c)], when=isnfa, result=lambda c: TupV([c.eng.fresh_value(NED, "edge", c.st), B(c.eng.fresh(BOOL, "added", c.st))]))
n_remove_edge = Fn("remove_edge", N + "remove_edge", lambda S: [nfa_obj(S), S.const(NED, "e")], nwk,
    lambda c: nwk(c) + [nsame_vertices(c), nbound_kept(c), ("transitions", fn_(TRN(A(c), q, a, r) == And(TRN(A0(c), q, a, r), Not(mk(TRI, q, a, r) == tri(c.t("e")))), A(c), A0(c)))],
    modifies=lambda c: [ref(c)], when=isnfa)
def n_rv(c, gone):
    adj, adj0, uu = A(c), c.at("self", "adjacencies", c.entry), c.t("u")
    L = lambda x: c.it.key(x)
    return nwk(c) + [nbound_kept(c), ("states", fa([q], QX(adj, q) == QX(adj0, q), QX(adj, q), QX(adj0, q))),
        ("only transitions touching u go", fn_(TRN(adj, q, a, r) == And(TRN(adj0, q, a, r), Or(Not(gone(q, r, uu)), TRN(adj, q, a, r))), adj, adj0)),
        ("the handled ones are gone", fa([j], Implies(And(0 <= j, j < c.k, gone(nsrc(L(j)), ntgt(L(j)), uu)), Not(is_tri(adj)(tri(L(j))))), L(j)))]
n_remove_vertex = Fn("remove_vertex", G + "Graph.remove_vertex", lambda S: [nfa_obj(S), S.int("u")], lambda c: nwk(c) + [("u is a state", QX(A(c), c.t("u")))],
    lambda c: nwk(c) + [nbound_kept(c), ("states", fa([q], QX(A(c), q) == And(QX(A0(c), q), q != c.t("u")))), ("transitions", fn_(TRN(A(c), q, a, r) == And(TRN(A0(c), q, a, r), q != c.t("u"), r != c.t("u")), A(c), A0(c)))],
    modifies=lambda c: [ref(c)], uses=[n_remove_edge], when=isnfa,
    loops={(G + "Graph.remove_vertex", 0): LoopSpec(inv=lambda c: n_rv(c, lambda x, y, w: y == w)), (G + "Graph.remove_vertex", 1): LoopSpec(inv=lambda c: n_rv(c, lambda x, y, w: x == w))})
def tri_list(c, member):
    n_, at = as_list(c, ety=NED)
    return enumerates(n_, lambda i_: tri(at(i_)), TRI, member)
def n_listing(name, key, member, args=lambda S: []):
    return Fn(name, key, lambda S: [nfa_obj(S)] + args(S), ninv, lambda c: tri_list(c, member(c)), modifies=lambda c: [], consume=to_list)
n_edges = n_listing("edges", N + "edges", lambda c: is_tri(A0(c)))
n_out_edges = n_listing("out_edges", N + "out_edges", lambda c: lambda t: And(is_tri(A0(c))(t), fld(TRI, t, 0) == c.t("q")), lambda S: [S.int("q")])

def set_is(c, ty, member, x=None):
    x = c.res if x is None else x
    t = c.t(x, None) if c.eng.typeof(c.st, x).kind != "Untyped" else empty(SET(ty))
    y = Const("y!m", sort(ty))
    return [("exactly", fa([y], Select(t, y) == member(y), Select(t, y)))]
n_alphabet = Fn("alphabet", N + "alphabet", lambda S: [nfa_obj(S)], ninv, lambda c: set_is(c, SY, lambda y: And(y != EPS(c), Exists([q, r], TRN(A0(c), q, y, r)))), modifies=lambda c: [])

# ---------------------------------------------------------------- sets of states
# STEP(S, s): targets of s from S.  CL(S): the least set that contains S and is closed under empty moves.
def theory(c, adj, eps):
    key = ("nfa-theory", adj.get_id(), eps.get_id())
    reg = c.eng.__dict__.setdefault("theories", {})
    if key not in reg:
        ss = sort(IS)
        reg[key] = (z3.Function(c.eng.uid("STEP"), ss, sort(SY), ss), z3.Function(c.eng.uid("CL"), ss, ss), z3.Function(c.eng.uid("candidate"), ss, z3.BoolSort()), z3.Function(c.eng.uid("wit"), ss, sort(SY), z3.IntSort(), z3.IntSort()), adj, eps)
    STEP, CL, CAND, WIT, _, _ = reg[key]
    S1, X1 = Consts("S1 X1", sort(IS))
    ax = [ForAll([S1, a, r], Select(STEP(S1, a), r) == And(Select(S1, WIT(S1, a, r)), TRN(adj, WIT(S1, a, r), a, r)), patterns=[Select(STEP(S1, a), r)]),
          ForAll([S1, a, q, r], Implies(And(Select(S1, q), TRN(adj, q, a, r)), Select(STEP(S1, a), r)), patterns=[z3.MultiPattern(STEP(S1, a), TD(adj, q, a, r))]),
          ForAll([S1, q], Implies(Select(S1, q), Select(CL(S1), q)), patterns=[z3.MultiPattern(CL(S1), Select(S1, q))]),
          ForAll([S1, q, r], Implies(And(Select(CL(S1), q), TRN(adj, q, eps, r)), Select(CL(S1), r)), patterns=[z3.MultiPattern(Select(CL(S1), q), TD(adj, q, eps, r))]),
          # least: every candidate set that contains S and is closed contains CL(S)
          ForAll([S1, X1], Implies(And(CAND(X1), fa([q], Implies(Select(S1, q), Select(X1, q))), fa([q, r], Implies(And(Select(X1, q), TRN(adj, q, eps, r)), Select(X1, r)))), fa([q], Implies(Select(CL(S1), q), Select(X1, q)), Select(CL(S1), q))), patterns=[z3.MultiPattern(CAND(X1), CL(S1))])]
    for x in ax: c.eng.assume(c.st, x)
    return reg[key]
def candidate(c, T, X):
    "considers X in the definition of the closures"
    c.eng.assume(c.st, T[2](X))

def one_pre(c):
    c.eng.T = theory(c, A(c), EPS(c)); return ninv(c)
def setres(c, want, x=None):
    x = c.res if x is None else x
    t = c.t(x, None) if c.eng.typeof(c.st, x).kind != "Untyped" else EMPTYSET
    return fa([r], Select(t, r) == Select(want, r), Select(t, r), Select(want, r))
n_one_step = Fn("delta_one_step", N + "delta_one_step", lambda S: [nfa_obj(S), S.cont(IS, "qs"), S.const(SY, "a")], one_pre,
    lambda c: [("the targets of the transitions on the symbol", setres(c, theory(c, A0(c), EPS(c))[0](c.told("qs"), c.t("a"))))], modifies=lambda c: [], when=isnfa, result=lambda c: new(c, IS, "step"))

def tcur(c, name):
    x = c.v(name)
    return c.t(x) if c.eng.typeof(c.st, x).kind != "Untyped" else EMPTYSET
def closed(adj, X, eps): return fa([q, r], Implies(And(Select(X, q), TRN(adj, q, eps, r)), Select(X, r)))
def eps_inv(c):
    T = theory(c, A0(c), EPS(c)); adj = A0(c)
    qs0, ret, new = c.told("qs"), tcur(c, "ret"), tcur(c, "qs_new")
    C = T[1](qs0)
    return [("only reachable ones", And(fa([q], Implies(Select(ret, q), Select(C, q)), Select(ret, q)), fa([q], Implies(Select(new, q), Select(C, q)), Select(new, q)))),
            ("the starts", fa([q], Implies(Select(qs0, q), Or(Select(ret, q), Select(new, q))), Select(qs0, q))),
            ("successors of the states kept", fa([q, r], Implies(And(Select(ret, q), TRN(adj, q, EPS(c), r)), Or(Select(ret, r), Select(new, r))), z3.MultiPattern(Select(ret, q), TD(adj, q, EPS(c), r))))]
def eps_post(c):
    T = theory(c, A0(c), EPS(c))
    X = c.t(c.res) if c.eng.typeof(c.st, c.res).kind != "Untyped" else EMPTYSET
    candidate(c, T, X)
    return [("the least set closed under empty moves", setres(c, T[1](c.told("qs"))))]
n_epsilon = Fn("delta_epsilon", N + "delta_epsilon", lambda S: [nfa_obj(S), S.cont(IS, "qs")], one_pre, eps_post, modifies=lambda c: [], when=isnfa, uses=[n_one_step], result=lambda c: new(c, IS, "closure"),
    loops={(N + "delta_epsilon", 0): LoopSpec(inv=eps_inv)}, types={"ret": IS})
single = lambda x: z3.Store(EMPTYSET, x, True)
def DELTA(T, x, s): return T[1](T[0](T[1](single(x)), s))
n_delta = Fn("delta", N + "delta", lambda S: [nfa_obj(S), S.int("q"), S.const(SY, "a")], one_pre,
    lambda c: [("empty moves, the symbol, empty moves", setres(c, DELTA(theory(c, A0(c), EPS(c)), c.t("q"), c.t("a"))))], modifies=lambda c: [], when=isnfa, uses=[n_one_step, n_epsilon], result=lambda c: new(c, IS, "delta"))
n_sigma = Fn("sigma", N + "sigma", lambda S: [nfa_obj(S), S.int("q")], one_pre,
    lambda c: set_is(c, SY, lambda y: And(y != EPS(c), Exists([q, r], And(Select(theory(c, A0(c), EPS(c))[1](single(c.t("q"))), q), TRN(A0(c), q, y, r))))), modifies=lambda c: [], uses=[n_epsilon])
ss = sort(IS)
S1, X1 = Consts("S1 X1", ss)
def delta_lemmas(c, T):
    """the union of delta over a closed set is the closure of the step from that set"""
    STEP, CL, CAND, _, adj, eps = T
    e = c.eng
    reg = e.__dict__.setdefault("unions", {})
    if T[2].get_id() not in reg:
        reg[T[2].get_id()] = z3.Function(e.uid("UN"), ss, sort(SY), ss), z3.Function(e.uid("unwit"), ss, sort(SY), z3.IntSort(), z3.IntSort())
    UN, WIT = reg[T[2].get_id()]
    # UN(S, s): the states of delta(q, s), q in CL(S)
    e.assume(c.st, ForAll([S1, a, r], Implies(Select(UN(S1, a), r), And(Select(CL(S1), WIT(S1, a, r)), Select(DELTA(T, WIT(S1, a, r), a), r))), patterns=[Select(UN(S1, a), r)]))
    e.assume(c.st, ForAll([S1, a, q, r], Implies(And(Select(CL(S1), q), Select(DELTA(T, q, a), r)), Select(UN(S1, a), r)), patterns=[z3.MultiPattern(UN(S1, a), Select(DELTA(T, q, a), r))]))
    e.assume(c.st, ForAll([S1], CAND(S1), patterns=[CAND(S1)]))
    Sel = Select
    in_ = lambda S, q_: Sel(S, q_)
    x_, y_ = Ints("x!c y!c")
    closed_ = lambda X: fa([x_, y_], Implies(And(in_(X, x_), TRN(adj, x_, eps, y_)), in_(X, y_)), z3.MultiPattern(in_(X, x_), TD(adj, x_, eps, y_)))
    least = lambda S, X: Implies(And(fa([x_], Implies(in_(S, x_), in_(X, x_))), closed_(X)), fa([x_], Implies(in_(CL(S), x_), in_(X, x_)), in_(CL(S), x_)))
    clo = lambda S: closed_(CL(S))
    # CL, STEP are least closures and images: instances of the definitions, for arbitrary S1, a, q, r
    forall_lemma(c, "a closure contains the closures of its states", [S1, q], [in_(CL(S1), q)], fa([r], Implies(in_(CL(single(q)), r), in_(CL(S1), r)), in_(CL(single(q)), r)), [z3.MultiPattern(CL(S1), CL(single(q)))],
        ctx=[], hints=[least(single(q), CL(S1)), clo(S1)])
    w = Int("w!d")
    D = lambda q_: DELTA(T, q_, a)
    C1, C2 = STEP(CL(S1), a), CL(STEP(CL(S1), a))
    stepin = lambda S, q_, r_: Implies(And(in_(S, q_), TRN(adj, q_, a, r_)), in_(STEP(S, a), r_))
    stepout = lambda S, r_: Implies(in_(STEP(S, a), r_), And(in_(S, T[3](S, a, r_)), TRN(adj, T[3](S, a, r_), a, r_)))
    forall_lemma(c, "a step of delta is a step of the closure", [S1, a, q, r], [in_(CL(S1), q), in_(STEP(CL(single(q)), a), r)], in_(C1, r), [z3.MultiPattern(C1, in_(STEP(CL(single(q)), a), r))],
        ctx=[], hints=[stepout(CL(single(q)), r), stepin(CL(S1), T[3](CL(single(q)), a, r), r), fa([w], Implies(in_(CL(single(q)), w), in_(CL(S1), w)))])
    forall_lemma(c, "delta stays in the closure of the step", [S1, a, q, r], [in_(CL(S1), q), in_(D(q), r)], in_(C2, r), [z3.MultiPattern(C2, in_(D(q), r))],
        ctx=[], hints=[fa([w], Implies(in_(STEP(CL(single(q)), a), w), in_(C1, w))), fa([w], Implies(in_(C1, w), in_(C2, w))), least(STEP(CL(single(q)), a), C2), clo(C1)])
    un1 = lambda r_: Implies(in_(UN(S1, a), r_), And(in_(CL(S1), WIT(S1, a, r_)), in_(D(WIT(S1, a, r_)), r_)))
    un2 = lambda q_, r_: Implies(And(in_(CL(S1), q_), in_(D(q_), r_)), in_(UN(S1, a), r_))
    W1 = T[3](CL(S1), a, r)
    forall_lemma(c, "the step is covered by delta", [S1, a, r], [in_(C1, r)], in_(UN(S1, a), r), [z3.MultiPattern(UN(S1, a), in_(C1, r))],
        ctx=[], hints=[stepout(CL(S1), r), Implies(in_(single(W1), W1), in_(CL(single(W1)), W1)), stepin(CL(single(W1)), W1, r), Implies(in_(STEP(CL(single(W1)), a), r), in_(D(W1), r)), un2(W1, r)])
    W2 = WIT(S1, a, q)
    forall_lemma(c, "delta is closed under empty moves", [S1, a, q, r], [in_(UN(S1, a), q), TRN(adj, q, eps, r)], in_(UN(S1, a), r), [z3.MultiPattern(in_(UN(S1, a), q), TD(adj, q, eps, r))],
        ctx=[], hints=[un1(q), un2(W2, r), Implies(And(in_(D(W2), q), TRN(adj, q, eps, r)), in_(D(W2), r))])
    forall_lemma(c, "the closure of the step is covered by delta", [S1, a, r], [in_(C2, r)], in_(UN(S1, a), r), [in_(C2, r)],
        ctx=[], hints=[least(C1, UN(S1, a)), fa([w], Implies(in_(C1, w), in_(UN(S1, a), w))), closed_(UN(S1, a))])
    forall_lemma(c, "nothing is reached from nothing", [S1, a], [fa([r], Not(in_(CL(S1), r)))], fa([r], Not(in_(C2, r)), in_(C2, r)), [C2],
        ctx=[], hints=[least(C1, EMPTYSET), fa([r], stepout(CL(S1), r))])
def PRUN(c, T, start, w):
    "the states reached by the prefixes of w: f(0) = CL(start), f(k+1) = CL(STEP(f(k), w[k]))"
    key = ("prun", T[2].get_id(), start.get_id(), w.get_id())
    reg = c.eng.__dict__.setdefault("pruns", {})
    if key not in reg: reg[key] = z3.Function(c.eng.uid("G"), z3.IntSort(), ss)
    g_ = reg[key]; k_ = Int("k!p")
    c.eng.assume(c.st, g_(0) == start)
    c.eng.assume(c.st, ForAll([k_], Implies(k_ >= 0, g_(k_ + 1) == T[0](T[1](g_(k_)), seqat(W_, w, k_))), patterns=[seqat(W_, w, k_)]))
    return lambda k_: T[1](g_(k_))
def ndw_setup(S): return [nfa_obj(S), S.word(SY, "w")]
def ndw_ctx(c):
    T = theory(c, A0(c), EPS(c))
    return T, PRUN(c, T, INI(c, c.old), c.told("w"))
def ndw_pre(c):
    r_ = one_pre(c)
    delta_lemmas(c, c.eng.T)
    return r_
def ndw_inv(c):
    T, f = ndw_ctx(c)
    X = c.named(tcur(c, "qs"))
    return [("the states reached by the prefix", fa([r], Select(X, r) == Select(f(c.k), r), Select(X, r), Select(f(c.k), r)))]
def ndw_post(c):
    T, f = ndw_ctx(c); w = c.told("w")
    emp = lambda S: fa([r], Not(Select(S, r)), Select(S, r))
    k2 = Int("k!e")
    induct(c, "nothing is reached any more", lambda k_: fa([j], Implies(And(0 <= j, j <= k_, emp(f(j))), emp(f(k_))), f(j)), IntVal(0), hints=lambda K: [f(K + 1) == T[1](T[0](f(K), seqat(W_, w, K))), Implies(emp(f(K)), emp(T[1](T[0](f(K), seqat(W_, w, K)))))], pats=lambda k_: [f(k_)], ctx=[])
    return [("the states reached by the word", setres(c, f(seqlen(W_, w))))]
n_delta_word = Fn("delta_word", N + "delta_word", ndw_setup, ndw_pre, ndw_post, modifies=lambda c: [], when=isnfa, uses=[n_delta, n_epsilon], result=lambda c: new(c, IS, "reached"),
    loops={(N + "delta_word", 0): LoopSpec(inv=ndw_inv)})
def nsame_finals(c): return ("finals are unchanged", fa([q], isfin(c, q) == isfin(c, q, c.old), isfin(c, q), isfin(c, q, c.old)))
def nacc_post(c):
    T, f = ndw_ctx(c); S_ = f(seqlen(W_, c.told("w")))
    return [("accepted exactly when a final state is reached", c.eng.truth(c.st, c.res) == Exists([q], And(Select(S_, q), isfin(c, q, c.old)))), nsame_finals(c)]
n_accepts = Fn("accepts", N + "accepts", ndw_setup, one_pre, nacc_post, modifies=lambda c: [finref(c)], uses=[n_delta_word])
n_set_final = Fn("set_final", N + "set_final", lambda S: [nfa_obj(S), S.int("q"), S.const(BOOL, "is_final")], ninv, lambda c: [("finals", fa([r], isfin(c, r) == If(r == c.t("q"), c.eng.truth(c.st, c.v("is_final")), isfin(c, r, c.old))))], modifies=lambda c: [finref(c)], when=isnfa)
n_is_final = Fn("is_final", N + "is_final", lambda S: [nfa_obj(S), S.int("q")], ninv, lambda c: [("answer", c.eng.truth(c.st, c.res) == isfin(c, c.t("q"), c.old)), nsame_finals(c)], modifies=lambda c: [finref(c)], when=isnfa, result=lambda c: B(c.eng.fresh(BOOL, "final", c.st)))
n_finals = Fn("finals", N + "finals", lambda S: [nfa_obj(S)], ninv, lambda c: enumerates(*as_list(c, ety=INT), INT, lambda x: And(QX(A0(c), x), isfin(c, x, c.old))), modifies=lambda c: [finref(c)], consume=to_list)
n_set_initial = Fn("set_initial", N + "set_initial", lambda S: [nfa_obj(S), S.int("q"), S.const(BOOL, "is_initial")], ninv, lambda c: [("initials", fa([r], Select(INI(c), r) == If(r == c.t("q"), c.eng.truth(c.st, c.v("is_initial")), Select(INI(c, c.old), r))))], modifies=lambda c: [iniref(c)])
n_is_initial = Fn("is_initial", N + "is_initial", lambda S: [nfa_obj(S), S.int("q")], ninv, lambda c: [("answer", c.eng.truth(c.st, c.res) == Select(INI(c, c.old), c.t("q")))], modifies=lambda c: [])
n_set_initials = Fn("set_initials", N + "set_initials", lambda S: [nfa_obj(S), S.cont(IS, "q0s")], ninv, lambda c: [("initials", fa([r], Select(INI(c), r) == Select(c.told("q0s"), r))), ("the argument is not shared", BoolVal(iniref(c).loc != c.v("q0s").loc))], modifies=lambda c: [(c.v("self"), "initials")])
n_label = Fn("label", N + "label", lambda S: [nfa_obj(S), S.const(NED, "e")], ninv, lambda c: [("the symbol", c.t(c.res) == nsym(c.t("e")))], modifies=lambda c: [])
n_is_eps = Fn("is_epsilon_transition", N + "is_epsilon_transition", lambda S: [nfa_obj(S), S.const(NED, "e")], ninv, lambda c: [("answer", c.eng.truth(c.st, c.res) == (nsym(c.t("e")) == EPS(c)))], modifies=lambda c: [])
def tri_counted(c, member):
    it = c.st.notes.get(("it", G + "__len_gen__", 0)); res = c.t(c.res)
    t_ = Const("t!m", sort(TRI))
    if it is None: return [("no member, count zero", And(res == 0, fa([t_], Not(member(t_)))))]
    return [("the count is that of the enumeration", res == it.n)] + enumerates(it.n, lambda i_: tri(it.key(i_)), TRI, member, "counted")
n_num_edges = Fn("num_edges", G + "Graph.num_edges", lambda S: [nfa_obj(S)], ninv, lambda c: tri_counted(c, is_tri(A0(c))), modifies=lambda c: [], loops=LEN_GEN)
n_out_degree = Fn("out_degree", G + "Graph.out_degree", lambda S: [nfa_obj(S), S.int("u")], ninv, lambda c: tri_counted(c, lambda t: And(is_tri(A0(c))(t), fld(TRI, t, 0) == c.t("u"))), modifies=lambda c: [], loops=LEN_GEN)
n_vertices = Fn("vertices", G + "Graph.vertices", lambda S: [nfa_obj(S)], ninv, lambda c: enumerates(*as_list(c, ety=INT), INT, lambda x: QX(A0(c), x)), modifies=lambda c: [], consume=to_list)
def new_nfa(ini):
    def f(S): return [S.obj(NFA), S.int("num_vertices")] + ([S.cont(IS, "initials")] if ini else [])
    return f
def ncon(c, k_): return ninv(c) + [("next", c.at("self", "last_vertex_id") == k_), ("states", fa([q], QX(A(c), q) == And(0 <= q, q < k_), QX(A(c), q))), ("no transition", fn_(Not(TRN(A(c), q, a, r)), A(c)))]
NT = {"adjacencies": NADJ, "map_vfinal": FIN, "initials": IS}
NGI = LoopSpec(inv=lambda c: ncon(c, c.k))
n_constructor = Fn("constructor", N + "__init__", new_nfa(False), lambda c: [("size", c.t("num_vertices") >= 0)],
    lambda c: ncon(c, c.t("num_vertices")) + [("initial state 0", fa([q], Select(INI(c), q) == (q == 0))), ("no final state", fa([q], Not(isfin(c, q))))], uses=[n_add_vertex], types=NT, loops={(G + "DirectedGraph.__init__", 0): NGI, (G + "Graph.__init__", 0): NGI})
n_constructor_i = Fn("constructor with initial states", N + "__init__", new_nfa(True), lambda c: [("size", c.t("num_vertices") >= 0)],
    lambda c: ncon(c, c.t("num_vertices")) + [("initial states", Implies(Exists([q], Select(c.told("initials"), q)), fa([q], Select(INI(c), q) == Select(c.told("initials"), q)))), ("no final state", fa([q], Not(isfin(c, q))))], uses=[n_add_vertex], types=NT, loops={(G + "Graph.__init__", 0): NGI})
NALL = [n_constructor, n_constructor_i, n_add_vertex, n_add_edge, n_remove_edge, n_remove_vertex, n_vertices, n_edges, n_out_edges, n_num_edges, n_out_degree, n_alphabet, n_one_step, n_epsilon, n_delta, n_sigma, n_delta_word, n_accepts,
    n_set_final, n_is_final, n_finals, n_set_initial, n_is_initial, n_set_initials, n_label, n_is_eps]
