"""Contracts of the automaton with symbols on states that reports incoming edges."""
from contracts.nodeautomata import *
INA = cls("incidence_node_automaton:IncidenceNodeAutomaton")
PN = "pybgl.incidence_node_automaton:IncidenceNodeAutomaton."
PRED = DMAP(INT, SET(INT))
_isin = is_class("self", INA)
def isin(eng, st, a_): return _isin(eng, st, a_) and isna(eng, st, a_)
def in_obj(S):
    g = na_obj(S, INA)
    S.st.objs[g.oid][1]["predecessors"] = S.cont(PRED, "pred")
    return g
def pref(c, g="self"): return c.attr(g, "predecessors")
def PR(c, st=None): return c.named(c.eng.term(st or c.st, pref(c)))
def pdom(c, x, st=None): return Select(dom(PRED, PR(c, st)), x)
def prow(c, x, st=None): return Select(val(PRED, PR(c, st)), x)
def pin(c, x, y, st=None): return Select(prow(c, x, st), y)
def nmirror(c):
    adj = A(c)
    return [("mirror: every transition is seen from its target", ft(Implies(HAS(adj, q, a), pin(c, TGT(adj, q, a), q)), adj)),
            ("mirror: every predecessor has the transition", fa([r, q], Implies(pin(c, r, q), TR(adj, q, sym(c, r), r)), pin(c, r, q))),
            ("mirror: absent entries are empty", fa([r], Implies(Not(pdom(c, r)), prow(c, r) == EMPTYSET), prow(c, r)))]
inwk = lambda c: nweak(c) + nmirror(c)
inin = lambda c: ninv(c) + nmirror(c)
INM = lambda c: NM(c) + [pref(c)]
INMV = lambda c: INM(c) + [(c.v("self"), "last_vertex_id")]
def nderive(f, key, cl, **kw):
    d = dict(modifies=INM, result=f.result, when=isin); d.update(kw)
    return Fn("incidence node automaton " + f.name, key, cl, lambda c: f.pre(c) + nmirror(c), lambda c: f.post(c) + nmirror(c), **d)
in_add_vertex = nderive(n_add_vertex, N + "add_vertex", lambda S: [in_obj(S), S.const(OS, "a")], modifies=INMV, uses=[a_add_vertex])
in_add_edge = nderive(n_add_edge, PN + "add_edge", lambda S: [in_obj(S), S.int("q"), S.int("r")], uses=[n_add_edge])
in_remove_edge = nderive(n_remove_edge, PN + "remove_edge", lambda S: [in_obj(S), S.const(AED, "e")], uses=[n_remove_edge])
def nrv_in(c):
    adj, adj0, uu = A(c), c.at("self", "adjacencies", c.entry), c.t("q")
    L = lambda x: c.it.key(x)
    return ainv_weak(c) + [same_labels(c), ("states", fa([q], QX(adj, q) == QX(adj0, q), QX(adj, q), QX(adj0, q))),
        ("only transitions to the state go", ft(HAS(adj, q, a) == And(HAS(adj0, q, a), Or(TGT(adj0, q, a) != uu, HAS(adj, q, a))), adj, adj0)),
        ("targets", ft(Implies(HAS(adj, q, a), TGT(adj, q, a) == TGT(adj0, q, a)), adj, adj0)),
        ("the handled ones are gone", fa([j], Implies(And(0 <= j, j < c.k), Not(HAS(adj, asrc(L(j)), sym(c, uu)))), L(j))),
        ("the others are there", fa([j], Implies(And(c.k <= j, j < c.n), TR(adj, asrc(L(j)), sym(c, uu), uu)), L(j)))]
def nrv_out(c):
    e = c.entry; uu = c.t("q")
    L = lambda x: c.it.key(x)
    return [same_labels(c), ("absent entries are empty", fa([r], Implies(Not(pdom(c, r)), prow(c, r) == EMPTYSET), prow(c, r))),
        ("only entries for the state go", fa([r, q], pin(c, r, q) == And(pin(c, r, q, e), Or(q != uu, pin(c, r, q))), pin(c, r, q), pin(c, r, q, e))),
        ("the handled ones are gone", fa([j], Implies(And(0 <= j, j < c.k), Not(pin(c, atgt(L(j)), uu))), L(j)))]
in_remove_vertex = Fn("incidence node automaton remove_vertex", PN + "remove_vertex", lambda S: [in_obj(S), S.int("q")], inwk,
    lambda c: inwk(c) + [same_labels(c), abound_kept(c), ("states", fa([q], QX(A(c), q) == And(QX(A0(c), q), q != c.t("q")))),
        ("domain", ft(HAS(A(c), q, a) == And(HAS(A0(c), q, a), q != c.t("q"), TGT(A0(c), q, a) != c.t("q")), A(c), A0(c))),
        ("targets", ft(Implies(HAS(A(c), q, a), TGT(A(c), q, a) == TGT(A0(c), q, a)), A(c), A0(c)))],
    modifies=INM, when=isin, loops={(PN + "remove_vertex", 0): LoopSpec(inv=nrv_in), (PN + "remove_vertex", 1): LoopSpec(inv=nrv_out)})
def inl(name, key, member, args, pre=inin):
    return Fn("incidence node automaton " + name, key, lambda S: [in_obj(S)] + args(S), pre, lambda c: enumerates(*as_list(c, ety=AED), AED, member(c)), modifies=RO, consume=to_list)
in_in_edges = inl("in_edges", PN + "in_edges", lambda c: lambda e: And(is_tr(A0(c))(e), atgt(e) == c.t("r")), lambda S: [S.int("r")])
in_out_edges = inl("out_edges", N + "out_edges", tr_of, an_int_q, n_out_edges.pre)
in_edges_all = inl("edges", N + "edges", all_tr, lambda S: [])
in_in_degree = Fn("incidence node automaton in_degree", G + "Graph.in_degree", lambda S: [in_obj(S), S.int("u")], inin, lambda c: counted(c, (G + "__len_gen__", 0), AED, lambda e: And(is_tr(A0(c))(e), atgt(e) == c.t("u")), c.t(c.res)), modifies=RO, loops={k_: LoopSpec(inv=lambda c: [("count", c.t("n") == c.k)]) for k_ in LEN_GEN})
def new_in(S):
    S.eng.nv, S.eng.q0 = S.int("num_vertices"), S.int("q0")
    return [S.obj(INA), S.eng.nv, S.eng.q0]
in_constructor = Fn("incidence node automaton constructor", PN + "__init__", new_in, lambda c: [("size", c.eng.nv.t >= 0)],
    lambda c: inin(c) + acon_inv(c, c.eng.nv.t) + [("the initial state", INIT(c) == some(OI, c.eng.q0.t)), ("no final state", fa([q], Not(isfin(c, q)))), ("no symbol", fa([q], sym(c, q) == none(OS)))],
    uses=[a_add_vertex], types=dict(NTYPES, predecessors=PRED), loops={(G + "Graph.__init__", 0): NGI})
INALL = [in_constructor, in_add_vertex, in_add_edge, in_remove_edge, in_remove_vertex, in_in_edges, in_out_edges, in_edges_all, in_in_degree]
