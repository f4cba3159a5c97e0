from contracts.graphs import *
from contracts import automata as au
from contracts.automata import *
NOTE = "every method of IncidenceGraph, IncidenceAutomaton and IncidenceNodeAutomaton that touches edges proved to keep in- and out-adjacencies mirrored"
TRUSTED = TRUSTED_BASE
ASSUMPTIONS = ASSUME_BASE

# ================================================================ incidence graph
IG = cls("incidence_graph:IncidenceGraph")
P = "pybgl.incidence_graph:IncidenceGraph."
isig = is_class("self", IG)
def ig_obj(S):
    g = graph_obj(S, IG)
    S.st.objs[g.oid][1]["in_adjacencies"] = S.cont(ADJ, "inadj")
    return g
def IA(c, g="self"): return c.at(g, "in_adjacencies")
def IA0(c, g="self"): return c.at(g, "in_adjacencies", c.old)
def iref(c, g="self"): return c.attr(g, "in_adjacencies")
def mirror(c):
    A_, I_ = A(c), IA(c)
    return [("mirror: edges", And(fe(Implies(EDGE(A_, u, v, n), EDGE(I_, v, u, n)), A_), ForAll([u, v, n], Implies(EDGE(I_, v, u, n), EDGE(A_, u, v, n)), patterns=[Select(CELL(I_, v, u), n)]))),
            ("mirror: vertices", fa([u], VX(A_, u) == VX(I_, u), VX(A_, u), VX(I_, u))),
            ("mirror: no empty bundle", And(*[t for _, t in nonempty_cells(I_)])),
            ("mirror: sources are vertices", fa([u, v], Implies(PAIR(I_, u, v), VX(I_, v)), Select(dom(A2, ROW(I_, u)), v)))]
ginv = lambda c: inv(c) + mirror(c)
gweak = lambda c: weak_inv(c) + mirror(c)
MODS = lambda c: [adjref(c), iref(c)]
MODSV = lambda c: [adjref(c), iref(c), (c.v("self"), "last_vertex_id")]
ig_super_remove = [remove_edge]
def derive(f, key, cl, pre, post, **kw):
    d = dict(modifies=MODS, result=f.result, when=isig); d.update(kw)
    return Fn("incidence graph " + f.name, key, cl, pre, post, **d)

def extra(f, invs):
    return lambda c: [x for x in f.post(c)] + mirror(c)
ig_add_vertex = derive(add_vertex, P + "add_vertex", lambda S: [ig_obj(S)], ginv, extra(add_vertex, ginv), modifies=MODSV, uses=[add_vertex])
ig_add_edge = derive(add_edge, P + "add_edge", lambda S: [ig_obj(S), S.int("u"), S.int("v")], lambda c: add_edge.pre(c) + mirror(c), extra(add_edge, ginv), uses=[add_edge])
ig_remove_edge = derive(remove_edge, P + "remove_edge", lambda S: [ig_obj(S), S.const(ED, "e")], lambda c: remove_edge.pre(c) + mirror(c), extra(remove_edge, gweak), uses=[remove_edge])
def ig_rv(c, gone): return rv_common(c, gone) + mirror(c)
ig_remove_vertex = derive(remove_vertex, P + "remove_vertex", lambda S: [ig_obj(S), S.int("u")], lambda c: remove_vertex.pre(c) + mirror(c), extra(remove_vertex, gweak), uses=[ig_remove_edge],
    loops={(P + "remove_vertex", 0): LoopSpec(inv=lambda c: ig_rv(c, lambda a_, b_, x: b_ == x)), (P + "remove_vertex", 1): LoopSpec(inv=lambda c: ig_rv(c, lambda a_, b_, x: a_ == x))})
ig_clear = derive(clear, G + "Graph.clear", lambda S: [ig_obj(S)], ginv, extra(clear, ginv), modifies=MODSV, uses=[ig_remove_vertex], loops={(G + "Graph.clear", 0): LoopSpec(inv=lambda c: clear_inv(c) + mirror(c))})
in_of = lambda c: lambda e: And(is_edge(A0(c))(e), etgt(e) == c.t("v"))
def ig_listing(name, key, member, arg):
    return Fn("incidence graph " + name, key, lambda S: [ig_obj(S), S.int(arg)], ginv, lambda c: enumerates(*as_list(c, ety=ED), ED, member(c)), modifies=lambda c: [], consume=to_list)
ig_in_edges = ig_listing("in_edges", P + "in_edges", in_of, "v")
ig_out_edges = ig_listing("out_edges", G + "Graph.out_edges", out_of, "u")
ig_in_degree = Fn("incidence graph in_degree", G + "Graph.in_degree", lambda S: [ig_obj(S), S.int("u")], ginv, lambda c: counted(c, (G + "__len_gen__", 0), ED, lambda e: And(is_edge(A0(c))(e), etgt(e) == c.t("u")), c.t(c.res)), modifies=lambda c: [], loops=LEN_GEN)
ig_edges = Fn("incidence graph edges", G + "Graph.edges", lambda S: [ig_obj(S)], ginv, lambda c: enumerates(*as_list(c, ety=ED), ED, is_edge(A0(c))), modifies=lambda c: [], consume=to_list)
def new_ig(S):
    g = S.obj(IG)
    return [g, S.int("num_vertices")]
ig_constructor = Fn("incidence graph constructor", P + "__init__", new_ig, constructor.pre, lambda c: constructor.post(c) + mirror(c), uses=[ig_add_vertex], types={"adjacencies": ADJ, "in_adjacencies": ADJ},
    loops={(G + "Graph.__init__", 0): LoopSpec(inv=lambda c: ginv(c) + [("next", c.at("self", "last_vertex_id") == c.k), ("vertices", fa([u], VX(A(c), u) == And(0 <= u, u < c.k))), ("no edge", fa([u, v, n], Not(EDGE(A(c), u, v, n))))])})
PROOFS = [f.proof() for f in (ig_constructor, ig_add_vertex, ig_add_edge, ig_remove_edge, ig_remove_vertex, ig_clear, ig_in_edges, ig_out_edges, ig_in_degree, ig_edges)]

# ================================================================ incidence automaton
IAU = cls("incidence_automaton:IncidenceAutomaton")
PA = "pybgl.incidence_automaton:IncidenceAutomaton."
isia = is_class("self", IAU)
IADJ = MAP(INT, MAP(INT, SET(SY))); I2 = IADJ.args[1]
def IVX(I, x): return Select(dom(IADJ, I), x)
def IROW(I, x): return Select(val(IADJ, I), x)
def IPAIR(I, x, y): return And(IVX(I, x), Select(dom(I2, IROW(I, x)), y))
def ICELL(I, x, y): return Select(val(I2, IROW(I, x)), y)
def IIN(I, x, y, s): return And(IPAIR(I, x, y), Select(ICELL(I, x, y), s))
def ia_obj(S):
    g = automaton_obj(S, IAU)
    S.st.objs[g.oid][1]["in_adjacencies"] = S.cont(IADJ, "inadj")
    return g
def fi(body, *Is): return ForAll([r, q, a], body, patterns=[Select(ICELL(I, r, q), a) for I in Is])
def amirror(c, g="self"):
    adj, I = A(c, g), IA(c, g)
    return [("mirror: every transition is seen from its target", ft(Implies(HAS(adj, q, a), IIN(I, TGT(adj, q, a), q, a)), adj)),
            ("mirror: every incoming edge is a transition", fi(Implies(IIN(I, r, q, a), TR(adj, q, a, r)), I)),
            ("mirror: states", fa([q], QX(adj, q) == IVX(I, q), QX(adj, q), IVX(I, q))),
            ("mirror: no empty bundle", fa([r, q], Implies(IPAIR(I, r, q), ICELL(I, r, q) != empty(SET(SY))), Select(dom(I2, IROW(I, r)), q)))]
iweak = lambda c: ainv_weak(c) + amirror(c)
iinv = lambda c: ainv(c) + amirror(c)
def aderive(f, key, cl, **kw):
    d = dict(modifies=MODS, result=f.result, when=isia); d.update(kw)
    return Fn("incidence automaton " + f.name, key, cl, lambda c: f.pre(c) + amirror(c), lambda c: f.post(c) + amirror(c), **d)
ia_add_vertex = aderive(a_add_vertex, PA + "add_vertex", lambda S: [ia_obj(S)], modifies=MODSV, uses=[a_add_vertex])
ia_add_edge = aderive(a_add_edge, PA + "add_edge", lambda S: [ia_obj(S), S.int("q"), S.int("r"), S.const(SY, "a")], uses=[a_add_edge])
ia_remove_edge = aderive(a_remove_edge, PA + "remove_edge", lambda S: [ia_obj(S), S.const(AED, "e")], uses=[a_remove_edge])

def arv_in(c):
    adj, adj0, uu = A(c), c.at("self", "adjacencies", c.entry), c.t("q")
    L = lambda x: c.it.key(x)
    return ainv_weak(c) + [("states", fa([q], QX(adj, q) == QX(adj0, q), QX(adj, q), QX(adj0, q))),
        ("only transitions to the state go", ft(HAS(adj, q, a) == And(HAS(adj0, q, a), Or(TGT(adj0, q, a) != uu, HAS(adj, q, a))), adj, adj0)),
        ("targets", ft(Implies(HAS(adj, q, a), TGT(adj, q, a) == TGT(adj0, q, a)), adj, adj0)),
        ("the handled ones are gone", fa([j], Implies(And(0 <= j, j < c.k), Not(HAS(adj, asrc(L(j)), asym(L(j))))), L(j))),
        ("the others are there", fa([j], Implies(And(c.k <= j, j < c.n), TR(adj, asrc(L(j)), asym(L(j)), uu)), L(j)))]
def arv_out(c):
    I, I0, uu = IA(c), c.at("self", "in_adjacencies", c.entry), c.t("q")
    L = lambda x: c.it.key(x)
    dI, dI0 = lambda r_, q_: Select(dom(I2, IROW(I, r_)), q_), lambda r_, q_: Select(dom(I2, IROW(I0, r_)), q_)
    return [("entries", fa([r], IVX(I, r) == IVX(I0, r), IVX(I, r), IVX(I0, r))),
        ("only entries for the state go", fa([r, q], Implies(IVX(I, r), dI(r, q) == And(dI0(r, q), Or(q != uu, dI(r, q)))), dI(r, q), dI0(r, q))),
        ("bundles", fa([r, q], Implies(IPAIR(I, r, q), ICELL(I, r, q) == ICELL(I0, r, q)), dI(r, q), ICELL(I, r, q), ICELL(I0, r, q))),
        ("the handled ones are gone", fa([j], Implies(And(0 <= j, j < c.k), Not(dI(atgt(L(j)), uu))), L(j)))]
ia_remove_vertex = Fn("incidence automaton remove_vertex", PA + "remove_vertex", lambda S: [ia_obj(S), S.int("q")], iweak,
    lambda c: iweak(c) + [abound_kept(c), ("states", fa([q], QX(A(c), q) == And(QX(A0(c), q), q != c.t("q")))),
        ("domain", ft(HAS(A(c), q, a) == And(HAS(A0(c), q, a), q != c.t("q"), TGT(A0(c), q, a) != c.t("q")), A(c), A0(c))),
        ("targets", ft(Implies(HAS(A(c), q, a), TGT(A(c), q, a) == TGT(A0(c), q, a)), A(c), A0(c)))],
    modifies=MODS, when=isia, loops={(PA + "remove_vertex", 0): LoopSpec(inv=arv_in), (PA + "remove_vertex", 1): LoopSpec(inv=arv_out)})
def aclear_inv(c):
    adj, adj0 = A(c), c.at("self", "adjacencies", c.entry)
    L = lambda x: c.it.key(x)
    return iweak(c) + [("handled states are gone", fa([j], Implies(And(0 <= j, j < c.k), Not(QX(adj, L(j)))))),
            ("no other", fa([q], Implies(QX(adj, q), QX(adj0, q))))]
ia_clear = Fn("incidence automaton clear", G + "Graph.clear", lambda S: [ia_obj(S)], iinv, lambda c: iinv(c) + [("no state", fa([q], Not(QX(A(c), q)))), ("no transition", ft(Not(HAS(A(c), q, a)), A(c)))],
    modifies=MODSV, uses=[ia_remove_vertex], loops={(G + "Graph.clear", 0): LoopSpec(inv=aclear_inv)})
ia_in = lambda nm: lambda c: lambda e: And(is_tr(A0(c))(e), atgt(e) == c.t(nm))
ia_in_edges = Fn("incidence automaton in_edges", PA + "in_edges", lambda S: [ia_obj(S), S.int("r")], iinv, lambda c: enumerates(*as_list(c, ety=AED), AED, ia_in("r")(c)), modifies=lambda c: [], consume=to_list)
ia_out_edges = Fn("incidence automaton out_edges", M + "out_edges", lambda S: [ia_obj(S), S.int("q")], iinv, lambda c: enumerates(*as_list(c, ety=AED), AED, tr_of(c)), modifies=lambda c: [], consume=to_list)
ia_edges = Fn("incidence automaton edges", M + "edges", lambda S: [ia_obj(S)], iinv, lambda c: enumerates(*as_list(c, ety=AED), AED, all_tr(c)), modifies=lambda c: [], consume=to_list)
ia_in_degree = Fn("incidence automaton in_degree", G + "Graph.in_degree", lambda S: [ia_obj(S), S.int("u")], iinv, lambda c: counted(c, (G + "__len_gen__", 0), AED, ia_in("u")(c), c.t(c.res)), modifies=lambda c: [], loops=LEN_GEN)
def new_ia(S):
    S.eng.nv, S.eng.q0 = S.int("num_vertices"), S.int("q0")
    return [S.obj(IAU), S.eng.nv, S.eng.q0]
ia_constructor = Fn("incidence automaton constructor", PA + "__init__", new_ia, lambda c: [("size", c.eng.nv.t >= 0)],
    lambda c: iinv(c) + acon_inv(c, c.eng.nv.t) + [("the initial state", INIT(c) == some(OI, c.eng.q0.t)), ("no final state", fa([q], Not(isfin(c, q))))],
    uses=[ia_add_vertex], types={"adjacencies": DADJ, "map_vfinal": FIN, "in_adjacencies": IADJ},
    loops={(G + "Graph.__init__", 0): LoopSpec(inv=lambda c: iinv(c) + acon_inv(c, c.k))})
PROOFS += [f.proof() for f in (ia_constructor, ia_add_vertex, ia_add_edge, ia_remove_edge, ia_remove_vertex, ia_clear, ia_in_edges, ia_out_edges, ia_in_degree, ia_edges)]

from contracts import incnode
PROOFS += [f.proof() for f in incnode.INALL]
