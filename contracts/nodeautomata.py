"""Contracts of the automaton whose symbols are carried by states (pybgl.node_automaton): the partial transition function keyed by the symbol of the target."""
from contracts.lib import *
from contracts.lib import instance
SY0 = SYM("Sym")
NAU = cls("node_automaton:NodeAutomaton")
_m = instance("automata", PARAM_SY=OPT(SY0), PARAM_CLASS=NAU)
globals().update({k: v for k, v in _m.__dict__.items() if not k.startswith("__")})
OS = OPT(SY0)
LAB = DMAP(INT, OS)
N = "pybgl.node_automaton:NodeAutomaton."
_isna = is_class("self", NAU)
def isna(eng, st, a): return _isna(eng, st, a) and "pmap_vsymbol" in st.objs[a["self"].oid][1]

def na_obj(S, c=NAU):
    g = automaton_obj(S, c)
    lab = S.cont(LAB, "lab")
    S.st.objs[g.oid][1]["pmap_vsymbol"] = S.obj(PMAP, d=lab)
    return g
def labref(c, g="self"): return c.attr(c.attr(g, "pmap_vsymbol"), "d")
def LB(c, st=None, g="self"): return c.named(c.eng.term(st or c.st, labref(c, g)))
def sym(c, x, st=None, g="self"): return Select(val(LAB, LB(c, st, g)), x)
def labelled(c): return [("invariant: each transition carries the symbol of its target", ft(Implies(HAS(A(c), q, a), sym(c, TGT(A(c), q, a)) == a), A(c)))]
ninv = lambda c: ainv(c) + labelled(c)
nweak = lambda c: ainv_weak(c) + labelled(c)
def same_labels(c): return ("symbols are unchanged", fa([q], sym(c, q) == sym(c, q, c.old)))
NM = lambda c: [ref(c), labref(c)]
RO = lambda c: [labref(c)]

n_add_vertex = Fn("add_vertex", N + "add_vertex", lambda S: [na_obj(S), S.const(OS, "a")], ninv,
    lambda c: a_add_vertex.post(c) + labelled(c) + [("symbols", fa([q], sym(c, q) == If(And(q == c.t(c.res), is_some(OS, c.t("a", OS))), c.t("a", OS), sym(c, q, c.old))))],
    modifies=lambda c: NM(c) + [(c.v("self"), "last_vertex_id")], result=a_add_vertex.result, when=isna, uses=[a_add_vertex])
n_delta = Fn("delta", N + "delta", lambda S: [na_obj(S), S.int("q"), S.const(OS, "a")], ainv, lambda c: delta_post(c, c.t("q", OI)), modifies=lambda c: [], result=lambda c: c.eng.fresh_value(OI, "delta", c.st), when=isna)
n_delta_opt = Fn("delta, the absent state included", N + "delta", lambda S: [na_obj(S), S.const(OI, "q"), S.const(OS, "a")], ninv, lambda c: delta_post(c, c.t("q", OI)), modifies=lambda c: [])

def n_add_edge_post(c):
    uu, vv = iv(c, "q"), iv(c, "r"); s = sym(c, vv, c.old)
    e, added = c.eng.unpack(c.st, c.res, 2)
    ok = c.eng.truth(c.st, added); OE = OPT(AED); t = c.t(e, OE); old = HAS(A0(c), uu, s)
    return ninv(c) + [asame_vertices(c), same_labels(c), ("refused exactly when a successor carries the symbol", ok == Not(old)), ("nothing returned when refused", Implies(old, is_none(OE, t))),
        ("the edge returned", Implies(Not(old), And(is_some(OE, t), optval(OE, t) == mk(AED, uu, vv, s)))),
        ("domain", ft(HAS(A(c), q, a) == Or(HAS(A0(c), q, a), And(q == uu, a == s)), A(c), A0(c))),
        ("targets", ft(Implies(HAS(A(c), q, a), TGT(A(c), q, a) == If(HAS(A0(c), q, a), TGT(A0(c), q, a), vv)), A(c), A0(c)))]
n_add_edge = Fn("add_edge", N + "add_edge", lambda S: [na_obj(S), S.int("q"), S.int("r")], lambda c: ninv(c) + [("q is a state", QX(A(c), c.t("q"))), ("r is a state", QX(A(c), c.t("r")))], n_add_edge_post, modifies=NM, when=isna,
    result=lambda c: TupV([c.eng.fresh_value(OPT(AED), "edge", c.st), B(c.eng.fresh(BOOL, "added", c.st))]))
def n_edge_post(c):
    e, found = c.eng.unpack(c.st, c.res, 2)
    f = c.eng.truth(c.st, found); OE = OPT(AED); t = c.t(e, OE); s = sym(c, c.t("r"), c.old)
    yes = TR(A0(c), c.t("q"), s, c.t("r"))
    return [("found exactly when stored", f == yes), ("the edge", Implies(yes, And(is_some(OE, t), optval(OE, t) == mk(AED, c.t("q"), c.t("r"), s)))), ("nothing otherwise", Implies(Not(yes), is_none(OE, t)))]
n_edge = Fn("edge", N + "edge", lambda S: [na_obj(S), S.int("q"), S.int("r")], ninv, n_edge_post, modifies=lambda c: [],
    loops={(N + "edge", 0): LoopSpec(inv=lambda c: [("not met yet", And(Not(c.eng.truth(c.st, c.v("found"))), is_none(OPT(AED), c.t("e", OPT(AED))), fa([j], Implies(And(0 <= j, j < c.k), TGT(A0(c), c.t("q"), c.it.key(j)) != c.t("r")))))])})
n_symbol = Fn("symbol", N + "symbol", lambda S: [na_obj(S), S.int("q")], lambda c: [], lambda c: [("the symbol", c.t(c.res, OS) == sym(c, c.t("q"), c.old)), same_labels(c)], modifies=RO, when=isna, result=lambda c: c.eng.fresh_value(OS, "symbol", c.st))
n_remove_edge = Fn("remove_edge", N + "remove_edge", lambda S: [na_obj(S), S.const(AED, "e")], lambda c: nweak(c) + a_remove_edge.pre(c), lambda c: a_remove_edge.post(c) + labelled(c) + [same_labels(c)], modifies=NM, when=isna)
n_remove_vertex = Fn("remove_vertex", G + "Graph.remove_vertex", lambda S: [na_obj(S), S.int("u")], lambda c: nweak(c) + a_remove_vertex.pre(c), lambda c: a_remove_vertex.post(c) + labelled(c) + [same_labels(c)], modifies=NM, when=isna, uses=[n_remove_edge],
    loops={(G + "Graph.remove_vertex", 0): LoopSpec(inv=lambda c: a_rv(c, False) + labelled(c) + [same_labels(c)]), (G + "Graph.remove_vertex", 1): LoopSpec(inv=lambda c: a_rv(c, True) + labelled(c) + [same_labels(c)])})
def nlisting(name, key, member, args=lambda S: []):
    return Fn(name, key, lambda S: [na_obj(S)] + args(S), ninv, lambda c: enumerates(*as_list(c, ety=AED), AED, member(c)), modifies=lambda c: [], consume=to_list)
n_edges = nlisting("edges", N + "edges", all_tr)
n_out_edges = nlisting("out_edges", N + "out_edges", tr_of, an_int_q)
n_out_edges.pre = lambda c: ninv(c) + [("q is a state", QX(A(c), c.t("q")))]
n_sigma = Fn("sigma", N + "sigma", lambda S: [na_obj(S), S.int("q")], ninv, lambda c: set_is(c, OS, lambda y: HAS(A0(c), c.t("q"), y)), modifies=lambda c: [])
n_sigma_none = Fn("sigma of the absent state", N + "sigma", lambda S: [na_obj(S), NONE_], ninv, lambda c: set_is(c, OS, lambda y: BoolVal(False)), modifies=lambda c: [])
n_alphabet = Fn("alphabet", N + "alphabet", lambda S: [na_obj(S)], ninv, lambda c: set_is(c, OS, lambda y: Exists([q], And(QX(A0(c), q), INIT(c, c.old) != some(OI, q), sym(c, q, c.old) == y))) + [same_labels(c)], modifies=RO, uses=[is_initial])
n_label = Fn("label", N + "label", lambda S: [na_obj(S), S.const(AED, "e")], ninv, lambda c: [("the symbol of the target", c.t(c.res, OS) == sym(c, atgt(c.t("e")), c.old))], modifies=RO)
def n_delta_call(f, name, **kw):
    return Fn(name, f.key, **dict(dict(setup=f.setup, pre=f.pre, post=f.post, modifies=f.modifies, loops=f.kw.get("loops", {})), **kw))
n_delta_word = Fn("delta_word", M + "delta_word", lambda S: [na_obj(S), S.const(OI, "q"), S.word(OS, "w")], dw_pre, dw_post, modifies=lambda c: [], uses=[n_delta], **delta_word.kw)
n_accepts = Fn("accepts", M + "accepts", lambda S: [na_obj(S), S.word(OS, "w")], acc_pre, acc_post, modifies=lambda c: [finref(c)], **accepts.kw)
n_best_effort = Fn("delta_best_effort", M + "delta_best_effort", lambda S: [na_obj(S), S.word(OS, "w")], acc_pre, be_post, modifies=lambda c: [], **best_effort.kw)
ALL = [n_add_vertex, n_delta, n_delta_opt, n_add_edge, n_edge, n_symbol, n_remove_edge, n_remove_vertex, n_edges, n_out_edges, n_sigma, n_sigma_none, n_alphabet, n_label, n_delta_word, n_accepts, n_best_effort]

def new_na(S): return [S.obj(NAU), S.int("num_vertices"), S.int("q0")]
NTYPES = {"adjacencies": DADJ, "map_vfinal": FIN, "map_vsymbol": LAB}
NGI = LoopSpec(inv=lambda c: ainv(c) + acon_inv(c, c.k))
n_constructor = Fn("constructor", N + "__init__", new_na, lambda c: [("size", c.t("num_vertices") >= 0)],
    lambda c: ninv(c) + acon_inv(c, c.t("num_vertices")) + [("the initial state", INIT(c) == some(OI, c.t("q0"))), ("no final state", fa([q], Not(isfin(c, q)))), ("no symbol", fa([q], sym(c, q) == none(OS)))],
    uses=[a_add_vertex], types=NTYPES, loops={(G + "Graph.__init__", 0): NGI})
ALL.append(n_constructor)
