from contracts.search import *
NOTE = "listings, counts and degrees of a view, and the predicates of the union, intersection and difference of two views, proved for every graph and every pair of predicates, given or absent"
TRUSTED = TRUSTED_BASE
ASSUMPTIONS = ASSUME_BASE + ["the listings of the viewed graph follow their contracts (proved for every class of graph under C01 to C06): each vertex, edge, out-edge and in-edge once, source and target being the ends of an edge",
    "the predicates answer the same for the same vertex or edge while a listing is made"]
GV = "pybgl.graph_view:GraphView."
RV = z3.Function("relevant_vertex", z3.IntSort(), z3.BoolSort()); RE = z3.Function("relevant_edge", sort(E_), z3.BoolSort())
RV2 = z3.Function("relevant_vertex_2", z3.IntSort(), z3.BoolSort()); RE2 = z3.Function("relevant_edge_2", sort(E_), z3.BoolSort())
INS = z3.Function("in_edges_of", z3.IntSort(), sort(ES)); MEMI = z3.Function("is_in_edge", z3.IntSort(), sort(E_), z3.BoolSort()); IPOS = z3.Function("in_place_of", z3.IntSort(), sort(E_), z3.IntSort())
ISE = z3.Function("is_edge", sort(E_), z3.BoolSort()); EPOS = z3.Function("edge_place", sort(E_), z3.IntSort())

def graph_with_all(S):
    g = a_graph(S)
    el = S.cont(ES, "edges"); t = S.term(el); a_ = arr(ES, t); IA = lambda u_: arr(ES, INS(u_))
    S.assume(lo(ES, t) == 0, hi(ES, t) >= 0, fa([i], Implies(And(0 <= i, i < hi(ES, t)), And(ISE(Select(a_, i)), EPOS(Select(a_, i)) == i)), Select(a_, i)),
        fa([e], Implies(ISE(e), And(0 <= EPOS(e), EPOS(e) < hi(ES, t), Select(a_, EPOS(e)) == e)), ISE(e)),
        fa([u], And(lo(ES, INS(u)) == 0, hi(ES, INS(u)) >= 0), INS(u)),
        fa([u, i], Implies(And(0 <= i, i < hi(ES, INS(u))), And(MEMI(u, Select(IA(u), i)), IPOS(u, Select(IA(u), i)) == i)), Select(IA(u), i)),
        fa([u, e], Implies(MEMI(u, e), And(TGT_(e) == u, 0 <= IPOS(u, e), IPOS(u, e) < hi(ES, INS(u)), Select(IA(u), IPOS(u, e)) == e)), MEMI(u, e)))
    hs = S.st.objs[g.oid][2]
    hs["edges"] = lambda eng, st, slf, args, kw: [(st, el)]
    hs["in_edges"] = lambda eng, st, slf, args, kw: [(st, eng.alloc(st, ES, INS(eng.constant(st, eng.term(st, args[0]))), "in_edges"))]
    return g
def predicate(S, f):
    return S.eng.new_obj(S.st, cls("property_map:ReadPropertyMap"), {}, {"__getitem__": lambda eng, st, slf, args, kw: [(st, Sc(BOOL, f(eng.term(st, args[0]))))]})
def view(S, g=None, rv=RV, re_=RE):
    return S.obj(cls("graph_view:GraphView"), g=g or graph_with_all(S), pmap_vrelevant=predicate(S, rv), pmap_erelevant=predicate(S, re_))
inside = lambda e_: And(RE(e_), RV(SRC(e_)), RV(TGT_(e_)))
L = []
U1 = lambda S: [S.int("u")]
for m_, cnt_, ety, member, args in (("vertices", "num_vertices", INT, lambda c: lambda x_: And(VERT(x_), RV(x_)), lambda S: []), ("edges", "num_edges", E_, lambda c: lambda e_: And(ISE(e_), inside(e_)), lambda S: []),
        ("out_edges", "out_degree", E_, lambda c: lambda e_: And(MEM(c.t("u"), e_), inside(e_)), U1), ("in_edges", "in_degree", E_, lambda c: lambda e_: And(MEMI(c.t("u"), e_), inside(e_)), U1)):
    L.append(Fn(m_, GV + m_, lambda S, args=args: [view(S)] + args(S), post=lambda c, ety=ety, member=member: enumerates(*as_list(c, ety=ety), ety, member(c)), modifies=lambda c: [], consume=to_list))
    L.append(Fn(cnt_, GV + cnt_, lambda S, args=args: [view(S)] + args(S), post=lambda c, ety=ety, member=member: counted(c, ("pybgl.graph:__len_gen__", 0), ety, member(c), c.t(c.res)), modifies=lambda c: [], loops=LEN_GEN))

# what the predicates of a view answer
def answers(c, obj, name, key, want, what):
    n0 = len(c.st.pc)
    m = c.attr(obj, name); s0 = c.st.copy()
    out = []
    for s_, v_ in c.eng.getitem(s0, m, key):
        gs = [t for _, t in s_.pc[n0:]]
        if isinstance(v_, RaisedV): out.append(Not(And(*gs))); continue
        for s2_, b_ in c.eng.truthy(s_, v_):
            gs2 = [t for _, t in s2_.pc[n0:]]
            out.append(Implies(And(*gs2), b_ == want))
    return (what, And(*out) if out else BoolVal(False))
XK, EK = Const("any_vertex", z3.IntSort()), Const("any_edge", sort(E_))
def both(c, obj, wv, we): return [answers(c, obj, "pmap_vrelevant", Sc(INT, XK), wv, "relevant vertices"), answers(c, obj, "pmap_erelevant", Sc(E_, EK), we, "relevant edges")]
def same_graph(c, v_): return [("the same graph", BoolVal(isinstance(v_, ObjV) and isinstance(c.attr(v_, "g"), ObjV) and c.attr(v_, "g").oid == c.eng.graph.oid))]
def init(given):
    def f(S):
        S.eng.graph = graph_with_all(S)
        return [S.obj(cls("graph_view:GraphView")), S.eng.graph] + ([predicate(S, RV), predicate(S, RE)] if given else [])
    return f
T_ = BoolVal(True)
L.append(Fn("view", GV + "__init__", init(True), post=lambda c: same_graph(c, c.v("self")) + both(c, c.v("self"), RV(XK), RE(EK))))
L.append(Fn("view by default", GV + "__init__", init(False), post=lambda c: same_graph(c, c.v("self")) + both(c, c.v("self"), T_, T_)))
def two(S):
    S.eng.graph = graph_with_all(S)
    return [view(S, S.eng.graph), view(S, S.eng.graph, RV2, RE2)]
def composed(wv, we): return lambda c: same_graph(c, c.res) + both(c, c.res, wv, we)
L.append(Fn("union", GV + "__or__", two, post=composed(Or(RV(XK), RV2(XK)), Or(RE(EK), RE2(EK))), modifies=lambda c: []))
L.append(Fn("intersection", GV + "__and__", two, post=composed(And(RV(XK), RV2(XK)), And(RE(EK), RE2(EK))), modifies=lambda c: []))
only1 = lambda x_: And(RV(x_), Not(RV2(x_))); s_, t_ = SRC(EK), TGT_(EK)
shown = lambda e_, rv, re_: And(re_(e_), rv(SRC(e_)), rv(TGT_(e_)))
def diff_post(c):
    obj = c.res
    m = answers(c, obj, "pmap_vrelevant", Sc(INT, XK), only1(XK), "relevant vertices")
    # an edge whose ends are shown by the difference is selected exactly when the first view selects it (the second cannot show it)
    n0 = len(c.st.pc); out = []
    for st_, v_ in c.eng.getitem(c.st.copy(), c.attr(obj, "pmap_erelevant"), Sc(E_, EK)):
        for st2, b_ in c.eng.truthy(st_, v_):
            gs = [t for _, t in st2.pc[n0:]]
            out.append(Implies(And(*gs, only1(s_), only1(t_)), b_ == RE(EK)))
    return same_graph(c, obj) + [m, ("relevant edges", And(*out) if out else BoolVal(False))]
L.append(Fn("difference", GV + "__sub__", two, post=diff_post, modifies=lambda c: []))
PROOFS = [f.proof() for f in L]
