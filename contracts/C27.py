from contracts.search import *
NOTE = "extraction, copy (directed, undirected, automata) and cut proved for every graph, predicate, map and callback, given or absent"
TRUSTED = TRUSTED_BASE
ASSUMPTIONS = ASSUME_BASE + GRAPH_NOTE + ["out_edges gives the same answers, in the same order, each time it is asked"]
EX_ = "pybgl.graph_extract:graph_extract"; CP = "pybgl.graph_copy:graph_copy"; AC = "pybgl.automaton_copy:automaton_copy"; CUT = "pybgl.cut:cut"
RV = z3.Function("relevant_vertex", z3.IntSort(), z3.BoolSort()); RE = z3.Function("relevant_edge", sort(E_), z3.BoolSort())

def predicate(S, f):
    return S.eng.new_obj(S.st, cls("property_map:ReadPropertyMap"), {}, {"__getitem__": lambda eng, st, slf, args, kw: [(st, Sc(BOOL, f(eng.term(st, args[0]))))]})
def same_obj(v, w): return BoolVal(isinstance(v, ObjV) and v.oid == w.oid)
def search(S, given, extra=None):
    "one search from s through relevant vertices and edges"
    for a_ in PATH_AX: S.assume(a_)
    g = a_graph(S); s = S.int("s")
    S.assume(VERT(s.t), fa([x], IS_SRC(x) == (x == s.t), IS_SRC(x)))
    S.assume(fa([e], PUSH(e) == (And(RE(e), RV(TGT_(e))) if given else BoolVal(True) if given is False else Not(CUTP(e))), PUSH(e), RE(e)))
    dfs_visitor(S, given=False, extra=extra)
    S.eng.observed = cls(DFSV)
    return g, s, (predicate(S, RV) if given else NONE_), (predicate(S, RE) if given else NONE_)

# ---------------------------------------------------------------- extraction
def ex_setup(given):
    def f(S):
        g, s, pv, pe = search(S, given)
        S.ghost("CV", VS, empty(VS)); S.ghost("CE", ESET, empty(ESET))
        def cb(name):
            def h(eng, st, slf, args, kw):
                t = eng.term(st, args[0])
                eng.oblige(st, "event:the callback is called once", And(Not(isin(G_(st, name), t)), same_obj(args[1], g)))
                add(st, name, t)
                return [(st, NONE_)]
            return HandV(h, name)
        S.eng.cb = given
        return [s, g, pv, pe] + ([cb("CV"), cb("CE")] if given else [])
    return f
def HV(f): return HandV(f, "callback")
def ex_J(c):
    if not c.eng.cb: return []
    g = c.g
    return [("vertices given to the callback", fa([x], isin(g("CV"), x) == isin(g("D"), x), isin(g("D"), x), isin(g("CV"), x))), ("edges given to the callback", fa([e], isin(g("CE"), e) == isin(g("EX"), e), isin(g("CE"), e), isin(g("EX"), e)))]
def loops(J):
    w = lambda f: lambda c: f(c) + J(c)
    return {(DFS, 0): LoopSpec(inv=w(dfs_outer), lemma=grows("F", "finishes")), (DFS, 1): LoopSpec(inv=w(dfs_inner), lemma=grows("EX", "examines"))}
KW = dict(configure=lifting, types={"map_vcolor": DC})
L = [Fn("extraction", EX_, ex_setup(True), post=lambda c: dfs_end(c) + ex_J(c), loops=loops(ex_J), **KW),
     Fn("extraction by default", EX_, ex_setup(False), post=dfs_end, loops=loops(ex_J), **KW)]

# ---------------------------------------------------------------- copies
E2 = SYM("EdgeOfTheCopy"); E2SET = SET(E2); VMAP = MAP(INT, INT); EMAP = MAP(E_, E2); K3 = TUP(INT, INT, INT); KMAP = MAP(K3, E2); KSET = SET(K3); SY = SYM("Symbol")
GS = z3.Function("copy_source", sort(E2), z3.IntSort()); GT_ = z3.Function("copy_target", sort(E2), z3.IntSort()); GL = z3.Function("copy_label", sort(E2), sort(SY))
DIS = z3.Function("distinguisher", sort(E_), z3.IntSort()); LAB_ = z3.Function("label_of", sort(E_), sort(SY))
f_ = Const("f", sort(E2)); kk = Const("kk", sort(K3))
def KEY(e_): return mk(K3, If(SRC(e_) <= TGT_(e_), SRC(e_), TGT_(e_)), If(SRC(e_) <= TGT_(e_), TGT_(e_), SRC(e_)), DIS(e_))
KEYF = z3.Function("key_of", sort(E_), sort(K3))

def copy_setup(given, kind):
    "kind: directed, undirected or automaton"
    und, aut = kind == "undirected", kind == "automaton"
    def f(S):
        S.ghost("CV", VS, empty(VS)); S.ghost("CE", ESET, empty(ESET)); S.ghost("subject", INT, IntVal(0)); S.ghost("last_new", INT, IntVal(0))
        S.ghost("edge", E_, Const("no_edge", sort(E_))); S.ghost("last_edge", E2, Const("no_copy", sort(E2)))
        hv = lambda ty, n_: S.eng.havoc(ty, n_, S.st)
        S.ghost("GV", VS, hv(VS, "vertices_of_the_copy")); S.ghost("GE", E2SET, hv(E2SET, "edges_of_the_copy")); S.GV0, S.GE0 = G_(S.st, "GV"), G_(S.st, "GE")
        S.ghost("INV", VMAP, hv(VMAP, "origin")); S.ghost("EINV", MAP(E2, E_), hv(MAP(E2, E_), "edge_origin"))
        S.assume(fa([f_], Implies(isin(S.GE0, f_), And(isin(S.GV0, GS(f_)), isin(S.GV0, GT_(f_)))), isin(S.GE0, f_)))
        def extra(hs):
            st_, exm = hs["start_vertex"], hs["examine_edge"]
            def start(eng, st, t): st_(eng, st, t); gset(st, "subject", INT, t)
            def ex(eng, st, t): exm(eng, st, t); gset(st, "subject", INT, TGT_(t)); gset(st, "edge", E_, t)
            return dict(hs, start_vertex=start, examine_edge=ex)
        g, s, pv, pe = search(S, given, extra)
        obj = lambda ty, n_: S.obj(cls("property_map:AssocPropertyMap"), d=S.cont(ty, n_))
        S.eng.symattr[E_] = lambda name, v_: Sc(INT, DIS(v_.t)) if name == "distinguisher" else None
        S.assume(fa([e], KEYF(e) == KEY(e), KEYF(e)))
        gc, ghs, ga = S.st.objs[g.oid]
        S.st.objs[g.oid][1]["directed"] = B(not und)
        if aut:
            S.st.objs[g.oid][2]["label"] = lambda eng, st, slf, args, kw: [(st, Sc(SY, LAB_(eng.term(st, args[0]))))]
            S.assume(fa([e, e1], Implies(And(MEM(SRC(e), e), MEM(SRC(e1), e1), SRC(e) == SRC(e1), LAB_(e) == LAB_(e1)), e == e1), z3.MultiPattern(LAB_(e), LAB_(e1))))
        def add_vertex(eng, st, slf, args, kw):
            t = eng.constant(st, eng.fresh(INT, "new_vertex", st))
            eng.assume(st, Not(isin(G_(st, "GV"), t)))
            add(st, "GV", t); gset(st, "last_new", INT, t)
            ty, m = st.ghost["INV"]; st.ghost["INV"] = (ty, mk(ty, z3.Store(dom(ty, m), t, BoolVal(True)), z3.Store(val(ty, m), t, G_(st, "subject"))))
            return [(st, Sc(INT, t))]
        def add_edge(eng, st, slf, args, kw):
            a, b = [eng.term(st, x_) for x_ in args[:2]]
            eng.oblige(st, "event:an edge is added between vertices of the copy", And(isin(G_(st, "GV"), a), isin(G_(st, "GV"), b)))
            t = eng.constant(st, eng.fresh(E2, "new_edge", st))
            eng.assume(st, And(Not(isin(G_(st, "GE"), t)), If(BoolVal(not und), And(GS(t) == a, GT_(t) == b), Or(And(GS(t) == a, GT_(t) == b), And(GS(t) == b, GT_(t) == a)))))
            if aut:
                lab = eng.term(st, args[2])
                GE = G_(st, "GE")
                eng.oblige(st, "event:the copy has no such transition yet", fa([f_], Implies(isin(GE, f_), Not(And(GS(f_) == a, GL(f_) == lab))), isin(GE, f_)))
                eng.assume(st, GL(t) == lab)
            add(st, "GE", t); gset(st, "last_edge", E2, t)
            ty, m = st.ghost["EINV"]; st.ghost["EINV"] = (ty, mk(ty, z3.Store(dom(ty, m), t, BoolVal(True)), z3.Store(val(ty, m), t, G_(st, "edge"))))
            return [(st, TupV([Sc(E2, t), B(True)]))]
        d = S.eng.new_obj(S.st, cls("graph:DirectedGraph"), {"directed": B(False) if und else (S.const(BOOL, "directed"))}, {"add_vertex": add_vertex, "add_edge": add_edge})
        def cbv(eng, st, slf, args, kw):
            a, b = eng.term(st, args[0]), eng.term(st, args[2])
            eng.oblige(st, "event:the callback is given each vertex once with its copy", And(Not(isin(G_(st, "CV"), a)), a == G_(st, "subject"), b == G_(st, "last_new"), isin(G_(st, "GV"), b), same_obj(args[1], g), same_obj(args[3], d)))
            add(st, "CV", a)
            return [(st, NONE_)]
        def cbe(eng, st, slf, args, kw):
            a, b = eng.term(st, args[0]), eng.term(st, args[2])
            eng.oblige(st, "event:the callback is given each edge once with its copy", And(Not(isin(G_(st, "CE"), a)), a == G_(st, "edge"), b == G_(st, "last_edge"), isin(G_(st, "GE"), b), same_obj(args[1], g), same_obj(args[3], d)))
            add(st, "CE", a)
            return [(st, NONE_)]
        S.eng.cb = given; S.eng.copy = (S.GV0, S.GE0, und, aut)
        if given:
            pm, em = obj(VMAP, "pmap_vertices"), obj(EMAP, "pmap_edges")
            S.eng.vm0 = S.term(S.st.objs[pm.oid][1]["d"])
            return [s, g, d, pv, pe, pm, em, HandV(cbv, "cbv"), HandV(cbe, "cbe")]
        return [s, g, d]
    return f

def copy_J(c):
    g = c.g; GV0, GE0, und, aut = c.eng.copy
    D, EX, GV, GE, CV, CE = [g(n_) for n_ in ("D", "EX", "GV", "GE", "CV", "CE")]
    inv = c.named(val(VMAP, g("INV"))); INV = lambda x_: Select(inv, x_); ei = c.named(val(MAP(E2, E_), g("EINV"))); EI = lambda f__: Select(ei, f__)
    vis = c.eng.the_visitor(c)
    def m_of(name, ty):
        o = c.attr(c.attr(vis, name), "d"); t_ = c.eng.typeof(c.st, o)
        return c.named(c.eng.term(c.st, o)) if t_.kind != "Untyped" else empty(ty)
    vm, em = m_of("pmap_vertices", VMAP), m_of("pmap_edges", EMAP)
    VM = lambda x_: Select(val(VMAP, vm), x_); EM = lambda e_: Select(val(EMAP, em), e_)
    dv = c.attr(vis, "dup_vertices"); dvt = c.named(c.t(dv)) if c.eng.typeof(c.st, dv).kind != "Untyped" else empty(VS)
    R = [("copied vertices", fa([x], And(isin(dvt, x) == isin(D, x), Implies(isin(D, x), And(Select(dom(VMAP, vm), x), isin(GV, VM(x)), Not(isin(GV0, VM(x))), INV(VM(x)) == x))), isin(D, x), isin(dvt, x))),
        ("vertices of the copy", fa([x], isin(GV, x) == Or(isin(GV0, x), And(isin(D, INV(x)), VM(INV(x)) == x)), isin(GV, x), INV(x))),
        ("edges of the copy before", fa([f_], Implies(isin(GE0, f_), isin(GE, f_)), isin(GE0, f_)))]
    if not und:
        R += [("copied edges", fa([e], Implies(isin(EX, e), And(Select(dom(EMAP, em), e), isin(GE, EM(e)), Not(isin(GE0, EM(e))), EI(EM(e)) == e)), isin(EX, e))),
            ("edges of the copy", fa([f_], Implies(isin(GE, f_), Or(isin(GE0, f_), And(isin(EX, EI(f_)), EM(EI(f_)) == f_, isin(D, TGT_(EI(f_))), GS(f_) == VM(SRC(EI(f_))), GT_(f_) == VM(TGT_(EI(f_))), *([GL(f_) == LAB_(EI(f_))] if aut else [])))), isin(GE, f_), EI(f_)))]
    else:
        de = c.attr(vis, "dup_edges"); det = c.named(c.t(de)) if c.eng.typeof(c.st, de).kind != "Untyped" else empty(KMAP)
        DE = lambda k__: Select(val(KMAP, det), k__); HAS = lambda k__: Select(dom(KMAP, det), k__)
        ends = lambda f__, e__: Or(And(GS(f__) == VM(SRC(e__)), GT_(f__) == VM(TGT_(e__))), And(GS(f__) == VM(TGT_(e__)), GT_(f__) == VM(SRC(e__))))
        R += [("copied edges", fa([e], Implies(isin(EX, e), And(HAS(KEYF(e)), Select(dom(EMAP, em), e), EM(e) == DE(KEYF(e)), isin(D, TGT_(e)))), isin(EX, e))),
            ("an edge is copied once", fa([kk], Implies(HAS(kk), And(isin(GE, DE(kk)), Not(isin(GE0, DE(kk))), KEYF(EI(DE(kk))) == kk)), HAS(kk))),
            ("edges of the copy", fa([f_], Implies(isin(GE, f_), Or(isin(GE0, f_), And(isin(EX, EI(f_)), DE(KEYF(EI(f_))) == f_, ends(f_, EI(f_))))), isin(GE, f_), EI(f_)))]
    if c.eng.cb:
        R += [("vertices given to the callback", fa([x], isin(CV, x) == isin(D, x), isin(D, x), isin(CV, x))),
            ("other vertices keep their value", fa([x], Implies(Not(isin(D, x)), And(Select(dom(VMAP, vm), x) == Select(dom(VMAP, c.eng.vm0), x), VM(x) == Select(val(VMAP, c.eng.vm0), x))), VM(x))),
            ("edges given to the callback", fa([e], isin(CE, e) == (isin(EX, e) if not und else And(isin(EX, e), EI(DE(KEYF(e))) == e)), isin(CE, e), isin(EX, e)))]
    return R
def cconf(eng):
    eng.lift_comp = True
    eng.the_visitor = lambda c: eng.visitor_seen
CT = {"map_vcolor": DC, "map_vertices": VMAP, "map_edges": EMAP, "dup_vertices": VS, "dup_edges": KMAP}
RUN1 = z3.Function("run", z3.IntSort(), z3.IntSort(), z3.BoolSort()); RUN2 = z3.Function("run_of_the_copy", z3.IntSort(), z3.IntSort(), z3.BoolSort()); LETTER = z3.Function("letter", z3.IntSort(), sort(SY))
R1U = z3.Function("run_before", z3.IntSort(), z3.IntSort(), z3.IntSort()); R1E = z3.Function("run_edge", z3.IntSort(), z3.IntSort(), sort(E_)); R2U = z3.Function("copy_run_before", z3.IntSort(), z3.IntSort(), z3.IntSort()); R2E = z3.Function("copy_run_edge", z3.IntSort(), z3.IntSort(), sort(E2))
def language(c):
    "for every word, the states reached in the copy from the copy of s are the copies of those reached from s through the relevant part"
    g = c.g; D, GE, GV0 = g("D"), g("GE"), c.eng.copy[0]; inv = c.named(val(VMAP, g("INV"))); INV = lambda x_: Select(inv, x_)
    vm = c.named(c.eng.term(c.st, c.attr(c.attr(c.eng.the_visitor(c), "pmap_vertices"), "d"))); VM = lambda x_: Select(val(VMAP, vm), x_); s = c.t("s")
    for a_ in [fa([x], RUN1(0, x) == (x == s), RUN1(0, x)), fa([x], RUN2(0, x) == (x == VM(s)), RUN2(0, x)),
        fa([k, x, e], Implies(And(RUN1(k, x), k >= 0, MEM(x, e), PUSH(e), LAB_(e) == LETTER(k)), RUN1(k + 1, TGT_(e))), z3.MultiPattern(RUN1(k, x), MEM(x, e))),
        fa([k, f_], Implies(And(isin(GE, f_), RUN2(k, GS(f_)), k >= 0, GL(f_) == LETTER(k)), RUN2(k + 1, GT_(f_))), z3.MultiPattern(RUN2(k, GS(f_)), isin(GE, f_)))]: c.eng.assume(c.st, a_)
    el1 = lambda K: fa([x], Implies(RUN1(K + 1, x), And(RUN1(K, R1U(K, x)), MEM(R1U(K, x), R1E(K, x)), PUSH(R1E(K, x)), LAB_(R1E(K, x)) == LETTER(K), TGT_(R1E(K, x)) == x)), RUN1(K + 1, x))
    el2 = lambda K: fa([x], Implies(RUN2(K + 1, x), And(isin(GE, R2E(K, x)), RUN2(K, GS(R2E(K, x))), GL(R2E(K, x)) == LETTER(K), GT_(R2E(K, x)) == x)), RUN2(K + 1, x))
    P1 = lambda k_: fa([x], Implies(RUN1(k_, x), And(isin(D, x), RUN2(k_, VM(x)))), RUN1(k_, x))
    P2 = lambda k_: fa([y], Implies(RUN2(k_, y), And(isin(D, INV(y)), VM(INV(y)) == y, RUN1(k_, INV(y)))), RUN2(k_, y))
    induct(c, "runs are copied", P1, IntVal(0), hints=lambda K: [el1(K)])
    induct(c, "runs of the copy are copies", P2, IntVal(0), hints=lambda K: [el2(K)])
    return [("a word leads to the copy of the state it leads to", fa([x, k], Implies(And(k >= 0, RUN1(k, x)), And(INV(VM(x)) == x, RUN2(k, VM(x)))), RUN1(k, x))),
        ("and to no other state", fa([y, k], Implies(And(k >= 0, RUN2(k, y)), And(VM(INV(y)) == y, RUN1(k, INV(y)))), RUN2(k, y)))]
def copy_post(c): return dfs_end(c) + copy_J(c) + (language(c) if c.eng.copy[3] else [])
for kind, key in (("directed", CP), ("undirected", CP), ("automaton", AC)):
    for given in (True, False):
        L.append(Fn("copy, %s%s" % (kind, "" if given else ", by default"), key, copy_setup(given, kind), post=copy_post, loops=loops(copy_J), configure=cconf, types=CT))

# ---------------------------------------------------------------- cut
CUTP = z3.Function("in_cut", sort(E_), z3.BoolSort()); WITM = MAP(INT, E_)
def cut_setup(S):
    S.ghost("wit", WITM, S.eng.havoc(WITM, "examined_from", S.st))
    def extra(hs):
        exm = hs["examine_edge"]
        def ex(eng, st, t):
            exm(eng, st, t)
            ty, m = st.ghost["wit"]; st.ghost["wit"] = (ty, mk(ty, dom(ty, m), z3.Store(val(ty, m), SRC(t), t)))
        return dict(hs, examine_edge=ex)
    g, s, _, _ = search(S, None, extra)
    def in_cut(eng, st, slf, args, kw):
        return [(st, Sc(BOOL, CUTP(eng.term(st, args[0]))))]
    return [s, g, HandV(in_cut, "in_cut")]
def cut_J(c):
    g = c.g; D, EX = g("D"), g("EX")
    lv = c.named(c.eng.leaves(c)); ct = c.named(c.eng.cutting(c)); w_ = c.named(val(WITM, g("wit"))); W_ = lambda x_: Select(w_, x_)
    return [("leaves are discovered vertices", fa([x], Implies(isin(lv, x), isin(D, x)), isin(lv, x))),
        ("no edge leaving a leaf was examined", fa([e], Implies(isin(EX, e), Not(isin(lv, SRC(e)))), isin(EX, e))),
        ("an edge leaving another vertex was", fa([x], Implies(And(isin(D, x), Not(isin(lv, x))), And(isin(EX, W_(x)), SRC(W_(x)) == x)), isin(D, x))),
        ("cutting edges", fa([e], isin(ct, e) == And(CUTP(e), MEM(SRC(e), e), isin(D, SRC(e))), isin(ct, e), MEM(SRC(e), e)))]
def cut_post(c):
    R = dfs_end(c); D = c.g("D"); r_ = c.named(c.t(c.res))
    return R + [("targets of the cutting edges that can be reached", fa([e], Implies(And(MEM(SRC(e), e), isin(D, SRC(e)), CUTP(e)), isin(r_, TGT_(e))), MEM(SRC(e), e))),
        ("vertices reached without outgoing edge", fa([x], Implies(And(isin(D, x), fa([e], Not(MEM(x, e)), MEM(x, e))), isin(r_, x)), isin(D, x))),
        ("nothing else", fa([x], Implies(isin(r_, x), Not(And(fa([e], Implies(And(MEM(SRC(e), e), isin(D, SRC(e)), CUTP(e)), TGT_(e) != x), MEM(SRC(e), e)), Or(Not(isin(D, x)), Not(fa([e], Not(MEM(x, e)), MEM(x, e))))))), isin(r_, x)))]
def set_of(c, v): return c.t(v) 
def cconf2(eng):
    eng.lift_comp = True
    eng.leaves = lambda c: c.eng.term(c.st, c.attr(eng.visitor_seen, "leaves"))
    eng.cutting = lambda c: c.eng.term(c.st, c.attr(c.v("if_push"), "cutting_edges"))
L.append(Fn("cut", CUT, cut_setup, post=cut_post, loops=loops(cut_J), configure=cconf2, types={"map_vcolor": DC, "leaves": VS, "cutting_edges": ESET}))
PROOFS = [f.proof() for f in L]
