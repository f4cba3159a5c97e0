from contracts.search import *
from contracts import C03 as c3, incnode as inn
import contracts.automata as A_
from pyvc.engine import BoundV
NOTE = "reversal (also twice) and pruning proved for every incidence structure: states and transitions kept, language kept, also without final state"
TRUSTED = TRUSTED_BASE
ASSUMPTIONS = ASSUME_BASE + GRAPH_NOTE[:1] + ["the graph is not modified while it is reversed", "the automaton has an initial state, and it is one of its states"]
FR = "pybgl.prune_incidence_automaton:find_reachable_vertices"; PRUNE = "pybgl.prune_incidence_automaton:prune_incidence_automaton"; REV = "pybgl.reverse:reverse_graph"

# ---------------------------------------------------------------- what a search reaches
def fr_setup(S):
    for a_ in PATH_AX: S.assume(a_)
    g = a_graph(S); s = S.cont(VS, "sources"); t = S.term(s)
    S.assume(fa([x], And(IS_SRC(x) == isin(t, x), Implies(isin(t, x), VERT(x))), IS_SRC(x), isin(t, x)), fa([e], PUSH(e), PUSH(e)))
    dfs_visitor(S, given=False); S.eng.observed = cls(DFSV)
    return [g, s]
def colored(c):
    r_ = c.attr(c.v("pmap_vcolor"), "d"); ty = c.eng.typeof(c.st, r_)
    d_ = c.named(dom(ty, c.eng.term(c.st, r_)))
    return [("coloured vertices", fa([x], isin(d_, x) == isin(c.g("D"), x), isin(d_, x), isin(c.g("D"), x)))]
w = lambda f: lambda c: f(c) + colored(c)
FRL = {(DFS, 0): LoopSpec(inv=w(dfs_outer), lemma=grows("F", "finishes")), (DFS, 1): LoopSpec(inv=w(dfs_inner), lemma=grows("EX", "examines")), (DFSG, 0): LoopSpec(inv=w(dfs_g_inv))}
def fr_post(c):
    dfs_end(c); r_ = c.named(c.t(c.res)) if c.ty(c.res).kind != "Untyped" else empty(VS); lev = c.named(val(LV, c.g("lev")))
    return [("every vertex reached by a path", fa([x, k], Implies(And(k >= 0, PATH(x, k)), isin(r_, x)), PATH(x, k))),
            ("no other vertex", fa([x], Implies(isin(r_, x), And(Select(lev, x) >= 0, PATH(x, Select(lev, x)))), isin(r_, x)))]
PROOFS = [Proof("vertices reached", FR, fr_setup, post=fr_post, loops=FRL, configure=lifting, types={"map_vcolor": DC}, modifies=lambda c: [n_ for n_ in c.st.ghost] + [c.eng.path])]

# ---------------------------------------------------------------- reversal
def method(c, name, st=None):
    st = st or c.st
    g = c.args["g"]
    m = c.eng.getattr(st, g, name)[0][1]
    return (m.f.key, m.slf.oid) if isinstance(m, BoundV) and isinstance(m.f, FuncV) and isinstance(m.slf, ObjV) else ("?", id(m))
def methods(c, st=None): return [method(c, n_, st) for n_ in ("source", "target", "out_edges", "in_edges")]
def rev_post(c):
    a, b_ = methods(c, c.old), methods(c)
    f = c.eng.func_value(__import__("pybgl.reverse", fromlist=["x"]).reverse_graph)
    outs = c.eng.call(c.st.copy(), f, [c.args["g"]], {})
    same_rest = all(v_ is c.old.objs[o_][1].get(n_) for o_, (k_, at_, h_) in c.st.objs.items() if o_ in c.old.objs for n_, v_ in at_.items() if n_ not in ("source", "target", "in_edges", "out_edges"))
    return [("the source of an edge is its former target, and conversely", BoolVal(b_[0] == a[1] and b_[1] == a[0] and "?" not in (a[0][0], a[1][0]))),
        ("outgoing edges are the former incoming ones, and conversely", BoolVal(b_[2] == a[3] and b_[3] == a[2] and "?" not in (a[2][0], a[3][0]))),
        ("nothing else changes", BoolVal(same_rest)),
        ("reversing again gives back the former methods", BoolVal(len(outs) == 1 and methods(c, outs[0][0]) == a))]
KINDS = (("graph", c3.ig_obj), ("automaton", c3.ia_obj), ("automaton with symbols on states", inn.in_obj))
for nm, mk_ in KINDS:
    PROOFS.append(Proof("reverse, %s" % nm, REV, lambda S, mk_=mk_: [mk_(S)], post=rev_post, modifies=lambda c: [(c.args["g"], n_) for n_ in ("source", "target", "in_edges", "out_edges")]))
def reversed_(mk_):
    def f(S):
        g = mk_(S)
        r_ = S.eng.call(S.st, S.eng.func_value(__import__("pybgl.reverse", fromlist=["x"]).reverse_graph), [g], {})
        S.st.objs.update(r_[0][0].objs)
        return g
    return f
GP = "pybgl.graph:"
def rl(name, key, base, member, ety, mk_, args=lambda S: []):
    return Fn(name, key, lambda S: [reversed_(mk_)(S)] + args(S), base, lambda c: enumerates(*as_list(c, ety=ety), ety, member(c)), modifies=lambda c: [], consume=to_list)
def rc(name, key, base, member, ety, mk_, args):
    return Fn(name, key, lambda S: [reversed_(mk_)(S)] + args(S), base, lambda c: counted(c, (GP + "__len_gen__", 0), ety, member(c), c.t(c.res)), modifies=lambda c: [], loops=LEN_GEN)
U1 = lambda S: [S.int("u")]
ig_in = lambda c: lambda e_: And(is_edge_(c)(e_), etgt(e_) == c.t("u")); ig_out = lambda c: lambda e_: And(is_edge_(c)(e_), esrc(e_) == c.t("u"))
from contracts.graphs import is_edge, A0
is_edge_ = lambda c: is_edge(A0(c))
PROOFS += [f.proof() for f in (
    rl("edges of a reversed graph", GP + "Graph.edges", c3.ginv, is_edge_, ED, c3.ig_obj),
    rc("outgoing degree in a reversed graph", GP + "Graph.out_degree", c3.ginv, ig_in, ED, c3.ig_obj, U1),
    rc("incoming degree in a reversed graph", GP + "Graph.in_degree", c3.ginv, ig_out, ED, c3.ig_obj, U1))]

# ---------------------------------------------------------------- listings of reversed automata
def automata_part(mod, mk_, outkey, inkey, allkey, rv, full, weak, nm, word):
    "reversed listings and pruning, for one class of automata with incoming edges"
    HAS, TGT, QX, ft, TR, A, A0, isfin, INIT, STEP, AED = [getattr(mod, n_) for n_ in "HAS TGT QX ft TR A A0 isfin INIT STEP AED".split()]
    SYM_ = mod.SY; a = mod.a; OI = OPT(INT); FINREF = mod.finref; M_ = lambda c: [mod.labref(c)] if hasattr(mod, "labref") else []
    out = []
    alltr = lambda c: mod.is_tr(A0(c))
    into = lambda arg: lambda c: lambda e_: And(mod.is_tr(A0(c))(e_), fld(AED, e_, 1) == c.t(arg))
    outof = lambda arg: lambda c: lambda e_: And(mod.is_tr(A0(c))(e_), fld(AED, e_, 0) == c.t(arg))
    mods = lambda c: M_(c)
    for f in (Fn("edges of a reversed %s" % nm, allkey, lambda S: [reversed_(mk_)(S)], full, lambda c: enumerates(*as_list(c, ety=AED), AED, alltr(c)), modifies=mods, consume=to_list),
              Fn("outgoing degree in a reversed %s" % nm, GP + "Graph.out_degree", lambda S: [reversed_(mk_)(S), S.int("u")], full, lambda c: counted(c, (GP + "__len_gen__", 0), AED, into("u")(c), c.t(c.res)), modifies=mods, loops=LEN_GEN),
              Fn("incoming degree in a reversed %s" % nm, GP + "Graph.in_degree", lambda S: [reversed_(mk_)(S), S.int("u")], lambda c: full(c) + [("u is a state", QX(A(c), c.t("u")))], lambda c: counted(c, (GP + "__len_gen__", 0), AED, outof("u")(c), c.t(c.res)), modifies=mods, loops=LEN_GEN)):
        out.append(f.proof())

    # ------------------------------------------------------------ pruning
    FWD, BWD = (z3.Function("%s_%d" % (d_, len(nm)), z3.IntSort(), z3.IntSort(), z3.BoolSort()) for d_ in ("leads_to", "leads_from"))
    LEVF, LEVB = (z3.Function("%s_steps_%d" % (d_, len(nm)), z3.IntSort(), z3.IntSort()) for d_ in ("from_initial", "to_final"))
    def me(c):
        import copy
        d_ = copy.copy(c); args = dict(c.args or {}); args["self"] = c.v("g"); d_.args = args
        return d_
    def forward(c):
        m = methods(c)
        if m[2][0] == outkey and m[3][0] == inkey and m[0][0].endswith("Graph.source") and m[1][0].endswith("Graph.target"): return True
        if m[3][0] == outkey and m[2][0] == inkey and m[1][0].endswith("Graph.source") and m[0][0].endswith("Graph.target"): return False
        raise Unsupported("a search in a graph whose methods are neither its own nor those of its reversal")
    class Reach(CallContract):
        "vertices reached: proved above for every graph offering out_edges, source and target; here the graph is the automaton, as it is or reversed"
        key = FR; label = "vertices reached"
        def when(s, eng, st, a_): return isinstance(a_.get("g"), ObjV)
        def pre(s, c):
            t = c.named(c.t("sources")); adj = c.at("g", "adjacencies")
            return full(me(c)) + [("sources are vertices", fa([x], Implies(isin(t, x), QX(adj, x)), isin(t, x)))]
        def modifies(s, c): return M_(me(c))
        def result(s, c): return c.eng.alloc(c.st, VS, c.eng.fresh(VS, "reached", c.st), "reached")
        def post(s, c):
            fw = forward(c); P = FWD if fw else BWD; t = c.named(c.told("sources")); r_ = c.named(c.t(c.res)); adj = c.at("g", "adjacencies", c.old)
            lev = LEVF if fw else LEVB; st_ = z3.Function(c.eng.uid("before"), z3.IntSort(), z3.IntSort(), z3.IntSort()); sy = z3.Function(c.eng.uid("by"), z3.IntSort(), z3.IntSort(), sort(SYM_))
            step = lambda x_, s_, y_: TR(adj, x_, s_, y_) if fw else TR(adj, y_, s_, x_)
            q_, k_ = Ints("q! k!"); a_ = Const("a!", sort(SYM_))
            same = [mod.same_labels(me(c))] if hasattr(mod, "same_labels") else []
            return same + [("start", fa([x], P(x, 0) == isin(t, x), P(x, 0), isin(t, x))),
                ("go on", ft_(fw, adj, P, q_, a_, k_)),
                ("paths", fa([x, k_], Implies(And(P(x, k_ + 1), k_ >= 0), And(P(st_(x, k_), k_), step(st_(x, k_), sy(x, k_), x))), P(x, k_ + 1))),
                ("every vertex reached by a path", fa([x, k_], Implies(And(k_ >= 0, P(x, k_)), isin(r_, x)), P(x, k_))),
                ("no other vertex", fa([x], Implies(isin(r_, x), And(lev(x) >= 0, P(x, lev(x)))), isin(r_, x)))]
    def ft_(fw, adj, P, q_, a_, k_):
        if fw: return ForAll([q_, a_, k_], Implies(And(HAS(adj, q_, a_), k_ >= 0, P(q_, k_)), P(TGT(adj, q_, a_), k_ + 1)), patterns=[z3.MultiPattern(mod.rowpat(adj, q_, a_), P(q_, k_))])
        return ForAll([q_, a_, k_], Implies(And(HAS(adj, q_, a_), k_ >= 0, P(TGT(adj, q_, a_), k_)), P(q_, k_ + 1)), patterns=[z3.MultiPattern(mod.rowpat(adj, q_, a_), P(TGT(adj, q_, a_), k_))])
    def setup(S):
        g = mk_(S); S.st.objs[g.oid][1]["q0"] = S.int("q0"); w_ = S.word(SYM_, "w"); S.eng.word = w_
        return [g]
    def pre(c):
        c = me(c)
        return full(c) + [("the initial state is a state", QX(A(c), optval(OI, INIT(c))))]
    def inv(c):
        c = me(c); adj, adj0 = A(c), c.at("self", "adjacencies", c.entry); L_ = lambda x_: c.it.key(x_)
        return weak(c) + [("its own methods", BoolVal(forward(c))),
            ("states: the handled ones are gone", fa([j], Implies(And(0 <= j, j < c.k), Not(QX(adj, L_(j)))), L_(j))),
            ("the others are there", fa([j], Implies(And(c.k <= j, j < c.n), QX(adj, L_(j))), L_(j))),
            ("no other state goes", fa([q], Implies(QX(adj0, q), Or(QX(adj, q), Not(isin(c.t("to_keep"), q)))), QX(adj, q), QX(adj0, q))),
            ("no new state", fa([q], Implies(QX(adj, q), QX(adj0, q)), QX(adj, q), QX(adj0, q))),
            ("transitions between the states that are there", ft(HAS(adj, q, a) == And(HAS(adj0, q, a), QX(adj, q), QX(adj, TGT(adj0, q, a))), adj, adj0)),
            ("targets", ft(Implies(HAS(adj, q, a), TGT(adj, q, a) == TGT(adj0, q, a)), adj, adj0))] + keep(c)
    def keep(c):
        return [mod.same_labels(c)] if hasattr(mod, "same_labels") else []
    def post(c):
        c = me(c); e = c.eng; adj, adj0 = A(c), A0(c); kept = c.named(c.t(local(c, "to_keep")))
        wt = e.typeof(c.st, e.word); w_ = c.named(e.term(c.st, e.word)); n_ = seqlen(wt, w_)
        QK = lambda x_: And(QX(adj0, x_), isin(kept, x_))
        R1 = Run(e, "run", lambda o, s_: STEP(adj0, o, s_), INIT(c, c.old), w_, wt); R2 = Run(e, "run_after", lambda o, s_: STEP(adj, o, s_), INIT(c), w_, wt)
        for t in R1.axioms() + R2.axioms(): e.assume(c.st, t)
        fin0, fin = (lambda x_: isfin(c, x_, c.old)), (lambda x_: isfin(c, x_))
        res = [("searches start at the initial state and at the final ones", fa([q], And(FWD(q, 0) == (some(OI, q) == INIT(c, c.old)), BWD(q, 0) == And(QX(adj0, q), fin0(q))), FWD(q, 0), BWD(q, 0))),
            ("states: those that lead from the initial state to a final one", fa([q, k, j], Implies(And(QX(adj0, q), k >= 0, j >= 0, FWD(q, k), BWD(q, j)), QX(adj, q)), z3.MultiPattern(FWD(q, k), BWD(q, j)))),
            ("no other state", fa([q], Implies(QX(adj, q), And(QX(adj0, q), LEVF(q) >= 0, FWD(q, LEVF(q)), LEVB(q) >= 0, BWD(q, LEVB(q)))), QX(adj, q))),
            ("transitions between them", ft(HAS(adj, q, a) == And(HAS(adj0, q, a), QX(adj, q), QX(adj, TGT(adj0, q, a))), adj, adj0)),
            ("targets", ft(Implies(HAS(adj, q, a), TGT(adj, q, a) == TGT(adj0, q, a)), adj, adj0)),
            ("initial state", INIT(c) == INIT(c, c.old)), ("final states", fa([q], fin(q) == fin0(q))), ("its own methods", BoolVal(forward(c)))] + full(c) + keep(c)
        lemma(c, "kept states", fa([q], QX(adj, q) == QK(q), QX(adj, q), QX(adj0, q), isin(kept, q)))
        # runs of the automaton as it was stay among the reachable states
        ov = lambda o: optval(OI, o)
        induct(c, "states of a run are reachable", lambda k_: Implies(is_some(OI, R1(k_)), And(QX(adj0, ov(R1(k_))), FWD(ov(R1(k_)), k_))), IntVal(0), n_, hints=lambda K: [R1.unfold(K)], pats=lambda k_: [R1(k_)])
        acc = And(is_some(OI, R1(n_)), fin0(ov(R1(n_))))
        s0 = c.st.copy(); e.assume(s0, acc); cc = _with(c, s0)
        induct(cc, "they lead to a final state when the word is accepted", lambda k_: And(is_some(OI, R1(n_ - k_)), BWD(ov(R1(n_ - k_)), k_)), IntVal(0), n_, hints=lambda K: [R1.unfold(n_ - K - 1)])
        induct(cc, "the run is still there", lambda k_: R2(k_) == R1(k_), IntVal(0), n_, hints=lambda K: [R1.unfold(K), R2.unfold(K), And(is_some(OI, R1(n_ - (n_ - K))), BWD(ov(R1(n_ - (n_ - K))), n_ - K)), And(is_some(OI, R1(n_ - (n_ - K - 1))), BWD(ov(R1(n_ - (n_ - K - 1))), n_ - K - 1))])
        e.oblige(s0, "lemma:accepted words stay accepted", And(is_some(OI, R2(n_)), fin(ov(R2(n_)))), "lemma")
        induct(c, "a run is a run of the automaton as it was", lambda k_: Implies(is_some(OI, R2(k_)), R1(k_) == R2(k_)), IntVal(0), n_, hints=lambda K: [R1.unfold(K), R2.unfold(K)], pats=lambda k_: [R2(k_)])
        return res + [("no other word is accepted", Implies(And(is_some(OI, R2(n_)), fin(ov(R2(n_)))), acc))]
    def _with(c, st):
        import copy
        d_ = copy.copy(c); d_.st = st; return d_
    out.append(Proof("prune, %s" % nm, PRUNE, setup, pre=pre, post=post, contracts=[Reach(), rv.call()], loops={(PRUNE, 0): LoopSpec(inv=inv)},
        modifies=lambda c: [FINREF(me(c)), c.attr("g", "adjacencies")] + [c.attr("g", n_) for n_ in ("in_adjacencies", "predecessors") if n_ in c.st.objs[c.v("g").oid][1]] + M_(me(c)) + [(c.v("g"), n_) for n_ in ("source", "target", "in_edges", "out_edges")]))
    return out
from contracts.construct import local
PROOFS += automata_part(c3, c3.ia_obj, A_.M + "out_edges", c3.PA + "in_edges", A_.M + "edges", c3.ia_remove_vertex, c3.iinv, c3.iweak, "automaton", False)
PROOFS += automata_part(inn, inn.in_obj, inn.N + "out_edges", inn.PN + "in_edges", inn.N + "edges", inn.in_remove_vertex, inn.inin, inn.inwk, "automaton with symbols on states", True)
