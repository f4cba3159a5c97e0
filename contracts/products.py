"""The product automata of a parallel walk: one state per pair met, one transition per pair of transitions read."""
from contracts.pbfs import *
from contracts import pbfs as pb
import contracts.automata as au
from contracts.automata import QX, HAS, TGT, TR, rowpat, DADJ, FIN, STEP, ft
from contracts.lib import *
from contracts.construct import local
PVM = MAP(PT, INT)
W_ = WORD(SY)
def FIN_AX(): return [Not(FI[i_](none(OI))) for i_ in (1, 2)]
def operands(S):
    theory(S)
    for t in FIN_AX(): S.assume(t)
    S.assume(fa([p_], ISS(p_) == (p_ == mkp(IN[1], IN[2])), ISS(p_)))
    def ini(i_):
        return lambda eng, st, slf, args, kw: [(st, B(eng.term(st, args[0], OI) == IN[i_]))]
    return [a_automaton(S, i_, more={"is_initial": ini(i_)}) for i_ in (1, 2)]
MIX = cls("product_mixin:ProductMixin"); MK = "pybgl.product_mixin:ProductMixin."
def vparts(c, vis, st=None):
    "(automaton, its store, has a state, state of the pair, is final, initial)"
    st = st or c.st
    g = c.attr(vis, "g12", st); pm = c.attr(vis, "map_product_vertices", st); ty = c.eng.typeof(st, pm)
    T_ = lambda v_: c.eng.term(st, v_)
    pmt = T_(pm) if ty.kind != "Untyped" else empty(PVM)
    f = c.attr(c.attr(g, "pmap_vfinal", st), "d", st); ft_ = c.eng.typeof(st, f)
    fin = val(FIN, T_(f)) if ft_.kind != "Untyped" else val(FIN, empty(FIN))
    init = c.t(c.attr(g, "q0", st), OI, st)
    if st is not c.st:
        for t_ in (pmt, fin): c.eng.carry(c.st, t_)
    fin = c.named(fin); dm, vm = c.named(dom(PVM, pmt)), c.named(val(PVM, pmt))
    return g, c.at(g, "adjacencies", st), (lambda p: isin(dm, p)), (lambda p: Select(vm, p)), (lambda q_: Select(fin, q_)), init
def parts(c): return vparts(c, local(c, "vis"))
def mix(c, vis, op, st=None):
    g, adj, inp, PM, fin, init = vparts(c, vis, st); p0 = mkp(IN[1], IN[2])
    return au.ainv(c, g) + [("their state", fa([p_], Implies(inp(p_), And(QX(adj, PM(p_)), fin(PM(p_)) == op(FI[1](P1(p_)), FI[2](P2(p_))))), inp(p_), PM(p_))),
            ("one state each", fa([p_, p2], Implies(And(inp(p_), inp(p2), p_ != p2), PM(p_) != PM(p2)), z3.MultiPattern(PM(p_), PM(p2)))),
            ("no other state", fa([q], Implies(QX(adj, q), Not(fa([p_], Not(And(inp(p_), PM(p_) == q)), PM(p_)))), QX(adj, q))),
            ("final states are states", fa([q], Implies(fin(q), QX(adj, q)), fin(q))),
            ("initial state", And(is_some(OI, init), Implies(inp(p0), init == some(OI, PM(p0)))))]
class GetOrCreate(CallContract):
    "the state of a pair, made when it has none"
    key = MK + "get_or_create_product_vertex"; label = "state of a pair"
    def __init__(s, op): s.op = op
    def when(s, eng, st, a_): return isinstance(a_.get("self"), ObjV) and issubclass(st.objs[a_["self"].oid][0], MIX) if isinstance(st.objs[a_["self"].oid][0], type) else False
    def pair(s, c): return mkp(c.t("q1", OI), c.t("q2", OI))
    def pre(s, c):
        f = c.attr("self", "operator"); ok = []
        for x_ in (True, False):
            for y_ in (True, False):
                outs = c.eng.call(c.st.copy(), f, [B(x_), B(y_)], {})
                ok += [c.eng.truth(o_, v_) == s.op(BoolVal(x_), BoolVal(y_)) for o_, v_ in outs]
        return [("the operator", And(*ok)), ("one of the states at least", Not(s.pair(c) == mkp(none(OI), none(OI))))] + mix(c, c.v("self"), s.op)
    def modifies(s, c):
        g = c.attr("self", "g12")
        return [c.attr("self", "map_product_vertices"), c.attr(g, "adjacencies"), (g, "last_vertex_id"), (g, "q0"), au.finref(c, g)]
    def result(s, c): return c.eng.fresh_value(INT, "q12", c.st)
    def post(s, c):
        vis = c.v("self"); p = c.named(s.pair(c)); g, adj, inp, PM, fin, init = vparts(c, vis); _, adj0, inp0, PM0, fin0, init0 = vparts(c, vis, c.old)
        return mix(c, vis, s.op) + [("it has a state", fa([p_], inp(p_) == Or(inp0(p_), p_ == p), inp(p_), inp0(p_))), ("states are kept", fa([p_], Implies(inp0(p_), PM(p_) == PM0(p_)), PM(p_), PM0(p_))),
            ("the state", And(inp(p), some(OI, PM(p)) == c.t(c.res, OI))), ("transitions are unchanged", And(ft(HAS(adj, q, a) == HAS(adj0, q, a), adj, adj0), ft(Implies(HAS(adj0, q, a), TGT(adj, q, a) == TGT(adj0, q, a)), adj, adj0))),
            ("states stay", fa([q], Implies(QX(adj0, q), QX(adj, q)), QX(adj0, q)))]
def mixin_setup(op):
    def f(S):
        g1, g2 = operands(S)
        g = au.automaton_obj(S, au.AU)
        v_ = S.obj(MIX, map_product_vertices=S.cont(PVM, "products"), g12=g, operator=HandV(lambda eng, st, slf, args, kw: [(st, B(op(eng.truth(st, args[0]), eng.truth(st, args[1]))))], "operator"))
        return [v_, S.const(OI, "q1"), g1, S.const(OI, "q2"), g2]
    return f
def mixin_proof(nm, op):
    k_ = GetOrCreate(op)
    return Proof("state of a pair (%s)" % nm, k_.key, mixin_setup(op), pre=k_.pre, post=k_.post, modifies=k_.modifies, contracts=[au.a_add_vertex.call()])
def product_J(good, goodx, op):
    "good(p): has a state; goodx(p, s): the symbol is followed from the pair"
    def J(c):
        g, adj, inp, PM, fin, init = parts(c); D, EX = c.g("D"), c.g("EX"); p0 = mkp(IN[1], IN[2])
        return mix(c, local(c, "vis"), op) + [("pairs with a state", fa([p_], inp(p_) == And(isin(D, p_), good(p_)), inp(p_), isin(D, p_))),
            ("transitions", fa([p_, a], Implies(inp(p_), HAS(adj, PM(p_), a) == And(isin(EX, XP(p_, a)), goodx(p_, a))), rowpat(adj, PM(p_), a), z3.MultiPattern(inp(p_), isin(EX, XP(p_, a))))),
            ("targets", fa([p_, a], Implies(And(inp(p_), isin(EX, XP(p_, a)), goodx(p_, a)), And(inp(NXT(p_, a)), TGT(adj, PM(p_), a) == PM(NXT(p_, a)))), TGT(adj, PM(p_), a), isin(EX, XP(p_, a))))]
    return J
def add_starts(inv, J):
    return lambda c: inv(c) + J(c)
def loops(J):
    return {(au.G + "Graph.__init__", 0): LoopSpec(inv=lambda c: au.ainv(c) + au.acon_inv(c, c.k)), (PB, 1): LoopSpec(inv=lambda c: outer(c) + J(c), lemma=progress), (PB, 2): LoopSpec(inv=lambda c: inner(c) + J(c))}
def language(c, good, goodx, op):
    g, adj, inp, PM, fin, init = parts(c); e = c.eng; p0 = mkp(IN[1], IN[2])
    w_ = e.word; wt = e.typeof(c.st, w_); wterm = c.named(e.term(c.st, w_)); n_ = seqlen(wt, wterm)
    RP = Run(e, "pairs", lambda p, s_: NXT(p, s_), p0, wterm, wt); RG = Run(e, "run", lambda o_, s_: STEP(adj, o_, s_), init, wterm, wt)
    for t in RP.axioms() + RG.axioms(): e.assume(c.st, t)
    induct(c, "pairs with a state come from a starting pair with one", lambda k_: fa([p_], Implies(And(PATH(p_, k_), good(p_)), good(p0)), PATH(p_, k_)), IntVal(0), hints=lambda K: [fa([p_], PATH_ELIM(p_, K), PATH(p_, K + 1))])
    state = lambda k_: If(good(RP(k_)), And(inp(RP(k_)), RG(k_) == some(OI, PM(RP(k_)))), Or(is_none(OI, RG(k_)), Not(QX(adj, optval(OI, RG(k_))))))
    dead = lambda K: [RP.unfold(K), RG.unfold(K), SYMB(RP(K), RP.at(K)) == SYMB(RP(K), RP.at(K)), NXT(RP(K), RP.at(K)) == NXT(RP(K), RP.at(K)), isin(c.g("EX"), XP(RP(K), RP.at(K))) == isin(c.g("EX"), XP(RP(K), RP.at(K)))]
    induct(c, "the run of a word is that of the pair of runs", state, IntVal(0), n_, hints=dead, pats=lambda k_: [RP(k_)])
    acc12 = And(is_some(OI, RG(n_)), fin(optval(OI, RG(n_))))
    return [("accepted words", acc12 == op(And(is_some(OI, P1(RP(n_))), FI[1](P1(RP(n_)))), And(is_some(OI, P2(RP(n_))), FI[2](P2(RP(n_))))))]
CONTRACTS = lambda op: [au.a_add_vertex.call(), au.a_add_edge.call(), GetOrCreate(op)]
TYPES = {"map_vcolor": PDC, "map_product_vertices": PVM, "adjacencies": DADJ, "map_vfinal": FIN}
def product_post(J, good, goodx, op):
    def post(c):
        R = end(c) + J(c)
        g, adj, inp, PM, fin, init = parts(c); X = c.g("X")
        for nm, t in R: lemma(c, nm, t)
        r_ = c.res
        return [("the automaton filled is returned", BoolVal(isinstance(r_, ObjV) and r_.oid == g.oid)),
            ("the initial state is that of the pair of initial states", Implies(good(mkp(IN[1], IN[2])), init == some(OI, PM(mkp(IN[1], IN[2]))))),
            ("transitions follow those of the operands", fa([p_, a], Implies(inp(p_), And(HAS(adj, PM(p_), a) == And(SYMB(p_, a), goodx(p_, a)), Implies(And(SYMB(p_, a), goodx(p_, a)), TGT(adj, PM(p_), a) == PM(NXT(p_, a))))), rowpat(adj, PM(p_), a), z3.MultiPattern(inp(p_), SYMB(p_, a))))] + language(c, good, goodx, op)
    return post
