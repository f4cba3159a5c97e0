import contracts.automata as au
from contracts.automata import *
from contracts.construct import local
from contracts.search import isin
NOTE = "determinization proved for every non-deterministic automaton, complete or not: one state per set of states met, its transitions, reachability, language by induction on the word, each turn settling one more set of states (hence termination)"
TRUSTED = TRUSTED_BASE
ASSUMPTIONS = ASSUME_BASE + ["the automaton's own delta_epsilon, delta, sigma, alphabet and is_final follow their contracts (proved under C06), and it does not change", "words do not contain the mark of the empty move", "an automaton given for the result is empty, its initial state being its first one"]
MD = "pybgl.moore_determination:moore_determination"
FS = FSET(INT); ss, sy = sort(FS), sort(SY); FSY = FSET(SY); SQM = MAP(FS, INT); SSET = SET(FS); I_ = z3.IntSort(); B_ = z3.BoolSort()
X, Y = Consts("X Y", ss)
DN = z3.Function("targets", I_, sy, ss); SGN = z3.Function("symbols_of", I_, sort(FSY)); ALPH = Const("alphabet", sort(FSY)); Q0 = Const("closed_initial_states", ss); NF = z3.Function("is_final_state", I_, B_); NST = z3.Function("is_nfa_state", I_, B_)
UNI = z3.Function("targets_of_set", ss, sy, ss); UW = z3.Function("target_origin", ss, sy, I_, I_); AF = z3.Function("holds_final", ss, B_); AW = z3.Function("final_member", ss, I_)
SIGS = z3.Function("symbols_of_set", ss, sort(FSY)); SW = z3.Function("symbol_origin", ss, sy, I_); REACH = z3.Function("reached_by_a_word", ss, B_); EMPTYS = empty(FS)
EPSS = Const("empty_move", sy)
AX = [fa([X, a, r], Implies(isin(UNI(X, a), r), And(isin(X, UW(X, a, r)), isin(DN(UW(X, a, r), a), r))), isin(UNI(X, a), r)),
    fa([X, a, q, r], Implies(And(isin(X, q), isin(DN(q, a), r)), isin(UNI(X, a), r)), z3.MultiPattern(UNI(X, a), isin(X, q), isin(DN(q, a), r))),
    fa([X], Implies(AF(X), And(isin(X, AW(X)), NF(AW(X)))), AF(X)), fa([X, q], Implies(And(isin(X, q), NF(q)), AF(X)), z3.MultiPattern(AF(X), isin(X, q))),
    fa([X, a], Implies(isin(SIGS(X), a), And(isin(X, SW(X, a)), isin(SGN(SW(X, a)), a))), isin(SIGS(X), a)), fa([X, a, q], Implies(And(isin(X, q), isin(SGN(q), a)), isin(SIGS(X), a)), z3.MultiPattern(SIGS(X), isin(X, q), isin(SGN(q), a))),
    fa([q, a, r], Implies(And(isin(DN(q, a), r), a != EPSS), And(isin(SGN(q), a), isin(ALPH, a))), isin(DN(q, a), r)), fa([q, a], Implies(isin(SGN(q), a), isin(ALPH, a)), isin(SGN(q), a)), Not(isin(ALPH, EPSS)),
    fa([q, a, r], Implies(isin(DN(q, a), r), NST(r)), isin(DN(q, a), r)), fa([r], Implies(isin(Q0, r), NST(r)), isin(Q0, r))]
INITIALS = SET(INT)
class World: pass
def setup(complete, given):
    def f(S):
        e = S.eng; e.complete = complete
        for t in AX: S.assume(t)
        ini = S.cont(INITIALS, "initials")
        T_ = lambda eng, st, v: eng.term(st, v, INT)
        fn = lambda g: lambda eng, st, slf, args, kw: [(st, g(eng, st, *args))]
        def delta_eps(eng, st, slf, args, kw):
            eng.oblige(st, "event:the closure asked for is that of the initial states", eng.term(st, args[0]) == eng.term(st, ini)); return [(st, Sc(FS, Q0))]
        hs = dict(alphabet=fn(lambda eng, st: Sc(FSY, ALPH)), delta_epsilon=delta_eps, delta=fn(lambda eng, st, q_, a_: Sc(FS, DN(T_(eng, st, q_), eng.term(st, a_, SY)))),
            sigma=fn(lambda eng, st, q_: Sc(FSY, SGN(T_(eng, st, q_)))), is_final=fn(lambda eng, st, q_: Sc(BOOL, NF(T_(eng, st, q_)))))
        nfa = e.new_obj(S.st, cls("nfa:Nfa"), dict(initials=ini), hs)
        w = S.word(SY, "w"); e.word = w; wt = e.typeof(S.st, w); S.assume(fa([i], Implies(And(0 <= i, i < seqlen(wt, S.term(w))), seqat(wt, S.term(w), i) != EPSS), seqat(wt, S.term(w), i)))
        S.assume(REACH(Q0), fa([X, a], Implies(And(REACH(X), isin(follow(e)(X), a)), REACH(UNI(X, a))), z3.MultiPattern(REACH(X), UNI(X, a))))
        if given:
            g = au.automaton_obj(S); t = S.term(S.st.objs[g.oid][1]["adjacencies"])
            S.assume(S.term(S.st.objs[g.oid][1]["last_vertex_id"]) == 0, fa([q], Not(QX(t, q)), QX(t, q)), S.term(S.st.objs[g.oid][1]["q0"]) == some(OI, IntVal(0)))
            fin = S.term(S.st.objs[S.st.objs[g.oid][1]["pmap_vfinal"].oid][1]["d"]); S.assume(fa([q], Not(Select(val(FIN, fin), q)), Select(val(FIN, fin), q)))
        return [nfa, g if given else NONE_, B(complete)] if given or not complete else [nfa]
    return f
def follow(e): return (lambda X_: ALPH) if e.complete else SIGS
def parts(c):
    g = local(c, "dfa"); pm = local(c, "map_qs_q"); ty = c.eng.typeof(c.st, pm); T_ = lambda v_: c.eng.term(c.st, v_)
    pmt = T_(pm) if ty.kind != "Untyped" else empty(SQM); dm, vm = c.named(dom(SQM, pmt)), c.named(val(SQM, pmt))
    f = c.attr(c.attr(g, "pmap_vfinal"), "d"); fin = val(FIN, T_(f)) if c.eng.typeof(c.st, f).kind != "Untyped" else val(FIN, empty(FIN)); fin = c.named(fin)
    u = local(c, "unprocessed_qs"); ut = T_(u) if c.eng.typeof(c.st, u).kind != "Untyped" else empty(SSET); ut = c.named(ut)
    return g, c.at(g, "adjacencies"), (lambda X_: isin(dm, X_)), (lambda X_: Select(vm, X_)), (lambda q_: Select(fin, q_)), c.t(c.attr(g, "q0"), OI), (lambda X_: isin(ut, X_))
def core(c):
    g, adj, inp, PM, fin, init, un = parts(c)
    return au.ainv(c, g) + [("a set met has a state", fa([X], Implies(inp(X), And(QX(adj, PM(X)), fin(PM(X)) == AF(X))), inp(X), PM(X))),
        ("one state each", fa([X, Y], Implies(And(inp(X), inp(Y), X != Y), PM(X) != PM(Y)), z3.MultiPattern(PM(X), PM(Y)))),
        ("no other state", fa([q], Implies(QX(adj, q), Not(fa([X], Not(And(inp(X), PM(X) == q)), PM(X)))), QX(adj, q))), ("final states are states", fa([q], Implies(fin(q), QX(adj, q)), fin(q))),
        ("the initial state", And(inp(Q0), init == some(OI, PM(Q0)))), ("sets to process have a state", fa([X], Implies(un(X), inp(X)), un(X))),
        ("sets met are reached by words", fa([X], Implies(inp(X), REACH(X)), inp(X))), ("they hold states of the argument", fa([X, q], Implies(And(inp(X), isin(X, q)), NST(q)), z3.MultiPattern(inp(X), isin(X, q))))]
def rows(c, settled):
    g, adj, inp, PM, fin, init, un = parts(c); F_ = follow(c.eng)
    return [("transitions of settled sets", fa([X, a], Implies(And(inp(X), settled(X)), HAS(adj, PM(X), a) == isin(F_(X), a)), rowpat(adj, PM(X), a), z3.MultiPattern(inp(X), isin(F_(X), a)))),
        ("targets of settled sets", fa([X, a], Implies(And(inp(X), settled(X), isin(F_(X), a)), And(inp(UNI(X, a)), TGT(adj, PM(X), a) == PM(UNI(X, a)))), TGT(adj, PM(X), a), z3.MultiPattern(inp(X), isin(F_(X), a))))]
def outer(c):
    g, adj, inp, PM, fin, init, un = parts(c)
    return core(c) + rows(c, lambda X_: Not(un(X_))) + [("sets to process have no transition", fa([X, a], Implies(un(X), Not(HAS(adj, PM(X), a))), rowpat(adj, PM(X), a)))]
def settled_at_entry(c, inp, un):
    h = c.entry; fid = c.fid
    def at(nm, ty, f):
        v = h.frames[fid][nm]; t = c.eng.term(h, v) if c.eng.typeof(h, v).kind != "Untyped" else empty(ty); c.eng.carry(c.st, t); return c.named(f(t))
    d0, u0 = at("map_qs_q", SQM, lambda t: dom(SQM, t)), at("unprocessed_qs", SSET, lambda t: t)
    return fa([X], Implies(And(isin(d0, X), Not(isin(u0, X))), And(inp(X), Not(un(X)))), isin(d0, X))
def inner(c):
    g, adj, inp, PM, fin, init, un = parts(c); key = c.it.key; S_ = c.t("qs", FS); F_ = follow(c.eng)
    return core(c) + rows(c, lambda X_: And(Not(un(X_)), X_ != S_)) + [("sets to process have no transition", fa([X, a], Implies(un(X), Not(HAS(adj, PM(X), a))), rowpat(adj, PM(X), a))),
        ("the set at hand", And(inp(S_), Not(un(S_)), c.t("q") == PM(S_))), ("symbols", fa([a], isin(F_(S_), a) == isin(c.t("sigma_", FSY), a), isin(F_(S_), a), isin(c.t("sigma_", FSY), a))),
        ("settled sets stay settled", settled_at_entry(c, inp, un)),
        ("its transitions so far", fa([j], Implies(And(0 <= j, j < c.k), And(HAS(adj, PM(S_), key(j)), inp(UNI(S_, key(j))), TGT(adj, PM(S_), key(j)) == PM(UNI(S_, key(j))))), key(j))),
        ("its transitions to come", fa([a], Implies(HAS(adj, PM(S_), a), And(isin(F_(S_), a), Not(fa([j], Implies(And(0 <= j, j < c.k), key(j) != a), key(j))))), rowpat(adj, PM(S_), a)))]
def met(c):
    S_ = c.t("qs", FS); x_ = c.it.key(c.k); return [("the targets of the set are reached by a word", REACH(UNI(S_, x_)))]
def progress(c):
    "one more set is settled, and settled sets stay settled"
    inp, un = parts(c)[2], parts(c)[6]; h = c.head
    def at_head(nm, ty, f):
        v = h.frames[c.fid][nm]; t = c.eng.term(h, v) if c.eng.typeof(h, v).kind != "Untyped" else empty(ty); c.eng.carry(c.st, t); return c.named(f(t))
    d0 = at_head("map_qs_q", SQM, lambda t: dom(SQM, t)); u0 = at_head("unprocessed_qs", SSET, lambda t: t); S_ = c.t("qs", FS)
    return [("each turn settles one more set (hence termination)", And(isin(u0, S_), inp(S_), Not(un(S_)), fa([X], Implies(And(isin(d0, X), Not(isin(u0, X))), And(inp(X), Not(un(X)))), isin(d0, X))))]
def post(c):
    g, adj, inp, PM, fin, init, un = parts(c); e = c.eng; F_ = follow(e)
    R = core(c) + rows(c, lambda X_: BoolVal(True))
    for nm, t in R: lemma(c, nm, t)
    w_ = e.word; wt = e.typeof(c.st, w_); wterm = c.named(e.term(c.st, w_)); n_ = seqlen(wt, wterm)
    RS = Run(e, "sets", UNI, Q0, wterm, wt); RG = Run(e, "run", lambda o_, s_: STEP(adj, o_, s_), init, wterm, wt)
    for t in RS.axioms() + RG.axioms(): e.assume(c.st, t)
    hints = lambda K: [RS.unfold(K), RG.unfold(K), RS.at(K) != EPSS] + [fa([r], Implies(isin(UNI(RS(K), RS.at(K)), r), And(isin(F_(RS(K)), RS.at(K)))), isin(UNI(RS(K), RS.at(K)), r)), fa([r], Implies(isin(UNI(EMPTYS, RS.at(K)), r), isin(EMPTYS, UW(EMPTYS, RS.at(K), r))), isin(UNI(EMPTYS, RS.at(K)), r))]
    forall_lemma(c, "no symbol leads anywhere else", [X, a, r], [isin(UNI(X, a), r), a != EPSS], isin(F_(X), a), [isin(UNI(X, a), r)])
    lemma(c, "other symbols lead to no state", fa([X, a], Implies(And(a != EPSS, Not(isin(F_(X), a))), UNI(X, a) == EMPTYS), UNI(X, a)))
    lemma(c, "from no state to no state", fa([a], UNI(EMPTYS, a) == EMPTYS, UNI(EMPTYS, a)))
    state = lambda k_: Or(And(inp(RS(k_)), RG(k_) == some(OI, PM(RS(k_)))), And(RG(k_) == none(OI), RS(k_) == EMPTYS))
    induct(c, "the run of a word is that of the sets of states", state, IntVal(0), n_, hints=lambda K: [RS.unfold(K), RG.unfold(K), RS.at(K) != EPSS, Implies(RS(K) == EMPTYS, UNI(EMPTYS, RS.at(K)) == EMPTYS), Implies(And(inp(RS(K)), isin(F_(RS(K)), RS.at(K))), inp(UNI(RS(K), RS.at(K)))), HAS(adj, PM(RS(K)), RS.at(K)) == Or(HAS(adj, PM(RS(K)), RS.at(K)), BoolVal(False))], pats=lambda k_: [RS(k_)])
    lemma(c, "no state holds no final state", Not(AF(EMPTYS)))
    return [("the automaton filled is returned", BoolVal(isinstance(c.res, ObjV) and c.res.oid == g.oid)), ("accepted words", And(is_some(OI, RG(n_)), fin(optval(OI, RG(n_)))) == AF(RS(n_))),
        ("with completion, each symbol leaves each state", fa([q, a], Implies(And(QX(adj, q), isin(ALPH, a)), HAS(adj, q, a)), rowpat(adj, q, a)) if e.complete else BoolVal(True))]
TY = {"map_qs_q": SQM, "unprocessed_qs": SSET, "adjacencies": DADJ, "map_vfinal": FIN}
LOOPS = {(au.G + "Graph.__init__", 0): LoopSpec(inv=lambda c: au.ainv(c) + au.acon_inv(c, c.k)), (MD, 0): LoopSpec(inv=outer, lemma=progress), (MD, 1): LoopSpec(inv=inner, lemma=met)}
PROOFS = [Fn("determinization%s%s" % (", complete" if cm else "", ", automaton given" if gv else ""), MD, setup(cm, gv), post=post, loops=LOOPS, types=TY, uses=[au.a_add_vertex.call(), au.a_add_edge.call()]).proof() for cm in (True, False) for gv in (False, True)]
