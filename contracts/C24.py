from contracts.products import *
TRIE = cls("trie:Trie")
tr = instance("automata", PARAM_CLASS=TRIE)
NOTE = "insertion of a word and merge of another trie proved for every trie: language, tree shape, states are prefixes, the merged trie is only read"
TRUSTED = TRUSTED_BASE
ASSUMPTIONS = ASSUME_BASE + ["the merged trie is not the receiver; its own sigma, delta, initial and is_final follow their contracts (proved under C04, C25), and the absent state is not final",
    "in a tree the word that leads to a state determines the state of the other trie (functions of the states, defined by recursion along the tree)"]
TM = "pybgl.trie:"
D2, S2, F2, I2 = DL[2], SG[2], FI[2], IN[2]
PQ2 = z3.Function("entered_from", so, so); PA2 = z3.Function("entered_by", so, ss)
PQ1 = z3.Function("entered_from_1", z3.IntSort(), z3.IntSort()); PA1 = z3.Function("entered_by_1", z3.IntSort(), ss)
U1 = z3.Function("same_word_in_1", so, so); U2 = z3.Function("same_word_in_2", z3.IntSort(), so)
MQ = MAP(OI, INT)
t_ = Int("t_"); o1, o2 = Consts("o1 o2", so)

def tree1(adj, init):
    return [("the initial state is a state, and is not entered", And(is_some(OI, init), QX(adj, optval(OI, init)), fa([q, a], Implies(HAS(adj, q, a), TGT(adj, q, a) != optval(OI, init)), TGT(adj, q, a)))),
            ("each state is entered once", fa([q, a], Implies(HAS(adj, q, a), And(PQ1(TGT(adj, q, a)) == q, PA1(TGT(adj, q, a)) == a)), TGT(adj, q, a)))]
TREE2 = [is_some(OI, I2), Not(F2(none(OI))),
    fa([o, a], Implies(is_some(OI, D2(o, a)), And(D2(o, a) != I2, PQ2(D2(o, a)) == o, PA2(D2(o, a)) == a)), D2(o, a)),
    fa([o, a], is_some(OI, D2(o, a)) == isin(S2(o), a), D2(o, a)), fa([o, a], is_some(OI, D2(o, a)) == isin(S2(o), a), isin(S2(o), a)),
    fa([a], Not(isin(S2(none(OI)), a)), isin(S2(none(OI)), a)), fa([a], is_none(OI, D2(none(OI), a)), D2(none(OI), a))]
def corr(adj, init):
    "the state of the other trie reached by the same word"
    return [U1(I2) == init, U2(optval(OI, init)) == I2,
        fa([o, a], Implies(is_some(OI, D2(o, a)), U1(D2(o, a)) == STEP(adj, U1(o), a)), D2(o, a)),
        fa([q, a], Implies(HAS(adj, q, a), U2(TGT(adj, q, a)) == D2(U2(q), a)), TGT(adj, q, a), rowpat(adj, q, a))]

def g1v(c): return c.args["g1"]
def fus_setup(S):
    for t in TREE2: S.assume(t)
    g1 = tr.automaton_obj(S, TRIE)
    ini = lambda eng, st, slf, args, kw: [(st, B(eng.term(st, args[0], OI) == I2))]
    g2 = a_automaton(S, 2, klass="trie:Trie", more={"is_initial": ini})
    S.eng.word = S.word(SY, "w")
    return [g1, g2]
def fus_pre(c):
    g = g1v(c); adj, init = c.at(g, "adjacencies"), INIT(c, None, g)
    c.eng.A1, c.eng.init1, c.eng.fin1 = adj, init, FN(c, None, g)
    return ainv(c, g) + tree1(adj, init) + [("final states are states", fa([q], Implies(isfin(c, q, None, g), QX(adj, q)), isfin(c, q, None, g)))] + [("the state reached by the same word (%d)" % n_, t) for n_, t in enumerate(corr(adj, init))]
ainv, INIT, FN, isfin = au.ainv, au.INIT, au.FN, au.isfin
fin0 = lambda c, q_: Select(val(FIN, c.eng.fin1), q_)

def mmap(c):
    m = c.attr(c.v("vis") if c.fid is not None else visv(c), "map_q2_q1"); ty = c.ty(m)
    if ty.kind == "Untyped": return (lambda x_: BoolVal(False)), (lambda x_: IntVal(-1)), False
    t = c.t(m); d_, v_ = c.named(dom(ty, t)), c.named(val(ty, t))
    return (lambda x_: Select(d_, x_)), (lambda x_: Select(v_, x_)), True
def visv(c): return next(ObjV(o_) for o_, (k_, at_, h_) in c.st.objs.items() if isinstance(k_, type) and k_.__name__ == "TrieDeterministicFusion")
def state(c, cur=None, done=None):
    """done(a): symbol a was followed from the current pair"""
    g = g1v(c); adj = c.at(g, "adjacencies"); A1, init = c.eng.A1, c.eng.init1; col = color(c) if c.fid is not None else color_end(c); inM, M, _ = mmap(c)
    finm = c.named(val(FIN, c.eng.term(c.st, au.finref(c, g)))); fin = lambda q_: Select(finm, q_)
    cn, at_, l_, h_, typed = queue(c) if c.fid is not None else (lambda p: IntVal(0), None, None, None, False)
    DD = lambda p: col(p) != 0
    dn = lambda p, s: Or(col(p) == 2, And(p == cur, done(s))) if cur is not None else col(p) == 2
    old = lambda q_: QX(A1, q_)
    pq = lambda q_: mkp(some(OI, q_), U2(q_)); pn = lambda o_: mkp(none(OI), o_)
    inq = lambda p: And(col(p) == 1, p != cur) if cur is not None else col(p) == 1
    R = ainv(c, g)
    R += [("initial state kept", INIT(c, None, g) == init),
        ("states are kept", fa([q], Implies(old(q), QX(adj, q)), QX(adj, q), QX(A1, q))),
        ("colours", fa([p_], And(0 <= col(p_), col(p_) <= 2), col(p_))),
        ("the pairs met are those of one word", fa([p_], Implies(DD(p_), And(Implies(is_some(OI, P1(p_)), And(old(optval(OI, P1(p_))), P2(p_) == U2(optval(OI, P1(p_))))), Implies(is_some(OI, P2(p_)), P1(p_) == U1(P2(p_))), Or(is_some(OI, P1(p_)), is_some(OI, P2(p_))))), col(p_))),
        ("the queue holds each pair once, not examined", fa([p_], And(0 <= cn(p_), cn(p_) <= 1, Implies(cn(p_) > 0, inq(p_)), Implies(And(inq(p_), is_some(OI, P2(p_))), cn(p_) == 1)), col(p_), *([cn(p_)] if typed else []))),
        ("the initial pair is met", DD(mkp(init, I2))),
        ("examined pairs lead to pairs met", fa([p_, a], Implies(And(DD(p_), dn(p_, a), isin(S2(P2(p_)), a)), DD(mkp(STEP(A1, P1(p_), a), D2(P2(p_), a)))), z3.MultiPattern(col(p_), isin(S2(P2(p_)), a)))),
        ("pairs are met from examined pairs", fa([p_], Implies(And(DD(p_), is_some(OI, P2(p_)), P2(p_) != I2), And(DD(mkp(U1(PQ2(P2(p_))), PQ2(P2(p_)))), dn(mkp(U1(PQ2(P2(p_))), PQ2(P2(p_))), PA2(P2(p_))))), col(p_))),
        ("new states", fa([o], Implies(And(DD(pn(o)), is_some(OI, o)), And(inM(o), QX(adj, M(o)), Not(old(M(o))))), col(pn(o)), M(o), inM(o))),
        ("new states are distinct", fa([o1, o2], Implies(And(DD(pn(o1)), is_some(OI, o1), DD(pn(o2)), is_some(OI, o2), M(o1) == M(o2)), o1 == o2), z3.MultiPattern(M(o1), M(o2)))),
        ("no other state", fa([q], Implies(And(QX(adj, q), Not(old(q))), Not(fa([o], Not(And(DD(pn(o)), is_some(OI, o), M(o) == q)), M(o)))), QX(adj, q))),
        ("transitions of former states", fa([q, a], Implies(old(q), HAS(adj, q, a) == Or(HAS(A1, q, a), And(DD(pq(q)), dn(pq(q), a), isin(S2(U2(q)), a)))), rowpat(adj, q, a), rowpat(A1, q, a))),
        ("their targets", fa([q, a], Implies(And(old(q), HAS(adj, q, a)), TGT(adj, q, a) == If(HAS(A1, q, a), TGT(A1, q, a), M(D2(U2(q), a)))), TGT(adj, q, a), TGT(A1, q, a))),
        ("transitions of new states", fa([o, a], Implies(And(DD(pn(o)), is_some(OI, o)), HAS(adj, M(o), a) == And(dn(pn(o), a), isin(S2(o), a))), rowpat(adj, M(o), a), z3.MultiPattern(M(o), isin(S2(o), a)))),
        ("their targets", fa([o, a], Implies(And(DD(pn(o)), is_some(OI, o), HAS(adj, M(o), a)), TGT(adj, M(o), a) == M(D2(o, a))), TGT(adj, M(o), a), z3.MultiPattern(M(o), D2(o, a)))),
        ("final states", fa([q], And(Implies(fin(q), QX(adj, q)), Implies(old(q), fin(q) == Or(fin0(c, q), And(DD(pq(q)), F2(U2(q)))))), fin(q))),
        ("new final states", fa([o], Implies(And(DD(pn(o)), is_some(OI, o)), fin(M(o)) == F2(o)), fin(M(o)), M(o)))]
    return R
def f_outer(c): return state(c)
def f_inner(c):
    u_ = c.named(mkp(c.t("q1", OI), c.t("q2", OI))); key = c.it.key; ty = c.ty(c.it.container) if hasattr(c.it, "container") else None
    col = color(c); A1 = c.eng.A1
    isym = lambda s: Or(isin(S2(P2(u_)), s), And(is_some(OI, P1(u_)), HAS(A1, optval(OI, P1(u_)), s)))
    done = lambda s: And(isym(s), c.it.pos(s) < c.k)
    return [("at the current pair", col(u_) == 1), ("symbols", fa([j], Implies(And(0 <= j, j < c.n), And(isym(key(j)), c.it.pos(key(j)) == j)), key(j)))] + \
        [("every symbol", fa([a], Implies(isym(a), And(0 <= c.it.pos(a), c.it.pos(a) < c.n, key(c.it.pos(a)) == a)), isin(S2(P2(u_)), a), c.it.pos(a)))] + state(c, u_, done)
def fus_post(c):
    g = g1v(c); e = c.eng; adj = c.at(g, "adjacencies"); A1, init = e.A1, e.init1
    wt = e.typeof(c.st, e.word); wterm = c.named(e.term(c.st, e.word)); n_ = seqlen(wt, wterm)
    Y = Run(e, "run", lambda o_, s_: STEP(adj, o_, s_), init, wterm, wt); R1 = Run(e, "run_receiver", lambda o_, s_: STEP(A1, o_, s_), init, wterm, wt); R2 = Run(e, "run_merged", lambda o_, s_: D2(o_, s_), I2, wterm, wt)
    for t in Y.axioms() + R1.axioms() + R2.axioms(): e.assume(c.st, t)
    col = color_end(c); inM, M, _ = mmap(c); fin = lambda q_: isfin(c, q_, None, g)
    DD = lambda p: col(p) != 0
    for nm, t in state(c): lemma(c, nm, t)
    lemma(c, "every pair met is examined", fa([p_], Implies(And(DD(p_), is_some(OI, P2(p_))), col(p_) == 2), col(p_)))
    old = lambda q_: QX(A1, q_)
    stays = lambda k_: And(Implies(is_some(OI, R1(k_)), And(old(optval(OI, R1(k_))), U2(optval(OI, R1(k_))) == R2(k_))), Implies(is_some(OI, R2(k_)), U1(R2(k_)) == R1(k_)))
    induct(c, "the runs correspond", stays, IntVal(0), n_, hints=lambda K: [R1.unfold(K), R2.unfold(K), D2(R2(K), R2.at(K)) == D2(R2(K), R2.at(K))], pats=lambda k_: [R1(k_)])
    pr = lambda k_: mkp(R1(k_), R2(k_))
    run = lambda k_: And(Implies(is_some(OI, R2(k_)), DD(pr(k_))), Y(k_) == If(is_some(OI, R1(k_)), R1(k_), If(is_some(OI, R2(k_)), some(OI, M(R2(k_))), none(OI))))
    induct(c, "the run of a word in the merged trie", run, IntVal(0), n_, hints=lambda K: [R1.unfold(K), R2.unfold(K), Y.unfold(K), Implies(is_some(OI, R2(K)), col(pr(K)) == 2), isin(S2(R2(K)), R2.at(K)) == isin(S2(R2(K)), R2.at(K))], pats=lambda k_: [Y(k_)])
    acc = lambda R_, f_: And(is_some(OI, R_(n_)), f_(optval(OI, R_(n_))))
    return ainv(c, g) + [("accepted words: those of either trie", acc(Y, fin) == Or(acc(R1, lambda q_: fin0(c, q_)), F2(R2(n_)))),
        ("a word leads to a state exactly when it does in either trie", is_some(OI, Y(n_)) == Or(is_some(OI, R1(n_)), is_some(OI, R2(n_)))),
        ("states are kept: the words leading to them too", Implies(is_some(OI, R1(n_)), Y(n_) == R1(n_))),
        ("other states come from states of the merged trie", fa([q], Implies(And(QX(adj, q), Not(old(q))), Not(fa([o], Not(And(DD(mkp(none(OI), o)), is_some(OI, o), M(o) == q)), M(o)))), QX(adj, q))),
        ("the words leading there too", Implies(And(is_none(OI, R1(n_)), is_some(OI, R2(n_))), Y(n_) == some(OI, M(R2(n_))))),
        ("the initial state is kept", INIT(c, None, g) == init)] + tr.tree_inv(c, None, g)
def color_end(c):
    m = next(c.attr(ObjV(o_), "d") for o_, (k_, at_, h_) in c.st.objs.items() if isinstance(k_, type) and k_.__name__ == "AssocPropertyMap" and o_ not in c.old.objs)
    ty = c.ty(m); t = c.named(val(ty, c.t(m)))
    return lambda p: Select(t, p)
FLOOPS = {(PB, 1): LoopSpec(inv=f_outer), (PB, 2): LoopSpec(inv=f_inner)}
fusion = Fn("merge", TM + "trie_deterministic_fusion", fus_setup, fus_pre, fus_post, uses=[tr.a_add_vertex, tr.a_add_edge, tr.set_final], loops=FLOOPS, types={"map_q2_q1": MQ})

# ---------------------------------------------------------------- the class
class Handed(CallContract):
    "insert hands its argument over, once"
    def __init__(s, key): s.key = key; s.label = "proved on its own"
    def apply(s, eng, st, env):
        vs = [v_ for k_, v_ in env.items() if not k_.startswith("$")]
        same = isinstance(vs[0], ObjV) and vs[0].oid == eng.trie.oid and len(vs) == 2 and (vs[1].oid == eng.what.oid if isinstance(vs[1], ObjV) and isinstance(eng.what, ObjV) else (not isinstance(vs[1], ObjV) and not isinstance(eng.what, ObjV) and vs[1].ty == eng.what.ty and bool(z3.eq(vs[1].t, eng.what.t))))
        eng.oblige(st, "event:the argument is handed over, once", And(BoolVal(bool(same)), G_(st, "calls") == 0))
        gset(st, "calls", INT, IntVal(1))
        return [(st, NONE_)]
def handed(mk_):
    def f(S):
        S.eng.trie = tr.automaton_obj(S, TRIE); S.eng.what = mk_(S); S.ghost("calls", INT, IntVal(0))
        return [S.eng.trie, S.eng.what]
    return f
called = lambda c: [("the insertion is done", c.g("calls") == 1)]
INS = [Fn("insert a word", TM + "Trie.insert", handed(lambda S: S.word(SY, "x")), lambda c: [], called, modifies=lambda c: ["calls"], uses=[Handed("pybgl.automaton:Automaton.automaton_insert_string")]),
       Fn("insert a trie", TM + "Trie.insert", handed(lambda S: tr.automaton_obj(S, TRIE)), lambda c: [], called, modifies=lambda c: ["calls"], uses=[Handed(TM + "trie_deterministic_fusion")])]
def con_setup(S): return [S.obj(TRIE)]
def con_post(c):
    g = c.args["self"]
    return ainv(c) + [("one state", fa([q], QX(c.at(g, "adjacencies"), q) == (q == 0))), ("no transition", fa([q, a], Not(HAS(c.at(g, "adjacencies"), q, a)))), ("the initial state", INIT(c) == some(OI, 0)), ("no final state", fa([q], Not(isfin(c, q))))] + tr.tree_inv(c)
con = Fn("new trie", TM + "Trie.__init__", con_setup, lambda c: [], con_post, uses=[tr.a_add_vertex], types={"adjacencies": DADJ, "map_vfinal": FIN},
    loops={(au.G + "Graph.__init__", 0): LoopSpec(inv=lambda c: ainv(c) + au.acon_inv(c, c.k))})
TP1, TS1 = z3.Function("enters_from", z3.IntSort(), z3.IntSort()), z3.Function("enters_by", z3.IntSort(), ss)
def ne_pre(c):
    adj = c.at("self", "adjacencies")
    return ainv(c) + tr.tree_inv(c) + [("the other states are entered", fa([q], Implies(And(QX(adj, q), some(OI, q) != INIT(c)), And(HAS(adj, TP1(q), TS1(q)), TGT(adj, TP1(q), TS1(q)) == q)), QX(adj, q)))]
def ne_post(c):
    it = c.st.notes.get(("it", au.G + "__len_gen__", 0)); adj = c.at("self", "adjacencies"); n_ = c.t(c.res)
    if it is None: return [("there is a state", BoolVal(False))]
    p0 = Int(c.eng.uid("p0")); ini = optval(OI, INIT(c))
    lemma(c, "the initial state is counted", Not(fa([j], Implies(And(0 <= j, j < it.n), it.key(j) != ini), it.key(j))))
    c.eng.assume(c.st, And(0 <= p0, p0 < it.n, it.key(p0) == ini))       # names the position just shown to exist
    ST = lambda j_: it.key(If(j_ < p0, j_, j_ + 1))
    lemma(c, "states are counted once", fa([i, j], Implies(And(0 <= i, i < j, j < it.n), it.key(i) != it.key(j)), z3.MultiPattern(it.key(i), it.key(j))))
    P_ = z3.Function(c.eng.uid("position"), z3.IntSort(), z3.IntSort())
    return [("one less than the states", n_ == it.n - 1), ("the count lists transitions", fa([j], Implies(And(0 <= j, j < n_), HAS(adj, TP1(ST(j)), TS1(ST(j)))))),
        ("each once", fa([i, j], Implies(And(0 <= i, i < j, j < n_), ST(i) != ST(j)))),
        ("every transition is listed", fa([q, a], Implies(HAS(adj, q, a), Not(fa([j], Implies(And(0 <= j, j < it.n, j != p0), Not(And(it.key(j) == TGT(adj, q, a), TP1(it.key(j)) == q, TS1(it.key(j)) == a))), it.key(j))))))]
nume = Fn("num_edges", TM + "Trie.num_edges", lambda S: [tr.automaton_obj(S, TRIE)], ne_pre, ne_post, modifies=lambda c: [], loops=LEN_GEN)
PROOFS = [fusion.proof(), con.proof(), nume.proof(), tr.insert_string.proof()] + [f.proof() for f in INS]
