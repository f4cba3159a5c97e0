from contracts.products import *
from contracts.automata import AED, as_list, enumerates, is_tr, asrc, atgt, asym, counted, LEN_GEN, to_list, set_is
DS = cls("digital_sequence:DigitalSequence"); TRIE = cls("trie:Trie")
NOTE = "digital sequences (all their methods, reading a word, refused changes), trie_matching counters against the pairs reached by common words, slices, factors and make_suffix_trie (without a limit and with any positive one) accepting exactly the factors: proved; make_suffix_trie given an existing trie and TrieMatching on hand-made visitors bounded"
TRUSTED = TRUSTED_BASE
ASSUMPTIONS = ASSUME_BASE + NOTES[:1] + ["in a tree each state is reached by one word, so the pairs that trie_matching counts are words", "the functions naming the state of a factor and the factor of a state are defined along the run: each is defined once, at the turn that reads or makes it", "max_len: None or positive (0 means no limit in the code: not part of the claim)"]
D_ = "pybgl.digital_sequence:DigitalSequence."
W2 = WORD(SY)
def ds_obj(S):
    w = S.word(SY, "w"); S.eng.w = w
    S.assume(lo(W2, w.t) == 0, hi(W2, w.t) >= 0)
    return S.obj(DS, directed=B(True), w=w)
def wt(c): return c.eng.w.t
def n_(c): return seqlen(W2, wt(c))
def w_(c, i_): return seqat(W2, wt(c), i_)
inside = lambda c, x: And(0 <= x, x <= n_(c))
edge = lambda c: lambda e: And(0 <= asrc(e), asrc(e) < n_(c), atgt(e) == asrc(e) + 1, asym(e) == w_(c, asrc(e)))
qin = lambda c: [("q is a state", inside(c, c.t("q")))]
optin = lambda c: [("q is a state or absent", Implies(is_some(OI, c.t("q", OI)), inside(c, optval(OI, c.t("q", OI)))))]
is_set = lambda ty, member: lambda c: set_is(c, ty, member(c))
F = lambda name, args, pre, post, **kw: Fn(name, kw.pop("key", D_ + name), lambda S: [ds_obj(S)] + args(S), pre, post, modifies=lambda c: [], **kw)
U = lambda S: [S.int("q")]
N_ = lambda c: []
FS = [F("delta", lambda S: [S.const(OI, "q"), S.const(SY, "a")], optin, lambda c: [("the next position when the symbol is there", c.t(c.res, OI) == (lambda q_: If(And(is_some(OI, q_), optval(OI, q_) < n_(c), w_(c, optval(OI, q_)) == c.t("a")), some(OI, optval(OI, q_) + 1), none(OI)))(c.t("q", OI)))]),
    F("sigma", lambda S: [S.const(OI, "q")], optin, is_set(SY, lambda c: lambda s: And(is_some(OI, c.t("q", OI)), optval(OI, c.t("q", OI)) < n_(c), s == w_(c, optval(OI, c.t("q", OI)))))),
    F("alphabet", lambda S: [], N_, is_set(SY, lambda c: lambda s: Not(fa([j], Implies(And(0 <= j, j < n_(c)), w_(c, j) != s))))),
    F("out_edges", U, qin, is_set(AED, lambda c: lambda e: And(edge(c)(e), asrc(e) == c.t("q")))), F("in_edges", U, qin, is_set(AED, lambda c: lambda e: And(edge(c)(e), atgt(e) == c.t("q")))),
    F("edges", lambda S: [], N_, lambda c: enumerates(*as_list(c, ety=AED), AED, edge(c)), consume=to_list), F("vertices", lambda S: [], N_, lambda c: enumerates(*as_list(c, ety=INT), INT, lambda x: inside(c, x)), consume=to_list),
    F("num_vertices", lambda S: [], N_, lambda c: [("positions", c.t(c.res) == n_(c) + 1)]), F("num_edges", lambda S: [], N_, lambda c: [("symbols", c.t(c.res) == n_(c))]),
    F("initial", lambda S: [], N_, lambda c: [("first", c.t(c.res) == 0)]), F("is_initial", U, N_, lambda c: [("first", c.eng.truth(c.st, c.res) == (c.t("q") == 0))]), F("is_final", U, N_, lambda c: [("last", c.eng.truth(c.st, c.res) == (c.t("q") == n_(c)))])]
RT = {RuntimeError: lambda c: [("refused, the word unchanged", c.t(c.attr("self", "w")) == wt(c))]}
never = lambda c: [("never returns", BoolVal(False))]
FS += [F(nm, args, N_, never, raises=RT, may_not_return=True) for nm, args in (("add_edge", lambda S: [S.int("q"), S.int("r"), S.const(SY, "a")]), ("add_vertex", lambda S: []), ("remove_edge", lambda S: [S.const(AED, "e")]), ("remove_vertex", U), ("insert", lambda S: [S.word(SY, "x")]), ("set_initial", lambda S: []), ("set_final", lambda S: []))]
def ds_new(S):
    w = S.word(SY, "w"); S.eng.w = w
    return [S.obj(DS), w]
FS += [Fn("constructor", D_ + "__init__", ds_new, N_, lambda c: [("the word", And(c.t(c.attr("self", "w")) == wt(c), c.eng.truth(c.st, c.attr("self", "directed"))))])]
# the language, through the methods of Automaton
def rd(c):
    R = c.eng.__dict__.get("RD")
    if R is None:
        R = c.eng.RD = Run(c.eng, "run", lambda o_, s_: If(And(is_some(OI, o_), optval(OI, o_) < n_(c), w_(c, optval(OI, o_)) == s_), some(OI, optval(OI, o_) + 1), none(OI)), some(OI, 0), c.t("w"), W2)
    for t in R.axioms(): c.eng.assume(c.st, t)
    return R
def lg_pre(c): rd(c); return []
def lg_post(c):
    R = rd(c); x = c.t("w"); m = seqlen(W2, x); X = lambda i_: seqat(W2, x, i_)
    eq = lambda k_: fa([j], Implies(And(0 <= j, j < k_), X(j) == w_(c, j)), X(j), w_(c, j))
    induct(c, "reading a prefix of the word", lambda k_: If(And(k_ <= n_(c), eq(k_)), R(k_) == some(OI, k_), is_none(OI, R(k_))), IntVal(0), m, hints=lambda K: [R.unfold(K), X(K) == X(K), Implies(And(K + 1 <= n_(c), eq(K), X(K) == w_(c, K)), eq(K + 1)), Implies(eq(K + 1), And(eq(K), X(K) == w_(c, K)))], pats=lambda k_: [R(k_)])
    return [("only its word", c.eng.truth(c.st, c.res) == And(m == n_(c), eq(m)))]
FS += [F("accepts", lambda S: [S.word(SY, "w")], lg_pre, lg_post, key=au.M + "accepts", loops={(au.M + "delta_word", 0): LoopSpec(inv=lambda c: [("the run", c.t("q", OI) == c.eng.RD(c.k)), ("a state", Implies(is_some(OI, c.t("q", OI)), inside(c, optval(OI, c.t("q", OI)))))])})]

# ---------------------------------------------------------------- matching
TMK = "pybgl.trie_matching:trie_matching"; CT = SEQ(INT)
NTH = z3.Function("nth_pair", z3.IntSort(), sp); POSN = z3.Function("rank_of_pair", sp, z3.IntSort()); CNT = z3.Function("count_so_far", z3.IntSort(), z3.IntSort(), z3.IntSort())
kind = lambda p: If(FI[1](P1(p)), IntVal(1), IntVal(0)) + If(FI[2](P2(p)), IntVal(2), IntVal(0))
d_ = Int("d_")
def tm_setup(S):
    g1, g2 = operands(S)
    S.assume(fa([p_], PASS(p_), PASS(p_)), fa([d_], CNT(d_, 0) == 0), fa([d_, k], Implies(k >= 0, CNT(d_, k + 1) == CNT(d_, k) + If(kind(NTH(k)) == d_, IntVal(1), IntVal(0))), z3.MultiPattern(CNT(d_, k), NTH(k))))
    def extra(hs):
        def wrap(f):
            def h(eng, st, args):
                f(eng, st, args)
                p = eng.constant(st, mkp(eng.term(st, args[0], OI), eng.term(st, args[2], OI))); m = G_(st, "num")
                eng.assume(st, And(NTH(m) == p, POSN(p) == m))      # the sequence of pairs, in the order they are announced: each index and, as proved by the event, each pair once
                for x in range(4): eng.assume(st, CNT(IntVal(x), m + 1) == CNT(IntVal(x), m) + If(kind(p) == x, IntVal(1), IntVal(0)))
                gset(st, "num", INT, eng.named(st, m + 1))
            return h
        return dict(hs, start_vertex=wrap(hs["start_vertex"]), discover_vertex=wrap(hs["discover_vertex"]))
    visitor(S, given=False, extra=extra); S.ghost("num", INT, IntVal(0))
    return [g1, g2]
def listed(c):
    D, m = c.g("D"), c.g("num")
    return [("announced pairs, in order", And(m >= 0, fa([k], Implies(And(0 <= k, k < m), And(isin(D, NTH(k)), POSN(NTH(k)) == k)), NTH(k)), fa([p_], Implies(isin(D, p_), And(0 <= POSN(p_), POSN(p_) < m, NTH(POSN(p_)) == p_)), isin(D, p_))))]
def counters(c, v):
    t = c.t(v); ty = c.ty(v); m = c.g("num")
    return [("four counters", And(lo(ty, t) == 0, hi(ty, t) == 4))] + [("pairs of kind %d" % x, Select(arr(ty, t), x) == CNT(IntVal(x), m)) for x in range(4)]
def tm_J(c): return listed(c) + counters(c, c.attr(c.v("vis"), "counters"))
def tm_post(c):
    R = end(c)
    for nm, t in R: lemma(c, nm, t)
    X, m = c.g("X"), c.g("num")
    return listed(c) + [("each pair reached by a word is announced once, and no other", fa([p_], isin(c.g("D"), p_) == isin(X, p_), isin(X, p_), isin(c.g("D"), p_)))] + R + counters(c, c.res)
MATCH = Fn("matching", TMK, tm_setup, post=tm_post, loops=loops(tm_J), types=dict(TYPES, counters=CT))

# ---------------------------------------------------------------- suffix tries
tr = instance("automata", PARAM_CLASS=TRIE)
ST = "pybgl.suffix_trie:"; SFX = ST + "make_suffix_trie"
I_ = z3.IntSort()
NF = z3.Function("state_of_factor", I_, I_, I_); WM, WL = z3.Function("start_of_factor", I_, I_), z3.Function("length_of_factor", I_, I_)
m_, l_, e_ = Ints("m_ l_ e_")
Q = IntVal(0); l2_, m2_, m3_ = Ints("l2_ m2_ m3_")
SAME, FAC = z3.Function("same_symbols", I_, I_, I_, B_), z3.Function("word_is_factor_at", I_, I_, B_)
def sx_setup(limit):
    def f(S):
        w = S.word(SY, "w"); S.eng.w = w; S.assume(lo(W2, w.t) == 0, hi(W2, w.t) >= 0)
        L = S.int("max_len") if limit else NONE_
        S.eng.limit = L.t if limit else None; S.eng.word = S.word(SY, "x")
        if limit: S.assume(L.t > 0)
        S.assume(fa([m_], NF(m_, 0) == Q, NF(m_, 0)), WL(Q) == 0)
        WS = lambda x_: seqat(W2, w.t, x_)
        # SAME(m, m2, l): the l symbols from m and from m2 are the same, by recursion on l
        S.assume(fa([m_, m2_], SAME(m_, m2_, 0), SAME(m_, m2_, 0)), fa([m_, m2_, l_, l2_], Implies(And(l_ >= 0, l2_ == l_ + 1), SAME(m_, m2_, l2_) == And(SAME(m_, m2_, l_), WS(m_ + l_) == WS(m2_ + l_))), z3.MultiPattern(SAME(m_, m2_, l_), SAME(m_, m2_, l2_))))
        return [w, L, NONE_]
    return f
def by_ind(c, name, vs, P, pats, hints):
    "forall vs, k >= 0. P(k): proved by induction on k"
    e = c.eng; K = Int(e.uid("K")); n_ = Int("k!by")
    e.oblige(c.st, "induction:%s:base" % name, fa(vs, P(IntVal(0))), "lemma")
    s2 = c.st.copy()
    for h in [K >= 0, fa(vs, P(K), *pats(K))] + hints(K): e.assume(s2, h)
    e.oblige(s2, "induction:%s:step" % name, fa(vs, P(K + 1)), "lemma")
    e.assume(c.st, fa(vs + [n_], Implies(n_ >= 0, P(n_)), *pats(n_)))
def sx_pre(c):
    up = lambda K: [fa([m_, m2_], SAME(m_, m2_, K + 1) == And(SAME(m_, m2_, K), w_(c, m_ + K) == w_(c, m2_ + K)), SAME(m_, m2_, K + 1))]
    by_ind(c, "same symbols as itself", [m_], lambda k_: SAME(m_, m_, k_), lambda k_: [SAME(m_, m_, k_)], up)
    by_ind(c, "same symbols, in both orders", [m_, m2_], lambda k_: SAME(m_, m2_, k_) == SAME(m2_, m_, k_), lambda k_: [SAME(m_, m2_, k_)], up)
    by_ind(c, "same symbols as a third", [m_, m2_, m3_], lambda k_: Implies(And(SAME(m_, m2_, k_), SAME(m3_, m2_, k_)), SAME(m_, m3_, k_)), lambda k_: [z3.MultiPattern(SAME(m_, m2_, k_), SAME(m3_, m2_, k_))], up)
    return []
def lim(c, m):
    r_ = n_(c) - m
    return r_ if c.eng.limit is None else If(c.eng.limit < r_, c.eng.limit, r_)
def sx_state(c, g, i_, cur=None):
    "the factors that start before position i_, and the first cur ones that start there"
    adj = c.at(g, "adjacencies"); w = lambda x: w_(c, x)
    ins = lambda m, l: And(0 <= m, m < n_(c), 0 <= l, l <= lim(c, m), m < i_ if cur is None else Or(m < i_, And(m == i_, l <= cur)))
    return au.ainv(c, g) + [("the initial state", And(au.INIT(c, None, g) == some(OI, Q), QX(adj, Q))),
        ("factors have their state", fa([m_, l_], Implies(ins(m_, l_), QX(adj, NF(m_, l_))), NF(m_, l_))),
        ("reached by their symbols", fa([m_, l_, l2_], Implies(And(l2_ == l_ + 1, l_ >= 0, ins(m_, l2_)), And(HAS(adj, NF(m_, l_), w(m_ + l_)), TGT(adj, NF(m_, l_), w(m_ + l_)) == NF(m_, l2_))), z3.MultiPattern(NF(m_, l_), NF(m_, l2_)))),
        ("each state is that of a factor", fa([q], Implies(QX(adj, q), And(WL(q) >= 0, NF(WM(q), WL(q)) == q, Implies(q != Q, And(WL(q) >= 1, ins(WM(q), WL(q)))))), QX(adj, q))),
        ("transitions add the symbol that follows", fa([q, a], Implies(HAS(adj, q, a), And(TGT(adj, q, a) != Q, NF(WM(TGT(adj, q, a)), WL(TGT(adj, q, a)) - 1) == q, a == w(WM(TGT(adj, q, a)) + WL(TGT(adj, q, a)) - 1))), TGT(adj, q, a), rowpat(adj, q, a))),
        ("states tell factors apart", fa([m_, l_], Implies(ins(m_, l_), And(WL(NF(m_, l_)) == l_, SAME(m_, WM(NF(m_, l_)), l_))), NF(m_, l_)))]
def sx_outer(c): return sx_state(c, c.v("g"), c.k)
def sx_inner(c):
    i_ = c.t("i")
    return [("a position of the word", And(0 <= i_, i_ < n_(c))), ("current state", c.t("q", OI) == some(OI, NF(i_, c.k))), ("within the length", c.n == lim(c, i_))] + sx_state(c, c.v("g"), i_, c.k)
def sx_step(c):
    "defines the state of the factor just read, and the factor of a state just made: each factor is read once, each state made once"
    i_ = c.t("i"); q_ = optval(OI, c.t("q", OI)); adj0 = c.at(c.v("g"), "adjacencies", c.head); c.eng.carry(c.st, adj0)
    c.eng.assume(c.st, NF(i_, c.k + 1) == q_)
    c.eng.assume(c.st, Implies(Not(QX(adj0, q_)), And(WM(q_) == i_, WL(q_) == c.k + 1)))
    K = c.eng.constant(c.st, c.k); q0 = c.eng.constant(c.st, NF(i_, K)); s_ = w_(c, i_ + K)
    old = QX(adj0, q_); m_o = WM(q_)
    rec = lambda a_, b_: SAME(a_, b_, K + 1) == And(SAME(a_, b_, K), w_(c, a_ + K) == w_(c, b_ + K))
    lemma(c, "the factor before", And(QX(adj0, q0), WL(q0) == K, SAME(i_, WM(q0), K), SAME(i_, i_, K + 1)))
    lemma(c, "same symbols, one more", And(rec(i_, m_o), rec(m_o, i_)))
    lemma(c, "an existing transition, its factor", Implies(old, And(NF(m_o, WL(q_) - 1) == q0, WL(q_) >= 1, s_ == w_(c, m_o + WL(q_) - 1))))
    lemma(c, "an existing transition, its length", Implies(old, And(WL(q_) == K + 1, SAME(m_o, WM(q0), K))))
    lemma(c, "an existing transition, same symbols", Implies(old, And(SAME(i_, m_o, K), SAME(i_, m_o, K + 1))))
    lemma(c, "the state tells the factor apart", And(WL(q_) == K + 1, SAME(i_, WM(q_), K + 1)))
    lemma(c, "the state before comes before", NF(WM(q_), K) == q0)
    return []
def sx_post(c):
    g = c.res; e = c.eng; adj = c.at(g, "adjacencies"); x = c.named(e.term(c.st, e.word)); m = seqlen(W2, x); X = lambda i_: seqat(W2, x, i_)
    facts = sx_state(c, g, n_(c))
    for nm, t in facts: lemma(c, nm, t)
    R = Run(e, "run", lambda o_, s_: STEP(adj, o_, s_), some(OI, Q), x, W2)
    for t in R.axioms(): e.assume(c.st, t)
    e.assume(c.st, fa([m_], FAC(m_, 0), FAC(m_, 0))); e.assume(c.st, fa([m_, l_, l2_], Implies(And(l_ >= 0, l2_ == l_ + 1), FAC(m_, l2_) == And(FAC(m_, l_), X(l_) == w_(c, m_ + l_))), z3.MultiPattern(FAC(m_, l_), FAC(m_, l2_))))
    up = lambda K: [fa([m_, m2_], And(SAME(m_, m2_, K + 1) == And(SAME(m_, m2_, K), w_(c, m_ + K) == w_(c, m2_ + K))), SAME(m_, m2_, K + 1)), fa([m_], FAC(m_, K + 1) == And(FAC(m_, K), X(K) == w_(c, m_ + K)), FAC(m_, K + 1))]
    by_ind(c, "the same symbols make the same word", [m_, m2_], lambda k_: Implies(And(SAME(m_, m2_, k_), FAC(m2_, k_)), FAC(m_, k_)), lambda k_: [z3.MultiPattern(SAME(m_, m2_, k_), FAC(m2_, k_))], up)
    K0 = Int(e.uid("start"))
    at = lambda k_: optval(OI, R(k_))
    T = lambda K: TGT(adj, at(K), X(K))
    induct(c, "words read are factors", lambda k_: Implies(is_some(OI, R(k_)), And(QX(adj, at(k_)), WL(at(k_)) == k_, FAC(WM(at(k_)), k_))), IntVal(0), m,
        hints=lambda K: [R.unfold(K), Implies(HAS(adj, at(K), X(K)), And(QX(adj, T(K)), NF(WM(T(K)), WL(T(K)) - 1) == at(K), NF(WM(T(K)), WL(T(K))) == T(K), WL(NF(WM(T(K)), WL(T(K)) - 1)) == WL(T(K)) - 1, SAME(WM(T(K)), WM(at(K)), K), X(K) == w_(c, WM(T(K)) + WL(T(K)) - 1))), FAC(WM(T(K)), K) == FAC(WM(T(K)), K)], pats=lambda k_: [R(k_)])
    ok = And(0 <= K0, K0 < n_(c), m <= lim(c, K0)); there = And(ok, FAC(K0, m))
    s_down = Int(e.uid("down"))
    fac = lambda k_: Implies(And(there, k_ <= m), FAC(K0, m - k_))
    induct(c, "prefixes of factors", fac, IntVal(0), m, hints=lambda K: [FAC(K0, m - K) == And(FAC(K0, m - K - 1), X(m - K - 1) == w_(c, K0 + m - K - 1))], pats=lambda k_: [FAC(K0, m - k_)])
    induct(c, "factors are read", lambda k_: Implies(there, R(k_) == some(OI, NF(K0, k_))), IntVal(0), m, hints=lambda K: [R.unfold(K), Implies(And(there, K + 1 <= m), FAC(K0, m - (m - K - 1))), FAC(K0, K + 1) == And(FAC(K0, K), X(K) == w_(c, K0 + K)), NF(K0, K + 1) == NF(K0, K + 1),
        Implies(And(there, 0 <= K, K < m), And(TGT(adj, NF(K0, K), w_(c, K0 + K)) == NF(K0, K + 1), HAS(adj, NF(K0, K), w_(c, K0 + K))))], pats=lambda k_: [R(k_)])
    q_ = Int(e.uid("any_state"))
    fin = e.call(c.st.copy(), e.getattr(c.st, g, "is_final")[0][1], [Sc(INT, q_)], {})
    return facts[:1] + [("every state is final", And(*[e.truth(s_, v_) for s_, v_ in fin])), ("accepted words are factors, within the length", Implies(is_some(OI, R(m)), Or(m == 0, And(0 <= WM(at(m)), m <= lim(c, WM(at(m))), FAC(WM(at(m)), m))))),
        ("factors within the length are accepted", Implies(there, is_some(OI, R(m))))] + facts[1:]
SFXP = [Fn("suffix trie, %s" % nm, SFX, sx_setup(L), pre=sx_pre, post=sx_post, uses=[tr.a_add_vertex, tr.a_add_edge], types={"adjacencies": DADJ, "map_vfinal": FIN},
    loops={(au.G + "Graph.__init__", 0): LoopSpec(inv=lambda c: au.ainv(c) + au.acon_inv(c, c.k)), (au.G + "__len_gen__", 0): LoopSpec(inv=lambda c: [("count", c.t("n") == c.k)]), (SFX, 0): LoopSpec(inv=sx_outer), (SFX, 1): LoopSpec(inv=sx_inner, lemma=sx_step)}) for nm, L in (("any length", False), ("bounded length", True))]
SL = TUP(INT, INT)
def sl_args(limit):
    def f(S):
        L = S.int("max_len") if limit else NONE_
        if limit: S.assume(L.t > 0)
        S.eng.limit = L.t if limit else None
        return [S.int("n"), L]
    return f
def slice_of(c, n):
    def f(p):
        i_, j_ = fld(SL, p, 0), fld(SL, p, 1)
        return Or(And(i_ == 0, j_ == 0), And(0 <= i_, i_ < j_, j_ <= n, Or(c.eng.limit is None, j_ - i_ <= (0 if c.eng.limit is None else c.eng.limit))))
    return f
SLICES = [Fn("slices, %s" % nm, ST + "slices", sl_args(L), N_, lambda c: enumerates(*as_list(c, ety=SL), SL, slice_of(c, c.t("n"))), modifies=lambda c: [], consume=to_list) for nm, L in (("any length", False), ("bounded length", True))]
def fc_setup(limit):
    def f(S):
        w = S.word(SY, "s"); S.eng.w = w; S.assume(lo(W2, w.t) == 0, hi(W2, w.t) >= 0)
        L = S.int("max_len") if limit else NONE_
        if limit: S.assume(L.t > 0)
        S.eng.limit = L.t if limit else None
        return [w, L]
    return f
def cut(c, x, i_, j_): return And(seqlen(W2, x) == j_ - i_, fa([k], Implies(And(0 <= k, k < j_ - i_), seqat(W2, x, k) == w_(c, i_ + k))))
class Slices(CallContract):
    "slices(n, max_len) lists the pairs of positions: proved above; here, the list it returns"
    key = ST + "slices"; label = "proved on its own"
    def apply(s, eng, st, env):
        vs = [v_ for k_, v_ in env.items() if not k_.startswith("$")]
        same = (vs[1] is NONE_) if eng.limit is None else And(Not(vs[1] is NONE_), eng.term(st, vs[1], INT) == eng.limit)
        eng.oblige(st, "event:the positions are those of this word, within the length", And(eng.term(st, vs[0], INT) == seqlen(W2, eng.w.t), same))
        t = eng.havoc(SEQ(SL), "slices", st); eng.assume(st, And(lo(SEQ(SL), t) == 0, hi(SEQ(SL), t) >= 0))
        eng.assume(st, fa([k], Implies(And(0 <= k, k < hi(SEQ(SL), t)), And(0 <= fld(SL, Select(arr(SEQ(SL), t), k), 0), fld(SL, Select(arr(SEQ(SL), t), k), 0) <= fld(SL, Select(arr(SEQ(SL), t), k), 1), fld(SL, Select(arr(SEQ(SL), t), k), 1) <= seqlen(W2, eng.w.t))), Select(arr(SEQ(SL), t), k)))
        eng.slices = t
        return [(st, eng.alloc(st, SEQ(SL), t, "slices"))]
def fc_post(c):
    n, at = as_list(c, ety=W2); t = c.eng.slices; p = lambda k_: Select(arr(SEQ(SL), t), k_); a_, b_ = (lambda k_: fld(SL, p(k_), 0)), (lambda k_: fld(SL, p(k_), 1))
    return [("one factor for each pair of positions", n == hi(SEQ(SL), t)),
        ("its symbols", fa([k], Implies(And(0 <= k, k < n), And(seqlen(W2, at(k)) == b_(k) - a_(k), fa([j], Implies(And(0 <= j, j < b_(k) - a_(k)), seqat(W2, at(k), j) == w_(c, a_(k) + j)))))))]
FACTORS = [Fn("factors, %s" % nm, ST + "factors", fc_setup(L), N_, fc_post, uses=[Slices()], modifies=lambda c: [], consume=to_list) for nm, L in (("any length", False), ("bounded length", True))]
PROOFS = [f.proof() for f in FS + [MATCH] + SFXP + SLICES + FACTORS]
