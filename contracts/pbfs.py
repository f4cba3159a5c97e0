"""Parallel walks of two automata: any two automata whose sigma and delta follow their contracts, any starting pairs, any filter of the target pairs, any visitor."""
from contracts.lib import *
from contracts.graphs import TRUSTED_BASE, ASSUME_BASE
from contracts.search import gset, G_, isin, add
SY = SYM("Sym"); OI = OPT(INT); PT = TUP(OI, OI); XT = TUP(PT, SY); PSET = SET(PT); XSET = SET(XT); PLV = MAP(PT, INT); PDC = DMAP(PT, INT); SSET = SET(SY); PXM = MAP(PT, XT)
EDO = REC("EdgeDescriptor", ["source", "target", "distinguisher"], OI, OI, SY); OE = OPT(EDO)
so, ss, sp = sort(OI), sort(SY), sort(PT); B_ = z3.BoolSort()
o = Const("o", so); a, b = Consts("a b", ss); p_, r_, p2 = Consts("p_ r_ p2", sp); xt = Const("xt", sort(XT))
DL = [None] + [z3.Function("delta%d" % i_, so, ss, so) for i_ in (1, 2)]
SG = [None] + [z3.Function("sigma%d" % i_, so, sort(SSET)) for i_ in (1, 2)]
FI = [None] + [z3.Function("final%d" % i_, so, B_) for i_ in (1, 2)]
IN = [None] + [Const("initial%d" % i_, so) for i_ in (1, 2)]
MAXQ = [None] + [Const("states%d" % i_, sort(SET(INT))) for i_ in (1, 2)]
P1 = lambda p: fld(PT, p, 0)
P2 = lambda p: fld(PT, p, 1)
mkp = lambda x_, y_: mk(PT, x_, y_)
SYMB = z3.Function("symbol_leaves", sp, ss, B_)
NXT = lambda p, s: mkp(DL[1](P1(p), s), DL[2](P2(p), s))
XP = lambda p, s: mk(XT, p, s)
XPAIR = lambda x_: fld(XT, x_, 0)
XSYM = lambda x_: fld(XT, x_, 1)
PASS = z3.Function("filter_accepts_pair", sp, B_); ISS = z3.Function("is_starting_pair", sp, B_)
OKP = lambda p: Or(ISS(p), PASS(p))
PATH = z3.Function("word_of_length", sp, z3.IntSort(), B_); PP = z3.Function("word_before", sp, z3.IntSort(), sp); PA = z3.Function("word_last", sp, z3.IntSort(), ss)
AUT_AX = [fa([o, a], is_some(OI, DL[i_](o, a)) == isin(SG[i_](o), a), DL[i_](o, a)) for i_ in (1, 2)] + [fa([o, a], is_some(OI, DL[i_](o, a)) == isin(SG[i_](o), a), isin(SG[i_](o), a)) for i_ in (1, 2)] + \
    [fa([a], Not(isin(SG[i_](none(OI)), a)), isin(SG[i_](none(OI)), a)) for i_ in (1, 2)] + \
    [fa([p_, a], SYMB(p_, a) == Or(isin(SG[1](P1(p_)), a), isin(SG[2](P2(p_)), a)), SYMB(p_, a))]
PATH_AX = [fa([p_], PATH(p_, 0) == ISS(p_), ISS(p_)), fa([p_], PATH(p_, 0) == ISS(p_), PATH(p_, 0)),
    fa([p_, a, k], Implies(And(PATH(p_, k), k >= 0, SYMB(p_, a), OKP(NXT(p_, a))), PATH(NXT(p_, a), k + 1)), z3.MultiPattern(PATH(p_, k), SYMB(p_, a)))]
PATH_ELIM = lambda p, k_: Implies(And(PATH(p, k_ + 1), k_ >= 0), And(PATH(PP(p, k_), k_), SYMB(PP(p, k_), PA(p, k_)), NXT(PP(p, k_), PA(p, k_)) == p, OKP(p)))
NOTES = ["the automata's own sigma, delta, initial and is_final follow their contracts (proved under C02 and C04), and the automata do not change during the walk", "the caller's filter depends on the target pair only and answers the same for the same pair", "no starting pair is listed twice"]
PB = "pybgl.parallel_breadth_first_search:parallel_breadth_first_search"
PBV = "parallel_breadth_first_search:ParallelBreadthFirstSearchVisitor"

def theory(S):
    for t in AUT_AX + PATH_AX: S.assume(t)

def a_automaton(S, i_, klass="automaton:Automaton", more=()):
    ot = lambda eng, st, v_: eng.constant(st, eng.term(st, v_, OI))
    def delta(eng, st, slf, args, kw):
        return [(st, Sc(OI, DL[i_](ot(eng, st, args[0]), eng.term(st, args[1], SY))))]
    def sigma(eng, st, slf, args, kw):
        return [(st, eng.alloc(st, SSET, SG[i_](ot(eng, st, args[0])), "sigma"))]
    def initial(eng, st, slf, args, kw): return [(st, Sc(OI, IN[i_]))]
    def is_final(eng, st, slf, args, kw): return [(st, Sc(BOOL, FI[i_](ot(eng, st, args[0]))))]
    hs = dict(delta=delta, sigma=sigma, initial=initial, is_final=is_final); hs.update(dict(more))
    return S.eng.new_obj(S.st, cls(klass), {}, hs)

def etarget(t): return If(is_none(OE, t), none(OI), fld(EDO, optval(OE, t), 1))
def a_filter(S, klass=None):
    def f(eng, st, slf, args, kw):
        t1, t2 = eng.term(st, args[0], OE), eng.term(st, args[2], OE)
        return [(st, Sc(BOOL, PASS(mkp(etarget(t1), etarget(t2)))))]
    return HandV(f, "if_push")

GV, GX = ["D", "X", "F"], ["EX", "EE", "TR", "GT", "BT"]
def LEV(st, p): return Select(val(PLV, G_(st, "lev")), p)
def visitor(S, given=True, extra=None):
    for n_ in GV: S.ghost(n_, PSET, empty(PSET))
    for n_ in GX: S.ghost(n_, XSET, empty(XSET))
    S.ghost("lev", PLV, S.eng.havoc(PLV, "level", S.st)); S.ghost("from", PXM, S.eng.havoc(PXM, "met_from", S.st)); S.ghost("cur", PT, mkp(none(OI), none(OI))); S.ghost("started", BOOL, BoolVal(False)); S.ghost("last", INT, IntVal(0)); S.ghost("pend", OPT(PT), none(OPT(PT)))
    S.ghost("now", OPT(SY), none(OPT(SY)))
    g = G_
    def ob(eng, st, name, t): eng.oblige(st, "event:" + name, t)
    def pair(eng, st, args): return eng.constant(st, mkp(eng.term(st, args[0], OI), eng.term(st, args[2], OI)))
    def put(eng, st, p, lv):
        add(st, "D", p)
        ty, m = st.ghost["lev"]; st.ghost["lev"] = (ty, mk(PLV, z3.Store(dom(PLV, m), p, BoolVal(True)), z3.Store(val(PLV, m), p, lv))); gset(st, "last", INT, lv)
    def start(eng, st, args):
        p = pair(eng, st, args)
        ob(eng, st, "a starting pair is announced once, before the walk", And(ISS(p), Not(isin(g(st, "D"), p)), Not(g(st, "started"))))
        put(eng, st, p, IntVal(0))
    def examine(eng, st, args):
        p = pair(eng, st, args)
        ob(eng, st, "a discovered pair passing the filter is examined, once", And(isin(g(st, "D"), p), OKP(p), Not(isin(g(st, "X"), p))))
        add(st, "X", p); gset(st, "cur", PT, p); gset(st, "started", BOOL, BoolVal(True))
    def symbol(eng, st, args):
        p = pair(eng, st, args); s = eng.term(st, args[4], SY); x_ = eng.constant(st, XP(p, s))
        ob(eng, st, "a symbol leaving the current pair is examined, once", And(p == g(st, "cur"), SYMB(p, s), Not(isin(g(st, "EX"), x_)), is_none(OPT(PT), g(st, "pend"))))
        add(st, "EX", x_); gset(st, "now", OPT(SY), some(OPT(SY), s))
    def edges_ok(eng, st, args):
        "the two transitions read are those of the current pair for the symbol at hand"
        s = eng.term(st, args[4], SY); t1, t2 = eng.term(st, args[0], OE), eng.term(st, args[2], OE); cur = g(st, "cur")
        want = lambda t, q_, i_: If(is_none(OI, q_), is_none(OE, t), t == some(OE, mk(EDO, q_, DL[i_](q_, s), s)))
        return And(g(st, "now") == some(OPT(SY), s), isin(g(st, "EX"), XP(cur, s)), want(t1, P1(cur), 1), want(t2, P2(cur), 2)), eng.constant(st, XP(cur, s)), eng.constant(st, NXT(cur, s))
    def exedge(eng, st, args):
        ok, x_, n_ = edges_ok(eng, st, args)
        ob(eng, st, "the transitions read are examined, once", And(ok, Not(isin(g(st, "EE"), x_))))
        add(st, "EE", x_)
    once = lambda st, x_: And(isin(g(st, "EE"), x_), *[Not(isin(g(st, n_), x_)) for n_ in GX[2:]])
    def tree(eng, st, args):
        ok, x_, n_ = edges_ok(eng, st, args)
        ob(eng, st, "discovering a new pair", And(ok, once(st, x_), Not(isin(g(st, "D"), n_)), is_none(OPT(PT), g(st, "pend"))))
        add(st, "TR", x_); ty, m = st.ghost["from"]; st.ghost["from"] = (ty, mk(PXM, dom(PXM, m), z3.Store(val(PXM, m), n_, x_)))
        gset(st, "pend", OPT(PT), some(OPT(PT), n_))
    def gray(eng, st, args):
        ok, x_, n_ = edges_ok(eng, st, args)
        ob(eng, st, "meeting a pair discovered and not finished", And(ok, once(st, x_), isin(g(st, "D"), n_), Not(isin(g(st, "F"), n_)), is_none(OPT(PT), g(st, "pend"))))
        add(st, "GT", x_)
    def black(eng, st, args):
        ok, x_, n_ = edges_ok(eng, st, args)
        ob(eng, st, "meeting a finished pair", And(ok, once(st, x_), isin(g(st, "F"), n_), is_none(OPT(PT), g(st, "pend"))))
        add(st, "BT", x_)
    def discover(eng, st, args):
        p = pair(eng, st, args); lv = eng.named(st, LEV(st, g(st, "cur")) + 1)
        ob(eng, st, "a pair is discovered once, when announced", And(Not(isin(g(st, "D"), p)), g(st, "pend") == some(OPT(PT), p)))
        ob(eng, st, "pairs are discovered nearest first", lv >= g(st, "last"))
        put(eng, st, p, lv); gset(st, "pend", OPT(PT), none(OPT(PT)))
    def finish(eng, st, args):
        p = pair(eng, st, args)
        ob(eng, st, "the pair examined is finished, once", And(p == g(st, "cur"), isin(g(st, "X"), p), Not(isin(g(st, "F"), p)), is_none(OPT(PT), g(st, "pend"))))
        add(st, "F", p)
    hs = dict(start_vertex=start, examine_vertex=examine, examine_symbol=symbol, examine_edge=exedge, tree_edge=tree, gray_target=gray, black_target=black, discover_vertex=discover, finish_vertex=finish)
    if extra: hs = extra(hs)
    S.eng.events = hs; S.eng.events_all = True; S.eng.observed = cls(PBV)
    def ev(f):
        def h(eng, st, slf, args, kw):
            f(eng, st, args); return [(st, NONE_)]
        return h
    return S.eng.new_obj(S.st, cls(PBV), {}, {n_: ev(f) for n_, f in hs.items()}) if given else NONE_

def a_pmap(S):
    m = S.cont(PDC, "color"); S.assume(fa([p_], Select(val(PDC, S.term(m)), p_) == 0, Select(val(PDC, S.term(m)), p_)))
    return S.obj(cls("property_map:AssocPropertyMap"), d=m)
def color(c):
    d_ = c.attr(c.v("pmap_vcolor"), "d"); ty = c.eng.typeof(c.st, d_)
    if ty.kind == "Untyped": return lambda p: IntVal(0)
    m = c.named(val(ty, c.eng.term(c.st, d_)))
    return lambda p: Select(m, p)
def queue(c):
    v_ = c.v("stack"); ty = c.eng.typeof(c.st, v_)
    if ty.kind == "Untyped": return (lambda p: IntVal(0)), (lambda i_: mkp(none(OI), none(OI))), IntVal(0), IntVal(0), False
    t = c.t("stack")
    return (lambda p: Select(cnt(ty, t), p)), (lambda i_: Select(arr(ty, t), i_)), lo(ty, t), hi(ty, t), True

def common(c, inner):
    g = c.g; col = color(c); cn, at_, l_, h_, typed = queue(c); D, X, F, EX, EE, TR, GT, BT = [g(n_) for n_ in GV + GX]
    lev = c.named(val(PLV, g("lev"))); L_ = lambda p: Select(lev, p); cur, last = g("cur"), g("last")
    from_ = c.named(val(PXM, g("from"))); FR = lambda p: Select(from_, p)
    return [("no pair announced", is_none(OPT(PT), g("pend"))),
        ("colours", fa([p_], col(p_) == If(isin(F, p_), IntVal(2), If(isin(D, p_), IntVal(1), IntVal(0))), isin(D, p_), isin(F, p_), *([col(p_)] if not z3.is_int_value(col(p_)) else []))),
        ("finished pairs are examined, examined ones discovered and permitted", fa([p_], And(Implies(isin(F, p_), isin(X, p_)), Implies(isin(X, p_), And(isin(D, p_), OKP(p_)))), isin(F, p_), isin(X, p_))),
        ("examined pairs are finished", fa([p_], Implies(isin(X, p_), Or(isin(F, p_), p_ == cur) if inner else isin(F, p_)), isin(X, p_))),
        ("the queue holds the discovered permitted pairs to examine, once each", fa([p_], cn(p_) == If(And(isin(D, p_), OKP(p_), Not(isin(X, p_))), IntVal(1), IntVal(0)), isin(D, p_), isin(X, p_), *([cn(p_)] if typed else []))),
        ("levels", fa([p_], Implies(isin(D, p_), And(L_(p_) >= 0, L_(p_) <= last, Implies(OKP(p_), PATH(p_, L_(p_))))), isin(D, p_), L_(p_))),
        ("nearest at the end of the queue", fa([i, j], Implies(And(l_ <= i, i < j, j < h_), L_(at_(i)) >= L_(at_(j))), *([z3.MultiPattern(at_(i), at_(j))] if typed else []))),
        ("the queue is ahead of the current pair", Implies(h_ > l_, And(last <= L_(at_(h_ - 1)) + 1, Implies(g("started"), L_(cur) <= L_(at_(h_ - 1)))))),
        ("every start is discovered", fa([p_], Implies(ISS(p_), And(isin(D, p_), L_(p_) == 0)), ISS(p_))),
        ("symbols of finished pairs", fa([p_, a], Implies(And(isin(F, p_), SYMB(p_, a)), And(isin(EX, XP(p_, a)), isin(D, NXT(p_, a)), L_(NXT(p_, a)) <= L_(p_) + 1)), z3.MultiPattern(isin(F, p_), SYMB(p_, a)))),
        ("examined symbols", fa([xt], Implies(isin(EX, xt), And(SYMB(XPAIR(xt), XSYM(xt)), isin(X, XPAIR(xt)), isin(EE, xt))), isin(EX, xt))),
        ("discovered pairs are starts or met", fa([p_], Implies(isin(D, p_), Or(ISS(p_), And(isin(TR, FR(p_)), NXT(XPAIR(FR(p_)), XSYM(FR(p_))) == p_))), isin(D, p_))),
        ("discovering or meeting", fa([xt], And(isin(EX, xt) == isin(EE, xt), isin(EX, xt) == Or(isin(TR, xt), isin(GT, xt), isin(BT, xt)), Not(And(isin(TR, xt), isin(GT, xt))), Not(And(isin(TR, xt), isin(BT, xt))), Not(And(isin(GT, xt), isin(BT, xt)))), isin(EX, xt), isin(EE, xt), isin(TR, xt), isin(GT, xt), isin(BT, xt)))]
def outer(c): return common(c, False)
def cur_of(c): return c.named(mkp(c.t("q1", OI), c.t("q2", OI)))
def inner(c):
    g = c.g; D, X, F, EX = [g(n_) for n_ in ("D", "X", "F", "EX")]; lev = c.named(val(PLV, g("lev"))); L_ = lambda p: Select(lev, p); u_ = cur_of(c); key = c.it.key
    return common(c, True) + [("at the current pair", And(g("cur") == u_, isin(X, u_), Not(isin(F, u_)), g("started"), g("last") <= L_(u_) + 1)),
        ("symbols", fa([j], Implies(And(0 <= j, j < c.n), SYMB(u_, key(j))), key(j))),
        ("symbols so far", fa([j], Implies(And(0 <= j, j < c.k), And(isin(EX, XP(u_, key(j))), isin(D, NXT(u_, key(j))), L_(NXT(u_, key(j))) <= L_(u_) + 1)), key(j))),
        ("symbols to come", fa([j], Implies(And(c.k <= j, j < c.n), Not(isin(EX, XP(u_, key(j))))), key(j)))]
def sources(c):
    g = c.g; col = color(c); cn, at_, l_, h_, typed = queue(c); D = g("D"); lev = c.named(val(PLV, g("lev"))); L_ = lambda p: Select(lev, p); key = c.it.key
    return [("not started", And(Not(g("started")), g("last") == 0, is_none(OPT(PT), g("pend")))), ("nothing examined", And(g("X") == empty(PSET), g("F") == empty(PSET), *[g(n_) == empty(XSET) for n_ in GX])),
        ("colours", fa([p_], col(p_) == If(isin(D, p_), IntVal(1), IntVal(0)), isin(D, p_), *([col(p_)] if not z3.is_int_value(col(p_)) else []))),
        ("the queue", fa([p_], cn(p_) == If(isin(D, p_), IntVal(1), IntVal(0)), isin(D, p_), *([cn(p_)] if typed else []))),
        ("only starts", fa([p_], Implies(isin(D, p_), And(ISS(p_), L_(p_) == 0)), isin(D, p_))),
        ("starts so far", fa([j], Implies(And(0 <= j, j < c.n), isin(D, key(j)) == (j < c.k)), key(j))),
        ("in the queue", fa([i], Implies(And(l_ <= i, i < h_), isin(D, at_(i))), *([at_(i)] if typed else [])))]
def progress(c):
    F = c.g("F"); F0 = c.head.ghost["F"][1]; c.eng.carry(c.st, F0); F0 = c.named(F0)
    return [("each turn finishes one more pair (hence termination)", And(Not(isin(F0, c.g("cur"))), isin(F, c.g("cur")), fa([p_], Implies(isin(F0, p_), isin(F, p_)), isin(F0, p_))))]
def end(c):
    g = c.g; D, X, F, EX, EE, TR, GT, BT = [g(n_) for n_ in GV + GX]; lev = c.named(val(PLV, g("lev"))); L_ = lambda p: Select(lev, p)
    induct(c, "words lead to discovered pairs", lambda k_: fa([p_], Implies(PATH(p_, k_), And(isin(D, p_), OKP(p_), L_(p_) <= k_)), PATH(p_, k_)), IntVal(0), hints=lambda K: [fa([p_], PATH_ELIM(p_, K), PATH(p_, K + 1))])
    from_ = c.named(val(PXM, g("from"))); FR = lambda p: Select(from_, p)
    return [("the other pairs discovered are met and do not pass the filter", fa([p_], Implies(And(isin(D, p_), Not(isin(X, p_))), And(isin(TR, FR(p_)), NXT(XPAIR(FR(p_)), XSYM(FR(p_))) == p_, Not(PASS(p_)))), isin(D, p_))),
        ("every pair reached by a word is examined, at the least length", fa([p_, k], Implies(And(k >= 0, PATH(p_, k)), And(isin(X, p_), L_(p_) <= k)), PATH(p_, k))),
        ("every pair examined is reached by a word of its length", fa([p_], Implies(isin(X, p_), And(L_(p_) >= 0, PATH(p_, L_(p_)))), isin(X, p_))),
        ("examined pairs are finished", fa([p_], isin(F, p_) == isin(X, p_), isin(X, p_), isin(F, p_))),
        ("every symbol leaving an examined pair is examined, and no other", fa([xt], isin(EX, xt) == And(SYMB(XPAIR(xt), XSYM(xt)), isin(X, XPAIR(xt))), isin(EX, xt))),
        ("its target is discovered", fa([xt], Implies(isin(EX, xt), isin(D, NXT(XPAIR(xt), XSYM(xt)))), isin(EX, xt))),
        ("each is reported as discovering a pair, or meeting a queued or a finished one", fa([xt], And(isin(EX, xt) == Or(isin(TR, xt), isin(GT, xt), isin(BT, xt)), Not(And(isin(TR, xt), isin(GT, xt))), Not(And(isin(TR, xt), isin(BT, xt))), Not(And(isin(GT, xt), isin(BT, xt)))), isin(EX, xt)))]
LOOPS = {(PB, 0): LoopSpec(inv=sources), (PB, 1): LoopSpec(inv=outer, lemma=progress), (PB, 2): LoopSpec(inv=inner)}
