from contracts.products import *
NOTE = "inclusion test proved for every pair of deterministic automata: each answer with its languages, by induction on the word"
TRUSTED = TRUSTED_BASE
ASSUMPTIONS = ASSUME_BASE + NOTES[:1] + ["the absent state is not marked final"]
INC = "pybgl.deterministic_inclusion:deterministic_inclusion"
only = (None, lambda p: And(FI[1](P1(p)), Not(FI[2](P2(p)))), lambda p: And(FI[2](P2(p)), Not(FI[1](P1(p)))))
def setup(S):
    g1, g2 = operands(S)
    S.assume(fa([p_], PASS(p_), PASS(p_)))
    S.eng.word = S.word(SY, "w")
    def extra(hs):
        def wrap(f):
            def h(eng, st, args):
                f(eng, st, args)
                p = eng.constant(st, mkp(eng.term(st, args[0], OI), eng.term(st, args[2], OI)))
                for i_ in (1, 2):
                    h_, w_ = "only%d" % i_, "wit%d" % i_
                    gset(st, w_, PT, eng.named(st, If(only[i_](p), p, G_(st, w_)))); gset(st, h_, BOOL, eng.named(st, Or(only[i_](p), G_(st, h_))))
            return h
        return dict(hs, start_vertex=wrap(hs["start_vertex"]), discover_vertex=wrap(hs["discover_vertex"]))
    visitor(S, given=False, extra=extra)
    for i_ in (1, 2): S.ghost("only%d" % i_, BOOL, BoolVal(False)); S.ghost("wit%d" % i_, PT, mkp(none(OI), none(OI)))
    return [g1, g2]
def found(c):
    D = c.g("D")
    return [("pairs final for the %s only" % nm, And(Implies(c.g("only%d" % i_), And(isin(D, c.g("wit%d" % i_)), only[i_](c.g("wit%d" % i_)))), fa([p_], Implies(And(isin(D, p_), only[i_](p_)), c.g("only%d" % i_)), isin(D, p_)))) for i_, nm in ((1, "first"), (2, "second"))]
def J(c):
    vis = c.v("vis")
    return found(c) + [("answer so far", And(Not(And(c.g("only1"), c.g("only2"))), c.at(vis, "ret") == If(c.g("only2"), IntVal(1), If(c.g("only1"), IntVal(-1), IntVal(0)))))]
def post(c):
    e = c.eng; O3 = OPT(INT); r_ = c.t(c.res, O3); lev = c.named(val(PLV, c.g("lev"))); L_ = lambda p: Select(lev, p); D = c.g("D"); p0 = mkp(IN[1], IN[2])
    w_ = e.word; wt = e.typeof(c.st, w_); wterm = c.named(e.term(c.st, w_)); n_ = seqlen(wt, wterm)
    incl = lambda k_: [("", None)]
    wit = lambda i_: And(c.g("only%d" % i_), only[i_](c.g("wit%d" % i_)), L_(c.g("wit%d" % i_)) >= 0, PATH(c.g("wit%d" % i_), L_(c.g("wit%d" % i_))))
    R = [("neither is included: each has a word of its own", Implies(is_none(O3, r_), And(wit(1), wit(2)))), ("other answers", Implies(is_some(O3, r_), And(optval(O3, r_) >= -1, optval(O3, r_) <= 1))),
        ("the second has a word of its own", Implies(r_ == some(O3, IntVal(1)), wit(2))), ("the first has a word of its own", Implies(r_ == some(O3, IntVal(-1)), wit(1)))]
    if isinstance(c.res, Sc) and c.res.ty == NONE: return R
    for nm, t in end(c): lemma(c, nm, t)
    X_ = c.g("X"); dead_ = mkp(none(OI), none(OI))
    lemma(c, "symbols lead to examined pairs", fa([p_, a], Implies(And(isin(X_, p_), SYMB(p_, a)), isin(X_, NXT(p_, a))), z3.MultiPattern(isin(X_, p_), SYMB(p_, a))))
    lemma(c, "other symbols lead nowhere", fa([p_, a], Implies(Not(SYMB(p_, a)), NXT(p_, a) == dead_), SYMB(p_, a)))
    lemma(c, "no symbol leaves the absent pair", fa([a], Not(SYMB(dead_, a)), SYMB(dead_, a)))
    lemma(c, "the initial pair is met", And(ISS(p0), PATH(p0, IntVal(0)), isin(X_, p0)))
    RP = Run(e, "pairs", lambda p, s_: NXT(p, s_), p0, wterm, wt)
    for t in RP.axioms(): e.assume(c.st, t)
    induct(c, "the pair of runs is met, or lost", lambda k_: Or(RP(k_) == mkp(none(OI), none(OI)), isin(c.g("X"), RP(k_))), IntVal(0), n_, hints=lambda K: [RP.unfold(K), Implies(And(isin(X_, RP(K)), SYMB(RP(K), RP.at(K))), isin(X_, NXT(RP(K), RP.at(K)))), Implies(Not(SYMB(RP(K), RP.at(K))), NXT(RP(K), RP.at(K)) == dead_), Not(SYMB(dead_, RP.at(K)))], pats=lambda k_: [RP(k_)])
    acc = lambda i_: FI[i_]((P1, P2)[i_ - 1](RP(n_)))
    return R + [("same language", Implies(r_ == some(O3, IntVal(0)), acc(1) == acc(2))), ("the first is included in the second", Implies(r_ == some(O3, IntVal(1)), Implies(acc(1), acc(2)))), ("the second is included in the first", Implies(r_ == some(O3, IntVal(-1)), Implies(acc(2), acc(1))))]
PROOFS = [Fn("inclusion", INC, setup, post=post, loops=loops(J), types=TYPES).proof()]
