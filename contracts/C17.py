from contracts.nfalang import *
import copy
NOTE = "literals, brackets, concatenation, alternation, option, star, plus, exact, bounded and unbounded repetition: the language of the automaton built is proved to be that of the operation"
TRUSTED = TRUSTED_BASE + ["copy.deepcopy returns an equal object that shares nothing with its argument"]
ASSUMPTIONS = ASSUME_BASE + ["the words read do not contain the mark of the empty move; operands mark it alike and are distinct objects"]
TH = "pybgl.thompson_compile_nfa:"
PAR = MAP(INT, INT)
INVF = z3.Function("origin_of_new_state", sort(PAR), II, II)
Mp = Const("Mp", sort(PAR))
DEF_INV = fa([Mp, q], Implies(Select(dom(PAR, Mp), q), And(Select(dom(PAR, Mp), INVF(Mp, Select(val(PAR, Mp), q))), Select(val(PAR, Mp), INVF(Mp, Select(val(PAR, Mp), q))) == Select(val(PAR, Mp), q))), Select(val(PAR, Mp), q))

NB = [n_add_vertex, n_add_edge, n_set_final, n_is_final]
def last(c, g, st=None): return c.at(g, "last_vertex_id", st) if st is not None else c.at(g, "last_vertex_id")
def clean(c, g): return ("final marks are on states", fa([q], Implies(isfin(c, q, None, g), q < last(c, g)), isfin(c, q, None, g)))
def twokinds(c, x, m, l0): return And(x >= l0, Select(dom(PAR, m), INVF(m, x)), Select(val(PAR, m), INVF(m, x)) == x)
def M_(m, x): return Select(val(PAR, m), x)

# ---------------------------------------------------------------- insertion
def ins_pre(c):
    return ninv(c, "g1") + ninv(c, "g2") + [clean(c, "g1")]
def ins_facts(c, m, old, done=None):
    l0 = last(c, "g1", old); adj0, adj, adj2 = c.at("g1", "adjacencies", old), A(c, "g1"), c.at("g2", "adjacencies", old)
    new_ = lambda x: twokinds(c, x, m, l0)
    return [("images are fresh and told apart", fa([q], Implies(Select(dom(PAR, m), q), And(QX(adj2, q), M_(m, q) >= l0, M_(m, q) < last(c, "g1"), INVF(m, M_(m, q)) == q)), Select(dom(PAR, m), q), M_(m, q))),
            ("states", fa([q], QX(adj, q) == Or(QX(adj0, q), new_(q)), QX(adj, q))),
            ("the next identifier grows", last(c, "g1") >= l0),
            ("final marks", fa([q], isfin(c, q, None, "g1") == If(q < l0, isfin(c, q, old, "g1"), And(new_(q), isfin(c, INVF(m, q), old, "g2"))), isfin(c, q, None, "g1"))),
            ("final marks of the second operand", fa([q], isfin(c, q, None, "g2") == isfin(c, q, old, "g2"), isfin(c, q, None, "g2")))]
def ins_tr(c, m, old):
    l0 = last(c, "g1", old); adj0, adj, adj2 = c.at("g1", "adjacencies", old), A(c, "g1"), c.at("g2", "adjacencies", old)
    new_ = lambda x: twokinds(c, x, m, l0)
    return ("transitions", fn_(TRN(adj, q, a, r) == Or(TRN(adj0, q, a, r), And(new_(q), new_(r), TRN(adj2, INVF(m, q), a, INVF(m, r)))), adj))
def ins_post(c):
    m = c.named(c.t(c.res, PAR)); adj2 = A0(c, "g2")
    c.eng.assume(c.st, DEF_INV)
    return ninv(c, "g1") + [("every state has an image", fa([q], Select(dom(PAR, m), q) == QX(adj2, q), Select(dom(PAR, m), q), QX(adj2, q)))] + ins_facts(c, m, c.old) + [ins_tr(c, m, c.old)]
def ins_v(c):
    "after k states of the second operand"
    m = c.t("map21"); adj2 = c.at("g2", "adjacencies", c.old); L = c.it.key
    c.eng.assume(c.st, DEF_INV)
    return ninv(c, "g1") + [("images of the states met", fa([j], Implies(And(0 <= j, j < c.k), And(Select(dom(PAR, m), L(j)), M_(m, L(j)) == last(c, "g1", c.old) + j)), L(j))),
        ("only them", fa([q], Implies(Select(dom(PAR, m), q), And(M_(m, q) < last(c, "g1", c.old) + c.k, L(M_(m, q) - last(c, "g1", c.old)) == q)), Select(dom(PAR, m), q), M_(m, q))),
        ("the next identifier", last(c, "g1") == last(c, "g1", c.old) + c.k)] + ins_facts(c, m, c.old) + [("transitions", fn_(TRN(A(c, "g1"), q, a, r) == TRN(A0(c, "g1"), q, a, r), A(c, "g1"), A0(c, "g1")))]
def ins_e(c):
    m = c.t("map21"); l0 = last(c, "g1", c.old); adj0, adj, adj2 = A0(c, "g1"), A(c, "g1"), A0(c, "g2"); L = c.it.key
    new_ = lambda x: twokinds(c, x, m, l0)
    c.eng.assume(c.st, DEF_INV)
    return ninv(c, "g1") + [("every state has an image", fa([q], Select(dom(PAR, m), q) == QX(adj2, q), Select(dom(PAR, m), q), QX(adj2, q)))] + ins_facts(c, m, c.old) + [
        ("transitions are old or copied", fn_(Implies(TRN(adj, q, a, r), Or(TRN(adj0, q, a, r), And(new_(q), new_(r), TRN(adj2, INVF(m, q), a, INVF(m, r))))), adj)),
        ("old transitions stay", fn_(Implies(TRN(adj0, q, a, r), TRN(adj, q, a, r)), adj0)),
        ("the transitions met are copied", fa([j], Implies(And(0 <= j, j < c.k), TRN(adj, M_(m, nsrc(L(j))), nsym(L(j)), M_(m, ntgt(L(j))))), L(j)))]
def ins_result(c):
    m = new(c, PAR, "map21"); c.st.notes["insertion"] = m
    return m
ins = Fn("insertion", TH + "insert_automaton", lambda S: [nfa_obj(S), nfa_obj(S)], ins_pre, ins_post, modifies=lambda c: [ref(c, "g1"), (c.v("g1"), "last_vertex_id"), finref(c, "g1"), finref(c, "g2")],
    result=ins_result, uses=NB, types={"map21": PAR}, loops={(TH + "insert_automaton", 0): LoopSpec(inv=ins_v), (TH + "insert_automaton", 1): LoopSpec(inv=ins_e)})
PROOFS = [ins.proof()]
n_set_initials_ = Fn("set_initials", N + "set_initials", n_set_initials.setup, lambda c: [], lambda c: [("initials", fa([r], Select(INI(c), r) == Select(c.told("q0s"), r)))], modifies=lambda c: [(c.v("self"), "initials")], when=isnfa)
NB = NB + [n_set_initials_]

# ---------------------------------------------------------------- machines: one initial and one final state
def mach(c, g, q0, f, strict):
    fin = [("only f is final", fa([q], isfin(c, q, None, g) == (q == c.t(f)) if strict else Implies(isfin(c, q, None, g), q == c.t(f)), isfin(c, q, None, g)))]
    return [("%s: %s" % (g, nm), t) for nm, t in ninv(c, g) + [("q0 is a state", QX(A(c, g), c.t(q0))), ("f is a state", QX(A(c, g), c.t(f)))] + fin]
def only_initial(c, g, q0, st=None): return ("%s: q0 is the only initial state" % g, fa([q], Select(INI(c, None, g), q) == (q == c.t(q0)), Select(INI(c, None, g), q)))
def noeps(c, g): return [("no letter of the word is the mark of the empty move", fa([ii], WS(ii) != EPS(c, g), WS(ii)))]
def LG(c, st, g, q0, y): return READ(c.named(c.at(g, "adjacencies", st) if st is not None else A(c, g)), EPS(c, g), q0, y)
def res3(c):
    g, q0, f = c.eng.unpack(c.st, c.res, 3)
    return g, c.t(q0), c.t(f)
class Lf(Fn):
    "the lemmas on languages are proved with the body, callers see the result only"
    def __init__(self, *a_, lang=None, **kw):
        super().__init__(*a_, **kw); self.lang = lang
    def proof(self):
        p_ = super().proof(); post = p_.post
        p_.post = lambda c: (self.lang(c), post(c))[1]
        return p_

def machine_result(c, g, f=None):
    return TupV([c.v(g), c.eng.fresh_value(INT, "q0", c.st), c.eng.fresh_value(INT, "f", c.st)])

# ---------------------------------------------------------------- concatenation and alternation
def two(S): return [nfa_obj(S), S.int("q01"), S.int("f1"), nfa_obj(S), S.int("q02"), S.int("f2")]
def two_pre(c): return mach(c, "nfa1", "q01", "f1", False) + mach(c, "nfa2", "q02", "f2", True) + [("the empty move is marked alike", EPS(c, "nfa1") == EPS(c, "nfa2"))] + noeps(c, "nfa1")
def kept(c):
    "what is read to the old states is the same, the second operand too"
    return [("old states stay", fa([q], Implies(QX(A0(c, "nfa1"), q), QX(A(c, "nfa1"), q)), QX(A0(c, "nfa1"), q))), ("the next identifier grows", last(c, "nfa1") >= last(c, "nfa1", c.old)),
        ("final marks of the second operand", fa([q], isfin(c, q, None, "nfa2") == isfin(c, q, c.old, "nfa2"), isfin(c, q, None, "nfa2")))]
def two_langs(c, q0):
    e = EPS(c, "nfa1")
    m1 = M(c, c.named(A0(c, "nfa1")), e, c.t("q01"), "1"); m2 = M(c, c.named(A0(c, "nfa2")), e, c.t("q02"), "2"); m3 = M(c, c.named(A(c, "nfa1")), e, q0, "3")
    ne = noeps(c, "nfa1")[0][1]; lemma(c, "no letter is the mark", ne)
    for m_ in (m1, m2, m3): m_.axioms.append(ne)
    return e, m1, m2, m3
def old_states(c, m1):
    l0 = last(c, "nfa1", c.old)
    t = fa([q, a, r], Implies(m1.T(q, a, r), And(q < l0, r < l0)), m1.T(q, a, r))
    lemma(c, "transitions of the first operand join old states", t); return t
def relation(c, name, m3, rhs):
    t = fa([q, a, r], m3.T(q, a, r) == rhs(q, a, r), m3.T(q, a, r))
    lemma(c, name, t); return t
def map_of(c):
    return c.named(c.t(c.st.notes["insertion"], PAR))
def images(c, m, m2):
    l0 = last(c, "nfa1", c.old)
    t1 = fa([q, a, r], Implies(m2.T(q, a, r), And(Select(dom(PAR, m), q), Select(dom(PAR, m), r))), m2.T(q, a, r))
    lemma(c, "states of the second operand have images", t1)
    t2 = fa([q], Implies(Select(dom(PAR, m), q), And(M_(m, q) >= l0, INVF(m, M_(m, q)) == q, twokinds(c, M_(m, q), m, l0))), Select(dom(PAR, m), q), M_(m, q))
    lemma(c, "images are new and told apart", t2)
    return [t1, t2]
def forward(c, m1, m3, hints, extra=()):
    "a segment read in the first operand is read in the result, from its own initial state"
    return m1.pred(c, lambda y, i_, j_: isin_(m3.R(y), i_, j_), m3.axioms + hints, "the first operand is read in the result")

def then_starts(c, A_, m2):
    "what A reads, then nothing"
    C = CATL(A_, m2.R(m2.q0))
    t = forall_lemma(c, "a word, then the start of the operand", [ii, jj], [isin_(A_, ii, jj)], isin_(C, ii, jj), [isin_(A_, ii, jj)], ctx=[], hints=DEF_CAT + m2.axioms + [isin_(m2.R(m2.q0), jj, jj) == BoolVal(True)])
    return ForAll([ii, jj], t, patterns=[isin_(A_, ii, jj)])
def cat_lang(c):
    g, q0, f = res3(c)
    e, m1, m2, m3 = two_langs(c, c.t("q01"))
    m = map_of(c); l0 = last(c, "nfa1", c.old); f1, q02, f2 = c.t("f1"), c.t("q02"), c.t("f2")
    for x in DEF_CAT: c.eng.assume(c.st, x)
    new_ = lambda x: twokinds(c, x, m, l0)
    im = images(c, m, m2); olds = old_states(c, m1)
    kinds = lambda x, s, y: [m1.T(x, s, y), And(new_(x), new_(y), m2.T(INVF(m, x), s, INVF(m, y))), And(x == f1, s == e, y == M_(m, q02))]
    rel = relation(c, "transitions of the concatenation", m3, lambda x, s, y: Or(*kinds(x, s, y)))
    rel1 = fa([q, a, r], Implies(m1.T(q, a, r), m3.T(q, a, r)), m1.T(q, a, r)); lemma(c, "transitions of the first operand are there", rel1)
    rel2 = fa([q, a, r], Implies(m2.T(q, a, r), m3.T(M_(m, q), a, M_(m, r))), m2.T(q, a, r)); lemma(c, "transitions of the second operand are there", rel2)
    jump = m3.T(f1, e, M_(m, q02)); lemma(c, "the jump is there", jump)
    base = [c.t("q01") < l0, f1 < l0, Select(dom(PAR, m), q02), Select(dom(PAR, m), f2)]
    for b_ in base: lemma(c, "states of the operands", b_)
    C = lambda y2: CATL(m1.R(f1), m2.R(y2))
    A1_ = forward(c, m1, m3, [rel1])
    B1 = m3.pred(c, lambda y, i_, j_: If(y < l0, isin_(m1.R(y), i_, j_), And(new_(y), isin_(C(INVF(m, y)), i_, j_))), m1.axioms + m2.axioms + DEF_CAT + [rel, olds, then_starts(c, m1.R(f1), m2)] + im + base, "what the result reads", kinds)
    P_ = Const("pp", II)
    A2_ = strong(c, "the second operand is read after the first", [ii, P_, yy, jj], And(isin_(m1.R(f1), ii, P_), isin_(m2.R(yy), P_, jj)), m2.rank(yy, P_, jj), isin_(m3.R(M_(m, yy)), ii, jj),
                 [z3.MultiPattern(isin_(m1.R(f1), ii, P_), isin_(m2.R(yy), P_, jj))], m2.axioms + m3.axioms + [A1_, rel2, jump] + im + base)
    t = fa([ii, jj], isin_(m3.R(f), ii, jj) == isin_(C(f2), ii, jj))
    lemma(c, "pointwise", t)
    lemma(c, "the language", m3.R(f) == C(f2))
    forall_lemma(c, "pointwise, old states", [yy, ii, jj], [yy < l0], isin_(m3.R(yy), ii, jj) == isin_(m1.R(yy), ii, jj), [isin_(m3.R(yy), ii, jj), isin_(m1.R(yy), ii, jj)])
def cat_post(c):
    g, q0, f = res3(c); o = c.old
    return [(nm, t) for nm, t in built_arg(c, "nfa1", q0, f, "the language is the concatenation", CATL(LG(c, o, "nfa1", c.t("q01"), c.t("f1")), LG(c, o, "nfa2", c.t("q02"), c.t("f2"))))] + kept(c) + [
        ("the initial state is kept", q0 == c.t("q01")), ("the final state is new", f >= last(c, "nfa1", o)),
        ("old states read the same", fa([q], Implies(q < last(c, "nfa1", o), LG(c, None, "nfa1", q0, q) == LG(c, o, "nfa1", q0, q)), LG(c, None, "nfa1", q0, q)))]
def built_arg(c, g, q0, f, what, lang):
    return [("the same object is returned", BoolVal(c.eng.unpack(c.st, c.res, 3)[0].oid == c.v(g).oid))] + ninv(c, g) + [("q0 and f are states", And(QX(A(c, g), q0), QX(A(c, g), f))),
        ("f is the only final state", fa([q], isfin(c, q, None, g) == (q == f), isfin(c, q, None, g))), ("q0 is the only initial state", fa([q], Select(INI(c, None, g), q) == (q == q0), Select(INI(c, None, g), q))),
        (what, LG(c, None, g, q0, f) == lang)]
def two_mod(c): return [ref(c, "nfa1"), (c.v("nfa1"), "last_vertex_id"), finref(c, "nfa1"), (c.v("nfa1"), "initials"), iniref(c, "nfa1"), finref(c, "nfa2")]
cat = Lf("concatenation", TH + "concatenation", two, two_pre, cat_post, modifies=two_mod, result=lambda c: machine_result(c, "nfa1"), uses=NB + [ins], lang=cat_lang)
PROOFS += [cat.proof()]

def starts(c, m3, e, y, jump):
    "y is reached from the initial state by an empty move"
    forall_lemma(c, "reached at once", [ii], [], isin_(m3.R(y), ii, ii), [Select(m3.R(y), ii)], ctx=[], hints=m3.axioms + [jump, isin_(m3.R(m3.q0), ii, ii) == BoolVal(True)])
    return fa([ii], isin_(m3.R(y), ii, ii), Select(m3.R(y), ii))
def alt_lang(c):
    g, q0, f = res3(c)
    e, m1, m2, m3 = two_langs(c, q0)
    m = map_of(c); l0 = last(c, "nfa1", c.old); q01, f1, q02, f2 = c.t("q01"), c.t("f1"), c.t("q02"), c.t("f2")
    for x in DEF_ALT: c.eng.assume(c.st, x)
    new_ = lambda x: twokinds(c, x, m, l0)
    im = images(c, m, m2); olds = old_states(c, m1)
    kinds = lambda x, s, y: [m1.T(x, s, y), And(new_(x), new_(y), x != q0, y != f, x != f, y != q0, m2.T(INVF(m, x), s, INVF(m, y))), And(x == q0, s == e, y == q01), And(x == q0, s == e, y == M_(m, q02)), And(x == f1, s == e, y == f), And(x == M_(m, f2), s == e, y == f)]
    lemma(c, "the two states added", And(q0 >= l0, f >= l0, q0 != f))
    apart = [fa([q], Implies(Select(dom(PAR, m), q), And(M_(m, q) != q0, M_(m, q) != f)), M_(m, q)), q0 >= l0, f >= l0, q0 != f]
    lemma(c, "the images are other states", apart[0])
    rel = relation(c, "transitions of the alternation", m3, lambda x, s, y: Or(*kinds(x, s, y)))
    rel1 = fa([q, a, r], Implies(m1.T(q, a, r), m3.T(q, a, r)), m1.T(q, a, r)); lemma(c, "transitions of the first operand are there", rel1)
    rel2 = fa([q, a, r], Implies(m2.T(q, a, r), m3.T(M_(m, q), a, M_(m, r))), m2.T(q, a, r)); lemma(c, "transitions of the second operand are there", rel2)
    jumps = [m3.T(q0, e, q01), m3.T(q0, e, M_(m, q02)), m3.T(f1, e, f), m3.T(M_(m, f2), e, f)]
    for j_ in jumps: lemma(c, "the jumps are there", j_)
    base = [q01 < l0, f1 < l0, Select(dom(PAR, m), q02), Select(dom(PAR, m), f2)]
    for b_ in base: lemma(c, "states of the operands", b_)
    s1, s2 = starts(c, m3, e, q01, jumps[0]), starts(c, m3, e, M_(m, q02), jumps[1])
    A1_ = m1.pred(c, lambda y, i_, j_: isin_(m3.R(y), i_, j_), m3.axioms + [rel1, s1], "the first operand is read in the result")
    A2_ = m2.pred(c, lambda y, i_, j_: isin_(m3.R(M_(m, y)), i_, j_), m3.axioms + [rel2, s2], "the second operand is read in the result")
    inv = lambda y, i_, j_: If(y < l0, isin_(m1.R(y), i_, j_), If(y == q0, i_ == j_, If(y == f, Or(isin_(m1.R(f1), i_, j_), isin_(m2.R(f2), i_, j_)), And(new_(y), isin_(m2.R(INVF(m, y)), i_, j_)))))
    B1 = m3.pred(c, inv, m1.axioms + m2.axioms + [rel, olds] + im + base + apart, "what the result reads", kinds)
    lemma(c, "pointwise", fa([ii, jj], isin_(m3.R(f), ii, jj) == isin_(ALTL(m1.R(f1), m2.R(f2)), ii, jj)))
    lemma(c, "the language", m3.R(f) == ALTL(m1.R(f1), m2.R(f2)))
def alt_post(c):
    g, q0, f = res3(c); o = c.old
    return built_arg(c, "nfa1", q0, f, "the language is the union", ALTL(LG(c, o, "nfa1", c.t("q01"), c.t("f1")), LG(c, o, "nfa2", c.t("q02"), c.t("f2")))) + kept(c)
alt = Lf("alternation", TH + "alternation", two, two_pre, alt_post, modifies=two_mod, result=lambda c: machine_result(c, "nfa1"), uses=NB + [ins], lang=alt_lang)
PROOFS += [alt.proof()]

# ---------------------------------------------------------------- option, star, plus
def one(S): return [nfa_obj(S), S.int("q0"), S.int("f")]
def one_pre_(c): return mach(c, "nfa", "q0", "f", False) + noeps(c, "nfa")
def wrap_lang(skip, back):
    "two states around the operand; skip: the operand may be skipped; back: it may be read again"
    def lang(c):
        g, q0, f = res3(c); o = c.old; q1, f1 = c.t("q0"), c.t("f"); e = EPS(c, "nfa"); l0 = last(c, "nfa", o)
        m1 = M(c, c.named(A0(c, "nfa")), e, q1, "1"); mb = m1; m3 = M(c, c.named(A(c, "nfa")), e, q0, "3")
        ne = noeps(c, "nfa")[0][1]; lemma(c, "no letter is the mark", ne)
        for m_ in (m1, m3): m_.axioms.append(ne)
        L = m1.R(f1); D = (DEF_STAR + DEF_CAT) if back else DEF_EPS + DEF_ALT
        for x in D: c.eng.assume(c.st, x)
        olds = fa([q, a, r], Implies(m1.T(q, a, r), And(q < l0, r < l0)), m1.T(q, a, r)); lemma(c, "transitions of the operand join old states", olds)
        base = [q1 < l0, f1 < l0, q0 >= l0, f >= l0, q0 != f]
        for b_ in base: lemma(c, "states", b_)
        kinds = lambda x, s, y: [m1.T(x, s, y), And(x == q0, s == e, y == q1), And(x == f1, s == e, y == f)] + ([And(x == q0, s == e, y == f)] if skip else []) + ([And(x == f, s == e, y == q0)] if back else [])
        rel = relation(c, "transitions of the result", m3, lambda x, s, y: Or(*kinds(x, s, y)))
        rel1 = fa([q, a, r], Implies(m1.T(q, a, r), m3.T(q, a, r)), m1.T(q, a, r)); lemma(c, "transitions of the operand are there", rel1)
        jumps = [m3.T(q0, e, q1), m3.T(f1, e, f)] + ([m3.T(q0, e, f)] if skip else []) + ([m3.T(f, e, q0)] if back else [])
        for j_ in jumps: lemma(c, "the jumps are there", j_)
        if not back:
            s1 = starts(c, m3, e, q1, jumps[0])
            if skip: starts(c, m3, e, f, jumps[2])
            m1.pred(c, lambda y, i_, j_: isin_(m3.R(y), i_, j_), m3.axioms + [rel1, s1], "the operand is read in the result")
            inv = lambda y, i_, j_: If(y < l0, isin_(m1.R(y), i_, j_), If(y == q0, i_ == j_, And(y == f, Or(i_ == j_, isin_(L, i_, j_)))))
            m3.pred(c, inv, m1.axioms + [rel, olds] + base, "what the result reads", kinds)
            W = OPTL(L)
        else:
            S_ = STARL(L); P_ = Const("pp", II)
            W = S_ if skip else PLUSL(L)
            A_ = strong(c, "the operand is read again", [ii, P_, yy, jj], And(isin_(m3.R(q0), ii, P_), isin_(m1.R(yy), P_, jj)), m1.rank(yy, P_, jj), isin_(m3.R(yy), ii, jj), [z3.MultiPattern(isin_(m3.R(q0), ii, P_), isin_(m1.R(yy), P_, jj))], m1.axioms + m3.axioms + [rel1] + jumps)
            B_ = strong(c, "any number of factors", [ii, jj], isin_(S_, ii, jj), STRANK(L, ii, jj), isin_(m3.R(q0), ii, jj), [isin_(S_, ii, jj)], m3.axioms + DEF_STAR + [A_] + jumps)
            inv = lambda y, i_, j_: If(y < l0, isin_(CATL(S_, m1.R(y)), i_, j_), If(y == q0, isin_(S_, i_, j_), And(y == f, isin_(W, i_, j_))))
            m3.pred(c, inv, m1.axioms + DEF_STAR + DEF_CAT + [rel, olds, then_starts(c, S_, m1)] + base, "what the result reads", kinds)
            if skip: lemma(c, "read to the end", fa([ii, jj], Implies(isin_(S_, ii, jj), isin_(m3.R(f), ii, jj)), isin_(S_, ii, jj)))
            else: forall_lemma(c, "read to the end", [ii, kk, jj], [isin_(S_, ii, kk), isin_(L, kk, jj)], isin_(m3.R(f), ii, jj), [z3.MultiPattern(isin_(S_, ii, kk), isin_(L, kk, jj))], ctx=[], hints=m3.axioms + [A_, B_] + jumps)
        lemma(c, "pointwise", fa([ii, jj], isin_(m3.R(f), ii, jj) == isin_(W, ii, jj)))
        lemma(c, "the language", m3.R(f) == W)
    return lang
def one_post(what, f_):
    def post(c):
        g, q0, f = res3(c)
        return built_arg(c, "nfa", q0, f, what, f_(LG(c, c.old, "nfa", c.t("q0"), c.t("f"))))
    return post
def one_mod(c): return [ref(c, "nfa"), (c.v("nfa"), "last_vertex_id"), finref(c, "nfa"), (c.v("nfa"), "initials"), iniref(c, "nfa")]
ONE = dict(modifies=one_mod, result=lambda c: machine_result(c, "nfa"), uses=NB)
opt = Lf("option", TH + "zero_or_one", one, one_pre_, one_post("the language is the operand's or the empty word", OPTL), lang=wrap_lang(True, False), **ONE)
star_ = Lf("star", TH + "zero_or_more", one, one_pre_, one_post("the language is the star", STARL), lang=wrap_lang(True, True), **ONE)
plus = Lf("plus", TH + "one_or_more", one, one_pre_, one_post("the language is the star then the operand", PLUSL), lang=wrap_lang(False, True), **ONE)
PROOFS += [opt.proof(), star_.proof(), plus.proof()]

# ---------------------------------------------------------------- one symbol
def MARK(c):
    import pybgl.nfa
    return c.eng.term(c.st, StrC(pybgl.nfa.EPSILON), SY)
CTY = {"adjacencies": NADJ, "map_vfinal": FIN, "initials": IS}
def char_lang(chars):
    def lang(c):
        g, q0, f = res3(c)
        e = c.t(c.attr(g, "epsilon"), SY)
        for x in DEF_CHAR: c.eng.assume(c.st, x)
        m3 = M(c, c.named(A(c, g)), e, q0, "3"); C = c.named(chars(c))
        c.eng.assume(c.st, fa([ii], WS(ii) != e, WS(ii)))
        m3.axioms.append(fa([ii], WS(ii) != e, WS(ii)))
        kinds = lambda x, s, y: [And(x == q0, y == f, Select(C, s))]
        rel = relation(c, "transitions", m3, lambda x, s, y: Or(*kinds(x, s, y)))
        lemma(c, "two states", q0 != f)
        noe = Not(Select(C, e)); lemma(c, "not the mark of the empty move", noe)
        m3.pred(c, lambda y, i_, j_: If(y == q0, i_ == j_, And(y == f, isin_(CHARL(C), i_, j_))), DEF_CHAR + [rel, q0 != f, noe], "what is read", kinds)
        forall_lemma(c, "the symbols are read", [ii], [Select(C, WS(ii))], isin_(m3.R(f), ii, ii + 1), [Select(m3.R(f), ii)], ctx=[], hints=m3.axioms + [rel, m3.T(q0, WS(ii), f) == Select(C, WS(ii)), isin_(m3.R(q0), ii, ii) == BoolVal(True)])
        lemma(c, "pointwise", fa([ii, jj], isin_(m3.R(f), ii, jj) == isin_(CHARL(C), ii, jj)))
        lemma(c, "the language", m3.R(f) == CHARL(C))
    return lang
def built_new(c, what, lang):
    g, q0, f = res3(c)
    return ninv(c, g) + [("q0 and f are states", And(QX(A(c, g), q0), QX(A(c, g), f))), ("f is the only final state", fa([q], isfin(c, q, None, g) == (q == f), isfin(c, q, None, g))),
        ("q0 is the only initial state", fa([q], Select(INI(c, None, g), q) == (q == q0), Select(INI(c, None, g), q))), (what, READ(c.named(A(c, g)), c.t(c.attr(g, "epsilon"), SY), q0, f) == lang)]
NGI2 = LoopSpec(inv=lambda c: ncon(c, c.k))
CLOOPS = {(G + "DirectedGraph.__init__", 0): NGI2, (G + "Graph.__init__", 0): NGI2}
lit = Lf("literal", TH + "literal", lambda S: [S.const(SY, "a")], lambda c: [("the letter is not the mark of the empty move", c.t("a") != MARK(c))], lambda c: built_new(c, "the language is the letter", CHARL(c.named(z3.Store(empty(SET(SY)), c.t("a"), BoolVal(True))))), uses=NB, types=CTY, loops=CLOOPS, lang=char_lang(lambda c: z3.Store(empty(SET(SY)), c.t("a"), BoolVal(True))))
PROOFS += [lit.proof()]

def bra_inv(c):
    g = next(ObjV(o_) for o_, x_ in c.st.objs.items() if x_[0] is NFA); adj = A(c, g); L = c.it.key
    return ninv(c, g) + [("two states", fa([q], QX(adj, q) == Or(q == 0, q == 1), QX(adj, q))), ("the letters met, from 0 to 1", fn_(Implies(TRN(adj, q, a, r), And(q == 0, r == 1, Select(c.told("chars"), a))), adj)),
        ("each letter met", fa([j], Implies(And(0 <= j, j < c.k), TRN(adj, 0, L(j), 1)), L(j)))]
bra = Lf("bracket", TH + "bracket", lambda S: [S.cont(SET(SY), "chars")], lambda c: [("the mark of the empty move is not in the bracket", Not(Select(c.told("chars") if c.old is not None else c.t("chars"), MARK(c))))], lambda c: built_new(c, "the language is the letters of the bracket", CHARL(c.told("chars"))), uses=NB, types=CTY,
    loops={**CLOOPS, (TH + "bracket", 0): LoopSpec(inv=bra_inv)}, lang=char_lang(lambda c: c.told("chars")))
PROOFS += [bra.proof()]
PROOFS += [Lemma("powers", pow_lemmas)]

# ---------------------------------------------------------------- repetitions
def clone(eng, st, v, memo):
    "an equal value sharing nothing"
    if isinstance(v, ObjV):
        if ("o", v.oid) not in memo:
            k_, at_, h_ = st.objs[v.oid]
            o = memo[("o", v.oid)] = eng.new_obj(st, k_, {}, dict(h_))
            for n_, x in at_.items(): st.objs[o.oid][1][n_] = clone(eng, st, x, memo)
        return memo[("o", v.oid)]
    if isinstance(v, Ref):
        key = ("r", v.loc, len(v.path), str(v.path))
        if key not in memo: memo[key] = eng.alloc(st, eng.rtype(st, v), eng.term(st, v), "copy")
        return memo[key]
    return v
def deepcopy(eng, st, args, kw):
    r = clone(eng, st, args[0], {})
    st.notes["copies"] = tuple(st.notes.get("copies", ())) + (r,)
    return [(st, r)]
def with_copies(S): S.eng.externals["copy.deepcopy"] = deepcopy
def rep_setup(S):
    with_copies(S); r = one(S) + [S.int("m")]
    S.eng.par = [x.t for x in r[1:]]; g = S.st.objs[r[0].oid][1]
    S.eng.adj0, S.eng.eps0 = S.term(g["adjacencies"]), S.term(g["epsilon"])
    return r
def rep_pre(c): return mach(c, "nfa", "q0", "f", True) + [only_initial(c, "nfa", "q0"), ("m is not negative", c.t("m") >= 0)] + noeps(c, "nfa")
def operand(c): return LG(c, c.old, "nfa", c.told("q0"), c.told("f"))
def rep_inv(c):
    ori = c.st.notes["copies"][0]; L = LG(c, c.old, "nfa", *c.eng.par[:2]); fori = c.eng.par[1]
    c.eng.assume(c.st, POW1); c.eng.assume(c.st, pow_next(L, c.k + 1))
    return mach(c, "nfa", "q0", "f", True) + [only_initial(c, "nfa", "q0"), ("final states of the copy", fa([q], isfin(c, q, None, ori) == (q == fori), isfin(c, q, None, ori))),
        ("the power read so far", READ(c.named(A(c, "nfa")), EPS(c, "nfa"), c.t("q0"), c.t("f")) == POWL(L, c.k + 1))]
def rep_lang(c):
    L = operand(c)
    g, q0, f = res3(c)
    c.eng.assume(c.st, POW1)
    for x in DEF_POW + DEF_EPS: c.eng.assume(c.st, x)
    if g.oid != c.args["nfa"].oid:
        e = c.t(c.attr(g, "epsilon"), SY); m3 = M(c, c.named(A(c, g)), e, q0, "3")
        rel = relation(c, "no transition", m3, lambda x, s, y: BoolVal(False))
        m3.pred(c, lambda y, i_, j_: And(y == q0, i_ == j_), [rel], "nothing is read")
        lemma(c, "one state", q0 == f)
        lemma(c, "pointwise", fa([ii, jj], isin_(m3.R(f), ii, jj) == isin_(EPSL, ii, jj)))
        lemma(c, "the language", m3.R(f) == EPSL)
def rep_post(c):
    g, q0, f = res3(c)
    return built_new(c, "the language is the power", POWL(operand(c), c.told("m"))) + [("the empty move is marked alike", c.t(c.attr(g, "epsilon"), SY) == EPS(c, "nfa"))]
rep = Lf("repetition", TH + "repetition", rep_setup, rep_pre, rep_post, uses=NB + [cat], types=CTY, modifies=one_mod, lang=rep_lang, loops={**CLOOPS, (TH + "repetition", 0): LoopSpec(inv=rep_inv)})
PROOFS += [rep.proof()]

class Repeated(Lf):
    "at a call: a new automaton when nothing is repeated, the one given otherwise"
    def call(self):
        k = super().call(); f = self
        def apply(eng, st, env):
            args = {k_: v_ for k_, v_ in env.items() if not k_.startswith("$")}
            c = Ctx(eng, st, old=None, args=args)
            for nm, t in f.pre(c):
                eng.oblige(st, "pre:repetition:" + nm, t); eng.assume(st, t)
            s2 = st.copy(); out = []
            for s_, zero in ((s2, True), (st, False)):
                eng.assume(s_, (args["m"].t == 0) if zero else args["m"].t > 0)
                if not eng.feasible(s_): continue
                old = s_.copy()
                if zero:
                    S = Setup(eng, s_); g = nfa_obj(S)
                else:
                    k.havoc_all(eng, s_, args); g = args["nfa"]
                c2 = Ctx(eng, s_, old=old, args=args)
                c2.res = TupV([g, eng.fresh_value(INT, "q0", s_), eng.fresh_value(INT, "f", s_)])
                for nm, t in f.post(c2): eng.assume(s_, t)
                out.append((s_, c2.res))
            return out
        k.apply = apply
        return k
rep = Repeated("repetition", TH + "repetition", rep_setup, rep_pre, rep_post, uses=NB + [cat], types=CTY, modifies=one_mod, lang=rep_lang, loops={**CLOOPS, (TH + "repetition", 0): LoopSpec(inv=rep_inv)})
PROOFS[-1] = rep.proof()

PF = z3.Function("final_state_of_power", II, II); STF = z3.Function("power_of_final_state", II, PAR_A := z3.ArraySort(II, II))
def rng_setup(bounded):
    def f(S):
        r_ = rep_setup(S)
        n_ = S.int("n") if bounded else NONE_
        if bounded: S.eng.par.append(n_.t)
        return r_ + [n_]
    return f
def rng_pre(bounded):
    return lambda c: rep_pre(c) + ([("bounds in order", c.t("m") <= c.t("n"))] if bounded else [])
def set_of_states(c):
    "the set of final states: the local set of integers"
    fr = c.st.frames[c.fid if c.fid is not None else c.eng.toplevel_frame]
    return next(x for x in fr.values() if isinstance(x, Ref) and c.ty(x).key == IS.key)
def given_language(c):
    q0_, f_ = c.eng.par[:2]
    return READ(c.named(c.eng.adj0), c.eng.eps0, q0_, f_)
def rng_k(c):
    "after k concatenations: the final states of the powers m .. m + k"
    q0_, f_, m_, n_ = c.eng.par
    L = given_language(c)
    ori = c.st.notes["copies"][-1]; g = c.v("nfa"); adj = c.named(A(c, g)); e = EPS(c, g); F = c.t(set_of_states(c)); q0 = c.t("q0"); k_ = c.k
    c.eng.assume(c.st, pow_next(L, m_ + k_))
    if z3.is_int_value(k_) and k_.as_long() == 0: c.eng.assume(c.st, And(PF(m_) == c.t("f"), STF(0) == z3.Store(z3.K(II, IntVal(0)), c.t("f"), m_)))
    P = STF(k_)
    c.st.notes["powers"] = (adj, F, P, g)
    return mach(c, "nfa", "q0", "f", True) + [only_initial(c, "nfa", "q0"), ("final states of the copy", fa([q], isfin(c, q, None, ori) == (q == f_), isfin(c, q, None, ori))), ("the empty move is marked alike", e == c.eng.eps0),
        ("f reads the last power", And(Select(F, c.t("f")), READ(adj, e, q0, c.t("f")) == POWL(L, m_ + k_), Select(P, c.t("f")) == m_ + k_)),
        ("each final state kept reads a power", fa([q], Implies(Select(F, q), And(QX(adj, q), m_ <= Select(P, q), Select(P, q) <= m_ + k_, READ(adj, e, q0, q) == POWL(L, Select(P, q)))), Select(F, q))),
        ("each power has its final state", fa([j], Implies(And(m_ <= j, j <= m_ + k_), And(Select(F, PF(j)), Select(P, PF(j)) == j)), PF(j)))]
def rng_turn(c):
    "names the final state added in this turn"
    m_ = c.eng.par[2]
    c.eng.assume(c.st, And(PF(m_ + c.k + 1) == c.t("f"), STF(c.k + 1) == z3.Store(STF(c.k), c.t("f"), m_ + c.k + 1)))
    return []
def rng_f(c):
    "after k final states of the powers: they lead to the new one"
    g = c.v("nfa"); adj, e = A(c, g), EPS(c, g); adjB = c.named(c.eng.term(c.entry, c.attr(g, "adjacencies", c.entry))); c.eng.carry(c.st, adjB); F = c.st.notes["powers"][1]; L = c.it.key; f = c.t("f")
    fin0 = lambda x: Select(val(FIN, c.named(c.eng.term(c.entry, c.attr(c.attr(g, "pmap_vfinal", c.entry), "d", c.entry)))), x)
    return ninv(c, g) + [("states", fa([q], QX(adj, q) == QX(adjB, q), QX(adj, q))), ("transitions are old or lead to the new state", fn_(Implies(TRN(adj, q, a, r), Or(TRN(adjB, q, a, r), And(Select(F, q), a == e, r == f))), adj)),
        ("old transitions stay", fn_(Implies(TRN(adjB, q, a, r), TRN(adj, q, a, r)), adjB)),
        ("the states met lead to the new one", fa([j], Implies(And(0 <= j, j < c.k), And(TRN(adj, L(j), e, f), Not(isfin(c, L(j), None, g)))), L(j))),
        ("no new final mark", fa([q], Implies(isfin(c, q, None, g), fin0(q)), isfin(c, q, None, g)))]
def rng_lang(c):
    for x in POWERS: c.eng.assume(c.st, x)
    if "powers" not in c.st.notes: return
    g, q0, f = res3(c); adjB, F, P, gB = c.st.notes["powers"]; adj = c.named(A(c, g)); e = EPS(c, g); L = given_language(c); m_, n_ = c.eng.par[2:]
    if adj.eq(adjB): return
    for x in DEF_RANGE: c.eng.assume(c.st, x)
    mB, m3 = M(c, adjB, e, q0, "B"), M(c, adj, e, q0, "3")
    ne = fa([ii], WS(ii) != e, WS(ii)); lemma(c, "no letter is the mark", ne)
    for x in (mB, m3): x.axioms.append(ne)
    kinds = lambda x, s, y: [mB.T(x, s, y), And(Select(F, x), s == e, y == f)]
    rel = relation(c, "transitions of the range", m3, lambda x, s, y: Or(*kinds(x, s, y)))
    rel1 = fa([q, a, r], Implies(mB.T(q, a, r), And(m3.T(q, a, r), q != f, r != f)), mB.T(q, a, r)); lemma(c, "old transitions are there", rel1)
    out = fa([q], Implies(Select(F, q), And(m3.T(q, e, f), q != f)), Select(F, q)); lemma(c, "final states of the powers lead to the new one", out)
    pw = [fa([q], Implies(Select(F, q), And(m_ <= Select(P, q), Select(P, q) <= n_, mB.R(q) == POWL(L, Select(P, q)))), Select(F, q)), fa([j], Implies(And(m_ <= j, j <= n_), And(Select(F, PF(j)), Select(P, PF(j)) == j)), PF(j), POWL(L, j)), q0 != f]
    for x in pw: lemma(c, "powers and their final states", x)
    RG = RANGEL(L, m_, n_)
    A_ = mB.pred(c, lambda y, i_, j_: isin_(m3.R(y), i_, j_), m3.axioms + [rel1], "what was read is still read")
    mB_ = mB
    inv = lambda y, i_, j_: If(y == f, isin_(RG, i_, j_), isin_(mB.R(y), i_, j_))
    m3.pred(c, inv, mB.axioms + DEF_RANGE + [rel, rel1] + pw, "what the result reads", kinds)
    w = RGP(L, m_, n_, ii, jj)
    forall_lemma(c, "every power is read", [ii, jj], [isin_(RG, ii, jj)], isin_(m3.R(f), ii, jj), [isin_(RG, ii, jj)], ctx=[], hints=m3.axioms + DEF_RANGE + pw + [out, A_, Implies(And(m_ <= w, w <= n_), And(Select(F, PF(w)), Select(P, PF(w)) == w))])
    lemma(c, "pointwise", fa([ii, jj], isin_(m3.R(f), ii, jj) == isin_(RG, ii, jj)))
    lemma(c, "the language", m3.R(f) == RG)
def rng_post(bounded):
    def post(c):
        L = given_language(c)
        return built_new(c, "the language is that of the powers between the bounds" if bounded else "the language is that of the powers from m on", RANGEL(L, c.told("m"), c.told("n")) if bounded else ATLEAST(L, c.told("m")))
    return post
RR = TH + "repetition_range"
RNG = [Lf("repetition, %s" % ("bounded" if b_ else "unbounded"), RR, rng_setup(b_), rng_pre(b_), rng_post(b_), uses=NB + [cat, rep, opt, star_, plus], types=CTY, modifies=one_mod, lang=rng_lang,
          loops={(RR, 0): LoopSpec(inv=rng_k, lemma=rng_turn), (RR, 1): LoopSpec(inv=rng_f)}) for b_ in (True, False)]
PROOFS += [x.proof() for x in RNG]
