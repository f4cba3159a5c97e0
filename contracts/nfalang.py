"""Languages of non-deterministic automata, read on one arbitrary infinite word (its segments are all the words): in(L, i, j) is "the
segment from i to j is in L".  READ(adjacencies, empty-move mark, q0)(y) holds the segments read along the paths from q0 to y; the operations
on languages are defined by their usual meaning (choice functions give the cut positions, ranks the length of a path or the number of factors)."""
from contracts.nfas import *
II = z3.IntSort(); BB = z3.BoolSort()
LNG = z3.ArraySort(II, z3.ArraySort(II, BB))
WS = z3.Function("letter_at", II, sort(SY))
READ = z3.Function("READ", sort(NADJ), sort(SY), II, II, LNG)
RANK = z3.Function("path_length", sort(NADJ), sort(SY), II, II, II, II, II)
PZ = z3.Function("state_before", sort(NADJ), sort(SY), II, II, II, II, II)
PK = z3.Function("position_before", sort(NADJ), sort(SY), II, II, II, II, II)
CATL = z3.Function("CONCATENATION", LNG, LNG, LNG); CUTAT = z3.Function("cut_at", LNG, LNG, II, II, II)
ALTL = z3.Function("ALTERNATIVE", LNG, LNG, LNG)
EPSL = Const("EMPTY_WORD", LNG)
STARL = z3.Function("STAR", LNG, LNG); STCUT = z3.Function("last_factor_at", LNG, II, II, II); STRANK = z3.Function("factors", LNG, II, II, II)
POWL = z3.Function("POWER", LNG, II, LNG)
RANGEL = z3.Function("POWERS_BETWEEN", LNG, II, II, LNG); RGP = z3.Function("which_power", LNG, II, II, II, II, II)
CHARL = z3.Function("ONE_OF", sort(SET(SY)), LNG)
LA, LB = Consts("LA LB", LNG)
cs = Const("cs", sort(SET(SY)))
ii, jj, kk, yy, zz, nn, mm = Ints("ii jj kk yy zz nn mm")
def isin_(L, i_, j_): return Select(Select(L, i_), j_)

DEF_EPS = [fa([ii, jj], isin_(EPSL, ii, jj) == (ii == jj), isin_(EPSL, ii, jj))]
DEF_ALT = [fa([LA, LB, ii, jj], isin_(ALTL(LA, LB), ii, jj) == Or(isin_(LA, ii, jj), isin_(LB, ii, jj)), isin_(ALTL(LA, LB), ii, jj))]
DEF_CAT = [fa([LA, LB, ii, jj], Implies(isin_(CATL(LA, LB), ii, jj), And(isin_(LA, ii, CUTAT(LA, LB, ii, jj)), isin_(LB, CUTAT(LA, LB, ii, jj), jj))), isin_(CATL(LA, LB), ii, jj)),
           fa([LA, LB, ii, kk, jj], Implies(And(isin_(LA, ii, kk), isin_(LB, kk, jj)), isin_(CATL(LA, LB), ii, jj)), z3.MultiPattern(CATL(LA, LB), isin_(LA, ii, kk), isin_(LB, kk, jj)))]
DEF_STAR = [fa([LA, ii], isin_(STARL(LA), ii, ii), Select(STARL(LA), ii)),
            fa([LA, ii, kk, jj], Implies(And(isin_(STARL(LA), ii, kk), isin_(LA, kk, jj)), isin_(STARL(LA), ii, jj)), z3.MultiPattern(isin_(STARL(LA), ii, kk), isin_(LA, kk, jj))),
            fa([LA, ii, jj], Implies(isin_(STARL(LA), ii, jj), And(STRANK(LA, ii, jj) >= 0, Or(ii == jj, And(isin_(STARL(LA), ii, STCUT(LA, ii, jj)), isin_(LA, STCUT(LA, ii, jj), jj), STRANK(LA, ii, STCUT(LA, ii, jj)) < STRANK(LA, ii, jj))))), isin_(STARL(LA), ii, jj))]
DEF_POW = [fa([LA], POWL(LA, 0) == EPSL, POWL(LA, 0))]
def pow_next(L, n_): return Implies(n_ >= 0, POWL(L, n_ + 1) == CATL(POWL(L, n_), L))
DEF_RANGE = [fa([LA, mm, nn, ii, jj], Implies(isin_(RANGEL(LA, mm, nn), ii, jj), And(mm <= RGP(LA, mm, nn, ii, jj), RGP(LA, mm, nn, ii, jj) <= nn, isin_(POWL(LA, RGP(LA, mm, nn, ii, jj)), ii, jj))), isin_(RANGEL(LA, mm, nn), ii, jj)),
             fa([LA, mm, nn, kk, ii, jj], Implies(And(mm <= kk, kk <= nn, isin_(POWL(LA, kk), ii, jj)), isin_(RANGEL(LA, mm, nn), ii, jj)), z3.MultiPattern(RANGEL(LA, mm, nn), isin_(POWL(LA, kk), ii, jj)))]
DEF_CHAR = [fa([cs, ii, jj], isin_(CHARL(cs), ii, jj) == And(jj == ii + 1, Select(cs, WS(ii))), isin_(CHARL(cs), ii, jj))]
def PLUSL(L): return CATL(STARL(L), L)
def OPTL(L): return ALTL(EPSL, L)

class M:
    """an automaton: its transitions as a relation T (equal to those stored in adj), read from q0"""
    def __init__(self, c, adj, eps, q0, name):
        self.adj, self.eps, self.q0 = adj, eps, q0
        self.T = z3.Function(c.eng.uid("T_" + name), II, sort(SY), II, BB)
        T = self.T
        c.eng.assume(c.st, fa([q, a, r], T(q, a, r) == TRN(adj, q, a, r), T(q, a, r), TD(adj, q, a, r)))
        R, RK = self.R, self.rank
        st = lambda z_, k_, y_, j_: Or(And(T(z_, eps, y_), j_ == k_), And(T(z_, WS(k_), y_), j_ == k_ + 1))
        pz, pk = PZ(adj, eps, q0, yy, ii, jj), PK(adj, eps, q0, yy, ii, jj)
        self.axioms = [fa([ii], isin_(R(q0), ii, ii), Select(R(q0), ii)),
            fa([zz, yy, ii, kk], Implies(And(isin_(R(zz), ii, kk), T(zz, eps, yy)), isin_(R(yy), ii, kk)), z3.MultiPattern(isin_(R(zz), ii, kk), T(zz, eps, yy))),
            fa([zz, yy, ii, kk], Implies(And(isin_(R(zz), ii, kk), T(zz, WS(kk), yy)), isin_(R(yy), ii, kk + 1)), z3.MultiPattern(isin_(R(zz), ii, kk), T(zz, WS(kk), yy))),
            fa([yy, ii, jj], Implies(isin_(R(yy), ii, jj), And(RK(yy, ii, jj) >= 0, Or(And(yy == q0, ii == jj), And(isin_(R(pz), ii, pk), st(pz, pk, yy, jj), RK(pz, ii, pk) < RK(yy, ii, jj))))), isin_(R(yy), ii, jj))]
        for x in self.axioms: c.eng.assume(c.st, x)
    def R(self, y): return READ(self.adj, self.eps, self.q0, y)
    def rank(self, y, i_, j_): return RANK(self.adj, self.eps, self.q0, y, i_, j_)
    def pred(self, c, goal, hints, name="reads", split=None):
        "y, i, j -> goal holds whenever the segment i..j leads to y: induction on the length of the path"
        return strong(c, name, [yy, ii, jj], isin_(self.R(yy), ii, jj), self.rank(yy, ii, jj), goal(yy, ii, jj), [isin_(self.R(yy), ii, jj)], self.axioms + hints, self.cases(yy, ii, jj, split) if split else None)
    def cases(self, y, i_, j_, split):
        "how a path to y ends: it is empty, or its last transition is of one of the kinds"
        pz, pk = PZ(self.adj, self.eps, self.q0, y, i_, j_), PK(self.adj, self.eps, self.q0, y, i_, j_)
        out = [And(y == self.q0, i_ == j_)]
        shorter = And(isin_(self.R(pz), i_, pk), self.rank(pz, i_, pk) < self.rank(y, i_, j_))
        for sym, j2 in ((self.eps, pk), (WS(pk), pk + 1)):
            out += [And(shorter, self.T(pz, sym, y), j_ == j2, x) for x in split(pz, sym, y)]
        return out

def strong(c, name, vs, hyp, rank, goal, pats, hints, cases=None):
    "forall vs. hyp -> goal, by induction on the rank of hyp (a natural number)"
    e = c.eng
    sub = [(v_, Const(e.uid(str(v_)), v_.sort())) for v_ in vs]
    f = lambda t: z3.substitute(t, *sub)
    def state():
        s = c.st.copy(); s.pc = [("a", x) for x in hints]
        e.assume(s, f(hyp)); return s
    s2 = state()
    e.oblige(s2, "induction:%s:the rank is natural" % name, f(rank) >= 0, "lemma")
    s2 = state()
    e.assume(s2, ForAll(list(vs), Implies(And(hyp, rank < f(rank)), goal), patterns=list(pats)))
    if cases:
        e.oblige(s2, "induction:%s:cases" % name, f(Or(*cases)), "lemma")
        for n_, x in enumerate(cases):
            s3 = s2.copy(); e.assume(s3, f(x))
            e.oblige(s3, "induction:%s:step, case %d" % (name, n_), f(goal), "lemma")
    else: e.oblige(s2, "induction:%s:step" % name, f(goal), "lemma")
    t = ForAll(list(vs), Implies(hyp, goal), patterns=list(pats))
    e.assume(c.st, t)
    return t

# ---------------------------------------------------------------- powers
ATLEAST = z3.Function("AT_LEAST", LNG, II, LNG); ALP = z3.Function("which_power_from", LNG, II, II, II, II)
DEF_ATLEAST = [fa([LA, mm, ii, jj], Implies(isin_(ATLEAST(LA, mm), ii, jj), And(mm <= ALP(LA, mm, ii, jj), isin_(POWL(LA, ALP(LA, mm, ii, jj)), ii, jj))), isin_(ATLEAST(LA, mm), ii, jj)),
               fa([LA, mm, kk, ii, jj], Implies(And(mm <= kk, isin_(POWL(LA, kk), ii, jj)), isin_(ATLEAST(LA, mm), ii, jj)), z3.MultiPattern(ATLEAST(LA, mm), isin_(POWL(LA, kk), ii, jj)))]
aa, bb = Ints("aa bb")
POW1 = fa([LA], POWL(LA, 1) == LA, POWL(LA, 1))
POWADD = fa([LA, aa, bb], Implies(And(aa >= 0, bb >= 0), POWL(LA, aa + bb) == CATL(POWL(LA, aa), POWL(LA, bb))), z3.MultiPattern(POWL(LA, aa), POWL(LA, bb)))
def pow_lemmas():
    L = Const("L", LNG); A_, B_, I_, J_, K_ = Ints("A B I J K")
    same = lambda X, Y: isin_(X, I_, J_) == isin_(Y, I_, J_)
    P0, PN = POWL(L, 0) == EPSL, lambda n_: Implies(n_ >= 0, POWL(L, z3.simplify(n_ + 1)) == CATL(POWL(L, n_), L))
    eps, cat, star, alt, at = DEF_EPS, DEF_CAT, DEF_STAR, DEF_ALT, DEF_ATLEAST
    ext = lambda X, Y: [fa([ii, jj], isin_(X, ii, jj) == isin_(Y, ii, jj), isin_(X, ii, jj), isin_(Y, ii, jj))]
    def equal(name, X, Y, hyps):
        return [(name + ": one way", hyps + [isin_(X, I_, J_)], isin_(Y, I_, J_)), (name + ": the other way", hyps + [isin_(Y, I_, J_)], isin_(X, I_, J_)), (name + ": equal", ext(X, Y), X == Y)]
    out = equal("the first power is the language", POWL(L, 1), L, [P0, PN(IntVal(0)), isin_(EPSL, I_, I_), isin_(EPSL, J_, J_)] + eps + cat)
    # POW(a + b) = POW(a) . POW(b), by induction on b
    X, Y = POWL(L, A_ + B_), CATL(POWL(L, A_), POWL(L, B_))
    X1, Y1 = POWL(L, A_ + B_ + 1), CATL(POWL(L, A_), POWL(L, B_ + 1))
    ih = fa([ii, jj], isin_(X, ii, jj) == isin_(Y, ii, jj), isin_(X, ii, jj), isin_(Y, ii, jj))
    hyp = [A_ >= 0, B_ >= 0]
    Z0 = CATL(POWL(L, A_), EPSL)
    out += equal("powers add up, base", POWL(L, A_), Z0, hyp + eps + cat + [isin_(EPSL, I_, I_), isin_(EPSL, J_, J_)])
    out += equal("powers add up, step", CATL(X, L), CATL(POWL(L, A_), CATL(POWL(L, B_), L)), hyp + cat + [ih])
    out += [("powers add up, step: conclusion", hyp + [Implies(A_ + B_ >= 0, X1 == CATL(X, L)), Implies(B_ >= 0, POWL(L, B_ + 1) == CATL(POWL(L, B_), L)), CATL(X, L) == CATL(POWL(L, A_), CATL(POWL(L, B_), L))], X1 == Y1)]
    # POW(t) is in STAR; STAR is in AT_LEAST(0)
    S_ = STARL(L)
    out += [("a power is in the star, base", [P0] + eps + star + [isin_(POWL(L, 0), I_, J_), isin_(S_, I_, I_)], isin_(S_, I_, J_)),
            ("a power is in the star, step", [B_ >= 0, PN(B_)] + cat + star + [fa([ii, jj], Implies(isin_(POWL(L, B_), ii, jj), isin_(S_, ii, jj)), isin_(POWL(L, B_), ii, jj)), isin_(POWL(L, B_ + 1), I_, J_)], isin_(S_, I_, J_)),
            ("the star is a power, base", [P0] + eps + at + [isin_(EPSL, I_, I_)], isin_(ATLEAST(L, 0), I_, I_)),
            ("the star is a power, step", [PN(ALP(L, 0, I_, K_))] + cat + at + [isin_(ATLEAST(L, 0), I_, K_), isin_(L, K_, J_)], isin_(ATLEAST(L, 0), I_, J_)),
            ("the star is a power, ranks", star + [isin_(S_, I_, J_), isin_(ATLEAST(L, 0), I_, I_), fa([ii, kk, jj], Implies(And(isin_(ATLEAST(L, 0), ii, kk), isin_(L, kk, jj)), isin_(ATLEAST(L, 0), ii, jj)), z3.MultiPattern(isin_(ATLEAST(L, 0), ii, kk), isin_(L, kk, jj))),
                fa([ii, jj], Implies(And(isin_(S_, ii, jj), STRANK(L, ii, jj) < STRANK(L, I_, J_)), isin_(ATLEAST(L, 0), ii, jj)), isin_(S_, ii, jj))], isin_(ATLEAST(L, 0), I_, J_)),
            ("the star is a power, well-founded", star + [isin_(S_, I_, J_)], STRANK(L, I_, J_) >= 0)]
    inst = [fa([ii, jj], Implies(isin_(S_, ii, jj), isin_(ATLEAST(L, 0), ii, jj)), isin_(S_, ii, jj)), fa([kk, ii, jj], Implies(And(kk >= 0, isin_(POWL(L, kk), ii, jj)), isin_(S_, ii, jj)), isin_(POWL(L, kk), ii, jj))]
    out += equal("the star is any power", S_, ATLEAST(L, 0), at + inst)
    # AT_LEAST(m) = POW(m - 1) . STAR . L
    t = ALP(L, 0, CUTAT(POWL(L, A_), PLUSL(L), I_, J_), CUTAT(S_, L, CUTAT(POWL(L, A_), PLUSL(L), I_, J_), J_))
    Q = CATL(POWL(L, A_), PLUSL(L)); R_ = ATLEAST(L, A_ + 1)
    n_ = ALP(L, A_ + 1, I_, J_)
    padd = lambda x, y: Implies(And(x >= 0, y >= 0), POWL(L, x + y) == CATL(POWL(L, x), POWL(L, y)))
    out += [("at least, one way", [A_ >= 0, isin_(Q, I_, J_), PN(t), padd(A_, t + 1)] + cat + at + inst, isin_(R_, I_, J_)),
            ("at least, the other way", [A_ >= 0, isin_(R_, I_, J_), Implies(n_ >= A_, POWL(L, n_) == CATL(POWL(L, A_), POWL(L, n_ - A_))), Implies(n_ >= A_ + 1, POWL(L, n_ - A_) == CATL(POWL(L, n_ - A_ - 1), L))] + cat + at + inst, isin_(Q, I_, J_)),
            ("at least: equal", ext(Q, R_), Q == R_)]
    out += equal("at least once", PLUSL(L), CATL(EPSL, PLUSL(L)), cat + eps + [isin_(EPSL, I_, I_)])
    out += equal("optional", OPTL(L), RANGEL(L, 0, 1), [POW1, P0, POWL(L, 0) == EPSL, POWL(L, 1) == L] + eps + alt + DEF_RANGE)
    out += equal("one power only", RANGEL(L, A_, A_), POWL(L, A_), DEF_RANGE)
    return out
POWERS = [POW1, fa([LA], STARL(LA) == ATLEAST(LA, 0), STARL(LA)), fa([LA], PLUSL(LA) == ATLEAST(LA, 1), CATL(STARL(LA), LA)), fa([LA], OPTL(LA) == RANGEL(LA, 0, 1), ALTL(EPSL, LA)),
          fa([LA, aa], Implies(aa >= 0, CATL(POWL(LA, aa), PLUSL(LA)) == ATLEAST(LA, aa + 1)), CATL(POWL(LA, aa), PLUSL(LA))), fa([LA, aa], RANGEL(LA, aa, aa) == POWL(LA, aa), RANGEL(LA, aa, aa))]
