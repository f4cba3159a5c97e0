from contracts.graphs import *
NOTE = "compute() of the three distances proved, with its memo, to return the least number of operations (the full recurrence, every alternative considered at every position); zero exactly for equal words, symmetry and optimality of the greedy match proved by induction on the lengths left; termination by the lengths left"
TRUSTED = TRUSTED_BASE
ASSUMPTIONS = ASSUME_BASE + ["the recursion limit of the interpreter is not modelled"]
CH = SYM("Char"); WD = WORD(CH)
MEMO = MAP(TUP(INT, INT), INT)
from pyvc.engine2 import plus
KIND = {"levenshtein": ("levenshtein_distance", "LevenshteinDistance", True, False), "lcs": ("lcs_distance", "LcsDistance", False, False), "damerau": ("damerau_levenshtein_distance", "DamerauLevenshteinDistance", True, True)}
def zmin(xs):
    r_ = xs[0]
    for x_ in xs[1:]: r_ = If(x_ < r_, x_, r_)
    return r_
class Dist:
    "the least number of operations turning the suffix of x at i into the suffix of y at j"
    def __init__(self, eng, x, y, sub, swap):
        self.x, self.y, self.sub, self.swap = x, y, sub, swap
        self.n, self.m = seqlen(WD, x), seqlen(WD, y)
        A_ = z3.ArraySort(z3.IntSort(), sort(CH)); I_ = z3.IntSort()
        # a function of the two suffixes, whatever words they are suffixes of
        self.f = z3.Function("distance_%s%s" % (sub, swap), A_, I_, I_, A_, I_, I_, I_)
    def X(self, i_): return seqat(WD, self.x, i_)
    def Y(self, j_): return seqat(WD, self.y, j_)
    def __call__(self, i_, j_): return self.f(arr(WD, self.x), plus(lo(WD, self.x), i_), hi(WD, self.x), arr(WD, self.y), plus(lo(WD, self.y), j_), hi(WD, self.y))
    def range(self, i_, j_): return And(0 <= i_, i_ <= self.n, 0 <= j_, j_ <= self.m)
    def swapped(self, i_, j_): return And(i_ + 1 < self.n, j_ + 1 < self.m, self.X(i_) == self.Y(j_ + 1), self.X(i_ + 1) == self.Y(j_))
    def definition(self, i_, j_):
        D, far = self, self.n + self.m + 1
        alts = [1 + D(i_ + 1, j_), 1 + D(i_, j_ + 1)]
        same_ = self.X(i_) == self.Y(j_)
        alts.append(If(same_, D(i_ + 1, j_ + 1), 1 + D(i_ + 1, j_ + 1) if self.sub else 1 + D(i_ + 1, j_)))
        if self.swap: alts.append(If(self.swapped(i_, j_), 1 + D(i_ + 2, j_ + 2), 1 + D(i_ + 1, j_)))
        return Implies(self.range(i_, j_), D(i_, j_) == If(j_ == self.m, self.n - i_, If(i_ == self.n, self.m - j_, zmin(alts))))
def by_lengths(c, D, name, P, hints=lambda i_, j_: []):
    """P(i, j) for all positions, by induction on the lengths left (every listed pair is nearer to the ends)"""
    e = c.eng; I_, J_ = Int(e.uid("i")), Int(e.uid("j"))
    s2 = c.st.copy(); e.assume(s2, D.range(I_, J_))
    for a, b in ((1, 0), (0, 1), (1, 1), (2, 2)): e.assume(s2, Implies(D.range(I_ + a, J_ + b), P(I_ + a, J_ + b)))
    for h in hints(I_, J_): e.assume(s2, h)
    e.oblige(s2, "induction:" + name, P(I_, J_), "lemma")
    def use(i_, j_): e.assume(c.st, Implies(D.range(i_, j_), P(i_, j_)))
    return use
def defs(D, *ps): return lambda i_, j_: [D.definition(i_ + a, j_ + b) for a, b in ps]
near = ((0, 0), (1, 0), (0, 1), (1, 1))
def lipschitz(D): return lambda i_, j_: And(D(i_, j_) >= 0, Implies(j_ < D.m, D(i_, j_ + 1) <= D(i_, j_) + 1), Implies(i_ < D.n, D(i_ + 1, j_) <= D(i_, j_) + 1))
def greedy(c, D, i_, j_):
    "matching equal first symbols loses nothing, at (i, j)"
    lip = by_lengths(c, D, "one more symbol costs at most one operation", lipschitz(D), defs(D, *near))
    for a, b in ((0, 0), (1, 0), (0, 1), (1, 1)): lip(i_ + a, j_ + b)
    for a, b in ((0, 0), (1, 1)): c.eng.assume(c.st, D.definition(i_ + a, j_ + b))
    c.eng.assume(c.st, D.definition(i_ + 2, j_ + 2))
def dist(c, k_, x_, y_):
    reg = c.eng.__dict__.setdefault("dists", {})
    key = (k_, x_.get_id(), y_.get_id())
    if key not in reg: reg[key] = Dist(c.eng, x_, y_, *KIND[k_][2:])
    return reg[key]
L = []
def make(k_):
    mod, cn, sub, swap = KIND[k_]
    M = "pybgl.%s:" % mod; CL_ = cls("%s:%s" % (mod, cn))
    def obj(S): return S.obj(CL_, memoize=S.cont(MEMO, "memo"), x=S.word(CH, "x"), y=S.word(CH, "y"))
    X = lambda c, st=None: c.at("self", "x", st or c.st, WD); Y = lambda c, st=None: c.at("self", "y", st or c.st, WD)
    def spec(c): return dist(c, k_, X(c, c.old), Y(c, c.old))
    def memo_ok(c):
        # the constructor's empty dictionary has no type yet
        D = dist(c, k_, X(c), Y(c)); r_ = c.attr("self", "memoize")
        if c.eng.typeof(c.st, r_).kind == "Untyped": return []
        m_ = c.t(r_); a, b = Ints("i!me j!me"); kk = mk(TUP(INT, INT), a, b)
        return [("the memo holds distances", fa([a, b], Implies(Select(dom(MEMO, m_), kk), And(D.range(a, b), Select(val(MEMO, m_), kk) == D(a, b))), Select(dom(MEMO, m_), kk), Select(val(MEMO, m_), kk)))]
    left = lambda D, i_, j_: (D.n - i_) + (D.m - j_)
    def pre(c):
        D = dist(c, k_, X(c), Y(c)); i_, j_ = c.t("i"), c.t("j")
        r_ = [("inside the words", D.range(i_, j_))] + memo_ok(c)
        a = c.eng.proof_args
        if a and "i" in a and not c.eng.term(c.st, a["i"]).eq(i_) or a and "j" in a and not c.eng.term(c.st, a["j"]).eq(j_):
            r_.append(("the lengths left decrease", left(D, i_, j_) < left(D, c.eng.term(c.st, a["i"]), c.eng.term(c.st, a["j"]))))
        return r_
    def pre_top(c):
        r_ = pre(c); D = dist(c, k_, X(c), Y(c)); greedy(c, D, c.t("i"), c.t("j")); return r_
    post = lambda c: memo_ok(c) + [("the least number of operations", c.t(c.res, OPT(INT)) == some(OPT(INT), spec(c)(c.t("i"), c.t("j"))))]
    def typed(eng, st, a):
        "the empty dictionary of the constructor is a memo"
        r_ = st.objs[a["self"].oid][1]["memoize"]
        if eng.typeof(st, r_).kind == "Untyped": eng.retype(st, r_, MEMO)
        return True
    compute = Fn(k_ + " compute", M + cn + ".compute", lambda S: [obj(S), S.int("i"), S.int("j")], pre, post, modifies=lambda c: [c.attr("self", "memoize")], result=lambda c: c.eng.fresh_value(INT, "distance", c.st), when=typed)
    pf = Fn(k_ + " compute", M + cn + ".compute", lambda S: [obj(S), S.int("i"), S.int("j")], pre_top, post, modifies=lambda c: [c.attr("self", "memoize")], uses=[compute])
    def fn_post(c):
        x_, y_ = c.told("x"), c.told("y"); D, R_ = dist(c, k_, x_, y_), dist(c, k_, y_, x_); e = c.eng
        ax = lambda D_: None
        zero = lambda i_, j_: And(D(i_, j_) >= 0, (D(i_, j_) == 0) == And(D.n - i_ == D.m - j_, fa([k], Implies(And(i_ <= k, k < D.n), D.X(k) == D.Y(k - i_ + j_)), D.X(k))))
        z_ = by_lengths(c, D, "zero exactly for equal words", zero, lambda i_, j_: [D.definition(i_, j_), D.X(i_) == D.X(i_)])
        sym = lambda i_, j_: D(i_, j_) == R_(j_, i_)
        s_ = by_lengths(c, D, "symmetric", sym, lambda i_, j_: [D.definition(i_, j_), R_.definition(j_, i_)])
        z_(IntVal(0), IntVal(0)); s_(IntVal(0), IntVal(0))
        return [("the least number of operations", c.t(c.res) == D(0, 0)), ("zero exactly for equal words", (c.t(c.res) == 0) == And(D.n == D.m, fa([k], Implies(And(0 <= k, k < D.n), D.X(k) == D.Y(k)), D.X(k)))), ("the order of the words does not matter", c.t(c.res) == R_(0, 0))]
    fn = Fn(k_, M + mod, lambda S: [S.const(WD, "x"), S.const(WD, "y")], post=fn_post, modifies=lambda c: [], uses=[compute])
    # the plain recursive version: suffixes of its arguments are handed down
    size = lambda c, x_, y_: seqlen(WD, x_) + seqlen(WD, y_)
    def npre(c):
        a = c.eng.proof_args; r_ = []
        if a and "x" in a and not c.eng.term(c.st, a["x"]).eq(c.t("x")) or a and "y" in a and not c.eng.term(c.st, a["y"]).eq(c.t("y")):
            r_.append(("the lengths decrease", size(c, c.t("x"), c.t("y")) < size(c, c.eng.term(c.st, a["x"]), c.eng.term(c.st, a["y"]))))
        return r_
    def npre_top(c):
        D = dist(c, k_, c.t("x"), c.t("y")); greedy(c, D, IntVal(0), IntVal(0)); return npre(c)
    npost = lambda c: [("the least number of operations", c.t(c.res) == dist(c, k_, c.told("x"), c.told("y"))(IntVal(0), IntVal(0)))]
    res = lambda c: c.eng.fresh_value(INT, "distance", c.st)
    words = lambda S: [S.const(WD, "x"), S.const(WD, "y")]
    naive = Fn(k_ + " naive", M + mod + "_naive", words, npre, npost, modifies=lambda c: [], result=res)
    fnc = Fn(k_, M + mod, words, post=npost, modifies=lambda c: [], result=res)
    pn = Fn(k_ + " naive", M + mod + "_naive", words, npre_top, npost, modifies=lambda c: [], uses=[naive, fnc])
    return [pf, fn, pn]
for k_ in KIND: L += make(k_)
PROOFS = [f.proof() for f in L]
