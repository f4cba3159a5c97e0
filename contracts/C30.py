from contracts.lib import *
from contracts.graphs import TRUSTED_BASE, ASSUME_BASE
from contracts.search import gset, G_, isin
NOTE = "tokenize proved for every text, every sequence of matches finditer may give (successive, not overlapping) and every visitor; the insertion of concatenation marks proved for every token that is met and every mark, the token patterns themselves being left to the bounded check"
TRUSTED = TRUSTED_BASE + ["re: finditer lists successive matches that do not overlap, start(), end() and group(0) give their place and text"]
ASSUMPTIONS = ASSUME_BASE + ["the tokens met in a regular expression are those its documentation lists (brackets, escapes, repetitions, parentheses, operators): the table of patterns is bounded-checked"]
NOT_PROVED = "the regular expression that cuts a regular expression into tokens (catify's table of patterns)"
CH = SYM("Char"); WD = WORD(CH); MATCH = SYM("Match"); ML = SEQ(MATCH); P2T = TUP(INT, INT); OPI = OPT(INT); GAP = TUP(INT, OPI); PS = SET(P2T); GS = SET(GAP)
TK = "pybgl.tokenize:tokenize"; TV = "tokenize:TokenizeVisitor"
m = Const("m", sort(MATCH)); pr = Const("pr", sort(P2T)); gp = Const("gp", sort(GAP))
ST_ = z3.Function("match_start", sort(MATCH), z3.IntSort()); EN_ = z3.Function("match_end", sort(MATCH), z3.IntSort())
IDX = z3.Function("match_at", z3.IntSort(), z3.IntSort()); GIDX = z3.Function("gap_at", z3.IntSort(), z3.IntSort())
class World: pass
def setup_with(given):
    def setup(S):
        e = S.eng; W = World(); e.w = W
        s = S.word(CH, "s"); W.s = S.term(s); W.n = seqlen(WD, W.s)
        ml = S.cont(ML, "matches"); t = S.term(ml); W.cnt = seqlen(ML, t); at = lambda k_: Select(arr(ML, t), k_)
        S.assume(lo(ML, t) == 0)
        W.st = lambda k_: ST_(at(k_)); W.en = lambda k_: EN_(at(k_)); W.at = at
        inr = lambda k_: And(0 <= k_, k_ < W.cnt)
        S.assume(fa([k], Implies(inr(k), And(0 <= W.st(k), W.st(k) <= W.en(k), W.en(k) <= W.n)), at(k)))
        S.assume(fa([i, j], Implies(And(0 <= i, i < j, j < W.cnt), W.en(i) <= W.st(j)), z3.MultiPattern(at(i), at(j))))
        W.prev = lambda k_: If(k_ <= 0, IntVal(0), W.en(k_ - 1)); W.next = lambda k_: If(k_ < W.cnt, W.st(k_), W.n)
        W.cut = lambda k_: mk(GAP, W.prev(k_), If(k_ < W.cnt, some(OPI, W.st(k_)), none(OPI))); W.tok = lambda k_: mk(P2T, W.st(k_), W.en(k_))
        S.assume(fa([k], Implies(And(inr(k), W.st(k) < W.en(k)), IDX(W.st(k)) == k), at(k)))
        S.assume(fa([k], Implies(And(inr(k), W.prev(k) < W.st(k)), GIDX(W.prev(k)) == k), at(k)), Implies(W.prev(W.cnt) < W.n, GIDX(W.prev(W.cnt)) == W.cnt))
        def finditer(eng, st, slf, args, kw):
            eng.oblige(st, "event:the whole text is cut", eng.term(st, args[0], WD) == W.s)
            return [(st, ml)]
        def group(eng, st, slf, args, kw):
            return [(st, eng.slice(st, s, Sc(INT, ST_(slf)), Sc(INT, EN_(slf))))]
        def attr(name, v):
            if name == "start": return lambda eng, st, slf, args, kw: [(st, Sc(INT, ST_(v.t)))]
            if name == "end": return lambda eng, st, slf, args, kw: [(st, Sc(INT, EN_(v.t)))]
            if name == "group": return lambda eng, st, slf, args, kw: (eng.require(st, "the whole match", BoolVal(True) if not args else eng.term(st, args[0]) == 0), [(st, eng.slice(st, s, Sc(INT, ST_(v.t)), Sc(INT, EN_(v.t))))])[1]
            raise AttributeError(name)
        e.symattr[MATCH] = attr
        S.ghost("pos", INT, IntVal(0)); S.ghost("T", PS, empty(PS)); S.ghost("U", GS, empty(GS))
        def piece(eng, st, v, a, b, s2):
            "v is the non-empty text of s from a to b, and begins where the previous piece ended"
            t_ = eng.term(st, v, WD); n_ = seqlen(WD, t_)
            return And(a == G_(st, "pos"), a < b, b <= W.n, n_ == b - a, eng.term(st, s2, WD) == W.s, fa([i], Implies(And(0 <= i, i < n_), seqat(WD, t_, i) == seqat(WD, W.s, a + i))))
        def on_unmatched(eng, st, slf, args, kw):
            v, a, b, s2 = args; a, b = eng.term(st, a), eng.term(st, b, OPI); stop = eng.named(st, If(is_none(OPI, b), W.n, optval(OPI, b)))
            eng.oblige(st, "event:text between two matches, in its place", piece(eng, st, v, a, stop, s2))
            gset(st, "U", GS, z3.Store(G_(st, "U"), mk(GAP, a, b), BoolVal(True))); gset(st, "pos", INT, stop); return [(st, NONE_)]
        def on_matched(eng, st, slf, args, kw):
            v, a, b, s2 = args; a, b = eng.term(st, a), eng.term(st, b, INT)
            eng.oblige(st, "event:a token, in its place", piece(eng, st, v, a, b, s2))
            gset(st, "T", PS, z3.Store(G_(st, "T"), mk(P2T, a, b), BoolVal(True))); gset(st, "pos", INT, b); return [(st, NONE_)]
        vis = e.new_obj(S.st, cls(TV), {}, dict(on_unmatched=on_unmatched, on_matched=on_matched)) if given else NONE_
        tk = e.new_obj(S.st, cls(TV), {}, dict(finditer=finditer))
        return [tk, s, vis]
    return setup
def told_so_far(c, K, gaps):
    W = c.eng.w; T, U = c.g("T"), c.g("U"); a_ = lambda p: fld(P2T, p, 0); g_ = lambda p: fld(GAP, p, 0)
    return [("the non-empty matches are reported", fa([k], Implies(And(0 <= k, k < K, W.st(k) < W.en(k)), isin(T, W.tok(k))), W.at(k))),
        ("only they are", fa([pr], Implies(isin(T, pr), And(0 <= IDX(a_(pr)), IDX(a_(pr)) < K, pr == W.tok(IDX(a_(pr))), a_(pr) < fld(P2T, pr, 1))), isin(T, pr))),
        ("the non-empty texts between matches are reported", fa([k], Implies(And(0 <= k, k < gaps, W.prev(k) < W.next(k)), isin(U, W.cut(k))), W.at(k))),
        ("only they are, each in one piece", fa([gp], Implies(isin(U, gp), And(0 <= GIDX(g_(gp)), GIDX(g_(gp)) < gaps, gp == W.cut(GIDX(g_(gp))))), isin(U, gp)))]
def inv(c):
    W = c.eng.w
    return [("place", And(c.t("start") == W.prev(c.k), c.g("pos") == c.t("start"), c.n == W.cnt))] + told_so_far(c, c.k, c.k)
def post(c):
    W = c.eng.w
    return [("the pieces end where the text ends", c.g("pos") == W.n), ("the text after the last match is reported when not empty", Implies(W.prev(W.cnt) < W.n, isin(c.g("U"), W.cut(W.cnt))))] + told_so_far(c, W.cnt, W.cnt + 1)
# ---------------------------------------------------------------- concatenation marks
SY = SYM("Sym"); SL = SEQ(SY); SW = WORD(SY); CT = "shunting_yard_postfix:CatifyTokenizeVisitor"; CK = "pybgl.shunting_yard_postfix:CatifyTokenizeVisitor."
FIRST = z3.Function("first_letter", sort(SY), sort(SY))
lit = lambda c, s_: c.eng.symconst(s_, "Sym")
STARTS = lambda c, t: Or(*[FIRST(t) == lit(c, s_) for s_ in "[(\\"])
ENDS = lambda c, t: And(t != lit(c, "("), t != lit(c, "|"))
def marks(S):
    S.eng.symattr[SY] = lambda name, v: (lambda eng, st, slf, args, kw: (eng.require(st, "the first letter", eng.term(st, args[0]) == 0), [(st, Sc(SY, FIRST(v.t)))])[1])
    S.eng.old = [S.cont(SL, "expression"), S.const(BOOL, "needs"), S.const(SY, "cat")]
    return S.obj(cls(CT), expression=S.eng.old[0], prev_needs_cat=S.eng.old[1], cat=S.eng.old[2])
def before(c):
    e_, b_, m_ = c.eng.old; t = c.told(e_); return c.named(t), c.eng.term(c.st, b_), c.eng.term(c.st, m_)
def now(c):
    v = c.at(c.args["self"], "expression"); return v, c.at(c.args["self"], "prev_needs_cat")
def same_start(t0, t1): return fa([i], Implies(And(0 <= i, i < seqlen(SL, t0)), seqat(SL, t1, i) == seqat(SL, t0, i)))
def matched_post(c):
    t0, b_, m_ = before(c); t1, b1 = now(c); x_ = c.t(c.args["matched"]); n0 = seqlen(SL, t0); mark = c.named(And(b_, STARTS(c, x_)))
    return [("what was there stays", same_start(t0, t1)), ("a mark exactly between two operands", seqlen(SL, t1) == n0 + If(mark, 2, 1)), ("the mark", Implies(mark, seqat(SL, t1, n0) == m_)),
        ("the token", seqat(SL, t1, seqlen(SL, t1) - 1) == x_), ("it ends an operand or not", b1 == ENDS(c, x_))]
def written(c, K, t1, b1):
    t0, b_, m_ = before(c); u_ = c.args["unmatched"] if c.args else c.v("unmatched"); u_ = c.t(u_); n0 = seqlen(SL, t0); off = c.named(If(b_, IntVal(0), IntVal(1)))
    return [("what was there stays", same_start(t0, t1)), ("length", seqlen(SL, t1) == n0 + If(K == 0, 0, 2 * K - off)), ("marks", fa([i], Implies(And(0 <= i, i < K, Or(b_, i > 0)), seqat(SL, t1, n0 + 2 * i - off) == m_))),
        ("letters", fa([i], Implies(And(0 <= i, i < K), seqat(SL, t1, n0 + 2 * i + 1 - off) == seqat(SW, u_, i)))), ("they end an operand", b1 == Or(b_, K > 0))]
def letters_inv(c):
    slf = c.v("self"); return written(c, c.k, c.at(slf, "expression"), c.at(slf, "prev_needs_cat"))
def unmatched_post(c):
    return written(c, seqlen(SW, c.t(c.args["unmatched"])), *now(c))
def created_post(c):
    o_ = c.args["self"]; n_, _ = as_list(c, c.attr(o_, "expression"), SY); return [("nothing yet", n_ == 0), ("no operand yet", Not(c.at(o_, "prev_needs_cat"))), ("the mark", c.at(o_, "cat") == c.t(c.args["cat"]))]
OM, OU = CK + "on_matched", CK + "on_unmatched"
def args_of(kind):
    def f(S):
        v = marks(S); x_ = S.const(SY, "matched") if kind == "m" else S.word(SY, "unmatched")
        return [v, x_, S.int("start"), S.int("end"), S.const(SYM("Text"), "s")]
    return f
PROOFS = [Fn("tokenize", TK, setup_with(True), post=post, loops={(TK, 0): LoopSpec(inv=inv)}).proof(),
    Fn("tokenize, without visitor", TK, setup_with(False), post=lambda c: [], loops={(TK, 0): LoopSpec(inv=lambda c: [])}).proof(),
    Fn("mark before a token", OM, args_of("m"), post=matched_post).proof(), Fn("marks between letters", OU, args_of("u"), post=unmatched_post, loops={(OU, 0): LoopSpec(inv=letters_inv)}).proof(),
    Fn("new marks", CK + "__init__", lambda S: [S.obj(cls(CT)), S.const(SY, "cat")], post=created_post).proof()]
