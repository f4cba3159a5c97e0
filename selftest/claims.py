"""Claims about the functions of canary.py: the true ones must be proved, the false ones must not."""
import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from contracts.lib import *
import pybgl_canary as canary
K = "pybgl_canary:"
IL = SEQ(INT); IM = MAP(INT, INT); ID = DMAP(INT, SET(INT)); IS = SET(INT); DI = DMAP(INT, INT)
T, W = [], []
def claim(good, bad, fn, setup, loops=None, raises=None, pre=None, **kw):
    "good and bad: functions of the context giving a list of (name, fact)"
    lp = lambda inv: {(K + fn, i_): LoopSpec(inv=f) for i_, f in enumerate(loops)} if loops else {}
    mk_ = lambda nm, post: Proof(nm, K + fn, setup, post=post, loops=lp(None), raises=raises or {}, pre=pre, **kw)
    if good: T.append(mk_("true: " + fn, good))
    for n_, b in enumerate(bad if isinstance(bad, (list, tuple)) else [bad]): W.append(mk_("false %d: %s" % (n_, fn), b))
one = lambda f: lambda c: [("claim", f(c))]
LX = lambda S: S.cont(IL, "xs")
ln = lambda c, n_="xs": seqlen(IL, c.told(n_))
x = Int("x")
claim(None, [one(lambda c: c.t(c.res) == 0), one(lambda c: BoolVal(False))], "f_sum", lambda S: [LX(S)], [lambda c: []])
claim(one(lambda c: fa([i], Implies(And(0 <= i, i < ln(c)), Select(val(IM, c.t(c.res)), seqat(IL, c.told("xs"), i)) == 1))), [one(lambda c: c.t(c.res) == c.told("m")), one(lambda c: BoolVal(False))], "f_fill", lambda S: [LX(S), S.cont(IM, "m")],
    [lambda c: [("so far", fa([i], Implies(And(0 <= i, i < c.k), Select(val(IM, c.t("m")), c.it.key(i)) == 1)))]])
claim(None, [one(lambda c: c.t(c.res) == c.told("d")), one(lambda c: BoolVal(False))], "f_fill2", lambda S: [LX(S), S.cont(ID, "d")], [lambda c: []])
bx = lambda S: S.obj(canary.Box, x=S.int("x"))
claim(one(lambda c: c.at(c.res, "x") == c.at("b", "x", c.old) + ln(c)), [one(lambda c: c.at(c.res, "x") == c.at("b", "x", c.old)), one(lambda c: c.at(c.res, "x") == c.at("b", "x", c.old) + 1), one(lambda c: BoolVal(False))], "f_bump", lambda S: [bx(S), LX(S)], [lambda c: [("count", c.at("b", "x") == c.at("b", "x", c.entry) + c.k)]])
claim(one(lambda c: c.t(c.res) == 2), one(lambda c: c.t(c.res) == 1), "f_bump2", lambda S: [LX(S)])
claim(one(lambda c: seqlen(IL, c.t(c.res)) == seqlen(IL, c.told("q")) + ln(c)), [one(lambda c: seqlen(IL, c.t(c.res)) == seqlen(IL, c.told("q"))), one(lambda c: seqlen(IL, c.t(c.res)) == seqlen(IL, c.told("q")) + 1)], "f_append", lambda S: [LX(S), S.cont(IL, "q")], [lambda c: [("len", seqlen(IL, c.t("q")) == seqlen(IL, c.told("q")) + c.k)]])
claim(one(lambda c: And(c.t(c.res) >= c.t("n"), Or(c.t(c.res) <= c.t("n") + 1, c.t(c.res) == 0))), [one(lambda c: c.t(c.res) == c.t("n")), one(lambda c: c.t(c.res) == 0)], "f_while", lambda S: [S.int("n")], [lambda c: [("range", And(c.t("i") >= 0, Or(c.t("i") <= c.t("n") + 1, c.t("i") == 0)))]])
claim(None, [one(lambda c: c.t(c.res) == 0), one(lambda c: c.t(c.res) <= 1), one(lambda c: BoolVal(False))], "f_nested", lambda S: [S.int("n"), S.int("m")], [lambda c: [], lambda c: []])
claim(one(lambda c: And(c.t(c.res) == Select(val(DI, c.told("d")), c.t("k")), Select(dom(DI, c.t("d")), c.t("k")))), one(lambda c: c.t("d") == c.told("d")), "f_default", lambda S: [S.cont(DI, "d"), S.int("k")])
claim(one(lambda c: c.t(c.res) == ln(c) + 1), one(lambda c: c.t(c.res) == ln(c)), "f_alias", lambda S: [LX(S)])
claim(one(lambda c: c.t(c.res) == ln(c)), one(lambda c: c.t(c.res) == ln(c) + 1), "f_copy", lambda S: [LX(S)])
mem = lambda c: Exists([i], And(0 <= i, i < ln(c), seqat(IL, c.told("xs"), i) == c.t("a")))
claim(one(lambda c: Implies(c.t(c.res), mem(c))), [one(lambda c: Not(c.t(c.res))), one(lambda c: c.t(c.res)), one(lambda c: BoolVal(False))], "f_break", lambda S: [LX(S), S.int("a")], [lambda c: [("none so far", And(Not(c.t("r")), fa([i], Implies(And(0 <= i, i < c.k), c.it.key(i) != c.t("a")))))]])
claim(one(lambda c: Implies(c.t(c.res) == 1, Not(mem(c)))), [one(lambda c: c.t(c.res) == 0), one(lambda c: c.t(c.res) == 1)], "f_else", lambda S: [LX(S), S.int("a")], [lambda c: [("none so far", fa([i], Implies(And(0 <= i, i < c.k), c.it.key(i) != c.t("a"))))]])
claim(one(lambda c: And(c.t(c.res) >= 0, c.t(c.res) <= ln(c))), [one(lambda c: c.t(c.res) == 0), one(lambda c: c.t(c.res) <= 1)], "f_ret_in_loop", lambda S: [LX(S), S.int("a")], [lambda c: [("n", c.t("n") == c.k)]])
claim(one(lambda c: c.t(c.res) <= ln(c)), [one(lambda c: c.t(c.res) == ln(c)), one(lambda c: c.t(c.res) == 0)], "f_len_gen", lambda S: [LX(S)])
claim(one(lambda c: fa([i], Implies(And(0 <= i, i < ln(c)), Select(c.t(c.res), seqat(IL, c.told("xs"), i))))), [one(lambda c: fa([x], Select(c.t(c.res), x))), one(lambda c: fa([x], Not(Select(c.t(c.res), x))))], "f_set", lambda S: [LX(S)])
ne = lambda n_: lambda c: [("not empty", seqlen(IL, c.told(n_)) > 0)]
claim(one(lambda c: And(c.t(c.res) == seqat(IL, c.told("q"), ln(c, "q") - 1), seqlen(IL, c.t("q")) == ln(c, "q") - 1)), [one(lambda c: c.t(c.res) == seqat(IL, c.told("q"), 0)), one(lambda c: c.t("q") == c.told("q"))], "f_pop", lambda S: [S.cont(IL, "q")], pre=ne("q"))
claim(one(lambda c: c.t(c.res) == seqat(IL, c.told("q"), 0)), [one(lambda c: c.t(c.res) == seqat(IL, c.told("q"), ln(c, "q") - 1))], "f_popleft", lambda S: [S.cont(IL, "q")], pre=ne("q"))
claim(None, [one(lambda c: BoolVal(True))], "f_pop", lambda S: [S.cont(IL, "q")])
claim(one(lambda c: And(seqat(IL, c.t(c.res), 0) == c.t("x"), seqlen(IL, c.t(c.res)) == ln(c, "q") + 1)), one(lambda c: seqat(IL, c.t(c.res), ln(c, "q")) == c.t("x")), "f_appendleft", lambda S: [S.cont(IL, "q"), S.int("x")])
claim(None, [one(lambda c: BoolVal(True))], "f_del", lambda S: [S.cont(IM, "m"), S.int("k")])
claim(one(lambda c: Not(Select(dom(IM, c.t("m")), c.t("k")))), one(lambda c: c.t("m") == c.told("m")), "f_del", lambda S: [S.cont(IM, "m"), S.int("k")], pre=lambda c: [("in", Select(dom(IM, c.told("m")), c.t("k")))])
claim(one(lambda c: c.t(c.res) == If(Select(dom(IM, c.t("m")), c.t("k")), Select(val(IM, c.t("m")), c.t("k")), IntVal(7))), one(lambda c: c.t(c.res) == 7), "f_getdef", lambda S: [S.cont(IM, "m"), S.int("k")])
claim(one(lambda c: c.t("x") >= 0), [one(lambda c: BoolVal(False))], "f_raise", lambda S: [S.int("x")], raises={ValueError: lambda c: [("negative", c.t("x") < 0)]})
claim(None, [one(lambda c: BoolVal(True))], "f_raise", lambda S: [S.int("x")])
claim(None, [one(lambda c: BoolVal(True))], "f_raise", lambda S: [S.int("x")], raises={ValueError: lambda c: [("never", c.t("x") < -1)]})
claim(one(lambda c: c.t(c.res) == If(c.t("x") < 0, IntVal(0), c.t("x"))), [one(lambda c: c.t(c.res) == c.t("x"))], "f_try", lambda S: [S.int("x")])
claim(one(lambda c: And(c.t(c.res) <= 1, (c.t(c.res) == 0) == (c.t("x") == 0))), one(lambda c: c.t(c.res) == 1), "f_cond", lambda S: [S.int("x")])
claim(one(lambda c: c.t(c.res) == If(c.t("x") != 0, c.t("x"), c.t("y"))), one(lambda c: c.t(c.res) == c.t("x")), "f_or", lambda S: [S.int("x"), S.int("y")])
claim(one(lambda c: c.t(c.res) == 1 + c.t("x")), one(lambda c: c.t(c.res) == 2 + c.t("x")), "f_kw", lambda S: [S.int("x")])
claim(one(lambda c: c.t(c.res) == c.told("n") + 1), one(lambda c: c.t(c.res) == c.told("n")), "f_closure", lambda S: [S.int("n")])
claim(one(lambda c: c.t(c.res) == 5), one(lambda c: c.t(c.res) == Select(val(IM, c.told("m")), 0)), "f_mutate_in_callee", lambda S: [S.cont(IM, "m")])
claim(one(lambda c: And(c.t(c.res) * c.t("b") <= c.t("a"), c.t("a") < (c.t(c.res) + 1) * c.t("b"))), [one(lambda c: c.t(c.res) * c.t("b") == c.t("a"))], "f_div", lambda S: [S.int("a"), S.int("b")], pre=lambda c: [("pos", c.t("b") == 2)])
claim(one(lambda c: c.t(c.res) >= 0), [one(lambda c: c.t(c.res) == 0)], "f_mod", lambda S: [S.int("a"), S.int("b")], pre=lambda c: [("pos", c.t("b") == 3)])
claim(None, [one(lambda c: BoolVal(True)), one(lambda c: c.t(c.res) >= 0)], "f_mod", lambda S: [S.int("a"), S.int("b")])
claim(one(lambda c: c.t(c.res) == And(c.t("a") < c.t("b"), c.t("b") < c.t("c"))), one(lambda c: c.t(c.res) == (c.t("a") < c.t("c"))), "f_chain", lambda S: [S.int("a"), S.int("b"), S.int("c")])
claim(one(lambda c: c.t(c.res) == c.told("b")), one(lambda c: c.t(c.res) == c.told("a")), "f_swap", lambda S: [S.int("a"), S.int("b")])
claim(one(lambda c: seqlen(IL, c.t(c.res)) == If(ln(c) > 0, ln(c) - 1, IntVal(0))), one(lambda c: seqlen(IL, c.t(c.res)) == ln(c) - 1), "f_slice", lambda S: [LX(S)])
claim(one(lambda c: c.t(c.res) == seqat(IL, c.told("xs"), ln(c) - 1)), one(lambda c: c.t(c.res) == seqat(IL, c.told("xs"), 0)), "f_neg_index", lambda S: [LX(S)], pre=ne("xs"))
claim(None, [one(lambda c: BoolVal(True))], "f_neg_index", lambda S: [LX(S)])
claim(one(lambda c: c.t(c.res) == ln(c)), [one(lambda c: c.t(c.res) == 0), one(lambda c: c.t(c.res) == ln(c) - 1)], "f_enumerate", lambda S: [LX(S)], [lambda c: [("s", c.t("s") == c.k)]])
claim(one(lambda c: c.t(c.res) <= ln(c)), [one(lambda c: c.t(c.res) == ln(c)), one(lambda c: c.t(c.res) == 0)], "f_continue", lambda S: [LX(S)], [lambda c: [("n", And(0 <= c.t("n"), c.t("n") <= c.k))]])
OIX = lambda c: c.eng.term(c.old, c.args["x"], OPT(INT))
claim(one(lambda c: c.t(c.res, OPT(INT)) == If(is_none(OPT(INT), OIX(c)), some(OPT(INT), IntVal(4)), OIX(c))), one(lambda c: c.t(c.res, OPT(INT)) == some(OPT(INT), IntVal(4))), "f_isnone", lambda S: [S.const(OPT(INT), "x")])
claim(None, [one(lambda c: BoolVal(True))], "f_set_remove", lambda S: [S.cont(IS, "s"), S.int("x")])
DD = DMAP(INT, MAP(INT, INT))
claim(None, [one(lambda c: c.t("d") == c.told("d")), one(lambda c: BoolVal(False))], "f_setdefault_rows", lambda S: [S.cont(DD, "d"), S.int("u"), S.int("v")])
claim(one(lambda c: c.t(c.res) == If(c.t("n") > 0, c.t("n"), IntVal(0))), [one(lambda c: c.t(c.res) == 0)], "f_two_lists", lambda S: [S.int("n")], [lambda c: [("len", (seqlen(IL, c.t("b")) if c.ty("b").kind != "Untyped" else IntVal(0)) == c.k)]], types={"a": IL, "b": IL})
claim(None, [one(lambda c: c.t(c.res) == c.at("b", "x", c.old)), one(lambda c: c.t(c.res) == 0)], "f_attr_loop", lambda S: [bx(S), S.int("n")], [lambda c: []])
claim(None, [one(lambda c: c.t(c.res) == 0), one(lambda c: BoolVal(False))], "f_inner_break", lambda S: [S.int("n")], [lambda c: [], lambda c: []])
claim(None, [one(lambda c: Select(c.t(c.res), 0)), one(lambda c: BoolVal(False))], "f_reassign_in_loop", lambda S: [S.int("n")], [lambda c: []])
xx = Int("xx")
claim(one(lambda c: fa([xx], Implies(Select(c.t("s"), xx), Or(Select(c.told("s"), xx), xx > 0)), Select(c.t("s"), xx))), [one(lambda c: c.t("s") == c.told("s")), one(lambda c: BoolVal(False)), one(lambda c: fa([xx], Implies(xx > 0, Select(c.t("s"), xx)), Select(c.t("s"), xx)))], "f_comp_effect", lambda S: [LX(S), S.cont(IS, "s")])
claim(one(lambda c: fa([i], Implies(And(0 <= i, i < ln(c), seqat(IL, c.told("xs"), i) > 0), Select(c.t("s"), seqat(IL, c.told("xs"), i))))), [one(lambda c: seqlen(IL, c.t(c.res)) == 0)], "f_comp_effect", lambda S: [LX(S), S.cont(IS, "s")])
claim(one(lambda c: seqlen(IL, c.t(c.res)) <= ln(c)), [one(lambda c: fa([i], Implies(And(0 <= i, i < ln(c), Not(Select(c.told("s"), seqat(IL, c.told("xs"), i)))), seqlen(IL, c.t(c.res)) > 1))), one(lambda c: Implies(And(ln(c) > 0, fa([xx], Not(Select(c.told("s"), xx)), Select(c.told("s"), xx))), seqlen(IL, c.t(c.res)) == ln(c))), one(lambda c: BoolVal(False))], "f_comp_effect_read", lambda S: [LX(S), S.cont(IS, "s")])
PROOFS = T + W
