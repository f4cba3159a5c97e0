from contracts.search import *
import ast
NOTE = "the postfix form is proved to order the tokens as precedence, associativity and parentheses require, unbalanced parentheses to be an error, for every list of tokens and table of operators; so are the values and the vertices made from it"
TRUSTED = TRUSTED_BASE
ASSUMPTIONS = ASSUME_BASE + ["operators are non-empty strings other than the parentheses, and the table of operators does not change meanwhile", "numbers are mathematical reals, a divisor is not zero, and a power is whatever Python computes"]
NOT_PROVED = "the regular expression that cuts an arithmetic expression into tokens, float's reading of numbers, the text written by Ast.to_expr and reading it again"
SYP = "pybgl.shunting_yard_postfix:"; SF = SYP + "shunting_yard_postfix"; DV = "shunting_yard_postfix:DefaultShuntingYardVisitor"
TOK = SYM("Tok"); TW = WORD(TOK); TS_ = SEQ(TOK); OPREC = REC("Op", ["cardinality", "precedence", "associativity"], INT, INT, INT); TABLE = MAP(TOK, OPREC)
I_, B_ = z3.IntSort(), z3.BoolSort()
AT = z3.Function("token", I_, sort(TOK)); N = Int("tokens")
OPN, CLS, OPR, OPD, PSH, NP = [z3.Function(n_, I_, B_) for n_ in ("is_opening", "is_closing", "is_operator", "is_operand", "is_pushed", "takes_a_left_operand")]
PRC = z3.Function("binds_before", I_, I_, B_)
IM = MAP(INT, INT)
GH = ["SP", "R", "M", "TP", "IX", "OP", "OX"]; GI = ["h", "m", "lp"]
def theory(S, expr, table):
    e_ = S.eng; w = S.term(expr); T = e_.named(S.st, S.term(table)); lit_ = lambda s_: e_.symconst(s_, "Tok")
    S.assume(N == seqlen(TW, w), fa([x], AT(x) == seqat(TW, w, x), AT(x), seqat(TW, w, x)))
    isop = lambda t: Select(dom(TABLE, T), t)
    S.assume(Not(isop(lit_("("))), Not(isop(lit_(")"))), Not(isop(lit_(""))))
    S.assume(fa([x], And(OPN(x) == (AT(x) == lit_("(")), CLS(x) == (AT(x) == lit_(")")), OPR(x) == isop(AT(x)), OPD(x) == Not(Or(OPN(x), CLS(x), OPR(x))), PSH(x) == Or(OPN(x), OPR(x))), AT(x), OPN(x), CLS(x), OPR(x), OPD(x), PSH(x)))
    f = lambda t, i_: fld(OPREC, Select(val(TABLE, T), t), i_)
    S.assume(fa([x], NP(x) == And(OPR(x), Not(And(f(AT(x), 0) == 1, f(AT(x), 2) == 0))), NP(x)))
    S.assume(fa([x, y], PRC(x, y) == Or(And(f(AT(y), 2) == 0, f(AT(x), 1) > f(AT(y), 1)), And(f(AT(y), 2) == 1, f(AT(x), 1) >= f(AT(y), 1))), PRC(x, y)))
def put(st, name, k_, v_):
    ty, t = st.ghost[name]
    st.ghost[name] = (ty, mk(IM, z3.Store(dom(IM, t), k_, BoolVal(True)), z3.Store(val(IM, t), k_, v_)))
def get(st, name, k_): return Select(val(IM, st.ghost[name][1]), k_)
def seti(st, name, t): st.ghost[name] = (INT, t)
def geti(st, name): return st.ghost[name][1]
def ev_pop(eng, st, t):
    now = st.notes.get("now", Int("now")); h = geti(st, "h"); p_ = eng.named(st, get(st, "SP", h - 1))
    eng.oblige(st, "event:the operator popped is the last one pushed", And(h > 0, t == AT(p_)))
    put(st, "R", p_, now); put(st, "M", now, If(And(now < N, CLS(now), OPN(p_)), p_, get(st, "M", now)))
    seti(st, "lp", p_); seti(st, "h", h - 1)
def ev_push(eng, st, t):
    now = st.notes.get("now", Int("now")); h = geti(st, "h")
    eng.oblige(st, "event:the token read is pushed", And(now < N, t == AT(now)))
    put(st, "TP", now, get(st, "SP", h - 1)); put(st, "SP", h, now); put(st, "IX", now, h); seti(st, "h", h + 1)
def ev_out(eng, st, t):
    now = st.notes.get("now", Int("now")); m = geti(st, "m"); p_ = eng.named(st, If(And(now < N, OPD(now)), now, geti(st, "lp")))
    eng.oblige(st, "event:an operand read or an operator popped is written", t == AT(p_))
    put(st, "OP", m, p_); put(st, "OX", p_, m); seti(st, "m", m + 1)
EVENTS = dict(on_pop_operator=ev_pop, on_push_operator=ev_push, on_push_output=ev_out); EVARG = dict(on_pop_operator="o", on_push_operator="o", on_push_output="a")
def visitor(S, given):
    S.eng.events = EVENTS
    def h_(f):
        def g_(eng, st, slf, args, kw):
            f(eng, st, eng.term(st, args[0])); return [(st, NONE_)]
        return g_
    return S.eng.new_obj(S.st, cls(DV), {}, {n_: h_(f) for n_, f in EVENTS.items()}) if given else NONE_
def setup(given, out):
    def f(S):
        expr, table = S.word(TOK, "expression"), S.cont(TABLE, "map_operators")
        theory(S, expr, table)
        for n_ in GH: S.ghost(n_, IM, empty(IM))
        for n_ in GI: S.ghost(n_, INT, IntVal(0))
        S.eng.out0 = None
        o = NONE_
        if out == "sink": o, it = sink(S); S.eng.out0 = S.eng.named(S.st, S.term(it))
        elif out: o = S.cont(TS_, "output"); S.eng.out0 = S.eng.named(S.st, S.term(o))
        return [expr, table, o, visitor(S, given)]
    return f
class V:
    "the ghost record"
    def __init__(s, c):
        for n_ in GH:
            a_ = c.named(val(IM, c.g(n_))); setattr(s, n_, lambda x_, a_=a_: Select(a_, x_))
        d_ = c.named(dom(IM, c.g("R"))); s.popped = lambda x_: Select(d_, x_)
        for n_ in GI: setattr(s, n_, c.g(n_))
        s.open = lambda x_, j_: Or(Not(s.popped(x_)), s.R(x_) > j_)
        s.when = lambda x_: If(PSH(x_), s.R(x_), x_)
        s.shown = lambda x_: OPR(x_)
def sink(S, klass="RpnDequeOperation", items=None):
    "any sink: its method append records the token"
    it = S.cont(TS_, "handed")
    def append(eng, st, slf, args, kw):
        eng.builtin_method(st, "list.append", it, [args[0]], {}); return [(st, NONE_)]
    return S.eng.new_obj(S.st, cls("shunting_yard_postfix:" + klass), {"items": it}, {"append": append}), it
def seq(c, n_):
    t = c.v(n_) if isinstance(n_, str) else n_
    if isinstance(t, ObjV): return c.at(t, "items")
    if z3.is_expr(t): return t
    return c.t(t) if c.ty(t).kind != "Untyped" else empty(TS_)
def facts(c, v, K, RB, pending=None):
    "K tokens are read; operators were popped before RB"
    ok = lambda x_: And(0 <= x_, x_ < K)
    return [("closed operators", fa([x], Implies(v.popped(x), And(ok(x), x < v.R(x), v.R(x) < RB, v.R(x) <= N, PSH(x))), v.popped(x))),
        ("what closes an operator", fa([x], Implies(And(v.popped(x), OPR(x)), Or(v.R(x) == N, CLS(v.R(x)), And(NP(v.R(x)), PRC(x, v.R(x))))), v.popped(x))),
        ("what closes a parenthesis", fa([x], Implies(And(v.popped(x), OPN(x), v.R(x) < N), And(CLS(v.R(x)), v.M(v.R(x)) == x)), v.popped(x))),
        ("what is opened inside is closed inside", fa([x, y], Implies(And(v.popped(x), PSH(y), x < y, y < v.R(x)), And(v.popped(y), v.R(y) <= v.R(x))), z3.MultiPattern(v.popped(x), PSH(y)), z3.MultiPattern(v.popped(x), v.popped(y)))),
        ("a closing parenthesis closes an opening one", fa([x], Implies(And(ok(x), CLS(x)), And(0 <= v.M(x), v.M(x) < x, OPN(v.M(x)), v.popped(v.M(x)), v.R(v.M(x)) == x)), CLS(x))),
        ("an operator that binds before the one read stays only behind one that is still open", fa([x, y], Implies(And(0 <= x, x < y, y < K, OPR(x), NP(y), PRC(x, y), v.open(x, y)), And(x < v.TP(y), v.TP(y) < y, PSH(v.TP(y)), v.open(v.TP(y), y))), PRC(x, y)))]
def written(c, v, K, pending=None):
    t = seq(c, "output") if c.res is None else seq(c, c.res); o0 = c.eng.out0; b = IntVal(0) if o0 is None else seqlen(TS_, o0)
    on = lambda x_: And(0 <= v.OX(x_), v.OX(x_) < v.m, v.OP(v.OX(x_)) == x_)
    r = [("the output is as long as what was written", And(v.m >= 0, seqlen(TS_, t) == b + v.m)),
        ("the tokens written", fa([i], Implies(And(0 <= i, i < v.m), seqat(TS_, t, b + i) == AT(v.OP(i))), v.OP(i))),
        ("only operands and closed operators are written, once", fa([i], Implies(And(0 <= i, i < v.m), And(0 <= v.OP(i), v.OP(i) < K, v.OX(v.OP(i)) == i, Or(OPD(v.OP(i)), And(v.popped(v.OP(i)), v.shown(v.OP(i)))))), v.OP(i))),
        ("operands are written as they are read, operators when they close, the inner first", fa([i, j], Implies(And(0 <= i, i < j, j < v.m), Or(v.when(v.OP(i)) < v.when(v.OP(j)), And(v.when(v.OP(i)) == v.when(v.OP(j)), v.OP(i) > v.OP(j)))), z3.MultiPattern(v.OP(i), v.OP(j)))),
        ("operands are written", fa([x], Implies(And(0 <= x, x < K, OPD(x)), on(x)), OPD(x))),
        ("closed operators are written", fa([x], Implies(And(v.popped(x), v.shown(x), BoolVal(True) if pending is None else x != pending), on(x)), v.popped(x)))]
    if o0 is not None:
        a0, a1 = c.named(arr(TS_, o0)), c.named(arr(TS_, t))
        r.append(("what was there stays", And(lo(TS_, t) == lo(TS_, o0), fa([i], Implies(And(lo(TS_, o0) <= i, i < hi(TS_, o0)), Select(a1, i) == Select(a0, i)), Select(a1, i)))))
    return r
def the_stack(c):
    "the list kept beside the output, whatever its name"
    try: return c.v("operators")
    except Unsupported: pass
    fr = c.st.frames[c.fid if c.fid is not None else c.eng.toplevel_frame]
    for n_, x_ in fr.items():
        if not n_.startswith("$") and n_ not in c.eng.proof_args and isinstance(x_, Ref) and c.ty(x_) in (TS_, Ty("Untyped", "list")): return x_
    raise Unsupported("no stack of operators among the local variables")
def stack(c, v, K):
    t = seq(c, the_stack(c))
    return [("the height of the stack", And(v.h >= 0, seqlen(TS_, t) == v.h)),
        ("the stack", fa([i], Implies(And(0 <= i, i < v.h), seqat(TS_, t, i) == AT(v.SP(i))), v.SP(i))),
        ("operators on the stack are open", fa([i], Implies(And(0 <= i, i < v.h), And(0 <= v.SP(i), v.SP(i) < K, PSH(v.SP(i)), Not(v.popped(v.SP(i))), v.IX(v.SP(i)) == i)), v.SP(i))),
        ("the stack is in the order of reading", fa([i, j], Implies(And(0 <= i, i < j, j < v.h), v.SP(i) < v.SP(j)), z3.MultiPattern(v.SP(i), v.SP(j)))),
        ("open operators are on the stack", fa([x], Implies(And(0 <= x, x < K, PSH(x), Not(v.popped(x))), And(0 <= v.IX(x), v.IX(x) < v.h, v.SP(v.IX(x)) == x)), PSH(x)))]
def fresh_round(v, now): return ("operators closed now were above the stack", fa([x, i], Implies(And(v.popped(x), v.R(x) == now, 0 <= i, i < v.h), v.SP(i) < x), z3.MultiPattern(v.popped(x), v.SP(i))))
def at(c, now):
    c.st.notes = dict(c.st.notes); c.st.notes["now"] = now
def inv_read(c):
    at(c, c.k); v = V(c)
    return [("the tokens read", And(c.n == N, c.k <= N))] + stack(c, v, c.k) + facts(c, v, c.k, c.k) + written(c, v, c.k)
def tested(c):
    "the token the loop tests, when one is popped before the test"
    t_ = c.eng.loop_node.test; set_ = {y.target.id for y in ast.walk(t_) if isinstance(y, ast.NamedExpr)}
    for y in ast.walk(t_):
        if not isinstance(y, ast.Name) or y.id in set_: continue
        try: return c.t(y.id, TOK)
        except Exception: pass
def inv_close(c):
    k_ = c.st.notes.get("now", Int("now")); v = V(c); o = tested(c)
    if o is None: return inv_op(c) + [("only operators closed now", fa([x], Implies(And(v.popped(x), v.R(x) == k_), OPR(x)), v.popped(x)))]
    return [("the operator popped", And(v.popped(v.lp), v.R(v.lp) == k_, o == AT(v.lp))), ("operators closed now were above it", fa([x], Implies(And(v.popped(x), v.R(x) == k_), And(x >= v.lp, Or(x == v.lp, OPR(x)))), v.popped(x))), ("it is not written yet", fa([i], Implies(And(0 <= i, i < v.m), v.OP(i) != v.lp), v.OP(i))), fresh_round(v, k_)] + stack(c, v, k_) + facts(c, v, k_, k_ + 1) + written(c, v, k_, v.lp)
def inv_op(c):
    k_ = c.st.notes.get("now", Int("now")); v = V(c)
    return [fresh_round(v, k_)] + stack(c, v, k_) + facts(c, v, k_, k_ + 1) + written(c, v, k_)
def inv_end(c):
    at(c, N); v = V(c)
    return ([] if c.n is None else [("as many turns as operators", v.h + c.k == c.n)]) + [fresh_round(v, N), ("no parenthesis closes now", fa([x], Implies(And(v.popped(x), OPN(x)), v.R(x) < N), v.popped(x)))] + stack(c, v, N) + facts(c, v, N, N + 1) + written(c, v, N)
def post(c):
    v = V(c)
    return [("every operator closes", fa([x], Implies(And(0 <= x, x < N, PSH(x)), v.popped(x)), PSH(x))), ("every opening parenthesis has a closing one", fa([x], Implies(And(0 <= x, x < N, OPN(x)), v.R(x) < N), OPN(x)))] + facts(c, v, N, N + 1) + written(c, v, N)
def unbalanced(c):
    now = c.st.notes.get("now", Int("now")); v = V(c)
    return [("a closing parenthesis has no opening one, or the other way", Or(And(OPN(v.lp), v.popped(v.lp), v.R(v.lp) == N),
        And(0 <= now, now < N, CLS(now), fa([x], Implies(And(0 <= x, x < now, OPN(x)), And(v.popped(x), v.R(x) < now)), OPN(x)))))]
LOOPS = {(SF, 0): LoopSpec(inv=inv_read), (SF, 1): LoopSpec(inv=inv_close), (SF, 2): LoopSpec(inv=inv_op), (SF, 3): LoopSpec(inv=inv_end)}
EVC = [event_contract(DV, n_, EVARG[n_]) for n_ in EVENTS]
L = [Fn("infix to postfix" + ("" if g_ else ", without visitor") + (", appended" if o_ is True else ", handed to a sink" if o_ else ""), SF, setup(g_, o_), post=post, raises={Exception: unbalanced}, loops=LOOPS, types={"operators": TS_, "output": TS_}, uses=[] if g_ else EVC, symty="Tok") for g_, o_ in ((True, False), (True, True), (True, "sink"), (False, False))]
L += [Fn("default %s" % n_, "pybgl.%s.%s" % (DV, n_), lambda S: [S.obj(cls(DV)), S.const(TOK, "o")], post=lambda c: [("answers nothing", BoolVal(isinstance(c.res, Sc) and c.res.ty == NONE))], modifies=lambda c: []) for n_ in EVENTS]
# ---------------------------------------------------------------- what is done with the postfix form
VAL = SYM("Value"); VS_ = SEQ(VAL); AP = SYP + "RpnDequeOperation.append"; GIVEN = z3.Function("given_to_on_append", sort(TOK), sort(VAL))
isop = lambda T, t: Select(dom(TABLE, T), t)
def deque_setup(S):
    table, items = S.cont(TABLE, "map_operators"), S.cont(VS_, "items"); a_ = S.const(TOK, "a"); T = S.eng.named(S.st, S.term(table))
    S.assume(fa([Const("t", sort(TOK))], fld(OPREC, Select(val(TABLE, T), Const("t", sort(TOK))), 0) >= 0, Select(val(TABLE, T), Const("t", sort(TOK)))), lo(VS_, S.term(items)) == 0)
    S.eng.rpn = dict(T=T, old=S.eng.named(S.st, S.term(items)), a=a_.t, res=Const("operation", sort(VAL)), card=S.eng.named(S.st, fld(OPREC, Select(val(TABLE, T), a_.t), 0)))
    def on_append(eng, st, slf, args, kw): return [(st, Sc(VAL, GIVEN(eng.term(st, args[0]))))]
    def on_operation(eng, st, slf, args, kw):
        a2, op_, u_, vs = args; r = eng.rpn
        eng.oblige(st, "event:the operation is that of the token", And(eng.term(st, a2) == r["a"], isop(r["T"], r["a"]), eng.term(st, op_, OPREC) == Select(val(TABLE, r["T"]), r["a"]), eng.term(st, u_) == GIVEN(r["a"])))
        t = eng.named(st, eng.term(st, vs)) if eng.typeof(st, vs).kind != "Untyped" else empty(VS_); n0 = seqlen(VS_, r["old"])
        eng.oblige(st, "event:it is given as many operands as it takes", And(seqlen(VS_, t) == r["card"], r["card"] <= n0))
        eng.oblige(st, "event:its operands are the last values, in order", fa([i], Implies(And(0 <= i, i < r["card"]), seqat(VS_, t, i) == seqat(VS_, r["old"], n0 - r["card"] + i))))
        return [(st, Sc(VAL, r["res"]))]
    return [S.eng.new_obj(S.st, cls("shunting_yard_postfix:RpnDequeOperation"), {"map_operators": table, "$items": items}, {"on_append": on_append, "on_operation": on_operation}), a_]
def taken(c):
    "the list of the operands, whatever its name"
    try: x_ = c.v("vs")
    except Unsupported:
        x_ = [y for n_, y in c.st.frames[c.fid].items() if not n_.startswith("$") and n_ not in c.eng.proof_args and isinstance(y, Ref) and c.ty(y) in (VS_, Ty("Untyped", "list"))]
        if len(x_) != 1: raise Unsupported("which list has the operands?")
        x_ = x_[0]
    return c.t(x_) if c.ty(x_).kind != "Untyped" else empty(VS_)
def popping(c):
    r = c.eng.rpn; t = c.at(c.v("self"), "$items"); n0 = seqlen(VS_, r["old"]); vs = taken(c)
    back = any(isinstance(y, ast.Attribute) and y.attr == "append" for y in ast.walk(c.eng.loop_node)); a_ = c.named(arr(VS_, vs))
    return [("operands taken", And(c.k <= n0, seqlen(VS_, t) == n0 - c.k, lo(VS_, t) == 0)), ("the other values stay", fa([i], Implies(And(0 <= i, i < n0 - c.k), seqat(VS_, t, i) == seqat(VS_, r["old"], i)))),
        ("their number", And(seqlen(VS_, vs) == c.k, lo(VS_, vs) == (0 if back else -c.k))),
        ("their order, the last first", fa([i], Implies(And(0 <= i, i < c.k), Select(a_, i) == seqat(VS_, r["old"], n0 - 1 - i)), Select(a_, i))) if back else ("their order", fa([i], Implies(And(-c.k <= i, i < 0), Select(arr(VS_, vs), i) == seqat(VS_, r["old"], n0 + i)), Select(arr(VS_, vs), i)))]
def appended(c):
    r = c.eng.rpn; t = c.at(c.args["self"], "$items"); n0 = seqlen(VS_, r["old"]); op_ = isop(r["T"], r["a"]); k_ = c.named(If(op_, r["card"], IntVal(0)))
    return [("the operands are replaced by one value", seqlen(VS_, t) == n0 - k_ + 1), ("the others stay", fa([i], Implies(And(0 <= i, i < n0 - k_), seqat(VS_, t, i) == seqat(VS_, r["old"], i)))),
        ("the value of an operand", Implies(Not(op_), seqat(VS_, t, n0) == GIVEN(r["a"]))), ("the value of an operation", Implies(op_, seqat(VS_, t, n0 - k_) == r["res"]))]
L.append(Fn("a token reaches the values", AP, deque_setup, post=appended, raises={IndexError: lambda c: [("operands are missing", And(isop(c.eng.rpn["T"], c.eng.rpn["a"]), c.eng.rpn["card"] > seqlen(VS_, c.eng.rpn["old"])))]}, loops={(AP, 0): LoopSpec(inv=popping)}, types={"vs": VS_}, symty="Tok"))
RS = SEQ(REAL); POW = z3.Function("power", z3.RealSort(), z3.RealSort(), z3.RealSort())
def alg_setup(S):
    a_, op_, vs = S.const(TOK, "a"), S.const(OPREC, "op"), S.cont(RS, "vs"); t = S.term(vs)
    S.assume(seqlen(RS, t) == fld(OPREC, op_.t, 0), Or(fld(OPREC, op_.t, 0) == If(Or(*[a_.t == S.eng.symconst(s_, "Tok") for s_ in ("u+", "u-")]), IntVal(1), IntVal(2)), Not(Or(*[a_.t == S.eng.symconst(s_, "Tok") for s_ in ALGOPS]))))
    S.assume(Implies(a_.t == S.eng.symconst("/", "Tok"), seqat(RS, t, IntVal(1)) != 0))
    S.eng.vs0 = S.eng.named(S.st, t)
    return [S.obj(cls("shunting_yard_postfix:RpnDequeAlg")), a_, op_, NONE_, vs]
ALGOPS = {"+": lambda x_, y_: x_ + y_, "-": lambda x_, y_: x_ - y_, "*": lambda x_, y_: x_ * y_, "/": lambda x_, y_: x_ / y_, "^": POW, "u-": lambda x_, y_: -x_, "u+": lambda x_, y_: x_}
def alg_post(c):
    a_ = c.t(c.args["a"]); x_, y_ = [seqat(RS, c.eng.vs0, IntVal(i_)) for i_ in (0, 1)]
    return [("the value of %s" % s_, Implies(a_ == c.eng.symconst(s_, "Tok"), c.eng.term(c.st, c.res, REAL) == f_(x_, y_))) for s_, f_ in ALGOPS.items()]
L.append(Fn("the value of an operation", SYP + "RpnDequeAlg.on_operation", alg_setup, post=alg_post, symty="Tok", raises={Exception: lambda c: [("the operation is not arithmetic", Not(Or(*[c.t(c.args["a"]) == c.eng.symconst(s_, "Tok") for s_ in ALGOPS])))]}))
# ---------------------------------------------------------------- syntax trees
from contracts import graphs as gr
AM = "shunting_yard_postfix:Ast"; LBL = MAP(INT, TOK)
def ast_setup(S):
    labels = S.cont(LBL, "labels"); S.eng.labels0 = S.eng.named(S.st, S.term(labels))
    g = gr.st_graph(S); attrs = dict(S.st.objs[g.oid][1]); attrs["pmap_vsymbol"] = S.obj(cls("property_map:AssocPropertyMap"), d=labels); attrs["root"] = NONE_
    return [S.eng.new_obj(S.st, cls(AM), attrs), S.const(TOK, "a")]
def ast_post(c):
    l0, l1 = c.eng.labels0, c.at(c.attr(c.args["self"], "pmap_vsymbol"), "d"); r = c.t(c.res)
    return [("a new vertex", And(Not(gr.VX(gr.A0(c), r)), gr.VX(gr.A(c), r))), ("the other vertices stay", fa([u], Implies(u != r, gr.VX(gr.A(c), u) == gr.VX(gr.A0(c), u)))), gr.same_edges(c),
        ("it bears the token", And(Select(dom(LBL, l1), r), Select(val(LBL, l1), r) == c.t(c.args["a"]))), ("the other labels stay", fa([u], Implies(And(u != r, Select(dom(LBL, l0), u)), And(Select(dom(LBL, l1), u), Select(val(LBL, l1), u) == Select(val(LBL, l0), u)))))]
L.append(Fn("a vertex for a token", "pybgl.%s.add_vertex" % AM, ast_setup, pre=lambda c: gr.inv(c), post=ast_post, uses=[gr.add_vertex], symty="Tok"))
TREE = z3.Function("vertex_for", sort(TOK), I_)
def tree_sink(S):
    S.ghost("links", INT, IntVal(0))
    def add_vertex(eng, st, slf, args, kw): return [(st, Sc(INT, TREE(eng.term(st, args[0]))))]
    def add_edge(eng, st, slf, args, kw):
        n_ = geti(st, "links"); vs = eng.vs0
        eng.oblige(st, "event:the operands become children, in order", And(eng.term(st, args[0]) == eng.u0, n_ < seqlen(SEQ(INT), vs), eng.term(st, args[1]) == seqat(SEQ(INT), vs, n_)))
        st.ghost["links"] = (INT, n_ + 1); return [(st, NONE_)]
    return S.obj(cls("shunting_yard_postfix:RpnDequeAst"), ast=S.eng.new_obj(S.st, cls(AM), {}, {"add_vertex": add_vertex, "add_edge": add_edge}))
def link_setup(S):
    o, a_, u_, vs = tree_sink(S), S.const(TOK, "a"), S.int("u"), S.cont(SEQ(INT), "vs"); S.eng.vs0 = S.eng.named(S.st, S.term(vs)); S.eng.u0 = u_.t
    return [o, a_, S.const(OPREC, "op"), u_, vs]
RO = SYP + "RpnDequeAst.on_operation"
L += [Fn("the vertex of a token", SYP + "RpnDequeAst.on_append", lambda S: [tree_sink(S), S.const(TOK, "a")], post=lambda c: [("a vertex for the token", c.t(c.res) == TREE(c.t(c.args["a"])))], symty="Tok"),
    Fn("the children of an operation", RO, link_setup, post=lambda c: [("the vertex of the operation", c.t(c.res) == c.eng.u0), ("every operand is linked", c.g("links") == seqlen(SEQ(INT), c.eng.vs0))], loops={(RO, 0): LoopSpec(inv=lambda c: [("children linked", And(c.g("links") == c.k, c.n == seqlen(SEQ(INT), c.eng.vs0)))])}, symty="Tok")]
# ---------------------------------------------------------------- the signs of an arithmetic text
AT_ = "shunting_yard_postfix:AlgTokenizeVisitor"; AK = "pybgl." + AT_ + "."; NUMBER = z3.Function("number_read", sort(TOK), sort(TOK))
def signs(S):
    S.eng.opaque["float"] = lambda eng, st, slf, args, kw: [(st, Sc(TOK, NUMBER(eng.term(st, args[0]))))]
    it = S.cont(TS_, "expression"); b_ = S.const(BOOL, "after_operator"); S.eng.before = (S.eng.named(S.st, S.term(it)), b_.t); x_ = S.const(TOK, "text")
    return [S.obj(cls(AT_), expression=it, prev_is_operator=b_), x_, S.int("start"), S.int("end"), S.const(SYM("Text"), "s")]
def read_token(c, tok, b1):
    t0, b0 = c.eng.before; o_ = c.args["self"]; t1 = c.at(o_, "expression"); n0 = seqlen(TS_, t0)
    return [("what was read stays", fa([i], Implies(And(0 <= i, i < n0), seqat(TS_, t1, i) == seqat(TS_, t0, i)))), ("one token more", seqlen(TS_, t1) == n0 + 1), ("the token", seqat(TS_, t1, n0) == tok), ("does an operator precede", c.at(o_, "prev_is_operator") == b1)]
def is_(c, x_, *ss): return Or(*[x_ == c.eng.symconst(s_, "Tok") for s_ in ss])
def sign_post(c):
    x_ = c.t(c.args["matched"]); b0 = c.eng.before[1]; un = And(b0, Not(is_(c, x_, "(", ")")))
    return [("only a sign may follow an operator", Implies(un, is_(c, x_, "+", "-")))] + read_token(c, If(And(un, is_(c, x_, "+")), c.eng.symconst("u+", "Tok"), If(And(un, is_(c, x_, "-")), c.eng.symconst("u-", "Tok"), x_)), Not(is_(c, x_, ")")))
def sign_error(c):
    x_ = c.t(c.args["matched"]); return [("a binary operator follows an operator", And(c.eng.before[1], Not(is_(c, x_, "(", ")", "+", "-"))))]
L += [Fn("a sign or a binary operator", AK + "on_matched", signs, post=sign_post, raises={Exception: sign_error}, symty="Tok"),
    Fn("a number", AK + "on_unmatched", signs, post=lambda c: read_token(c, NUMBER(c.t(c.args["unmatched"])), BoolVal(False)), symty="Tok"),
    Fn("nothing read yet", AK + "__init__", lambda S: [S.obj(cls(AT_))], post=lambda c: [("no token", as_list(c, c.attr(c.args["self"], "expression"), TOK)[0] == 0), ("a sign may come first", c.at(c.args["self"], "prev_is_operator"))], symty="Tok")]
# ---------------------------------------------------------------- from the text to the value or the tree
TEXT = SYM("Text"); LEFTV = Const("values_left", sort(VS_))
class Postfix(CallContract):
    key = SF; label = "infix to postfix"
    def when(s, eng, st, a): return isinstance(a.get("output"), ObjV)
    def pre(s, c):
        e_ = c.eng
        return [("it is given the tokens of the expression", c.t("expression") == e_.tokens), ("and the operators of the caller", c.t("map_operators") == e_.table), ("the sink knows them too", c.at("output", "map_operators") == e_.table), ("the sink is empty", seqlen(VS_, c.at("output", "$items")) == 0), ("the caller's visitor is informed", BoolVal(c.v("vis") is e_.vis))]
    def modifies(s, c): return [c.attr("output", "$items")]
    def result(s, c): return c.v("output")
    def post(s, c): return [("values left", c.at("output", "$items") == LEFTV)]
class Tokens(CallContract):
    key = SYP + "tokenizer_alg"; label = "tokens of the text"
    def pre(s, c): return [("it is given the text", c.t("expression") == c.eng.text)]
    def modifies(s, c): return []
    def result(s, c): return c.eng.token_list
    def post(s, c): return []
def run_setup(klass, tok):
    def f(S):
        e_ = S.eng; expr, table = S.word(TOK, "tokens"), S.cont(TABLE, "map_operators"); text = S.const(TEXT, "text"); vis = visitor(S, True)
        e_.tokens, e_.table, e_.text, e_.token_list, e_.vis, e_.root = S.term(expr), e_.named(S.st, S.term(table)), text.t, expr, vis, None
        S.assume(lo(VS_, LEFTV) <= hi(VS_, LEFTV))
        def new_sink(eng, st, slf, args, kw):
            at_ = {"map_operators": kw["map_operators"], "$items": eng.alloc(st, VS_, empty(VS_), "items")}
            if "ast" in kw: at_["ast"] = kw["ast"]
            return [(st, eng.new_obj(st, cls("shunting_yard_postfix:" + klass), at_))]
        def new_tree(eng, st, slf, args, kw): return [(st, eng.new_obj(st, cls(AM), {"root": NONE_}))]
        e_.opaque[klass] = new_sink; e_.opaque["Ast"] = new_tree
        return [text if tok else expr, table, B(True), vis] if klass == "RpnDequeAlg" and tok else [expr, table, B(False), vis] if klass == "RpnDequeAlg" else [expr, table, vis]
    return f
one = lambda: seqlen(VS_, LEFTV) == 1
bad = {Exception: lambda c: [("no value or several are left", Not(one()))]}
def compute_post(c): return [("one value is left", one()), ("it is the result", c.t(c.res) == seqat(VS_, LEFTV, IntVal(0)))]
def tree_post(c):
    t_, r_ = c.res.xs; o_ = c.attr(t_, "root")
    return [("one vertex is left", one()), ("it is the root", And(c.t(r_) == seqat(VS_, LEFTV, IntVal(0)), c.t(o_) == c.t(r_)))]
L += [Fn("compute" + (" a text" if t_ else " tokens"), SYP + "shunting_yard_compute", run_setup("RpnDequeAlg", t_), post=compute_post, raises=bad, uses=[Postfix(), Tokens()], symty="Tok") for t_ in (True, False)]
L.append(Fn("build the tree", SYP + "shunting_yard_ast", run_setup("RpnDequeAst", False), post=tree_post, raises=bad, uses=[Postfix()], symty="Tok"))
def sink_post(T_):
    def f(c):
        o_ = c.args["self"]; n_, _ = as_list(c, c.attr(o_, "$items"), VAL)
        return [("it is empty", n_ == 0), ("it knows the operators", BoolVal(c.attr(o_, "map_operators") is c.eng.given))]
    return f
def sink_setup(klass):
    def f(S):
        S.eng.given = S.cont(TABLE, "map_operators"); o_ = S.const(SYM("Tree"), "tree")
        S.assume(dom(TABLE, S.term(S.eng.given)) != z3.K(sort(TOK), BoolVal(False)))
        return [S.obj(cls("shunting_yard_postfix:" + klass))], dict(map_operators=S.eng.given, **({"ast": o_} if klass == "RpnDequeAst" else {}))
    return f
L += [Fn("a new %s" % k_, SYP + k_ + ".__init__", sink_setup(k_), post=sink_post(k_), symty="Tok") for k_ in ("RpnDequeOperation", "RpnDequeAlg")]
PROOFS = [f.proof() for f in L]
