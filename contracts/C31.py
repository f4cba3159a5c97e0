from contracts.graphs import *
NOTE = "property maps, relations, closed operations and the visitor aggregate proved against their laws (events of up to three positional and two named arguments)"
TRUSTED = TRUSTED_BASE
ASSUMPTIONS = ASSUME_BASE + ["default factories give the same value each time", "numbers are integers or reals (floating point rounding is not modelled)"]
P = "pybgl.property_map:"
KT, VT = SYM("Key"), OPT(SYM("Value"))
D = DMAP(KT, VT)
x, y = Consts("x y", sort(KT))
def amap(S):
    d = S.cont(D, "d")
    return S.obj(cls("property_map:AssocPropertyMap"), d=d)
def dref(c, p_="self"): return c.attr(p_, "d")
def dval(c, k_, st=None, p_="self"): return Select(val(D, c.eng.term(st or c.st, dref(c, p_))), k_)
same_values = lambda c, p_="self": ("no value changes", fa([x], dval(c, x, None, p_) == dval(c, x, c.old, p_)))
def acc(pn, kn="k"):
    return lambda c: [("the value of the key", c.t(c.res, VT) == dval(c, c.t(kn), c.old, pn)), same_values(c, pn)]
def wr(pn): return lambda c: [("only that key changes", fa([x], dval(c, x, None, pn) == If(x == c.t("k"), c.t("v", VT), dval(c, x, c.old, pn))))]
L = []
L.append(Fn("AssocPropertyMap read", P + "AssocPropertyMap.__getitem__", lambda S: [amap(S), S.const(KT, "k")], post=acc("self"), modifies=lambda c: [dref(c)]))
L.append(Fn("AssocPropertyMap write", P + "AssocPropertyMap.__setitem__", lambda S: [amap(S), S.const(KT, "k"), S.const(VT, "v")], post=wr("self"), modifies=lambda c: [dref(c)]))
L.append(Fn("get", P + "get", lambda S: [amap(S), S.const(KT, "k")], post=acc("pmap"), modifies=lambda c: [dref(c, "pmap")]))
L.append(Fn("put", P + "put", lambda S: [amap(S), S.const(KT, "k"), S.const(VT, "v")], post=wr("pmap"), modifies=lambda c: [dref(c, "pmap")]))
L.append(Fn("make_assoc_property_map", P + "make_assoc_property_map", lambda S: [S.cont(D, "d")], post=lambda c: [("built on the given dictionary", BoolVal(c.attr(c.res, "d").loc == c.v("d").loc))], modifies=lambda c: []))
F_ = z3.Function("user_function", sort(KT), sort(VT))
ufun = HandV(lambda eng, st, slf, args, kw: [(st, Sc(VT, F_(eng.term(st, args[0]))))], "f")
L.append(Fn("FuncPropertyMap read", P + "FuncPropertyMap.__getitem__", lambda S: [S.obj(cls("property_map:FuncPropertyMap"), f=ufun), S.const(KT, "k")], post=lambda c: [("the value of the function", c.t(c.res, VT) == F_(c.t("k")))], modifies=lambda c: []))
L.append(Fn("make_func_property_map", P + "make_func_property_map", lambda S: [ufun], post=lambda c: [("holds the function", BoolVal(c.attr(c.res, "f") is ufun))], modifies=lambda c: []))
L.append(Fn("IdentityPropertyMap read", P + "IdentityPropertyMap.__getitem__", lambda S: [S.obj(cls("property_map:IdentityPropertyMap")), S.const(KT, "k")], post=lambda c: [("the key", c.t(c.res) == c.t("k"))], modifies=lambda c: []))
L.append(Fn("ConstantPropertyMap read", P + "ConstantPropertyMap.__getitem__", lambda S: [S.obj(cls("property_map:ConstantPropertyMap"), value=S.const(VT, "value")), S.const(KT, "k")], post=lambda c: [("the constant", c.t(c.res, VT) == c.at("self", "value", None, VT))], modifies=lambda c: []))
L.append(Fn("make_constant_property_map", P + "make_constant_property_map", lambda S: [S.const(VT, "value")], post=lambda c: [("holds the value", c.at(c.res, "value", None, VT) == c.t("value", VT))], modifies=lambda c: []))
for k_ in ("FuncPropertyMap", "IdentityPropertyMap", "ConstantPropertyMap"):
    L.append(Fn("%s is read-only" % k_, P + "ReadPropertyMap.__setitem__", lambda S, k_=k_: [S.obj(cls("property_map:" + k_)), S.const(KT, "k"), S.const(VT, "v")], post=lambda c: [("refused", BoolVal(False))], modifies=lambda c: [], raises={RuntimeError: lambda c: [("refused", BoolVal(True))]}, may_not_return=True))
    L.append(Fn("put in a %s" % k_, P + "put", lambda S, k_=k_: [S.obj(cls("property_map:" + k_)), S.const(KT, "k"), S.const(VT, "v")], post=lambda c: [("refused", BoolVal(False))], modifies=lambda c: [], raises={RuntimeError: lambda c: [("refused", BoolVal(True))]}, may_not_return=True))

Q = "pybgl.algebra:"
import sys as _s
for ty, tn in ((INT, "integers"), (REAL, "reals")):
    L.append(Fn("Less on %s" % tn, Q + "Less.__call__", lambda S, ty=ty: [S.obj(cls("algebra:Less")), S.const(ty, "x"), S.const(ty, "y")], post=lambda c: [("the strict order", c.eng.truth(c.st, c.res) == (c.t("x") < c.t("y")))], modifies=lambda c: []))
    L.append(Fn("GreaterThan on %s" % tn, Q + "GreaterThan.__call__", lambda S, ty=ty: [S.obj(cls("algebra:GreaterThan")), S.const(ty, "x"), S.const(ty, "y")], post=lambda c: [("the strict order", c.eng.truth(c.st, c.res) == (c.t("x") > c.t("y")))], modifies=lambda c: []))
    for op, f in (("Plus", lambda p_, q_: p_ + q_), ("Time", lambda p_, q_: p_ * q_), ("Max", lambda p_, q_: If(p_ >= q_, p_, q_)), ("Min", lambda p_, q_: If(p_ <= q_, p_, q_))):
        def post(c, f=f, ty=ty):
            ab = c.at("self", "absorbing", c.old, ty); X, Y = c.t("x", ty), c.t("y", ty)
            return [("absorbing or ordinary", c.t(c.res, ty) == If(Or(X == ab, Y == ab), ab, f(X, Y)))]
        L.append(Fn("Closed%s on %s" % (op, tn), Q + "ClosedOperator.__call__", lambda S, ty=ty, op=op: [S.obj(cls("algebra:Closed" + op), absorbing=S.const(ty, "absorbing")), S.const(ty, "x"), S.const(ty, "y")], post=post, modifies=lambda c: []))
for op in ("Plus", "Time", "Max", "Min"):
    dflt = 0 if op == "Min" else _s.maxsize
    L.append(Fn("Closed%s default" % op, Q + "Closed%s.__init__" % op, lambda S, op=op: [S.obj(cls("algebra:Closed" + op))], post=lambda c, dflt=dflt: [("its absorbing value", c.t(c.attr("self", "absorbing")) == dflt)]))
    L.append(Fn("Closed%s of a value" % op, Q + "Closed%s.__init__" % op, lambda S, op=op: [S.obj(cls("algebra:Closed" + op)), S.int("absorbing")], post=lambda c: [("its absorbing value", c.t(c.attr("self", "absorbing")) == c.t("absorbing"))]))

# ---------------------------------------------------------------- aggregate of visitors
VIS, VAL = SYM("Visitor"), SYM("Arg")
VL = SEQ(VIS)
V_ = "pybgl.aggregated_visitor:AggregatedVisitor."
def agg(npos, names):
    def setup(S):
        e = S.eng
        vl = S.cont(VL, "visitors"); e.log = S.cont(VL, "log")
        S.assume(seqlen(VL, S.term(e.log)) == 0, lo(VL, S.term(e.log)) == 0)
        e.sent = [S.const(VAL, "arg%d" % i_) for i_ in range(npos)]; e.sentkw = {n_: S.const(VAL, n_) for n_ in names}
        def member(name, v):
            def call(eng, st, slf, args, kw):
                ok = name == "the_event" and len(args) == npos and set(kw) == set(names)
                eng.oblige(st, "the event reaches the member with its arguments", And(BoolVal(ok), *([eng.term(st, p_) == eng.term(st, q_) for p_, q_ in zip(args, e.sent)] + [eng.term(st, kw[n_]) == eng.term(st, e.sentkw[n_]) for n_ in names if n_ in kw])) if ok else BoolVal(False))
                eng.m_append(st, e.log, v)
                return [(st, NONE_)]
            return call
        e.symattr[VIS] = member
        return [S.obj(cls("aggregated_visitor:AggregatedVisitor"), visitors=vl), StrC("the_event")]
    return setup
def send(eng, st, w):
    return [(s_, v_) for s_, v_ in eng.norm(st, eng.call(st, w, list(eng.sent), dict(eng.sentkw)))] if hasattr(eng, "norm") else eng.call(st, w, list(eng.sent), dict(eng.sentkw))
def log_is(c, upto):
    lg = c.eng.term(c.st, c.eng.log); vs = c.eng.term(c.old, c.attr("self", "visitors", c.old))
    return [("members told, in order", And(seqlen(VL, lg) == upto, fa([i], Implies(And(0 <= i, i < upto), seqat(VL, lg, i) == seqat(VL, vs, i)), seqat(VL, lg, i))))]
for npos, names in ((0, ()), (1, ()), (2, ()), (3, ("p",)), (0, ("p", "q")), (2, ("p", "q"))):
    L.append(Fn("aggregate, %d positional and %d named" % (npos, len(names)), V_ + "__getattr__", agg(npos, names), post=lambda c: log_is(c, seqlen(VL, c.eng.term(c.old, c.attr("self", "visitors", c.old)))), modifies=lambda c: [c.eng.log], consume=send,
        loops={(V_ + "__getattr__.wrapper", 0): LoopSpec(inv=lambda c: log_is(c, c.k)), (V_ + "__getattr__.<locals>.wrapper", 0): LoopSpec(inv=lambda c: log_is(c, c.k))}))
L.append(Fn("aggregate of given members", V_ + "__init__", lambda S: [S.obj(cls("aggregated_visitor:AggregatedVisitor")), S.cont(VL, "visitors")],
    post=lambda c: [("holds them", Implies(seqlen(VL, c.told("visitors")) > 0, BoolVal(isinstance(c.attr("self", "visitors"), Ref) and c.attr("self", "visitors").loc == c.v("visitors").loc)))]))
PROOFS = [f.proof() for f in L]
