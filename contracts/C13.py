from contracts.heaps import *
NOTE = "every method of Heap proved against an indexed family of elements (multiset) and minimality of what is popped, over assumed contracts of heapq; the comparison wrapper proved against the preorder it wraps"
TRUSTED = TRUSTED_BASE + ["the contracts of heapq.heapify, heappush, heappop and nsmallest (contracts/heaps.py), among them: when one item of a heap is lowered, heapify leaves the items after it in place"]
ASSUMPTIONS = ASSUME_BASE + ["the caller's ordering is a total preorder, equality of keys agrees with it, and it does not depend on anything that changes during a call"]
KY, EL = SYM("Key"), SYM("Element")
T = TUP(KY, INT, EL)
HL = SEQ(T)
LT = z3.Function("key_before", sort(KY), sort(KY), z3.BoolSort())
KEY = z3.Function("key_of", sort(EL), sort(KY))
EXT, ISHEAP, less = heapq_contracts(T, LT)
H = "pybgl.heap:Heap."
HC = cls("heap:Heap")
t1, t2 = Consts("t1 t2", sort(T)); x, y = Consts("x y", sort(EL))
k0 = lambda t: fld(T, t, 0); ix = lambda t: fld(T, t, 1); el = lambda t: fld(T, t, 2)
keyf = HandV(lambda eng, st, slf, args, kw: [(st, Sc(KY, KEY(eng.term(st, args[0]))))], "to_comparable")
conf = lambda eng: eng.externals.update(EXT)
def heap_obj(S):
    for a in weak_order(LT, KY): S.assume(a)
    d = S.cont(HL, "data")
    S.eng.heap_before = lambda st: None
    return S.obj(HC, to_comparable=keyf, index=S.int("index"), _data=d)
D = lambda c, st=None: c.eng.term(st or c.st, c.attr("self", "_data", st or c.st))
CNT = lambda c, t, st=None: Select(cnt(HL, D(c, st)), t)
HAS = lambda c, i_, x_, st=None: CNT(c, mk(T, KEY(x_), i_, x_), st) >= 1
IX = lambda c, st=None: c.at("self", "index", st or c.st)
def hinv(c, st=None, but=None):
    "but: the element whose stored priority may be out of date (not better than the current one)"
    dd = D(c, st)
    key_ok = (lambda t: k0(t) == KEY(el(t))) if but is None else (lambda t: If(el(t) == but, Not(LT(k0(t), KEY(but))), k0(t) == KEY(el(t))))
    return [("heap", ISHEAP(dd)),
            ("priorities and indices", fa([t1], Implies(CNT(c, t1, st) >= 1, And(key_ok(t1), 0 <= ix(t1), ix(t1) < IX(c, st))), CNT(c, t1, st))),
            ("indices identify", fa([t1, t2], Implies(And(CNT(c, t1, st) >= 1, CNT(c, t2, st) >= 1, ix(t1) == ix(t2)), t1 == t2), z3.MultiPattern(CNT(c, t1, st), CNT(c, t2, st)))),
            ("one occurrence", fa([t1], CNT(c, t1, st) <= 1, CNT(c, t1, st))), ("next index", IX(c, st) >= 0)]
FAM = lambda c, want: ("the elements held", fa([i, x], HAS(c, i, x) == want(i, x)))
size = lambda c, d_: ("size", seqlen(HL, D(c)) == seqlen(HL, D(c, c.old)) + d_)
dref = lambda c: [c.attr("self", "_data"), (c.v("self"), "index")]
L = []
L.append(Fn("push", H + "push", lambda S: [heap_obj(S), S.const(EL, "element")], hinv, lambda c: hinv(c) + [
    FAM(c, lambda i_, x_: Or(HAS(c, i_, x_, c.old), And(i_ == IX(c, c.old), x_ == c.t("element")))), ("a new index", fa([x], Not(HAS(c, IX(c, c.old), x, c.old)))), size(c, 1)], modifies=dref, configure=conf))
def popped(c):
    r_ = c.t(c.res)
    return Exists([i], And(HAS(c, i, r_, c.old), fa([j, x], HAS(c, j, x) == And(HAS(c, j, x, c.old), Not(And(j == i, x == r_))))))
L.append(Fn("pop", H + "pop", lambda S: [heap_obj(S)], lambda c: hinv(c) + [("not empty", seqlen(HL, D(c)) > 0)], lambda c: hinv(c) + [
    ("one element leaves, the others stay", popped(c)), ("nothing held precedes it", fa([i, x], Implies(HAS(c, i, x, c.old), Not(LT(KEY(x), KEY(c.t(c.res))))))), size(c, -1)], modifies=lambda c: [c.attr("self", "_data")], configure=conf))
L.append(Fn("len", H + "__len__", lambda S: [heap_obj(S)], hinv, lambda c: [("size", c.t(c.res) == seqlen(HL, D(c, c.old)))], modifies=lambda c: []))
L.append(Fn("bool", H + "__bool__", lambda S: [heap_obj(S)], hinv, lambda c: [("not empty", c.eng.truth(c.st, c.res) == (seqlen(HL, D(c, c.old)) > 0)), ("empty: nothing held", Implies(seqlen(HL, D(c, c.old)) == 0, fa([i, x], Not(HAS(c, i, x, c.old))))),
    ("otherwise something held", Implies(seqlen(HL, D(c, c.old)) > 0, HAS(c, ix(seqat(HL, D(c, c.old), 0)), el(seqat(HL, D(c, c.old), 0)), c.old)))], modifies=lambda c: []))
def iter_post(c):
    n_, at = as_list(c, ety=EL)
    P_ = z3.Function(c.eng.uid("index_of"), z3.IntSort(), z3.IntSort())
    T_ = c.eng.smallest
    at2 = lambda i_: seqat(HL, T_, i_)
    return [("as many", n_ == seqlen(HL, D(c, c.old))), ("the elements held, each once", And(cnt(HL, T_) == cnt(HL, D(c, c.old)), seqlen(HL, T_) == n_, fa([i], Implies(And(0 <= i, i < n_), el(at2(i)) == at(i)), at2(i)))),
            ("in order", fa([i, j], Implies(And(0 <= i, i < j, j < n_), Not(LT(KEY(at(j)), KEY(at(i)))))))]
def conf_iter(eng):
    conf(eng); f = EXT["_heapq.nsmallest"]
    def g(e, st, args, kw):
        r_ = f(e, st, args, kw); e.smallest = e.read(r_[0][0], r_[0][1]); return r_
    eng.externals["_heapq.nsmallest"] = eng.externals["heapq.nsmallest"] = g
L.append(Fn("iteration", H + "__iter__", lambda S: [heap_obj(S)], hinv, iter_post, modifies=lambda c: [], consume=to_list, configure=conf_iter))
# ---- decrease_key
pos = lambda d_, i_: Select(arr(HL, d_), i_)
def dk_inv(c):
    e = c.t("element"); dd = D(c)
    c.eng.heap_before = lambda st: dd
    return [x_ for x_ in hinv(c, None, e)] + [
        ("same indices and elements", fa([i, x], HASX(c, i, x) == HASX(c, i, x, c.old))), ("size", seqlen(HL, dd) == seqlen(HL, D(c, c.old))),
        ("handled up to here", fa([i], Implies(And(lo(HL, dd) <= i, i < lo(HL, dd) + c.k, i < hi(HL, dd), el(pos(dd, i)) == e), k0(pos(dd, i)) == KEY(e)), pos(dd, i)))]
def HASX(c, i_, x_, st=None): return Exists([kk], CNT(c, mk(T, kk, i_, x_), st) >= 1)
kk = Const("kk", sort(KY))
L.append(Fn("decrease_key", H + "decrease_key", lambda S: [heap_obj(S), S.const(EL, "element")], lambda c: hinv(c, None, c.t("element")), lambda c: hinv(c) + [
    ("the elements held", fa([i, x], HASX(c, i, x) == HASX(c, i, x, c.old))), size(c, 0)], modifies=lambda c: [c.attr("self", "_data")], configure=conf, loops={(H + "decrease_key", 0): LoopSpec(inv=dk_inv)}))
# ---- constructors
def empty_post(c): return [("nothing held", And(c.length0(), IX(c) == 0))]
def length0(c):
    d_ = c.attr("self", "_data"); return BoolVal(True) if c.eng.typeof(c.st, d_).kind == "Untyped" else seqlen(HL, c.eng.term(c.st, d_)) == 0
new_heap = lambda S: S.obj(HC)
def is_keyf(c):
    f_ = c.attr("self", "to_comparable"); x_ = c.eng.havoc(EL, "any", c.st)
    return f_, x_
def priority(want):
    def post(c):
        f_, x_ = is_keyf(c)
        if f_ is keyf: return [("the priority function", BoolVal(want == "given"))]
        r_ = c.eng.call(c.st.copy(), f_, [Sc(EL, x_)], {})
        return [("the priority function", BoolVal(len(r_) == 1 and want == "identity" and isinstance(r_[0][1], Sc) and r_[0][1].ty == EL and r_[0][1].t.eq(x_)))]
    return post
L.append(Fn("empty heap", H + "__init__", lambda S: [new_heap(S)], post=lambda c: [("nothing held", And(length0(c), IX(c) == 0))] + priority("identity")(c)))
L.append(Fn("empty heap with a priority", H + "__init__", lambda S: ([new_heap(S)], {"to_comparable": keyf}), post=lambda c: [("nothing held", And(length0(c), IX(c) == 0))] + priority("given")(c)))
EL_ = SEQ(EL)
def full_setup(S):
    for a in weak_order(LT, KY): S.assume(a)
    e_ = S.cont(EL_, "elements"); S.assume(lo(EL_, S.term(e_)) == 0)
    return [new_heap(S), e_, keyf]
def full_post(c):
    es = c.told("elements")
    if isinstance(c.attr("self", "_data"), Ref) and c.eng.typeof(c.st, c.attr("self", "_data")).kind == "Untyped": return [("nothing held", And(seqlen(EL_, es) == 0, IX(c) == 0))] + priority("given")(c)
    return hinv(c) + [("as many", And(seqlen(HL, D(c)) == seqlen(EL_, es), IX(c) == seqlen(EL_, es))), ("the elements held", fa([i, x], HAS(c, i, x) == And(0 <= i, i < seqlen(EL_, es), seqat(EL_, es, i) == x)))] + priority("given")(c)
def conf_full(eng):
    conf(eng); f = EXT["_heapq.heapify"]
    def g(e, st, args, kw):
        # what occurs twice in a list is at two positions of it
        t_ = e.read(st, args[0]); w1, w2 = (z3.Function(e.uid("at"), sort(T), z3.IntSort()) for _ in range(2)); x_ = Const("x!tw", sort(T)); rng = lambda q_: And(lo(HL, t_) <= q_, q_ < hi(HL, t_), Select(arr(HL, t_), q_) == x_)
        e.assume(st, fa([x_], Implies(Select(cnt(HL, t_), x_) >= 2, And(w1(x_) != w2(x_), rng(w1(x_)), rng(w2(x_)))), Select(cnt(HL, t_), x_)))
        return f(e, st, args, kw)
    eng.externals["_heapq.heapify"] = eng.externals["heapq.heapify"] = g
    eng.heap_before = lambda st: None
L.append(Fn("heap of given elements", H + "__init__", full_setup, post=full_post, configure=conf_full))
# ---- comparison wrapper
CC = cls("heap:Comparable"); C_ = "pybgl.heap:Comparable."
VV = SYM("Value"); PRE = z3.Function("preorder", sort(VV), sort(VV), z3.BoolSort())
pref = HandV(lambda eng, st, slf, args, kw: [(st, B(PRE(eng.term(st, args[0]), eng.term(st, args[1]))))], "preorder")
a_, b_, c_ = Consts("a b c", sort(VV))
def pair(S):
    S.assume(fa([a_, b_], Or(PRE(a_, b_), PRE(b_, a_))))
    mkc = lambda nm: S.obj(CC, obj=S.const(VV, nm), preorder=pref)
    return [mkc("x"), mkc("y")]
def cmp(name, f):
    def post(c):
        X, Y = c.at("self", "obj", c.old), c.at("other", "obj", c.old)
        return [("agrees with the preorder", c.eng.truth(c.st, c.res) == f(PRE(X, Y), PRE(Y, X)))]
    return Fn(name, C_ + name, pair, post=post, modifies=lambda c: [])
for nm, f in (("__le__", lambda xy, yx: xy), ("__ge__", lambda xy, yx: yx), ("__lt__", lambda xy, yx: And(xy, Not(yx))), ("__gt__", lambda xy, yx: And(yx, Not(xy))), ("__eq__", lambda xy, yx: And(xy, yx)), ("__ne__", lambda xy, yx: Not(And(xy, yx)))):
    L.append(cmp(nm, f))
def wrapped(c, o, want): return [("wraps the value", And(BoolVal(c.attr(o, "preorder") is pref), c.at(o, "obj") == want))]
L.append(Fn("wrapping", C_ + "__init__", lambda S: [S.obj(CC), S.const(VV, "obj"), pref], post=lambda c: wrapped(c, "self", c.t("obj"))))
def key_call(eng, st, f): return eng.call(st, f, [Sc(VV, eng.wrapped)], {})
def key_setup(S):
    S.eng.wrapped = S.const(VV, "value").t; return [pref]
L.append(Fn("compare_to_key", "pybgl.heap:compare_to_key", key_setup, consume=key_call, post=lambda c: wrapped(c, c.res, c.eng.wrapped)))
def order_lemma():
    lt = lambda p_, q_: Not(PRE(q_, p_)); X, Y, Z = Consts("X Y Z", sort(VV))
    hy = [fa([a_, b_], Or(PRE(a_, b_), PRE(b_, a_))), fa([a_, b_, c_], Implies(And(PRE(a_, b_), PRE(b_, c_)), PRE(a_, c_)))]
    return [("asymmetric", hy, Implies(lt(X, Y), Not(lt(Y, X)))), ("transitive", hy, Implies(And(lt(X, Y), lt(Y, Z)), lt(X, Z))), ("incomparability is transitive", hy, Implies(And(Not(lt(X, Y)), Not(lt(Y, Z))), Not(lt(X, Z)))),
            ("equality agrees", hy, And(PRE(X, Y), PRE(Y, X)) == And(Not(lt(X, Y)), Not(lt(Y, X))))]
PROOFS = [f.proof() for f in L] + [Lemma("the wrapper's order is the strict weak order heapq needs", order_lemma)]
