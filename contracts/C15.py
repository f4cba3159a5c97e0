import contracts.lib as _l
_a = _l.instance("automata", PARAM_SY=_l.INT, PARAM_CLASS=_l.cls("bk_tree:BKTree"))
globals().update({k_: v_ for k_, v_ in _a.__dict__.items() if not k_.startswith("__")})
NOTE = "insert and search proved for every tree, metric, word and radius, with the tree shape (which words lie below which branch) as a ghost relation"
TRUSTED = TRUSTED_BASE
ASSUMPTIONS = ASSUME_BASE + ["the distance is a metric with integer values and always gives the same value", "the search starts at the root (the optional starting vertex is not given)"]
BK = cls("bk_tree:BKTree"); B_ = "pybgl.bk_tree:"
WT = SYM("Word"); EM = MAP(INT, WT)
DIST = z3.Function("distance", sort(WT), sort(WT), z3.IntSort())
IN0 = z3.Function("below", z3.IntSort(), z3.IntSort(), z3.BoolSort())
s_, t_, w_ = Consts("s t w", sort(WT)); x, y, d, d2 = Ints("x y d d2")
distf = HandV(lambda eng, st, slf, args, kw: [(st, Sc(INT, DIST(eng.term(st, args[0]), eng.term(st, args[1]))))], "distance")
METRIC = [fa([s_, t_], And(DIST(s_, t_) >= 0, (DIST(s_, t_) == 0) == (s_ == t_), DIST(s_, t_) == DIST(t_, s_)), DIST(s_, t_)),
          fa([s_, t_, w_], DIST(s_, w_) <= DIST(s_, t_) + DIST(t_, w_), z3.MultiPattern(DIST(s_, t_), DIST(t_, w_)))]
def bk_obj(S, triangle=True):
    o = automaton_obj(S, BK)
    S.st.objs[o.oid][1].update(distance=distf, map_velement=S.cont(EM, "elements"), root=S.const(OI, "root"))
    for m_ in METRIC[:2 if triangle else 1]: S.assume(m_)
    return o
ELE = lambda c, st=None, g="self": c.at(g, "map_velement", st or c.st)
def W(c, x_, st=None, g="self"): return Select(val(EM, ELE(c, st, g)), x_)
def ROOT(c, st=None, g="self"): return c.t(c.attr(g, "root", st or c.st), OI, st or c.st)
def tree(c, IN, g="self"):
    adj = A(c, g); Wx = lambda x_: W(c, x_, None, g); ro = ROOT(c, None, g); D = lambda a_, b_: DIST(Wx(a_), Wx(b_))
    row = lambda u_, d_: rowpat(adj, u_, d_)
    T = lambda u_, d_: TGT(adj, u_, d_)
    return ainv(c, g) + [("tree: " + n_, f) for n_, f in [
        ("words of the vertices", fa([x], Select(dom(EM, ELE(c, None, g)), x) == QX(adj, x))),
        ("root", If(is_some(OI, ro), QX(adj, optval(OI, ro)), fa([x], Not(QX(adj, x)), QX(adj, x)))),
        ("only vertices lie below vertices", fa([x, y], Implies(IN(x, y), And(QX(adj, x), QX(adj, y))), IN(x, y))),
        ("every vertex is below itself and the root", fa([x], Implies(QX(adj, x), And(IN(x, x), IN(optval(OI, ro), x))), QX(adj, x))),
        ("words below a branch are at its distance", fa([u, d, x], Implies(And(HAS(adj, u, d), IN(T(u, d), x)), And(IN(u, x), D(u, x) == d, x != u)), z3.MultiPattern(row(u, d), IN(T(u, d), x)))),
        ("a word below lies below its branch", fa([u, x, d], Implies(And(IN(u, x), x != u, D(u, x) == d), And(HAS(adj, u, d), IN(T(u, d), x))), z3.MultiPattern(IN(u, x), row(u, d)))),
        ("nothing is above the root", fa([x], Implies(IN(x, optval(OI, ro)), x == optval(OI, ro)), IN(x, optval(OI, ro)))),
        ("one parent", fa([u, d, v, d2], Implies(And(HAS(adj, u, d), HAS(adj, v, d2), T(u, d) == T(v, d2)), And(u == v, d == d2)), z3.MultiPattern(row(u, d), row(v, d2)))),
        ("what is above a child is above its parent", fa([x, u, d], Implies(And(HAS(adj, u, d), IN(x, T(u, d)), x != T(u, d)), IN(x, u)), z3.MultiPattern(row(u, d), IN(x, T(u, d))))),
        ("words are stored once", fa([x, y], Implies(And(QX(adj, x), QX(adj, y), Wx(x) == Wx(y)), x == y), z3.MultiPattern(Wx(x), Wx(y)))),
    ]]
def local(c, nm):
    if c.fid is not None: return c.v(nm)
    z_ = c.st.frames[c.eng.toplevel_frame].get(nm)
    if z_ is None: raise Unsupported("specification names the local variable '%s', absent from the current source" % nm)
    return z_
def ins_inv(c):
    uu = c.t("u", OI); u_ = optval(OI, uu); adj = A(c); ww = c.t("w")
    return tree(c, IN0) + [("at a vertex", And(is_some(OI, uu), QX(adj, u_))),
        ("the word can only be below", fa([x], Implies(And(QX(adj, x), W(c, x) == ww), IN0(u_, x)), W(c, x))),
        ("branches above are at their distance from the word", fa([q, d], Implies(And(HAS(adj, q, d), IN0(TGT(adj, q, d), u_)), DIST(W(c, q), ww) == d), z3.MultiPattern(rowpat(adj, q, d), IN0(TGT(adj, q, d), u_))))]
def ins_post(c):
    adj, adj0 = A(c), A0(c); ww = c.t("w"); r_ = c.t(c.res, OI); rv = optval(OI, r_)
    Wo = lambda x_: W(c, x_, c.old)
    there = Exists([x], And(QX(adj0, x), Wo(x) == ww))
    ro0 = ROOT(c, c.old)
    grown = QX(adj, rv) != QX(adj0, rv)
    par = c.t(local(c, "u"), OI)
    IN = lambda a_, x_: If(grown, Or(IN0(a_, x_), And(x_ == rv, Or(a_ == rv, And(is_some(OI, ro0), IN0(a_, optval(OI, par)))))), IN0(a_, x_))
    # the new relation by its definition
    IN2 = z3.Function(c.eng.uid("below"), z3.IntSort(), z3.IntSort(), z3.BoolSort())
    c.eng.assume(c.st, fa([x, y], IN2(x, y) == IN(x, y), IN2(x, y)))
    c.eng.assume(c.st, fa([x, y], Implies(IN0(x, y), IN2(x, y)), IN0(x, y)))
    return [("the vertex of the word", And(is_some(OI, r_), QX(adj, rv), W(c, rv) == ww)),
            ("words stay", fa([x], Implies(QX(adj0, x), And(QX(adj, x), W(c, x) == Wo(x))), QX(adj0, x))),
            ("a word already there changes nothing", Implies(there, And(fa([x], QX(adj, x) == QX(adj0, x)), ft(And(HAS(adj, q, a) == HAS(adj0, q, a), Implies(HAS(adj, q, a), TGT(adj, q, a) == TGT(adj0, q, a))), adj, adj0)))),
            ("a new word adds one vertex", Implies(Not(there), fa([x], QX(adj, x) == Or(QX(adj0, x), x == rv)))), ("and it was free", Implies(Not(there), Not(QX(adj0, rv))))] + tree(c, IN2)
mods = lambda c: [ref(c), c.attr("self", "map_velement"), (c.v("self"), "last_vertex_id"), (c.v("self"), "root")]
L = []
insert = Fn("insert", B_ + "BKTree.insert", lambda S: [bk_obj(S, False), S.const(WT, "w")], lambda c: tree(c, IN0), ins_post, modifies=mods, loops={(B_ + "BKTree.insert", 0): LoopSpec(inv=ins_inv)}, types={"$v": INT})
L.append(insert)
# ---- search
OW = OPT(WT); DQ = SEQ(INT)
def dqinfo(c, st=None):
    "the queue, how often it holds a vertex, and that it holds vertices only"
    st = st or c.st; v_ = c.v("to_process"); ty = c.eng.typeof(st, v_)
    if ty.kind == "Untyped": return lambda x_: IntVal(0), [], lambda x_: x_
    t_ = c.eng.term(st, v_)
    if ty.args[0] == INT: return lambda x_: Select(cnt(ty, t_), x_), [], lambda x_: x_
    return lambda x_: Select(cnt(ty, t_), some(OI, x_)), [("only vertices are queued", Select(cnt(ty, t_), none(OI)) <= 0)], lambda x_: some(OI, x_)
def pending(c, x_):
    n_, _, _ = dqinfo(c); p_ = Int("p!pend")
    return Not(fa([p_], Implies(n_(p_) >= 1, Not(IN0(p_, x_))), IN0(p_, x_)))
def done(c, x_):
    wb, db = c.t("w_best", OW), c.t("d_best"); dd = DIST(c.told("w"), W(c, x_))
    return If(is_some(OW, wb), db <= dd, db < dd)
def best_ok(c):
    wb, db = c.t("w_best", OW), c.t("d_best"); adj = A(c)
    return [("the best word so far", And(db <= c.told("d_max"), Implies(is_none(OW, wb), db == c.told("d_max")), Implies(is_some(OW, wb), And(db == DIST(c.told("w"), optval(OW, wb)), Exists([x], And(QX(adj, x), W(c, x) == optval(OW, wb)))))))]
def queue_ok(c):
    n_, more, _ = dqinfo(c)
    return more + ([("queued vertices", fa([x], Implies(n_(x) >= 1, QX(A(c), x)), n_(x)))] if more or c.ty("to_process").kind != "Untyped" else [])
def s_inv(c):
    return best_ok(c) + queue_ok(c) + [("every word was ruled out or waits below a queued vertex", fa([x], Implies(QX(A(c), x), Or(done(c, x), pending(c, x))), QX(A(c), x)))]
def s_inner(c):
    adj = A(c); u_ = optval(OI, c.t("u", OI)); e_ = lambda j_: c.it.key(j_)
    du, db = c.t("d_u"), c.t("d_best"); far = lambda e1: Or(lab(e1) - du > db, du - lab(e1) > db)
    lab = lambda e1: e1.sort().accessor(0, 2)(e1) if e1.sort() != z3.IntSort() else e1
    to_ = lambda e1: e1.sort().accessor(0, 1)(e1) if e1.sort() != z3.IntSort() else TGT(adj, u_, e1)
    n_, _, _ = dqinfo(c); n0, _, _ = dqinfo(c, c.entry)
    if c.ty("to_process").kind == "Untyped": return []
    return queue_ok(c) + [("queue grows", fa([x], n_(x) >= n0(x), n_(x))), ("queue grew", fa([x], n_(x) >= n0(x), n0(x))),
        ("near branches are queued", fa([j], Implies(And(0 <= j, j < c.k), Or(far(e_(j)), n_(to_(e_(j))) >= 1)), e_(j))),
        ("branch of every word below", fa([x], Implies(And(IN0(u_, x), x != u_), And(HAS(adj, u_, DIST(W(c, u_), W(c, x))), IN0(TGT(adj, u_, DIST(W(c, u_), W(c, x))), x))), IN0(u_, x)))]
def s_post(c):
    adj = A0(c); r_ = c.res; ww, dm = c.t("w"), c.t("d_max")
    D = lambda x_: DIST(ww, W(c, x_, c.old))
    if isinstance(r_, Sc) and r_.ty == NONE: return [("nothing within the radius", fa([x], Implies(QX(adj, x), D(x) > dm), QX(adj, x)))]
    R2 = OPT(TUP(OW, INT)); t1 = c.t(r_, R2); pr = optval(R2, t1); wb, db = fld(R2.args[0], pr, 0), fld(R2.args[0], pr, 1)
    return [("nothing exactly when no word is within the radius", Implies(is_none(R2, t1), fa([x], Implies(QX(adj, x), D(x) > dm), QX(adj, x)))),
            ("otherwise a stored word within the radius", Implies(is_some(R2, t1), And(is_some(OW, wb), Exists([x], And(QX(adj, x), W(c, x, c.old) == optval(OW, wb))), db == DIST(ww, optval(OW, wb)), db <= dm))),
            ("and none is nearer", Implies(is_some(R2, t1), fa([x], Implies(QX(adj, x), db <= D(x)), QX(adj, x))))]
search = Fn("search", B_ + "BKTree.search", lambda S: [bk_obj(S), S.const(WT, "w"), S.int("d_max")], lambda c: tree(c, IN0), s_post, modifies=lambda c: [],
    loops={(B_ + "BKTree.search", 0): LoopSpec(inv=s_inv), (B_ + "BKTree.search", 1): LoopSpec(inv=s_inner)})
L.append(search)
PROOFS = [f.proof() for f in L]
