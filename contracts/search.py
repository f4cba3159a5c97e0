"""Searches: any graph whose out_edges lists each out-edge once, any visitor (ghost record of its events), any filter."""
from contracts.lib import *
from contracts.graphs import TRUSTED_BASE, ASSUME_BASE
E_ = SYM("Edge"); ES = SEQ(E_); VL = SEQ(INT); VS = SET(INT); ESET = SET(E_); LV = MAP(INT, INT); DC = DMAP(INT, INT)
OUTS = z3.Function("out_edges_of", z3.IntSort(), sort(ES))
SRC = z3.Function("source_of", sort(E_), z3.IntSort()); TGT_ = z3.Function("target_of", sort(E_), z3.IntSort())
MEM = z3.Function("is_out_edge", z3.IntSort(), sort(E_), z3.BoolSort()); POS = z3.Function("place_of", z3.IntSort(), sort(E_), z3.IntSort())
PUSH = z3.Function("filter_accepts", sort(E_), z3.BoolSort()); VERT = z3.Function("is_vertex", z3.IntSort(), z3.BoolSort())
IS_SRC = z3.Function("is_start", z3.IntSort(), z3.BoolSort())
PATH = z3.Function("path_of_length", z3.IntSort(), z3.IntSort(), z3.BoolSort())
PU = z3.Function("path_before", z3.IntSort(), z3.IntSort(), z3.IntSort()); PE = z3.Function("path_last_edge", z3.IntSort(), z3.IntSort(), sort(E_))
VPOS = z3.Function("vertex_place", z3.IntSort(), z3.IntSort())
e, e1, e2 = Consts("e e1 e2", sort(E_)); x, y = Ints("x y")
OARR = lambda u_: arr(ES, OUTS(u_)); OLEN = lambda u_: seqlen(ES, OUTS(u_))
GRAPH_AX = [fa([u], And(lo(ES, OUTS(u)) == 0, hi(ES, OUTS(u)) >= 0), OUTS(u)),
    fa([u, i, j], Implies(And(0 <= i, i < j, j < OLEN(u)), Select(OARR(u), i) != Select(OARR(u), j)), z3.MultiPattern(Select(OARR(u), i), Select(OARR(u), j))),
    fa([u, i], Implies(And(0 <= i, i < OLEN(u)), And(MEM(u, Select(OARR(u), i)), POS(u, Select(OARR(u), i)) == i)), Select(OARR(u), i)),
    fa([u, e], Implies(MEM(u, e), And(SRC(e) == u, VERT(u), VERT(TGT_(e)), 0 <= POS(u, e), POS(u, e) < OLEN(u), Select(OARR(u), POS(u, e)) == e)), MEM(u, e))]
PATH_AX = [fa([x], PATH(x, 0) == IS_SRC(x), IS_SRC(x)), fa([x], PATH(x, 0) == IS_SRC(x), PATH(x, 0)),
    fa([u, e, k], Implies(And(PATH(u, k), k >= 0, MEM(u, e), PUSH(e)), PATH(TGT_(e), k + 1)), z3.MultiPattern(PATH(u, k), MEM(u, e)))]
PATH_ELIM = lambda x_, k_: Implies(And(PATH(x_, k_ + 1), k_ >= 0), And(PATH(PU(x_, k_), k_), MEM(PU(x_, k_), PE(x_, k_)), PUSH(PE(x_, k_)), TGT_(PE(x_, k_)) == x_))
GRAPH_NOTE = ["the graph's own listings follow their contracts: out_edges(u) lists each edge leaving u exactly once, with u as source and a vertex as target, vertices() each vertex once, source and target give the ends of an edge (proved for every class of graph under C01 to C06), and the graph does not change during the search",
    "the caller's filter answers the same for the same edge"]

def a_graph(S, klass="graph:DirectedGraph"):
    def out_edges(eng, st, slf, args, kw):
        t = OUTS(eng.constant(st, eng.term(st, args[0])))
        return [(st, eng.alloc(st, ES, t, "out_edges"))]
    def vertices(eng, st, slf, args, kw):
        return [(st, S.vertex_list)]
    fn = lambda f, ty: lambda eng, st, slf, args, kw: [(st, Sc(ty, f(eng.term(st, args[0], E_))))]
    for a_ in GRAPH_AX: S.assume(a_)
    S.vertex_list = S.cont(VL, "vertices"); t = S.term(S.vertex_list)
    S.assume(lo(VL, t) == 0, hi(VL, t) >= 0, fa([i], Implies(And(0 <= i, i < seqlen(VL, t)), And(VERT(Select(arr(VL, t), i)), VPOS(Select(arr(VL, t), i)) == i)), Select(arr(VL, t), i)),
        fa([x], Implies(VERT(x), And(0 <= VPOS(x), VPOS(x) < seqlen(VL, t), Select(arr(VL, t), VPOS(x)) == x)), VERT(x)))
    def edges_out(eng, st, slf, args, kw): return out_edges(eng, st, slf, args, kw)
    return S.eng.new_obj(S.st, cls(klass), {}, {"out_edges": out_edges, "vertices": vertices, "target": fn(TGT_, INT), "source": fn(SRC, INT)})

def a_filter(S):
    return HandV(lambda eng, st, slf, args, kw: [(st, Sc(BOOL, PUSH(eng.term(st, args[0]))))], "if_push")

def default(S_or_c, v, ty, name):
    pass

def a_pmap(S, white=True):
    m = S.cont(DC, "color")
    if white: S.assume(fa([x], Implies(VERT(x), Select(val(DC, S.term(m)), x) == 0), Select(val(DC, S.term(m)), x)))
    return S.obj(cls("property_map:AssocPropertyMap"), d=m)

# ---------------------------------------------------------------- ghost record of the events
def gset(st, name, ty, t): st.ghost[name] = (ty, t)
def G_(st, name): return st.ghost[name][1]
def isin(s_, x_): return Select(s_, x_)
def add(st, name, x_):
    ty, t = st.ghost[name]
    st.ghost[name] = (ty, z3.Store(t, x_, BoolVal(True)))
def ghosts(S, names_v, names_e, ints=("cur", "last")):
    for n_ in names_v: S.ghost(n_, VS, empty(VS))
    for n_ in names_e: S.ghost(n_, ESET, empty(ESET))
    for n_ in ints: S.ghost(n_, INT, IntVal(-1) if n_ == "cur" else IntVal(0))
    S.ghost("I", VS, empty(VS)); S.ghost("lev", LV, empty(LV)); S.ghost("started", BOOL, BoolVal(False))

# ---------------------------------------------------------------- breadth first
EVG = ["D", "X", "F"]; EDG = ["EX", "TR", "NT", "GT", "BT"]
LEV = lambda st, x_: Select(val(LV, G_(st, "lev")), x_)

BFSV = "breadth_first_search:DefaultBreadthFirstSearchVisitor"
BFS_EVENTS = dict(initialize_vertex="u", examine_vertex="u", examine_edge="e", tree_edge="e", discover_vertex="u", non_tree_edge="e", gray_target="e", black_target="e", finish_vertex="u")
def bfs_visitor(S, klass=BFSV, given=True):
    ghosts(S, EVG, EDG)
    def ev(f, n_=1):
        def h(eng, st, slf, args, kw):
            f(eng, st, eng.term(st, args[0]))
            return [(st, NONE_)]
        return h
    def ob(eng, st, name, t): eng.oblige(st, "event:" + name, t)
    def discover(eng, st, t):
        g = lambda n_: G_(st, n_)
        ob(eng, st, "a vertex is discovered once", Not(isin(g("D"), t)))
        lv = If(g("started"), LEV(st, g("cur")) + 1, IntVal(0))
        ob(eng, st, "vertices are discovered nearest first", lv >= g("last"))
        lv = eng.named(st, z3.simplify(lv)) if hasattr(eng, "named") else lv
        add(st, "D", t)
        ty, m = st.ghost["lev"]
        st.ghost["lev"] = (ty, mk(LV, z3.Store(dom(LV, m), t, BoolVal(True)), z3.Store(val(LV, m), t, lv)))
        st.ghost["last"] = (INT, lv)
    def examine(eng, st, t):
        ob(eng, st, "a discovered vertex is examined, once", And(isin(G_(st, "D"), t), Not(isin(G_(st, "X"), t))))
        add(st, "X", t); gset(st, "cur", INT, t); gset(st, "started", BOOL, BoolVal(True))
    def exedge(eng, st, t):
        ob(eng, st, "a permitted edge leaving the vertex is examined, once", And(SRC(t) == G_(st, "cur"), MEM(SRC(t), t), PUSH(t), Not(isin(G_(st, "EX"), t))))
        add(st, "EX", t)
    def tree(eng, st, t):
        ob(eng, st, "a tree edge leads to an undiscovered vertex", And(isin(G_(st, "EX"), t), Not(isin(G_(st, "TR"), t)), Not(isin(G_(st, "NT"), t)), Not(isin(G_(st, "D"), TGT_(t)))))
        add(st, "TR", t)
    def nontree(eng, st, t):
        ob(eng, st, "a non-tree edge leads to a discovered vertex", And(isin(G_(st, "EX"), t), Not(isin(G_(st, "TR"), t)), Not(isin(G_(st, "NT"), t)), isin(G_(st, "D"), TGT_(t))))
        add(st, "NT", t)
    def gray(eng, st, t):
        ob(eng, st, "gray target", And(isin(G_(st, "NT"), t), Not(isin(G_(st, "GT"), t)), Not(isin(G_(st, "BT"), t)), isin(G_(st, "D"), TGT_(t)), Not(isin(G_(st, "F"), TGT_(t)))))
        add(st, "GT", t)
    def black(eng, st, t):
        ob(eng, st, "black target", And(isin(G_(st, "NT"), t), Not(isin(G_(st, "GT"), t)), Not(isin(G_(st, "BT"), t)), isin(G_(st, "F"), TGT_(t))))
        add(st, "BT", t)
    def finish(eng, st, t):
        ob(eng, st, "an examined vertex is finished, once", And(t == G_(st, "cur"), isin(G_(st, "X"), t), Not(isin(G_(st, "F"), t))))
        add(st, "F", t)
    def init(eng, st, t):
        ob(eng, st, "a vertex is initialised once, before the search", And(VERT(t), Not(isin(G_(st, "I"), t)), Not(G_(st, "started"))))
        add(st, "I", t)
    hs = dict(discover_vertex=discover, examine_vertex=examine, examine_edge=exedge, tree_edge=tree, non_tree_edge=nontree, gray_target=gray, black_target=black, finish_vertex=finish, initialize_vertex=init)
    S.eng.events = hs
    return S.eng.new_obj(S.st, cls(klass), {}, {n_: ev(f) for n_, f in hs.items()}) if given else NONE_

def event_contract(klass, name, arg):
    "a call of the default visitor's method is the event (the method itself is proved to do nothing)"
    class C(CallContract):
        key = "pybgl.%s.%s" % (klass, name)
        label = name
        def post(s, c):
            c.eng.events[name](c.eng, c.st, c.t(arg))
            return []
        def pre(s, c): return []
        def modifies(s, c): return []
        def result(s, c): return NONE_
    return C()
def do_nothing(klass, name, arg, g="g"):
    return Fn("default %s" % name, "pybgl.%s.%s" % (klass, name), lambda S: [S.obj(cls(klass)), S.const(E_ if arg == "e" else INT, arg), S.const(SYM("Graph"), "g")], post=lambda c: [("answers nothing", BoolVal(isinstance(c.res, Sc) and c.res.ty == NONE))], modifies=lambda c: [])

def color(c, st=None):
    st = st or c.st
    m = c.eng.term(st, c.attr(c.v("pmap_vcolor"), "d", st)); ty = c.eng.typeof(st, c.attr(c.v("pmap_vcolor"), "d", st))
    return lambda x_: Select(val(ty, m), x_)

def queue(c, name="stack"):
    "count of a vertex, length, vertex at absolute position, bounds"
    v_ = c.v(name); ty = c.eng.typeof(c.st, v_)
    if ty.kind == "Untyped": return (lambda x_: IntVal(0)), IntVal(0), (lambda i_: IntVal(0)), IntVal(0), IntVal(0), False
    t = c.t(name)
    return (lambda x_: Select(cnt(ty, t), x_)), seqlen(ty, t), (lambda i_: Select(arr(ty, t), i_)), lo(ty, t), hi(ty, t), True


def bfs_common(c, inner, ghost=True):
    st = c.st; g = c.g; col = color(c); cn, ln, at_, l_, h_, typed = queue(c)
    D, X, F, EX, TR, NT, GT, BT = [g(n_) for n_ in EVG + EDG]; lev = c.named(val(LV, g("lev"))); L_ = lambda x_: Select(lev, x_)
    cur = g("cur"); last = g("last")
    R = [("colours", fa([x], Implies(VERT(x), col(x) == If(isin(F, x), IntVal(2), If(isin(D, x), IntVal(1), IntVal(0)))), col(x), isin(D, x), isin(F, x))),
         ("examined vertices are discovered, finished ones examined", fa([x], And(Implies(isin(F, x), isin(X, x)), Implies(isin(X, x), isin(D, x)), Implies(isin(D, x), VERT(x))), isin(X, x), isin(D, x))),
         ("examined vertices are finished", fa([x], Implies(isin(X, x), Or(isin(F, x), x == cur) if inner else isin(F, x)), isin(X, x))),
         ("the queue holds the discovered vertices to examine, once each", fa([x], cn(x) == If(And(isin(D, x), Not(isin(X, x))), IntVal(1), IntVal(0)), isin(D, x), isin(X, x), *([cn(x)] if typed else []))),
         ("discovered vertices are reached", fa([x], Implies(isin(D, x), And(PATH(x, L_(x)), L_(x) >= 0, L_(x) <= last)), isin(D, x), L_(x))),
         ("nearest at the end of the queue", fa([i, j], Implies(And(l_ <= i, i < j, j < h_), L_(at_(i)) >= L_(at_(j))), *([z3.MultiPattern(at_(i), at_(j))] if typed else []))),
         ("the queue spans two levels", Implies(h_ > l_, And(last <= L_(at_(h_ - 1)) + 1, Implies(And(g("started"), isin(X, cur)), And(L_(cur) <= L_(at_(h_ - 1)))), *([] if g("started") is None else [])))) ,
         ("every start is discovered", fa([x], Implies(IS_SRC(x), And(isin(D, x), L_(x) == 0)), IS_SRC(x))),
         ("edges of finished vertices", fa([x, e], Implies(And(isin(F, x), MEM(x, e), PUSH(e)), And(isin(EX, e), isin(D, TGT_(e)), L_(TGT_(e)) <= L_(x) + 1)), z3.MultiPattern(isin(F, x), MEM(x, e)))),
         ("examined edges", fa([e], Implies(isin(EX, e), And(MEM(SRC(e), e), PUSH(e), isin(X, SRC(e)))), isin(EX, e))),
         ("tree or non-tree", fa([e], And(isin(EX, e) == Or(isin(TR, e), isin(NT, e)), Not(And(isin(TR, e), isin(NT, e)))), isin(EX, e), isin(TR, e), isin(NT, e))),
         ("gray or black", fa([e], And(isin(NT, e) == Or(isin(GT, e), isin(BT, e)), Not(And(isin(GT, e), isin(BT, e)))), isin(NT, e), isin(GT, e), isin(BT, e)))]
    return R

def bfs_outer(c):
    return bfs_common(c, False)

def bfs_inner(c):
    uu = c.t("u"); g = c.g; D, X, F, EX = [g(n_) for n_ in ("D", "X", "F", "EX")]; lev = c.named(val(LV, g("lev")))
    k_ = c.it.key; kpat = lambda j_: Select(OARR(uu), j_)
    return bfs_common(c, True) + [("at the current vertex", And(g("cur") == uu, isin(X, uu), Not(isin(F, uu)), g("started"), g("last") <= Select(lev, uu) + 1)),
        ("edges so far", fa([j], Implies(And(0 <= j, j < c.k, PUSH(kpat(j))), And(isin(EX, kpat(j)), isin(D, TGT_(kpat(j))), Select(lev, TGT_(kpat(j))) <= Select(lev, uu) + 1)), kpat(j))),
        ("edges to come", fa([j], Implies(And(c.k <= j, j < c.n), Not(isin(EX, kpat(j)))), kpat(j)))]

def bfs_sources(c):
    g = c.g; col = color(c); cn, ln, at_, l_, h_, typed = queue(c)
    D = g("D"); lev = c.named(val(LV, g("lev"))); L_ = lambda x_: Select(lev, x_)
    key = c.it.key
    E0 = [n_ for n_ in ("X", "F")]
    return [("not started", And(Not(g("started")), g("last") == 0))] + [("nothing examined", And(g("X") == empty(VS), g("F") == empty(VS), *[g(n_) == empty(ESET) for n_ in EDG])),
        ("colours", fa([x], Implies(VERT(x), col(x) == If(isin(D, x), IntVal(1), IntVal(0))), col(x), isin(D, x))),
        ("the queue", fa([x], cn(x) == If(isin(D, x), IntVal(1), IntVal(0)), isin(D, x), *([cn(x)] if typed else []))),
        ("only starts", fa([x], Implies(isin(D, x), And(IS_SRC(x), L_(x) == 0)), isin(D, x))),
        ("starts so far", fa([j], Implies(And(0 <= j, j < c.n), isin(D, key(j)) == (j < c.k)), key(j))),
        ("in the queue", fa([i], Implies(And(l_ <= i, i < h_), isin(D, at_(i))), *([at_(i)] if typed else []))) ]

def bfs_progress(c):
    F = c.g("F"); F0 = c.head.ghost["F"][1]
    return [("each turn finishes one more vertex (hence termination)", And(Not(isin(F0, c.g("cur"))), isin(F, c.g("cur")), fa([x], Implies(isin(F0, x), isin(F, x)), isin(F0, x))))]

def bfs_end(c, ghost=True):
    g = c.g
    D, X, F, EX, TR, NT, GT, BT = [g(n_) for n_ in EVG + EDG]; lev = c.named(val(LV, g("lev"))); L_ = lambda x_: Select(lev, x_)
    induct(c, "paths end at discovered vertices", lambda k_: fa([x], Implies(PATH(x, k_), And(isin(D, x), L_(x) <= k_)), PATH(x, k_)), IntVal(0), hints=lambda K: [fa([x], PATH_ELIM(x, K), PATH(x, K + 1))])
    return [("every vertex reached by a path is discovered, at the least distance", fa([x, k], Implies(And(k >= 0, PATH(x, k)), And(isin(D, x), L_(x) <= k)), PATH(x, k))),
            ("every vertex discovered is reached by a path of its distance", fa([x], Implies(isin(D, x), And(L_(x) >= 0, PATH(x, L_(x)))), isin(D, x))),
            ("discovered vertices are examined and finished", fa([x], And(isin(X, x) == isin(D, x), isin(F, x) == isin(D, x)), isin(D, x))),
            ("every permitted edge leaving a discovered vertex is examined, and no other", fa([e], isin(EX, e) == And(MEM(SRC(e), e), PUSH(e), isin(D, SRC(e))), isin(EX, e))),
            ("an examined edge is a tree edge or a non-tree edge", fa([e], And(isin(EX, e) == Or(isin(TR, e), isin(NT, e)), Not(And(isin(TR, e), isin(NT, e)))), isin(EX, e))),
            ("a non-tree edge has a gray or a black target", fa([e], And(isin(NT, e) == Or(isin(GT, e), isin(BT, e)), Not(And(isin(GT, e), isin(BT, e)))), isin(NT, e)))]
def bfs_init(c):
    g = c.g; col = color(c); key = c.it.key
    return [("not started", And(Not(g("started")), g("last") == 0)), ("no event", And(g("D") == empty(VS), g("X") == empty(VS), g("F") == empty(VS), *[g(n_) == empty(ESET) for n_ in EDG])),
        ("white so far", fa([x], Implies(And(VERT(x), VPOS(x) < c.k), col(x) == 0), col(x))),
        ("initialised so far", fa([x], isin(g("I"), x) == And(VERT(x), VPOS(x) < c.k), isin(g("I"), x), VERT(x)))]
BFS = "pybgl.breadth_first_search:breadth_first_search"
BFSG = "pybgl.breadth_first_search:breadth_first_search_graph"

# ---------------------------------------------------------------- depth first
DFSV = "depth_first_search:DefaultDepthFirstSearchVisitor"
DFS_EVENTS = dict(initialize_vertex="u", start_vertex="s", discover_vertex="u", examine_edge="e", tree_edge="e", back_edge="e", forward_or_cross_edge="e", finish_vertex="u")
DEG = ["EX", "TR", "BK", "FC"]; PS = SEQ(INT)
def dfs_visitor(S, klass=DFSV, given=True, extra=None):
    for n_ in ("D", "F"): S.ghost(n_, VS, empty(VS))
    for n_ in DEG: S.ghost(n_, ESET, empty(ESET))
    S.ghost("lev", LV, empty(LV)); S.ghost("pidx", LV, empty(LV)); S.ghost("pend", OPT(INT), none(OPT(INT))); S.ghost("plev", INT, IntVal(0))
    S.eng.path = S.eng.alloc(S.st, PS, empty(PS), "path")
    P_ = lambda eng, st: eng.term(st, eng.path)
    top = lambda eng, st: Select(arr(PS, P_(eng, st)), hi(PS, P_(eng, st)) - 1)
    depth = lambda eng, st: hi(PS, P_(eng, st))
    g = lambda st, n_: G_(st, n_)
    def ob(eng, st, name, t): eng.oblige(st, "event:" + name, t)
    def start(eng, st, t):
        ob(eng, st, "a start is announced between two trees", And(IS_SRC(t), depth(eng, st) == 0, is_none(OPT(INT), g(st, "pend"))))
        gset(st, "pend", OPT(INT), some(OPT(INT), t)); gset(st, "plev", INT, IntVal(0))
    def discover(eng, st, t):
        ob(eng, st, "a vertex is discovered once, when announced", And(Not(isin(g(st, "D"), t)), g(st, "pend") == some(OPT(INT), t)))
        gset(st, "pend", OPT(INT), none(OPT(INT)))
        add(st, "D", t)
        ty, m = st.ghost["lev"]
        st.ghost["lev"] = (ty, mk(LV, dom(LV, m), z3.Store(val(LV, m), t, g(st, "plev"))))
        ty, m = st.ghost["pidx"]
        st.ghost["pidx"] = (ty, mk(LV, dom(LV, m), z3.Store(val(LV, m), t, depth(eng, st))))
        eng.m_append(st, eng.path, Sc(INT, t))
    def exedge(eng, st, t):
        ob(eng, st, "a permitted edge leaving the current vertex is examined, once", And(depth(eng, st) > 0, SRC(t) == top(eng, st), MEM(SRC(t), t), PUSH(t), Not(isin(g(st, "EX"), t)), is_none(OPT(INT), g(st, "pend"))))
        add(st, "EX", t)
    once = lambda st, t: And(isin(g(st, "EX"), t), *[Not(isin(g(st, n_), t)) for n_ in DEG[1:]])
    def tree(eng, st, t):
        ob(eng, st, "a tree edge leads to an unseen vertex", And(once(st, t), Not(isin(g(st, "D"), TGT_(t))), is_none(OPT(INT), g(st, "pend"))))
        add(st, "TR", t); gset(st, "pend", OPT(INT), some(OPT(INT), TGT_(t))); gset(st, "plev", INT, LEV(st, SRC(t)) + 1)
    def back(eng, st, t):
        ob(eng, st, "a back edge leads to the current path", And(once(st, t), isin(g(st, "D"), TGT_(t)), Not(isin(g(st, "F"), TGT_(t)))))
        add(st, "BK", t)
    def fc(eng, st, t):
        ob(eng, st, "a forward or cross edge leads to a finished vertex", And(once(st, t), isin(g(st, "F"), TGT_(t))))
        add(st, "FC", t)
    def finish(eng, st, t):
        ob(eng, st, "the last discovered unfinished vertex is finished, once", And(depth(eng, st) > 0, t == top(eng, st), isin(g(st, "D"), t), Not(isin(g(st, "F"), t)), is_none(OPT(INT), g(st, "pend"))))
        add(st, "F", t)
        p_ = P_(eng, st)
        loc = eng.path.loc
        st.heap[loc] = (PS, mk(PS, lo(PS, p_), hi(PS, p_) - 1, arr(PS, p_), cnt(PS, p_)))
    def init(eng, st, t): pass
    hs = dict(start_vertex=start, discover_vertex=discover, examine_edge=exedge, tree_edge=tree, back_edge=back, forward_or_cross_edge=fc, finish_vertex=finish, initialize_vertex=init)
    if extra: hs = extra(hs)
    S.eng.events = hs
    def ev(f):
        def h(eng, st, slf, args, kw):
            r_ = f(eng, st, eng.term(st, args[0]))
            return r_ if r_ is not None else [(st, NONE_)]
        return h
    return S.eng.new_obj(S.st, cls(klass), {}, {n_: ev(f) for n_, f in hs.items()}) if given else NONE_

def FE(c):
    "the permitted out-edges of a vertex, in order: (length, edge at, place of)"
    if not getattr(c.eng, "lifted", None): return OLEN, (lambda u_, i_: Select(OARR(u_), i_)), POS
    fr, fs = c.eng.lifted[0]
    if len(fr) != 1 or fr[0].sort() != z3.IntSort(): raise Unsupported("the list of permitted edges is not a function of the vertex")
    return (lambda u_: fs[0](u_)), (lambda u_, i_: Select(fs[1](u_), i_)), (lambda u_, e_: fs[4](u_, POS(u_, e_)))

def dfs_J(c):
    g = c.g; col = color(c); D, F, EX, TR, BK, FC = [g(n_) for n_ in ["D", "F"] + DEG]; lev = c.named(val(LV, g("lev"))); L_ = lambda x_: Select(lev, x_)
    pt = c.eng.term(c.st, c.eng.path); pa = lambda i_: Select(arr(PS, pt), i_); ph = hi(PS, pt)
    pi_ = c.named(val(LV, g("pidx"))); px = lambda x_: Select(pi_, x_)
    return [("path length", And(lo(PS, pt) == 0, ph >= 0, is_none(OPT(INT), g("pend")))),
        ("colours", fa([x], Implies(VERT(x), col(x) == If(isin(F, x), IntVal(2), If(isin(D, x), IntVal(1), IntVal(0)))), col(x), isin(D, x), isin(F, x))),
        ("finished vertices are discovered", fa([x], And(Implies(isin(F, x), isin(D, x)), Implies(isin(D, x), VERT(x))), isin(F, x), isin(D, x))),
        ("the path holds the open vertices", fa([i], Implies(And(0 <= i, i < ph), And(isin(D, pa(i)), Not(isin(F, pa(i))))), pa(i))),
        ("each once", fa([i], Implies(And(0 <= i, i < ph), px(pa(i)) == i), pa(i))),
        ("open vertices are on the path", fa([x], Implies(And(isin(D, x), Not(isin(F, x))), And(0 <= px(x), px(x) < ph, pa(px(x)) == x)), isin(D, x))),
        ("discovered vertices are reached", fa([x], Implies(isin(D, x), And(PATH(x, L_(x)), L_(x) >= 0)), isin(D, x), L_(x))),
        ("edges of finished vertices", fa([x, e], Implies(And(isin(F, x), MEM(x, e), PUSH(e)), And(isin(EX, e), isin(D, TGT_(e)))), z3.MultiPattern(isin(F, x), MEM(x, e)))),
        ("examined edges", fa([e], Implies(isin(EX, e), And(MEM(SRC(e), e), PUSH(e), isin(D, SRC(e)))), isin(EX, e))),
        ("tree, back, or forward or cross edges", fa([e], And(isin(EX, e) == Or(isin(TR, e), isin(BK, e), isin(FC, e)), Not(And(isin(TR, e), isin(BK, e))), Not(And(isin(TR, e), isin(FC, e))), Not(And(isin(BK, e), isin(FC, e)))), isin(EX, e), isin(TR, e), isin(BK, e), isin(FC, e)))]

def dfs_frames(c, top):
    c.D0 = c.entry.ghost["D"][1]; c.eng.carry(c.st, c.D0); c.D0 = c.named(c.D0)
    "the frames of the stack follow the path"
    g = c.g; D, EX = g("D"), g("EX"); fn, fe_, inv_ = FE(c)
    sv = c.v("stack"); sty = c.ty(sv); st_ = c.t("stack"); T3_ = sty.args[0]
    pt = c.eng.term(c.st, c.eng.path); pa = lambda i_: Select(arr(PS, pt), i_); ph = hi(PS, pt)
    fr = lambda i_, k_: fld(T3_, Select(arr(sty, st_), i_), k_)
    done = lambda u_, n_: fa([j], Implies(And(0 <= j, j < n_), And(isin(EX, fe_(u_, j)), isin(D, TGT_(fe_(u_, j))))), fe_(u_, j))
    R = [("stack length", And(lo(sty, st_) == 0, hi(sty, st_) >= 0, hi(sty, st_) + (1 if top else 0) == ph)),
        ("frames follow the path", fa([i], Implies(And(0 <= i, i < hi(sty, st_)), And(fr(i, 0) == pa(i), 0 <= fr(i, 1), fr(i, 1) <= fr(i, 2), fr(i, 2) == fn(pa(i)))), Select(arr(sty, st_), i), pa(i))),
        ("edges done below", fa([i, j], Implies(And(0 <= i, i < hi(sty, st_), 0 <= j, j < fr(i, 1)), And(isin(EX, fe_(pa(i), j)), isin(D, TGT_(fe_(pa(i), j))))), fe_(pa(i), j))),
        ("edges to do below", fa([i, j], Implies(And(0 <= i, i < hi(sty, st_), fr(i, 1) <= j, j < fn(pa(i))), Not(isin(EX, fe_(pa(i), j)))), fe_(pa(i), j))),
        ("edges below", fa([i, j], Implies(And(0 <= i, i < ph, 0 <= j, j < fn(pa(i))), And(MEM(pa(i), fe_(pa(i), j)), PUSH(fe_(pa(i), j)), inv_(pa(i), fe_(pa(i), j)) == j)), fe_(pa(i), j))),
        ("discovered vertices stay", fa([x], Implies(isin(c.D0, x), isin(D, x)), isin(c.D0, x)))]
    if top:
        uu, ii, nn = c.t("u"), c.t("i"), c.t("n"); ue = c.v("u_edges"); ut = c.t("u_edges"); uty = c.ty(ue)
        R += [("at the end of the path", And(ph > 0, pa(ph - 1) == uu, 0 <= ii, ii <= nn, nn == fn(uu))),
            ("its permitted edges", And(lo(uty, ut) == 0, hi(uty, ut) == nn, fa([j], Implies(And(0 <= j, j < nn), Select(arr(uty, ut), j) == fe_(uu, j)), Select(arr(uty, ut), j)))),
            ("edges done", fa([j], Implies(And(0 <= j, j < ii), And(isin(EX, fe_(uu, j)), isin(D, TGT_(fe_(uu, j))))), fe_(uu, j))),
            ("edges to do", fa([j], Implies(And(ii <= j, j < nn), Not(isin(EX, fe_(uu, j)))), fe_(uu, j))),
            ("permitted edges", fa([e], Implies(And(MEM(uu, e), PUSH(e)), Not(fa([j], Implies(And(0 <= j, j < nn), fe_(uu, j) != e), fe_(uu, j)))), MEM(uu, e)))]
    return R
def dfs_starts(c): return [("starts so far", fa([x], Implies(c.eng.is_started(c, x), isin(c.g("D"), x))))] if getattr(c.eng, "is_started", None) else []
def dfs_outer(c): return dfs_J(c) + dfs_frames(c, False)
def dfs_inner(c): return dfs_J(c) + dfs_frames(c, True)
def dfs_end(c):
    g = c.g; D, F, EX, TR, BK, FC = [g(n_) for n_ in ["D", "F"] + DEG]; lev = c.named(val(LV, g("lev")))
    induct(c, "paths end at discovered vertices", lambda k_: fa([x], Implies(PATH(x, k_), isin(D, x)), PATH(x, k_)), IntVal(0), hints=lambda K: [fa([x], PATH_ELIM(x, K), PATH(x, K + 1))])
    pt = c.eng.term(c.st, c.eng.path)
    return [("every open vertex was closed (proper nesting)", And(hi(PS, pt) == 0, is_none(OPT(INT), g("pend")))),
        ("every vertex reached by a path is discovered", fa([x, k], Implies(And(k >= 0, PATH(x, k)), isin(D, x)), PATH(x, k))),
        ("every vertex discovered is reached by a path", fa([x], Implies(isin(D, x), And(Select(lev, x) >= 0, PATH(x, Select(lev, x)))), isin(D, x))),
        ("discovered vertices are finished", fa([x], isin(F, x) == isin(D, x), isin(D, x))),
        ("every permitted edge leaving a discovered vertex is examined, and no other", fa([e], isin(EX, e) == And(MEM(SRC(e), e), PUSH(e), isin(D, SRC(e))), isin(EX, e))),
        ("each is a tree, a back, or a forward or cross edge", fa([e], And(isin(EX, e) == Or(isin(TR, e), isin(BK, e), isin(FC, e)), Not(And(isin(TR, e), isin(BK, e))), Not(And(isin(TR, e), isin(FC, e))), Not(And(isin(BK, e), isin(FC, e)))), isin(EX, e)))]
DFS = "pybgl.depth_first_search:depth_first_search"
DFSG = "pybgl.depth_first_search:depth_first_search_graph"
def dfs_g_inv(c):
    g = c.g; D, F = g("D"), g("F"); key = c.it.key
    pt = c.eng.term(c.st, c.eng.path)
    return dfs_J(c) + [("between two trees", hi(PS, pt) == 0), ("starts so far", fa([j], Implies(And(0 <= j, j < c.k), isin(D, key(j))), key(j)))]
def grows(name, what):
    def f(c):
        F = c.g(name); F0 = c.head.ghost[name][1]; c.eng.carry(c.st, F0); F0 = c.named(F0)
        ty = c.st.ghost[name][0].args[0]; z_ = Const("z!g", sort(ty))
        return [("each turn %s one more (hence termination)" % what, And(Not(fa([z_], Implies(isin(F, z_), isin(F0, z_)), isin(F, z_))), fa([z_], Implies(isin(F0, z_), isin(F, z_)), isin(F0, z_))))]
    return f
DFS_LOOPS = {(DFS, 0): LoopSpec(inv=dfs_outer, lemma=grows("F", "finishes")), (DFS, 1): LoopSpec(inv=dfs_inner, lemma=grows("EX", "examines")), (DFSG, 0): LoopSpec(inv=dfs_g_inv)}
def lifting(eng): eng.lift_comp = True
