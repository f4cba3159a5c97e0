"""Contracts of the directed multigraph (pybgl.graph)."""
from contracts.lib import *
DG = cls("graph:DirectedGraph")
G = "pybgl.graph:"

TRUSTED_BASE = ["pyvc: the verification-condition generator of /verif/pyvc (symbolic execution of the Python source of /repo, read on every run)",
                "the semantics it gives to CPython's int, bool, tuple, set, dict, defaultdict, list, deque, generator expressions and comprehensions",
                "z3 and cvc5"]
ASSUME_BASE = ["integers are mathematical (Python's are)", "arguments have the documented types", "a generator is consumed before the graph is modified again", "partial correctness where a while loop has no variant: termination is then not proved", "recursion limit, memory exhaustion and asynchronous exceptions are not modelled"]

def st_graph(S):
    return graph_obj(S, DG)

def inv(c, g="self"):
    adj, last = c.at(g, "adjacencies"), c.at(g, "last_vertex_id")
    return [("invariant: " + nm, t) for nm, t in wf_graph(adj, last) + nonempty_cells(adj)]

def A(c, g="self"): return c.at(g, "adjacencies")
def A0(c, g="self"): return c.at(g, "adjacencies", c.old)
def adjref(c, g="self"): return c.attr(g, "adjacencies")

def is_edge(adj):
    return lambda e: EDGE(adj, esrc(e), etgt(e), edis(e))

def same_vertices(c): return ("vertices are unchanged", fa([u], VX(A(c), u) == VX(A0(c), u)))
def same_edges(c): return ("edges are unchanged", fe(EDGE(A(c), u, v, n) == EDGE(A0(c), u, v, n), A(c), A0(c)))

def edge_of(c, x): return c.t(x.xs[0] if isinstance(x, TupV) else x)

isdg = is_class("self", DG)

add_vertex = Fn("add_vertex", G + "Graph.add_vertex", lambda S: [st_graph(S)], inv,
    lambda c: inv(c) + [
        ("the identifier was free", Not(VX(A0(c), c.t(c.res)))),
        ("the identifier is positive", c.t(c.res) >= 0),
        ("vertices", fa([u], VX(A(c), u) == Or(VX(A0(c), u), u == c.t(c.res)))),
        ("identifiers in use stay below the next one", And(c.t(c.res) == c.at("self", "last_vertex_id", c.old), c.at("self", "last_vertex_id") == c.t(c.res) + 1)),
        same_edges(c)],
    modifies=lambda c: [adjref(c), (c.v("self"), "last_vertex_id")], result=lambda c: c.eng.fresh_value(INT, "vid", c.st), when=isdg)

add_edge = Fn("add_edge", G + "Graph.add_edge", lambda S: [st_graph(S), S.int("u"), S.int("v")],
    lambda c: inv(c) + [("u is a vertex", VX(A(c), c.t("u"))), ("v is a vertex", VX(A(c), c.t("v")))],
    lambda c: inv(c) + [
        ("reports success", c.eng.truth(c.st, c.res.xs[1])),
        ("endpoints", And(esrc(edge_of(c, c.res)) == c.t("u"), etgt(edge_of(c, c.res)) == c.t("v"))),
        ("different from every stored edge", Not(EDGE(A0(c), c.t("u"), c.t("v"), edis(edge_of(c, c.res))))),
        same_vertices(c),
        ("edges", fe(EDGE(A(c), u, v, n) == Or(EDGE(A0(c), u, v, n), And(u == c.t("u"), v == c.t("v"), n == edis(edge_of(c, c.res)))), A(c), A0(c)))],
    modifies=lambda c: [adjref(c)], result=lambda c: TupV([c.eng.fresh_value(ED, "new_edge", c.st), B(c.eng.fresh(BOOL, "added", c.st))]), when=isdg)

def weak_inv(c, g="self"):
    "the invariant without the bound by last_vertex_id (clear() resets it first)"
    adj = A(c, g)
    return [("invariant: " + nm, t) for nm, t in wf_graph(adj, IntVal(0))[2:] + nonempty_cells(adj)]

def bounded(adj, last): return And(last >= 0, fa([u], Implies(VX(adj, u), And(0 <= u, u < last)), VX(adj, u)))

def bound_kept(c):
    return ("identifiers stay below the next one", Implies(bounded(A0(c), c.at("self", "last_vertex_id", c.old)), bounded(A(c), c.at("self", "last_vertex_id"))))

remove_edge = Fn("remove_edge", G + "Graph.remove_edge", lambda S: [st_graph(S), S.const(ED, "e")],
    lambda c: weak_inv(c) + [("the edge is stored", is_edge(A(c))(c.t("e")))],
    lambda c: weak_inv(c) + [
        same_vertices(c), bound_kept(c),
        ("edges", fe(EDGE(A(c), u, v, n) == And(EDGE(A0(c), u, v, n), Not(And(u == esrc(c.t("e")), v == etgt(c.t("e")), n == edis(c.t("e"))))), A(c), A0(c)))],
    modifies=lambda c: [adjref(c)], when=isdg)

def listing(name, method, member, ety=ED, args=lambda S: [], uses=()):
    return Fn(name, G + "Graph." + method, lambda S: [st_graph(S)] + args(S), inv,
              lambda c: enumerates(*as_list(c, ety=ety), ety, member(c)), modifies=lambda c: [], consume=to_list, uses=uses)

out_of = lambda c: lambda e: And(is_edge(A0(c))(e), esrc(e) == c.t("u"))
all_edges = lambda c: is_edge(A0(c))
an_int = lambda S: [S.int("u")]
vertices = listing("vertices", "vertices", lambda c: lambda x: VX(A0(c), x), INT)
edges = listing("edges", "edges", all_edges)
out_edges = listing("out_edges", "out_edges", out_of, ED, an_int)

def counting(name, method, member, ety=ED, args=lambda S: []):
    return Fn(name, G + "Graph." + method, lambda S: [st_graph(S)] + args(S), inv,
              lambda c: counted(c, (G + "__len_gen__", 0), ety, member(c), c.t(c.res)), modifies=lambda c: [], loops=LEN_GEN)

num_vertices = counting("num_vertices", "num_vertices", lambda c: lambda x: VX(A0(c), x), INT)
num_edges = counting("num_edges", "num_edges", all_edges)
out_degree = counting("out_degree", "out_degree", out_of, ED, an_int)

def has(name, method, ex, args=lambda S: []):
    return Fn(name, G + "Graph." + method, lambda S: [st_graph(S)] + args(S), inv,
              lambda c: [("answer", c.eng.truth(c.st, c.res) == ex(c))], modifies=lambda c: [],
              loops={(G + "Graph." + method, 0): LoopSpec(inv=lambda c: [("first", c.k == 0)])})
has_vertex = has("has_vertex", "has_vertex", lambda c: Exists([u], VX(A0(c), u)))
has_edge = has("has_edge", "has_edge", lambda c: Exists([u, v, n], EDGE(A0(c), u, v, n)))

def edge_post(c):
    e, found = c.res.xs
    uu, vv, adj = c.t("u"), c.t("v"), A0(c)
    f = c.eng.truth(c.st, found)
    one = And(EDGE(adj, uu, vv, n), fa([n2], Implies(EDGE(adj, uu, vv, n2), n2 == n)))
    OE = OPT(ED)
    t = c.t(e, OE)
    return [("found exactly when there is one and only one", f == Exists([n], one)),
            ("the edge found", Implies(f, And(is_some(OE, t), esrc(optval(OE, t)) == uu, etgt(optval(OE, t)) == vv, EDGE(adj, uu, vv, edis(optval(OE, t)))))),
            ("nothing otherwise", Implies(Not(f), is_none(OE, t)))]
edge = Fn("edge", G + "Graph.edge", lambda S: [st_graph(S), S.int("u"), S.int("v")], inv, edge_post, modifies=lambda c: [])

def rv_common(c, gone):
    """state of the graph while the edges touching u are removed from list L (c.it): first k items handled"""
    adj, adj0, uu = A(c), c.at("self", "adjacencies", c.entry), c.t("u")
    L = lambda x: c.it.key(x)
    return weak_inv(c) + [("vertices", fa([u], VX(adj, u) == VX(adj0, u))),
        ("only edges touching u go", fe(EDGE(adj, u, v, n) == And(EDGE(adj0, u, v, n), Or(Not(gone(u, v, uu)), EDGE(adj, u, v, n))), adj, adj0)),
        ("the handled ones are gone", fa([j], Implies(And(0 <= j, j < c.k, gone(esrc(L(j)), etgt(L(j)), uu)), Not(is_edge(adj)(L(j)))))),
        ("the others are there", fa([j], Implies(And(c.k <= j, j < c.n), is_edge(adj)(L(j))), L(j)))]
remove_vertex = Fn("remove_vertex", G + "Graph.remove_vertex", lambda S: [st_graph(S), S.int("u")],
    lambda c: weak_inv(c) + [("u is a vertex", VX(A(c), c.t("u")))],
    lambda c: weak_inv(c) + [bound_kept(c), ("vertices", fa([u], VX(A(c), u) == And(VX(A0(c), u), u != c.t("u")))),
        ("edges", fe(EDGE(A(c), u, v, n) == And(EDGE(A0(c), u, v, n), u != c.t("u"), v != c.t("u")), A(c), A0(c)))],
    modifies=lambda c: [adjref(c)], uses=[remove_edge], when=isdg,
    loops={(G + "Graph.remove_vertex", 0): LoopSpec(inv=lambda c: rv_common(c, lambda a, b, x: b == x)),
           (G + "Graph.remove_vertex", 1): LoopSpec(inv=lambda c: rv_common(c, lambda a, b, x: a == x))})

def clear_inv(c):
    adj, adj0 = A(c), c.at("self", "adjacencies", c.entry)
    L = lambda x: c.it.key(x)
    return weak_inv(c) + [
            ("handled vertices are gone", fa([j], Implies(And(0 <= j, j < c.k), Not(VX(adj, L(j)))))),
            ("the others are there", fa([j], Implies(And(c.k <= j, j < c.n), VX(adj, L(j))), L(j))),
            ("no other", fa([u], Implies(VX(adj, u), VX(adj0, u))))]
clear = Fn("clear", G + "Graph.clear", lambda S: [st_graph(S)], inv,
    lambda c: inv(c) + [("no vertex", fa([u], Not(VX(A(c), u)))), ("no edge", fa([u, v, n], Not(EDGE(A(c), u, v, n))))],
    modifies=lambda c: [adjref(c), (c.v("self"), "last_vertex_id")], uses=[remove_vertex], loops={(G + "Graph.clear", 0): LoopSpec(inv=clear_inv)})

def new_graph(S):
    g = S.obj(DG)
    return [g, S.int("num_vertices")]
constructor = Fn("constructor", G + "DirectedGraph.__init__", new_graph, lambda c: [("size", c.t("num_vertices") >= 0)],
    lambda c: inv(c) + [("directed", c.eng.truth(c.st, c.attr("self", "directed"))), ("vertices", fa([u], VX(A(c), u) == And(0 <= u, u < c.t("num_vertices")))), ("no edge", fa([u, v, n], Not(EDGE(A(c), u, v, n))))],
    uses=[add_vertex], types={"adjacencies": ADJ},
    loops={(G + "Graph.__init__", 0): LoopSpec(inv=lambda c: inv(c) + [("next", c.at("self", "last_vertex_id") == c.k), ("vertices", fa([u], VX(A(c), u) == And(0 <= u, u < c.k))), ("no edge", fa([u, v, n], Not(EDGE(A(c), u, v, n))))])})

def directed_graph_proofs():
    return [f.proof() for f in (constructor, add_vertex, add_edge, remove_edge, vertices, edges, out_edges, num_vertices, num_edges, out_degree, has_vertex, has_edge, edge, remove_vertex, clear)]
