"""Contracts of the undirected multigraph: a symmetric store of (u, v, n)."""
from contracts.graphs import *
import contracts.graphs as D
UG = cls("graph:UndirectedGraph")
U = G + "UndirectedGraph."
NOTE = "every method of UndirectedGraph proved against the mathematical undirected multigraph it denotes (a symmetric relation on vertices), with the invariant of the adjacency store; whole histories follow by induction over the operations"
TRUSTED = TRUSTED_BASE
ASSUMPTIONS = ASSUME_BASE

def st_graph(S): return graph_obj(S, UG, directed=False)
isug = is_class("self", UG)

def weak(c):
    adj = A(c)
    return [("invariant: ends are vertices", fe(Implies(EDGE(adj, u, v, n), VX(adj, v)), adj)),
            ("invariant: symmetric", fe(EDGE(adj, u, v, n) == EDGE(adj, v, u, n), adj))]
def inv(c): return weak(c) + [("invariant: identifiers in use are below the next one", bounded(A(c), c.at("self", "last_vertex_id")))]

def same(a, b, m, e): return And(a == esrc(e), b == etgt(e), m == edis(e))
def same_u(a, b, m, e): return Or(same(a, b, m, e), same(b, a, m, e))

add_vertex = Fn("add_vertex", G + "Graph.add_vertex", lambda S: [st_graph(S)], inv,
    lambda c: inv(c) + [
        ("the identifier was free", And(Not(VX(A0(c), c.t(c.res))), c.t(c.res) >= 0)),
        ("vertices", fa([u], VX(A(c), u) == Or(VX(A0(c), u), u == c.t(c.res)))),
        ("identifiers", And(c.t(c.res) == c.at("self", "last_vertex_id", c.old), c.at("self", "last_vertex_id") == c.t(c.res) + 1)), same_edges(c)],
    modifies=lambda c: [adjref(c), (c.v("self"), "last_vertex_id")], result=lambda c: c.eng.fresh_value(INT, "vid", c.st), when=isug)

add_edge = Fn("add_edge", U + "add_edge", lambda S: [st_graph(S), S.int("u"), S.int("v")],
    lambda c: inv(c) + [("u is a vertex", VX(A(c), c.t("u"))), ("v is a vertex", VX(A(c), c.t("v")))],
    lambda c: inv(c) + [
        ("reports success", c.eng.truth(c.st, c.res.xs[1])),
        ("endpoints", Or(And(esrc(edge_of(c, c.res)) == c.t("u"), etgt(edge_of(c, c.res)) == c.t("v")), And(esrc(edge_of(c, c.res)) == c.t("v"), etgt(edge_of(c, c.res)) == c.t("u")))),
        ("normalised", esrc(edge_of(c, c.res)) <= etgt(edge_of(c, c.res))),
        ("different from every stored edge", Not(is_edge(A0(c))(edge_of(c, c.res)))),
        same_vertices(c),
        ("edges", fe(EDGE(A(c), u, v, n) == Or(EDGE(A0(c), u, v, n), same_u(u, v, n, edge_of(c, c.res))), A(c), A0(c)))],
    modifies=lambda c: [adjref(c)])

remove_edge = Fn("remove_edge", U + "remove_edge", lambda S: [st_graph(S), S.const(ED, "e")],
    lambda c: weak(c) + [("the edge is stored", is_edge(A(c))(c.t("e")))],
    lambda c: weak(c) + [same_vertices(c), bound_kept(c),
        ("edges", fe(EDGE(A(c), u, v, n) == And(EDGE(A0(c), u, v, n), Not(same_u(u, v, n, c.t("e")))), A(c), A0(c)))],
    modifies=lambda c: [adjref(c)], when=isug)

def listing(name, key, member, ety=ED, args=lambda S: []):
    return Fn(name, key, lambda S: [st_graph(S)] + args(S), inv,
              lambda c: enumerates(*as_list(c, ety=ety), ety, member(c)), modifies=lambda c: [], consume=to_list)
def counting(name, key, member, ety=ED, args=lambda S: []):
    return Fn(name, key, lambda S: [st_graph(S)] + args(S), inv,
              lambda c: counted(c, (G + "__len_gen__", 0), ety, member(c), c.t(c.res)), modifies=lambda c: [], loops=LEN_GEN)
once = lambda c: lambda e: And(is_edge(A0(c))(e), esrc(e) <= etgt(e))
out_of = lambda c: lambda e: And(is_edge(A0(c))(e), esrc(e) == c.t("u"))
vert = lambda c: lambda x: VX(A0(c), x)
an_int = lambda S: [S.int("u")]
has_vertex = Fn("has_vertex", G + "Graph.has_vertex", lambda S: [st_graph(S)], inv, lambda c: [("answer", c.eng.truth(c.st, c.res) == Exists([u], VX(A0(c), u)))], modifies=lambda c: [],
    loops={(G + "Graph.has_vertex", 0): LoopSpec(inv=lambda c: [("first", c.k == 0)])})
has_edge = Fn("has_edge", G + "Graph.has_edge", lambda S: [st_graph(S)], inv, lambda c: [("answer", c.eng.truth(c.st, c.res) == Exists([u, v, n], EDGE(A0(c), u, v, n)))], modifies=lambda c: [],
    loops={(G + "Graph.has_edge", 0): LoopSpec(inv=lambda c: [("first", c.k == 0)])})
edge = Fn("edge", G + "Graph.edge", lambda S: [st_graph(S), S.int("u"), S.int("v")], inv, edge_post, modifies=lambda c: [])

def rv(c, second):
    adj, adj0, uu = A(c), c.at("self", "adjacencies", c.entry), c.t("u")
    L = lambda x: c.it.key(x)
    return weak(c) + [("vertices", fa([u], VX(adj, u) == VX(adj0, u))),
        ("only edges touching u go", fe(EDGE(adj, u, v, n) == And(EDGE(adj0, u, v, n), Or(And(u != uu, v != uu), EDGE(adj, u, v, n))), adj, adj0)),
        ("the handled ones are gone", fa([j], Implies(And(0 <= j, j < c.k, (esrc if second else etgt)(L(j)) == uu), Not(is_edge(adj)(L(j)))), L(j))),
        ("the others are there", fa([j], Implies(And(c.k <= j, j < c.n), is_edge(adj)(L(j))), L(j)))] + ([
        ("no edge comes from below", fe(Implies(EDGE(adj, u, v, n), Not(And(v == uu, u <= v))), adj))] if second else [])
remove_vertex = Fn("remove_vertex", G + "Graph.remove_vertex", lambda S: [st_graph(S), S.int("u")],
    lambda c: weak(c) + [("u is a vertex", VX(A(c), c.t("u")))],
    lambda c: weak(c) + [bound_kept(c), ("vertices", fa([u], VX(A(c), u) == And(VX(A0(c), u), u != c.t("u")))),
        ("edges", fe(EDGE(A(c), u, v, n) == And(EDGE(A0(c), u, v, n), u != c.t("u"), v != c.t("u")), A(c), A0(c)))],
    modifies=lambda c: [adjref(c)], uses=[remove_edge], when=isug,
    loops={(G + "Graph.remove_vertex", 0): LoopSpec(inv=lambda c: rv(c, False)), (G + "Graph.remove_vertex", 1): LoopSpec(inv=lambda c: rv(c, True))})

def clear_inv(c):
    adj, adj0 = A(c), c.at("self", "adjacencies", c.entry)
    L = lambda x: c.it.key(x)
    return weak(c) + [("handled vertices are gone", fa([j], Implies(And(0 <= j, j < c.k), Not(VX(adj, L(j)))))),
            ("the others are there", fa([j], Implies(And(c.k <= j, j < c.n), VX(adj, L(j))), L(j))),
            ("no other", fa([u], Implies(VX(adj, u), VX(adj0, u))))]
clear = Fn("clear", G + "Graph.clear", lambda S: [st_graph(S)], inv,
    lambda c: inv(c) + [("no vertex", fa([u], Not(VX(A(c), u)))), ("no edge", fa([u, v, n], Not(EDGE(A(c), u, v, n))))],
    modifies=lambda c: [adjref(c), (c.v("self"), "last_vertex_id")], uses=[remove_vertex], loops={(G + "Graph.clear", 0): LoopSpec(inv=clear_inv)})
constructor = Fn("constructor", U + "__init__", lambda S: [S.obj(UG), S.int("num_vertices")], lambda c: [("size", c.t("num_vertices") >= 0)],
    lambda c: inv(c) + [("undirected", Not(c.eng.truth(c.st, c.attr("self", "directed")))), ("vertices", fa([u], VX(A(c), u) == And(0 <= u, u < c.t("num_vertices")))), ("no edge", fa([u, v, n], Not(EDGE(A(c), u, v, n))))],
    uses=[add_vertex], types={"adjacencies": ADJ},
    loops={(G + "Graph.__init__", 0): LoopSpec(inv=lambda c: inv(c) + [("next", c.at("self", "last_vertex_id") == c.k), ("vertices", fa([u], VX(A(c), u) == And(0 <= u, u < c.k))), ("no edge", fa([u, v, n], Not(EDGE(A(c), u, v, n))))])})

PROOFS = [f.proof() for f in (constructor, add_vertex, add_edge, remove_edge, remove_vertex, clear, has_vertex, has_edge, edge,
    listing("vertices", G + "Graph.vertices", vert, INT), listing("edges", U + "edges", once), listing("out_edges", U + "out_edges", out_of, ED, an_int), listing("in_edges", U + "in_edges", out_of, ED, an_int),
    counting("num_vertices", G + "Graph.num_vertices", vert, INT), counting("num_edges", G + "Graph.num_edges", once), counting("out_degree", G + "Graph.out_degree", out_of, ED, an_int), counting("in_degree", G + "Graph.in_degree", out_of, ED, an_int))]
