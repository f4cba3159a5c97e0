"""Shared specification vocabulary."""
import sys, importlib
import z3
from z3 import And, Or, Not, Implies, ForAll, Exists, Select, If, Int, IntVal, BoolVal, Const, Consts, Ints
from pyvc.types import *
from pyvc.types import dom, val, cnt, seqlen, seqat
from pyvc.engine import *
from pyvc.engine2 import CallContract
from pyvc.proof import Proof, Lemma, Setup

u, v, n, u2, v2, n2, q, r, p, i, j, k = Ints("u v n u2 v2 n2 q r p i j k")

def instance(name, **params):
    "a specification module read again with other parameters"
    import importlib.util, os
    sp = importlib.util.spec_from_file_location("contracts.%s!%s" % (name, "_".join(params)), os.path.join(os.path.dirname(os.path.abspath(__file__)), name + ".py"))
    m = importlib.util.module_from_spec(sp)
    m.__dict__.update(params)
    sp.loader.exec_module(m)
    return m

def fa(vs, body, *pats):
    vs = vs if isinstance(vs, (list, tuple)) else [vs]
    return ForAll(list(vs), body, patterns=list(pats)) if pats else ForAll(list(vs), body)

def cls(path):
    m, c = path.split(":")
    return getattr(importlib.import_module("pybgl." + m), c)

# ---------------------------------------------------------------- multigraph store
ADJ = MAP(INT, MAP(INT, SET(INT)))
A1, A2 = ADJ, ADJ.args[1]
ED = REC("EdgeDescriptor", ["source", "target", "distinguisher"], INT, INT, INT)

def VX(adj, a):
    return Select(dom(A1, adj), a)

def ROW(adj, a):
    return Select(val(A1, adj), a)

def PAIR(adj, a, b):
    return And(VX(adj, a), Select(dom(A2, ROW(adj, a)), b))

def CELL(adj, a, b):
    return Select(val(A2, ROW(adj, a)), b)

def EDGE(adj, a, b, c):
    return And(PAIR(adj, a, b), Select(CELL(adj, a, b), c))

def esrc(e): return fld(ED, e, 0)
def etgt(e): return fld(ED, e, 1)
def edis(e): return fld(ED, e, 2)
def mkE(a, b, c): return mk(ED, a, b, c)

def fe(body, *adjs):
    "for all edges (u, v, n), triggered by membership in one of the stores"
    return ForAll([u, v, n], body, patterns=[Select(CELL(a, u, v), n) for a in adjs])

EMPTYSET = empty(SET(INT))

def wf_graph(adj, last):
    return [("identifiers in use are below the next one", fa([u], Implies(VX(adj, u), And(0 <= u, u < last)), VX(adj, u))),
            ("next identifier", last >= 0),
            ("targets are vertices", fa([u, v], Implies(PAIR(adj, u, v), VX(adj, v)), Select(dom(A2, ROW(adj, u)), v)))]

def nonempty_cells(adj):
    return [("no empty bundle", fa([u, v], Implies(PAIR(adj, u, v), CELL(adj, u, v) != EMPTYSET), Select(dom(A2, ROW(adj, u)), v)))]

def graph_obj(S, c, directed=True):
    adj = S.cont(ADJ, "adj")
    last = S.int("last")
    g = S.obj(c, directed=B(directed), last_vertex_id=last, adjacencies=adj)
    S.g, S.adj0, S.last0 = g, S.term(adj), last.t
    return g

# ---------------------------------------------------------------- contracts shared by the proof and the callers
class Fn:
    """one contract: the body is proved against it, callers see only it"""

    def __init__(self, name, key, setup=None, pre=None, post=None, modifies=None, result=None, raises=None, when=None, uses=(), **kw):
        self.name, self.key, self.setup, self.pre, self.post, self.modifies = name, key, setup, pre or (lambda c: []), post or (lambda c: []), modifies
        self.result, self.raises, self.when, self.uses, self.kw = result or (lambda c: NONE_), raises or {}, when, uses, kw

    def proof(self):
        return Proof(self.name, self.key, self.setup, pre=self.pre, post=self.post, raises=self.raises, modifies=self.modifies,
                     contracts=[x.call() if isinstance(x, Fn) else x for x in self.uses], **self.kw)

    def call(self):
        f = self
        class C(CallContract):
            key = f.key
            label = f.name
            def when(s, eng, st, a): return f.when(eng, st, a) if f.when else True
            def pre(s, c): return f.pre(c)
            def modifies(s, c): return f.modifies(c) if f.modifies else []
            def result(s, c): return f.result(c)
            def post(s, c): return f.post(c)
            def exceptional(s, c): return [(k, sp) for k, sp in f.raises.items()]
        C.__name__ = "C_" + f.name.replace(" ", "_")
        return C()

def is_class(name, *classes):
    """the argument is an object of one of the classes"""
    def when(eng, st, a):
        x = a.get(name)
        return isinstance(x, ObjV) and isinstance(st.objs[x.oid][0], type) and issubclass(st.objs[x.oid][0], classes)
    return when

def to_list(eng, st, v):
    return eng.builtin(st, "list", [v], {})

def to_set(eng, st, v):
    return eng.builtin(st, "set", [v], {})

def as_list(c, x=None, ety=None):
    """(length, item at i) of a list value"""
    x = c.res if x is None else x
    if isinstance(x, LitV) and not x.xs:
        return IntVal(0), (lambda i: c.eng.fresh(ety, "none", c.st))
    ty = c.ty(x)
    if ty.kind == "Untyped":
        return IntVal(0), (lambda i: default(ety))
    t = c.t(x)
    return seqlen(ty, t), (lambda i: seqat(ty, t, i))

def enumerates(n, at, ty, member, what="listed"):
    """positions 0..n-1 enumerate exactly the members, each once"""
    x = Const("x!m", sort(ty))
    return [("only members are " + what, fa([i], Implies(And(0 <= i, i < n), member(at(i))))),
            ("every member is " + what, fa([x], Implies(member(x), Exists([i], And(0 <= i, i < n, at(i) == x))))),
            ("each is %s once" % what, fa([i, j], Implies(And(0 <= i, i < j, j < n), at(i) != at(j))))]

def counted(c, loopkey, ty, member, res):
    """the loop that computed res ran over an enumeration of the members, of length res"""
    it = c.st.notes.get(("it",) + loopkey)
    if it is None:
        x = Const("x!m", sort(ty))
        return [("no member, count zero", And(res == 0, fa([x], Not(member(x)))))]
    return [("the count is that of the enumeration", res == it.n)] + enumerates(it.n, it.key, ty, member, "counted")

LEN_GEN = {("pybgl.graph:__len_gen__", 0): LoopSpec(inv=lambda c: [("count", c.t("n") == c.k)])}
from pyvc.engine import NONE_

# ---------------------------------------------------------------- induction
def induct(c, name, P, lo, hi=None, hints=lambda K: [], pats=lambda k: [], ctx=None):
    """proves P(lo) and P(K) -> P(K+1) for an arbitrary lo <= K (< hi) at the current point, then assumes forall k >= lo (<= hi). P(k)"""
    e, st = c.eng, c.st
    K = Int(e.uid("K"))
    e.oblige(st, "induction:%s:base" % name, P(lo) if hi is None else Implies(lo <= hi, P(lo)), "lemma")
    s2 = st.copy()
    if ctx is not None: s2.pc = [("a", x) for x in ctx]
    for h in [K >= lo] + ([K < hi] if hi is not None else []) + [P(K)] + list(hints(K)):
        e.assume(s2, h)
    e.oblige(s2, "induction:%s:step" % name, P(K + 1), "lemma")
    k_ = Int("k!ind")
    rng = And(k_ >= lo, k_ <= hi) if hi is not None else k_ >= lo
    ps = pats(k_)
    e.assume(st, ForAll([k_], Implies(rng, P(k_)), patterns=ps) if ps else ForAll([k_], Implies(rng, P(k_))))

def forall_lemma(c, name, vs, hyps, goal, pats, ctx=None, hints=()):
    "forall vs. hyps -> goal: proved for fresh vs (from ctx only, when given), then available"
    e = c.eng
    sub = [(v_, Const(e.uid(str(v_)), v_.sort())) for v_ in vs]
    s2 = c.st.copy()
    if ctx is not None: s2.pc = [("a", x) for x in ctx]
    f = lambda t: z3.substitute(t, *sub)
    for h in list(hyps) + list(hints): e.assume(s2, f(h))
    e.oblige(s2, "lemma:" + name, f(goal), "lemma")
    t = Implies(And(*hyps), goal) if hyps else goal
    e.assume(c.st, ForAll(list(vs), t, patterns=list(pats)) if pats else ForAll(list(vs), t))
    return t

def lemma(c, name, goal):
    "proved here, then available"
    c.eng.oblige(c.st, "lemma:" + name, goal, "lemma")
    c.eng.assume(c.st, goal)

class Run:
    """the sequence of (optional) states of a word: defined by recursion on the position"""
    def __init__(self, eng, name, step, start, word, wty):
        self.f = z3.Function(eng.uid(name), z3.IntSort(), start.sort())
        self.start, self.step, self.w, self.wty = start, step, word, wty
        self.n = seqlen(wty, word)
    def __call__(self, k_): return self.f(k_)
    def at(self, k_): return seqat(self.wty, self.w, k_)
    def unfold(self, k_): return self.f(k_ + 1) == self.step(self.f(k_), self.at(k_))
    def axioms(self):
        k_ = Int("k!run")
        return [self.f(0) == self.start, ForAll([k_], Implies(k_ >= 0, self.unfold(k_)), patterns=[self.at(k_)])]

def new(c, ty, name):
    "a new container of unknown contents"
    return c.eng.alloc(c.st, ty, c.eng.fresh(ty, name, c.st), name)
