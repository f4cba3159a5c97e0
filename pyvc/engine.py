"""pyvc: a deductive verification-condition generator for the Python of /repo.

The functions of the *current* /repo/src/pybgl tree are parsed on every run and
executed symbolically, path by path, for all inputs; loops are cut by invariants,
contracted callees are replaced by their contracts, everything else is inlined.
Every check becomes an Obligation (hypotheses |- goal) handed to an SMT solver.
"""
import ast
import builtins
import importlib
import inspect
import os
import sys
import types as pytypes
import collections
import itertools

import z3

from .types import *

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
if SRC not in sys.path:
    sys.path.insert(0, SRC)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

NONEV = sort(NONE).constructor(0)()


# ------------------------------------------------------------------ values
class V:
    pass


class Sc(V):
    def __init__(self, ty, t):
        self.ty, self.t = ty, t

    def __repr__(self):
        return "Sc(%s,%s)" % (self.ty, self.t)


class StrC(V):
    def __init__(self, s):
        self.s = s


class PyC(V):
    """an opaque concrete Python object (regex, ...)"""

    def __init__(self, o):
        self.o = o


class Ref(V):
    def __init__(self, loc, path=(), born=0):
        self.loc, self.path, self.born = loc, tuple(path), born

    def __repr__(self):
        return "Ref(%s,%s)" % (self.loc, len(self.path))


class TupV(V):
    def __init__(self, xs):
        self.xs = list(xs)


class LitV(V):
    """list display with heterogeneous / object elements (immutable here)"""

    def __init__(self, xs):
        self.xs = list(xs)


class DictLit(V):
    def __init__(self, items):
        self.items = list(items)


class ObjV(V):
    def __init__(self, oid):
        self.oid = oid


class FuncV(V):
    def __init__(self, node, fid, glob, name, defaults=(), kwdefaults=None, cls=None, pyf=None, key=None):
        self.node, self.fid, self.glob, self.name = node, fid, glob, name
        self.defaults, self.kwdefaults, self.cls, self.pyf, self.key = defaults, kwdefaults or {}, cls, pyf, key


class HandV(V):
    """engine-level handler"""

    def __init__(self, fn, name="handler"):
        self.fn, self.name = fn, name


class BoundV(V):
    def __init__(self, f, slf):
        self.f, self.slf = f, slf


class ClassV(V):
    def __init__(self, cls, node=None, fid=None, glob=None, bases=None, methods=None):
        self.cls, self.node, self.fid, self.glob, self.bases, self.methods = cls, node, fid, glob, bases, methods


class ModV(V):
    def __init__(self, m):
        self.m = m


class BuiltinV(V):
    def __init__(self, name):
        self.name = name


class SuperV(V):
    def __init__(self, cls, slf):
        self.cls, self.slf = cls, slf


class GenV(V):
    """lazy generator expression: evaluated when consumed"""

    def __init__(self, node, fid, outer, glob, func):
        self.node, self.fid, self.outer, self.glob, self.func = node, fid, outer, glob, func


class ViewV(V):
    """dict view: keys / values / items of a container reference"""

    def __init__(self, kind, ref):
        self.kind, self.ref = kind, ref


class RangeV(V):
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step


class EnumV(V):
    def __init__(self, it, start):
        self.it, self.start = it, start


class ZipV(V):
    def __init__(self, its):
        self.its = its


class MaybeV(V):
    def __init__(self, v, cond):
        self.v, self.cond = v, cond


class StarV(V):
    def __init__(self, v):
        self.v = v


class AppendLog(V):
    pass


class LocalClass:
    """a class defined inside a verified function"""

    def __init__(self, name, bases, methods):
        self.__name__, self.bases, self.methods = name, bases, methods


NONE_ = Sc(NONE, NONEV)


def B(t):
    return Sc(BOOL, t if z3.is_expr(t) else z3.BoolVal(bool(t)))


def I(t):
    return Sc(INT, t if z3.is_expr(t) else z3.IntVal(t))


# ------------------------------------------------------------------ state
class State:
    __slots__ = ("pc", "frames", "heap", "objs", "fwd", "ghost", "binders", "poison", "tries", "track", "gstart", "notes")

    def __init__(self):
        self.pc = []            # list of ('a'|'g', term)
        self.frames = {}
        self.heap = {}          # loc -> (ty, term)
        self.objs = {}          # oid -> [cls, {attr: V}, handlers]
        self.fwd = {}
        self.ghost = {}         # name -> (ty, term)
        self.binders = []
        self.poison = []
        self.tries = []
        self.track = None
        self.gstart = 0
        self.notes = {}

    def copy(self):
        s = State()
        s.pc = list(self.pc)
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.objs = {k: [v[0], dict(v[1]), v[2]] for k, v in self.objs.items()}
        s.fwd = dict(self.fwd)
        s.ghost = dict(self.ghost)
        s.binders = list(self.binders)
        s.poison = list(self.poison)
        s.tries = list(self.tries)
        s.track = self.track
        s.gstart = self.gstart
        s.notes = dict(self.notes)
        return s


class Out:
    """outcome of a statement: kind in normal/return/break/continue/raise"""

    def __init__(self, kind, st, v=None):
        self.kind, self.st, self.v = kind, st, v


class Raise(Exception):
    pass


class Exc(V):
    def __init__(self, cls, args=()):
        self.cls, self.args = cls, args


class Obl:
    def __init__(self, name, hyps, goal, kind="check", where=""):
        self.name, self.hyps, self.goal, self.kind, self.where = name, hyps, goal, kind, where


_ground = {}
def ground(t):
    "the conjuncts of t without quantifier"
    k = t.get_id()
    if k not in _ground:
        if z3.is_and(t):
            r = [g for x in t.children() for g in ground(x)]
        else:
            r = [] if quantified(t) else [t]
        _ground[k] = (t, r)
    return _ground[k][1]


_quantified = {}
def quantified(t):
    if z3.is_quantifier(t):
        return True
    k = t.get_id()
    if k not in _quantified:
        _quantified[k] = (t, any(quantified(x) for x in t.children()))
    return _quantified[k][1]


class LoopSpec:
    def __init__(self, inv=None, types=None, unroll=None, lemma=None):
        self.inv, self.types, self.unroll, self.lemma = inv or (lambda s: []), types or {}, unroll, lemma


# ------------------------------------------------------------------ source lookup
_modast = {}


def module_ast(m):
    f = m.__file__
    if f not in _modast:
        with open(f) as fd:
            t = ast.parse(fd.read(), f)
        for n in ast.walk(t):
            for c in ast.iter_child_nodes(n):
                c._parent = n
        _modast[f] = t
    return _modast[f]


def find_def(m, qualname):
    body = module_ast(m).body
    node = None
    for part in qualname.split("."):
        found = None

        def scan(stmts):
            nonlocal found
            for s in stmts:
                if isinstance(s, (ast.FunctionDef, ast.ClassDef)) and s.name == part:
                    found = s
                elif isinstance(s, (ast.If, ast.Try, ast.With)):
                    scan(s.body)
                    scan(getattr(s, "orelse", []))
                    for h in getattr(s, "handlers", []):
                        scan(h.body)
        scan(body)
        if found is None:
            return None
        node = found
        body = found.body
    return node


def loops_of(node):
    """loops of a function in source order, not descending into nested functions"""
    res = []

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(c, (ast.For, ast.While)):
                res.append(c)
            walk(c)
    walk(node)
    return res


class Ctx:
    """what a specification sees of one program point"""

    def __init__(self, eng, st, old=None, fid=None, res=None, args=None, exc=None, **kw):
        self.eng, self.st, self.old, self.fid, self.res, self.args, self.exc = eng, st, old, fid, res, args, exc
        self.__dict__.update(kw)

    def v(self, name):
        """value of a local variable (closure chain included)"""
        x = self.eng.lookup_local(self.st, self.fid, name)
        if isinstance(x, MaybeV):
            x = x.v
        if x is None and self.args is not None and name in self.args:
            x = self.args[name]
        if x is None:
            raise Unsupported("specification names the local variable '%s', absent from the current source" % name)
        return x

    def has(self, name):
        return self.eng.lookup_local(self.st, self.fid, name) is not None

    def t(self, x, ty=None, st=None):
        """z3 term of a local name / value"""
        st = st or self.st
        if isinstance(x, str):
            x = self.v(x)
        r = self.eng.term(st, x, ty)
        if st is not self.st:
            self.eng.carry(self.st, r)
        return self.named(r)

    def named(self, t):
        """a constant equal to t when t is composite, so that specifications can use it in triggers"""
        return self.eng.named(self.st, t)

    def told(self, x, ty=None):
        return self.t(x, ty, self.old)

    def ty(self, x, st=None):
        if isinstance(x, str):
            x = self.v(x)
        return self.eng.typeof(st or self.st, x)

    def attr(self, o, name, st=None):
        if isinstance(o, str):
            o = self.v(o)
        return (st or self.st).objs[o.oid][1][name]

    def at(self, o, name, st=None, ty=None):
        """term of attribute"""
        st = st or self.st
        r = self.eng.term(st, self.attr(o, name, st), ty)
        if st is not self.st:
            self.eng.carry(self.st, r)
        return self.named(r)

    def g(self, name):
        return self.named(self.st.ghost[name][1])

    def gold(self, name):
        return self.old.ghost[name][1]


_plain = {}


def composite(t):
    """does t contain a connective (ite, store, lambda...), which a trigger may not contain?"""
    i = t.get_id()
    r = _plain.get(i)
    if r is not None:
        return r[0]
    if not z3.is_app(t):
        b = not z3.is_var(t)
    elif t.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_STORE, z3.Z3_OP_CONST_ARRAY, z3.Z3_OP_ARRAY_MAP, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_IMPLIES):
        b = True
    else:
        b = any(composite(c) for c in t.children())
    _plain[i] = (b, t)
    return b


# ------------------------------------------------------------------ engine
class Engine:
    def __init__(self, contracts=(), value_classes=("EdgeDescriptor", "Op"), loops=None, types=None, symty="Sym"):
        self.contracts = list(contracts)     # call contracts
        self.value_classes = set(value_classes)
        self.loops = loops or {}
        self.comp_effects = []
        self.local_names = {}
        self.observed = None                 # visitor class whose events are recorded before their bodies run
        self.types = types or {}             # variable/attribute name -> Ty for fresh containers
        self.obls = []
        self.axioms = []
        self.axkeys = set()
        self.n = 0
        self.dry = 0
        self.clock = 0
        self.glob_cache = {}
        self.symconsts = {}
        self.symty = symty
        self.callstack = []
        self.inlined = set()
        self.used_contracts = set()
        self.covers = []
        self.comp_memo = {}
        self.loopstats = []
        self.elt_types = {}
        self.names = {}
        self.cur_where = ""
        self.proof = None
        self._solver = None
        self.call_hooks = {}
        self.opaque = {}
        self.symattr = {}
        self.defs = {}
        self.externals = {}
        self.strategy = {}

    # -------- fresh names and assumptions
    def uid(self, base):
        self.n += 1
        return "%s!%d" % (base, self.n)

    def fresh(self, ty, base, st=None):
        s = sort(ty)
        if st is not None and st.binders:
            f = z3.Function(self.uid(base), *[b.sort() for b in st.binders], s)
            return f(*st.binders)
        return z3.Const(self.uid(base), s)

    def fresh_value(self, ty, base, st):
        return Sc(ty, self.havoc(ty, base, st))

    def assume(self, st, t, kind="a"):
        if t is True or (z3.is_expr(t) and z3.is_true(t)):
            return
        if t is False:
            t = z3.BoolVal(False)
        st.pc.append((kind, t))

    def constant(self, st, t):
        """a constant equal to t"""
        if z3.is_const(t) or st.binders or not z3.is_app(t):
            return t
        return self._name(st, t)

    def named(self, st, t):
        if not z3.is_expr(t) or st.binders or z3.is_bool(t) or not composite(t):
            return t
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
            return t.decl()(*[self.named(st, c) for c in t.children()])
        return self._name(st, t)

    def _name(self, st, t):
        k = t.get_id()
        if k not in self.names:
            self.names[k] = (z3.Const(self.uid("def"), t.sort()), t)
            self.defs[self.names[k][0].get_id()] = self.names[k]
        c = self.names[k][0]
        key = ("def", k)
        if key not in st.notes:
            st.notes = dict(st.notes)
            st.notes[key] = True
            st.pc.append(("a", c == t))
        return c

    def carry(self, st, t):
        """the definitions of the names occurring in t (made in another state) hold in st too"""
        seen, todo = set(), [t]
        while todo:
            x = todo.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if i in self.defs:
                c, d = self.defs[i]
                key = ("def", d.get_id())
                if key not in st.notes:
                    st.notes = dict(st.notes)
                    st.notes[key] = True
                    st.pc.append(("a", c == d))
                    todo.append(d)
            else:
                todo += [x.body()] if z3.is_quantifier(x) else x.children()

    def axiom(self, key, make):
        if key not in self.axkeys:
            self.axkeys.add(key)
            r = make()
            self.axioms += list(r) if isinstance(r, (list, tuple)) else [r]

    def oblige(self, st, name, goal, kind="check"):
        if self.dry or goal is True or (z3.is_expr(goal) and z3.is_true(goal)):
            if not self.dry:
                self.obls.append(Obl(self.cur_where + name, [], z3.BoolVal(True), kind))
            return
        if goal is False:
            goal = z3.BoolVal(False)
        g = z3.simplify(goal)
        if z3.is_true(g):
            self.obls.append(Obl(self.cur_where + name, [], g, kind))
            return
        self.obls.append(Obl(self.cur_where + name, [t for _, t in st.pc], goal, kind, where=self.where()))

    def where(self):
        return " > ".join(self.callstack)

    def require(self, st, name, goal):
        """safety obligation; afterwards the fact may be used"""
        if goal is True or (z3.is_expr(goal) and z3.is_true(z3.simplify(goal))):
            return
        self.oblige(st, "safety:" + name, goal, "safety")
        self.assume(st, goal, "g" if st.binders else "a")

    def feasible(self, st, extra=None):
        """cheap pruning; unknown counts as feasible"""
        last = extra if extra is not None else (st.pc[-1][1] if st.pc else None)
        if last is not None:
            s = z3.simplify(last)
            if z3.is_false(s):
                return False
        sol = z3.Solver()
        sol.set("timeout", 150)
        for _, t in st.pc:
            for g in ground(t):
                sol.add(g)
        if extra is not None:
            sol.add(extra)
        return sol.check() != z3.unsat

    def branch(self, st, cond):
        """[(state, bool)]"""
        c = z3.simplify(cond)
        if z3.is_true(c):
            return [(st, True)]
        if z3.is_false(c):
            return [(st, False)]
        res = []
        for val_, t in ((True, cond), (False, z3.Not(cond))):
            s = st.copy()
            self.assume(s, t, "g")
            if self.feasible(s):
                res.append((s, val_))
        return res

    # -------- heap
    def tick(self):
        self.clock += 1
        return self.clock

    def alloc(self, st, ty, term, base="loc"):
        loc = self.uid(base)
        st.heap[loc] = (ty, term)
        return Ref(loc, (), self.tick())

    def alloc_untyped(self, st, kind, hint=None):
        if hint and hint in self.types:
            ty = self.types[hint]
            return self.alloc(st, ty, empty(ty) if ty.kind != "DMap" else default(ty))
        return self.alloc(st, Ty("Untyped", kind), None)

    def resolve(self, st, r):
        loc, path = r.loc, r.path
        while loc in st.fwd:
            l2, p2 = st.fwd[loc]
            loc, path = l2, tuple(p2) + tuple(path)
        for (pl, pp, when) in st.poison:
            if pl == loc and when > r.born and len(pp) <= len(path):
                same = z3.BoolVal(True)
                for (ty1, a), (ty2, b) in zip(pp, path):
                    same = z3.And(same, a == b)
                if self.feasible(st, same):
                    raise Unsupported("use of a reference to a container that may have been detached")
        return loc, path

    def rtype(self, st, r):
        loc, path = self.resolve(st, r)
        ty = st.heap[loc][0]
        for _ in path:
            ty = ty.args[1]
        return ty

    def read(self, st, r):
        loc, path = self.resolve(st, r)
        if st.track is not None:
            st.track.add(loc)
        ty, t = st.heap[loc]
        for _, k in path:
            t = z3.Select(val(ty, t), k)
            ty = ty.args[1]
        return t

    def write(self, st, r, new):
        loc, path = self.resolve(st, r)
        ty, t = st.heap[loc]

        def upd(ty, t, path):
            if not path:
                return new
            k = path[0][1]
            inner = upd(ty.args[1], z3.Select(val(ty, t), k), path[1:])
            return mk(ty, dom(ty, t), z3.Store(val(ty, t), k, inner))
        st.heap[loc] = (ty, upd(ty, t, path))

    def retype(self, st, r, ty):
        loc, path = self.resolve(st, r)
        assert not path and st.heap[loc][0].kind == "Untyped"
        k = st.heap[loc][0].args[0]
        if k in ("set", "frozenset") and ty.kind == "FSet":
            ty = SET(ty.args[0])
        if k == "defaultdict" and ty.kind == "Map":
            ty = DMAP(*ty.args)
        want = {"dict": "Map", "set": "Set", "frozenset": "Set", "list": "Seq", "deque": "Seq", "defaultdict": "DMap"}[k]
        if ty.kind != want:
            raise Unsupported("container of kind %s used as %s" % (k, ty))
        st.heap[loc] = (ty, default(ty) if ty.kind == "DMap" else empty(ty))

    # -------- types and terms of values
    def typeof(self, st, v):
        if isinstance(v, Sc):
            return v.ty
        if isinstance(v, Ref):
            return self.rtype(st, v)
        if isinstance(v, TupV):
            return TUP(*[self.imm(self.typeof(st, x)) for x in v.xs])
        if isinstance(v, StrC):
            return SYM(self.symty)
        if isinstance(v, LitV):
            t = None
            for x in v.xs:
                tx = self.imm(self.typeof(st, x))
                t = tx if t is None else join(t, tx)
            if t is None:
                return Ty("Untyped", "list")
            return SEQ(t)
        if isinstance(v, MaybeV):
            return self.typeof(st, v.v)
        raise Unsupported("value %s has no data type" % type(v).__name__)

    def imm(self, ty):
        return ty

    def symconst(self, s, symname=None):
        k = (symname or self.symty, s)
        if k not in self.symconsts:
            c = z3.Const("str!%s!%s" % (k[0], "".join(x if x.isascii() and x.isalnum() else "_%x_" % ord(x) for x in s)), sort(SYM(k[0])))
            for (n2, s2), c2 in self.symconsts.items():
                if n2 == k[0]:
                    self.axioms.append(c != c2)
            self.symconsts[k] = c
        return self.symconsts[k]

    def term(self, st, v, ty=None):
        """z3 term of a value, coerced to ty when given"""
        if isinstance(v, MaybeV):
            v = v.v
        if z3.is_expr(v):
            return v
        if isinstance(v, Sc):
            if ty is None or v.ty == ty:
                return v.t
            if v.ty.kind == "Opt" and ty.kind != "Opt":
                self.require(st, "value is not None", is_some(v.ty, v.t))
                return coerce(optval(v.ty, v.t), v.ty.args[0], ty)
            return coerce(v.t, v.ty, ty)
        if isinstance(v, StrC):
            if ty is not None and ty.kind == "Opt":
                return some(ty, self.symconst(v.s, ty.args[0].args[0]))
            if ty is not None and ty.kind == "Word":
                et = ty.args[0]
                a = z3.K(z3.IntSort(), default(et))
                for i, ch in enumerate(v.s):
                    a = z3.Store(a, i, self.symconst(ch, et.args[0]))
                return mk(ty, z3.IntVal(0), z3.IntVal(len(v.s)), a, z3.K(sort(et), z3.IntVal(0)))
            return self.symconst(v.s, ty.args[0] if ty is not None and ty.kind == "Sym" else None)
        if isinstance(v, TupV):
            if ty is None:
                ty = self.typeof(st, v)
            if ty.kind == "Opt":
                return some(ty, self.term(st, v, ty.args[0]))
            return mk(ty, *[self.term(st, x, a) for x, a in zip(v.xs, ty.args)])
        if isinstance(v, LitV):
            ty = ty or self.typeof(st, v)
            et = ty.args[0]
            a = z3.K(z3.IntSort(), default(et))
            c = z3.K(sort(et), z3.IntVal(0))
            for i, x in enumerate(v.xs):
                t = self.term(st, x, et)
                a = z3.Store(a, i, t)
                c = z3.Store(c, t, z3.Select(c, t) + 1)
            return mk(ty, z3.IntVal(0), z3.IntVal(len(v.xs)), a, c)
        if isinstance(v, Ref):
            rt = self.rtype(st, v)
            if rt.kind == "Untyped":
                if ty is None:
                    raise Unsupported("empty container of unknown type")
                if ty.kind == "Opt":
                    return some(ty, self.term(st, v, ty.args[0]))
                self.retype(st, v, ty)
                rt = self.rtype(st, v)
            t = self.read(st, v)
            if ty is not None and ty != rt:
                if ty.kind == "Opt":
                    return some(ty, coerce(t, rt, ty.args[0]))
                return coerce(t, rt, ty)
            return t
        if isinstance(v, ViewV):
            rt = self.rtype(st, v.ref)
            if v.kind == "keys":
                return dom(rt, self.term(st, v.ref))
        raise Unsupported("value %s has no term" % type(v).__name__)

    def wrap(self, ty, t):
        if ty.kind in ("Set", "Map", "DMap", "Seq"):
            raise Unsupported("bare container value of type %s" % ty)
        return Sc(ty, t)

    def truth(self, st, v):
        """z3 Bool of the truthiness of v, or None if a method call is needed"""
        if isinstance(v, MaybeV):
            v = v.v
        if isinstance(v, Sc):
            return self.truth_t(v.ty, v.t)
        if isinstance(v, StrC):
            return z3.BoolVal(bool(v.s))
        if isinstance(v, (TupV, LitV)):
            return z3.BoolVal(bool(v.xs))
        if isinstance(v, DictLit):
            return z3.BoolVal(bool(v.items))
        if isinstance(v, Ref):
            rt = self.rtype(st, v)
            if rt.kind == "Untyped":
                return z3.BoolVal(False)
            return self.truth_t(rt, self.read(st, v))
        if isinstance(v, (FuncV, BoundV, ClassV, ModV, BuiltinV, GenV, HandV)):
            return z3.BoolVal(True)
        if isinstance(v, ViewV):
            return self.truth(st, v.ref)
        if isinstance(v, PyC):
            return z3.BoolVal(bool(v.o))
        if isinstance(v, ObjV):
            return None
        raise Unsupported("truthiness of %s" % type(v).__name__)

    def truth_t(self, ty, t):
        k = ty.kind
        if k == "Bool":
            return t
        if k in ("Int", "Real"):
            return t != 0
        if k == "None":
            return z3.BoolVal(False)
        if k == "Opt":
            return z3.And(is_some(ty, t), self.truth_t(ty.args[0], optval(ty, t)))
        if k in ("Set", "FSet"):
            return t != empty(ty)
        if k in ("Map", "DMap"):
            return dom(ty, t) != z3.K(sort(ty.args[0]), z3.BoolVal(False))
        if k in ("Seq", "Word"):
            return lo(ty, t) < hi(ty, t)
        if k == "Sym":
            return t != self.symconst("", ty.args[0])
        if k in ("Rec", "Tup"):
            return z3.BoolVal(True)
        raise Unsupported("truthiness of type %s" % ty)

    def wf(self, ty, t):
        """intrinsic well-formedness facts of a havoced container term"""
        res = []
        if ty.kind == "Seq":
            T = sort(ty.args[0])
            i, x = z3.Const("i!wf", z3.IntSort()), z3.Const("x!wf", T)
            l, h, a, c = lo(ty, t), hi(ty, t), arr(ty, t), cnt(ty, t)
            res += [l <= h,
                    z3.ForAll([i], z3.Implies(z3.And(l <= i, i < h), z3.Select(c, z3.Select(a, i)) >= 1),
                              patterns=[z3.Select(a, i)]),
                    z3.ForAll([x], z3.Select(c, x) >= 0, patterns=[z3.Select(c, x)]),
                    z3.ForAll([x], z3.Implies(l == h, z3.Select(c, x) == 0), patterns=[z3.Select(c, x)]),
                    z3.ForAll([x], z3.Select(c, x) <= h - l, patterns=[z3.Select(c, x)])]
            w = z3.Function(self.uid("idx"), T, z3.IntSort())
            res += [z3.ForAll([x], z3.Implies(z3.Select(c, x) >= 1, z3.And(l <= w(x), w(x) < h, z3.Select(a, w(x)) == x)),
                              patterns=[z3.Select(c, x)])]
        elif ty.kind == "Word":
            res += [lo(ty, t) <= hi(ty, t)]
        elif ty.kind == "DMap":
            x = z3.Const("x!wf", sort(ty.args[0]))
            res += [z3.ForAll([x], z3.Implies(z3.Not(z3.Select(dom(ty, t), x)), z3.Select(val(ty, t), x) == default(ty.args[1])),
                              patterns=[z3.Select(val(ty, t), x)])]
        if ty.kind in ("Map", "DMap") and ty.args[1].kind in ("Seq", "DMap"):
            raise Unsupported("well-formedness of nested %s" % ty)
        return res

    def havoc(self, ty, base, st):
        t = self.fresh(ty, base, st)
        if ty.kind in ("Map", "DMap"):
            t = mk(ty, z3.Const(self.uid(base + "_dom"), z3.ArraySort(sort(ty.args[0]), z3.BoolSort())),
                   z3.Const(self.uid(base + "_val"), z3.ArraySort(sort(ty.args[0]), sort(ty.args[1])))) if not st.binders else t
        elif ty.kind in ("Seq", "Word") and not st.binders:
            T = sort(ty.args[0])
            t = mk(ty, z3.Int(self.uid(base + "_lo")), z3.Int(self.uid(base + "_hi")),
                   z3.Const(self.uid(base + "_arr"), z3.ArraySort(z3.IntSort(), T)),
                   z3.Const(self.uid(base + "_cnt"), z3.ArraySort(T, z3.IntSort())))
        for f in self.wf(ty, t):
            self.assume(st, f)
        return t

    # -------- python object -> value
    def from_py(self, o, st=None):
        if o is None:
            return NONE_
        if isinstance(o, bool):
            return B(o)
        if isinstance(o, int):
            return I(o)
        if isinstance(o, float):
            return Sc(REAL, z3.RealVal(repr(o)))
        if isinstance(o, str):
            return StrC(o)
        if isinstance(o, type):
            return ClassV(o)
        if isinstance(o, pytypes.FunctionType):
            return self.func_value(o)
        if isinstance(o, pytypes.ModuleType):
            return ModV(o)
        if isinstance(o, pytypes.BuiltinFunctionType):
            return BuiltinV((o.__module__ + "." if o.__module__ not in (None, "builtins") else "") + o.__name__)
        if isinstance(o, tuple) and hasattr(o, "_fields"):
            return PyC(o)
        if isinstance(o, tuple):
            return TupV([self.from_py(x, st) for x in o])
        if isinstance(o, list):
            return LitV([self.from_py(x, st) for x in o])
        if isinstance(o, dict):
            return DictLit([(self.from_py(k, st), self.from_py(x, st)) for k, x in o.items()])
        if isinstance(o, (set, frozenset)):
            return LitV([self.from_py(x, st) for x in sorted(o, key=repr)])
        if type(o).__module__.startswith("pybgl") and st is not None:
            key = ("py", id(o))
            if key not in st.notes:
                st.notes[key] = self.new_obj(st, type(o), {k: self.from_py(x, st) for k, x in o.__dict__.items()})
            return st.notes[key]
        return PyC(o)

    def func_value(self, f, cls=None):
        m = sys.modules.get(f.__module__)
        node = find_def(m, f.__qualname__) if m is not None and f.__module__.startswith("pybgl") else None
        if node is None:
            return BuiltinV(f.__module__ + "." + f.__qualname__)
        return FuncV(node, None, m.__dict__, f.__qualname__, defaults=f.__defaults__ or (),
                     kwdefaults=f.__kwdefaults__, cls=cls, pyf=f, key=f.__module__ + ":" + f.__qualname__)

    def new_obj(self, st, cls, attrs=None, handlers=None):
        oid = self.uid("obj_" + getattr(cls, "__name__", "x"))
        st.objs[oid] = [cls, dict(attrs or {}), handlers or {}]
        return ObjV(oid)

    # -------- names
    def lookup_local(self, st, fid, name):
        while fid is not None:
            fr = st.frames[fid]
            if name in fr:
                return fr[name]
            fid = fr.get("$parent")
        return None

    def lookup(self, st, fid, glob, name):
        v = self.lookup_local(st, fid, name)
        if v is not None:
            if isinstance(v, MaybeV):
                self.require(st, "local variable '%s' is bound" % name, v.cond)
                return v.v
            return v
        if name in glob:
            return self.from_py(glob[name], st)
        if hasattr(builtins, name):
            o = getattr(builtins, name)
            if isinstance(o, type):
                return ClassV(o)
            if name == "NotImplemented":
                return PyC(NotImplemented)
            return BuiltinV(name)
        raise Unsupported("unresolved name '%s'" % name)

    # ============================================================ expressions
    def eval(self, e, st, fid, glob, func):
        """-> [(state, value)] ; raising paths go through st.notes['$raised']"""
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e, st, fid, glob, func)

    def evals(self, es, st, fid, glob, func):
        res = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in res:
                if isinstance(e, ast.Starred):
                    for s2, v in self.eval(e.value, s, fid, glob, func):
                        nxt.append((s2, vs + [v if isinstance(v, RaisedV) else StarV(v)]))
                else:
                    for s2, v in self.eval(e, s, fid, glob, func):
                        nxt.append((s2, vs + [v]))
            res = nxt
        return self.prop(res)

    def prop(self, res):
        """if any value of the list is a RaisedV, the whole evaluation raised"""
        out = []
        for s, vs in res:
            r = [v for v in vs if isinstance(v, RaisedV)]
            out.append((s, r[0] if r else vs))
        return out

    def e_Constant(self, e, st, fid, glob, func):
        return [(st, self.from_py(e.value, st))]

    def e_Name(self, e, st, fid, glob, func):
        if self.lookup_local(st, fid, e.id) is None and self.is_local(func, e.id):
            self.require(st, "local variable '%s' is bound" % e.id, z3.BoolVal(False))
            return []
        return [(st, self.lookup(st, fid, glob, e.id))]

    def is_local(self, func, name):
        node = getattr(func, "node", None)
        if not isinstance(node, ast.FunctionDef):
            return False
        r = self.local_names.get(node)
        if r is None:
            r, todo = set(), list(node.body)
            while todo:
                n = todo.pop()
                if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    continue
                if isinstance(n, (ast.Global, ast.Nonlocal)):
                    r = set(); break
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    r.add(n.id)
                todo += list(ast.iter_child_nodes(n))
            self.local_names[node] = r
        return name in r

    def e_JoinedStr(self, e, st, fid, glob, func):
        return [(st, Sc(SYM("Str"), self.fresh(SYM("Str"), "fstr", st)))]

    def e_Tuple(self, e, st, fid, glob, func):
        return [(s, vs if isinstance(vs, RaisedV) else TupV(self.unstar(s, vs))) for s, vs in self.evals(e.elts, st, fid, glob, func)]

    def unstar(self, st, vs):
        out = []
        for v in vs:
            if isinstance(v, StarV):
                if isinstance(v.v, (TupV, LitV)):
                    out += v.v.xs
                else:
                    out.append(v)
            else:
                out.append(v)
        return out

    def e_List(self, e, st, fid, glob, func):
        if not e.elts:
            return [(st, self.alloc_untyped(st, "list"))]
        return [(s, vs if isinstance(vs, RaisedV) else LitV(self.unstar(s, vs))) for s, vs in self.evals(e.elts, st, fid, glob, func)]

    def e_Set(self, e, st, fid, glob, func):
        out = []
        for s, vs in self.evals(e.elts, st, fid, glob, func):
            if isinstance(vs, RaisedV):
                out.append((s, vs))
                continue
            vs = self.unstar(s, vs)
            ty = None
            for v in vs:
                t = self.keytype(self.typeof(s, v))
                ty = t if ty is None else join(ty, t)
            t = empty(SET(ty))
            for v in vs:
                t = z3.Store(t, self.term(s, v, ty), True)
            out.append((s, self.alloc(s, SET(ty), t, "set")))
        return out

    def keytype(self, ty):
        if ty.kind == "Set":
            return FSET(ty.args[0])
        return ty

    def e_Dict(self, e, st, fid, glob, func):
        if not e.keys:
            return [(st, self.alloc_untyped(st, "dict"))]
        out = []
        for s, vs in self.evals([k for k in e.keys] + e.values, st, fid, glob, func):
            if isinstance(vs, RaisedV):
                out.append((s, vs))
                continue
            n = len(e.keys)
            out.append((s, DictLit(list(zip(vs[:n], vs[n:])))))
        return out

    def e_Lambda(self, e, st, fid, glob, func):
        res = self.evals(e.args.defaults, st, fid, glob, func)
        return [(s, FuncV(e, fid, glob, "<lambda>", defaults=tuple(vs), key=None, cls=func.cls if func else None)) for s, vs in res]

    def e_Attribute(self, e, st, fid, glob, func):
        out = []
        for s, v in self.eval(e.value, st, fid, glob, func):
            if isinstance(v, RaisedV):
                out.append((s, v))
            else:
                out += self.getattr(s, v, e.attr, func)
        return out

    def find_method(self, cls, name):
        """(owner class, raw attribute) through the MRO"""
        if isinstance(cls, LocalClass):
            if name in cls.methods:
                return cls, cls.methods[name]
            for b in cls.bases:
                r = self.find_method(b, name)
                if r:
                    return r
            return None
        for c in cls.__mro__:
            if name in c.__dict__:
                return c, c.__dict__[name]
        return None

    def bind(self, st, o, owner, raw):
        if isinstance(raw, FuncV):
            return BoundV(raw, o)
        if isinstance(raw, staticmethod):
            return self.func_value(raw.__func__, owner)
        if isinstance(raw, classmethod):
            return BoundV(self.func_value(raw.__func__, owner), ClassV(owner))
        if isinstance(raw, pytypes.FunctionType):
            return BoundV(self.func_value(raw, owner), o)
        if isinstance(raw, HandV):
            return BoundV(raw, o)
        if isinstance(raw, (pytypes.WrapperDescriptorType, pytypes.MethodDescriptorType, pytypes.GetSetDescriptorType)):
            return BoundV(BuiltinV("%s.%s" % (owner.__name__, raw.__name__)), o)
        return self.from_py(raw, st)

    def getattr(self, st, v, name, func=None):
        if isinstance(v, Sc) and v.ty in self.symattr:
            x = self.symattr[v.ty](name, v)
            return [(st, x if isinstance(x, V) else HandV(x, name))]
        if isinstance(v, ObjV):
            cls, attrs, handlers = st.objs[v.oid]
            if name in attrs:
                x = attrs[name]
                if isinstance(x, MaybeV):
                    self.require(st, "attribute '%s' is set" % name, x.cond)
                    x = x.v
                return [(st, x)]
            if name in handlers:
                return [(st, BoundV(HandV(handlers[name], name), v))]
            if name == "__class__":
                return [(st, ClassV(cls))]
            r = self.find_method(cls, name)
            if r:
                if isinstance(r[1], property):
                    return self.call(st, BoundV(self.func_value(r[1].fget, r[0]), v), [], {})
                return [(st, self.bind(st, v, *r))]
            r = self.find_method(cls, "__getattr__")
            if r:
                return self.call(st, self.bind(st, v, *r), [StrC(name)], {})
            raise Unsupported("attribute '%s' of %s" % (name, getattr(cls, "__name__", cls)))
        if isinstance(v, SuperV):
            cls = st.objs[v.slf.oid][0]
            if isinstance(cls, LocalClass):
                mro = list(self.local_mro(cls))
            else:
                mro = list(cls.__mro__)
            i = mro.index(v.cls)
            for c in mro[i + 1:]:
                d = c.methods if isinstance(c, LocalClass) else c.__dict__
                if name in d:
                    return [(st, self.bind(st, v.slf, c, d[name]))]
            raise Unsupported("super().%s" % name)
        if isinstance(v, ModV):
            return [(st, self.from_py(getattr(v.m, name), st))]
        if isinstance(v, ClassV):
            r = self.find_method(v.cls, name) if v.cls not in (set, dict, list, str, frozenset, int) else None
            if r:
                owner, raw = r
                if isinstance(raw, (pytypes.FunctionType,)):
                    return [(st, self.func_value(raw, owner))]
                if isinstance(raw, staticmethod):
                    return [(st, self.func_value(raw.__func__, owner))]
                if isinstance(raw, classmethod):
                    return [(st, BoundV(self.func_value(raw.__func__, owner), v))]
                if isinstance(raw, FuncV):
                    return [(st, raw)]
                return [(st, self.from_py(raw, st))]
            return [(st, BuiltinV("%s.%s" % (v.cls.__name__, name)))]
        if isinstance(v, Sc):
            ty = v.ty
            if ty.kind == "Rec":
                names, ts = rec_fields(ty)
                if name in names:
                    i = names.index(name)
                    return [(st, self.wrap(ts[i], fld(ty, v.t, i)))]
            if ty.kind == "Opt":
                self.require(st, "value is not None (attribute %s)" % name, is_some(ty, v.t))
                return self.getattr(st, self.wrap(ty.args[0], optval(ty, v.t)), name, func)
            if ty.kind in ("FSet", "Word", "Sym"):
                return [(st, BoundV(BuiltinV("m." + name), v))]
            raise Unsupported("attribute '%s' of a value of type %s" % (name, ty))
        if isinstance(v, (Ref, StrC, TupV, LitV, DictLit, ViewV, RangeV)):
            return [(st, BoundV(BuiltinV("m." + name), v))]
        if isinstance(v, PyC):
            x = getattr(v.o, name)
            if isinstance(x, (int, str, bool, float, type(None))):
                return [(st, self.from_py(x, st))]
            return [(st, BoundV(BuiltinV("py." + name), v))]
        if isinstance(v, Exc):
            return [(st, Sc(SYM("Str"), self.fresh(SYM("Str"), "excattr", st)))]
        if isinstance(v, (FuncV, BoundV, BuiltinV)) and name in ("__name__",):
            return [(st, StrC(v.name))]
        raise Unsupported("attribute '%s' of %s" % (name, type(v).__name__))

    def local_mro(self, c):
        yield c
        for b in c.bases:
            if isinstance(b, LocalClass):
                yield from self.local_mro(b)
            else:
                yield from b.__mro__

    # -------- operators
    def e_BoolOp(self, e, st, fid, glob, func):
        is_and = isinstance(e.op, ast.And)

        def go(i, s):
            res = []
            for s1, v in self.eval(e.values[i], s, fid, glob, func):
                if isinstance(v, RaisedV) or i == len(e.values) - 1:
                    res.append((s1, v))
                    continue
                for s1b, tv in self.truthy(s1, v):
                    c = z3.simplify(tv)
                    if z3.is_true(c) or z3.is_false(c):
                        if z3.is_true(c) == is_and:
                            res += go(i + 1, s1b)
                        else:
                            res.append((s1b, v))
                        continue
                    cont, stop = (tv, z3.Not(tv)) if is_and else (z3.Not(tv), tv)
                    # try the merged (non forking) evaluation of the right operand
                    s2 = s1b.copy()
                    self.assume(s2, cont, "g")
                    mark = len(self.obls)
                    rights = go(i + 1, s2)
                    if len(rights) == 1 and not isinstance(rights[0][1], RaisedV) and self.pure_since(s1b, rights[0][0]) \
                            and self.same_bool(v, rights[0][1]):
                        s3, w = rights[0]
                        self.import_facts(s1b, s3, [cont])
                        t = z3.And(v.t, w.t) if is_and else z3.Or(v.t, w.t)
                        res.append((s1b, B(t)))
                        continue
                    s4 = s1b.copy()
                    self.assume(s4, stop, "g")
                    if self.feasible(s4):
                        res.append((s4, v))
                    res += [(s, w) for s, w in rights if self.feasible(s)]
            return res
        return go(0, st)

    def same_bool(self, v, w):
        return isinstance(v, Sc) and isinstance(w, Sc) and v.ty == BOOL and w.ty == BOOL

    def pure_since(self, a, b):
        """b has the same stores as a (up to new allocations)"""
        for loc, (ty, t) in a.heap.items():
            if b.heap.get(loc, (None, None))[1] is not t:
                return False
        for oid, (c, at, h) in a.objs.items():
            for k, x in at.items():
                if b.objs[oid][1].get(k) is not x:
                    return False
        for k, fr in a.frames.items():
            for n, x in fr.items():
                if b.frames[k].get(n) is not x:
                    return False
        for k, x in a.ghost.items():
            if b.ghost[k][1] is not x[1]:
                return False
        return len(b.fwd) == len(a.fwd) and len(b.poison) == len(a.poison)

    def import_facts(self, st, s2, guards, base=None):
        """bring the facts s2 learned (beyond st) back into st, guarded"""
        n = len(st.pc) if base is None else base
        gs = []
        for kind, t in s2.pc[n:]:
            if kind == "g":
                gs.append(t)
            else:
                st.pc.append(("a", z3.Implies(z3.And(*gs), t) if gs else t))
        for loc, x in s2.heap.items():
            if loc not in st.heap:
                st.heap[loc] = x
        for o, x in s2.objs.items():
            if o not in st.objs:
                st.objs[o] = x

    def truthy(self, st, v):
        """[(state, z3 bool)]"""
        if isinstance(v, MaybeV):
            v = v.v
        if isinstance(v, ObjV):
            cls, attrs, handlers = st.objs[v.oid]
            for nm in ("__bool__", "__len__"):
                if nm in handlers or self.find_method(cls, nm):
                    out = []
                    for s, r in self.getattr(st, v, nm):
                        for s2, x in self.call(s, r, [], {}):
                            out.append((s2, self.truth(s2, x)))
                    return out
            return [(st, z3.BoolVal(True))]
        return [(st, self.truth(st, v))]

    def e_UnaryOp(self, e, st, fid, glob, func):
        out = []
        for s, v in self.eval(e.operand, st, fid, glob, func):
            if isinstance(v, RaisedV):
                out.append((s, v))
            elif isinstance(e.op, ast.Not):
                out += [(s2, B(z3.Not(t))) for s2, t in self.truthy(s, v)]
            elif isinstance(e.op, ast.USub):
                if isinstance(v, Sc) and v.ty.kind in ("Int", "Real"):
                    out.append((s, Sc(v.ty, -v.t)))
                else:
                    raise Unsupported("unary minus")
            else:
                raise Unsupported("unary operator")
        return out

    def e_IfExp(self, e, st, fid, glob, func):
        out = []
        for s, c in self.eval(e.test, st, fid, glob, func):
            if isinstance(c, RaisedV):
                out.append((s, c))
                continue
            for s1, t in self.truthy(s, c):
                ct = z3.simplify(t)
                if z3.is_true(ct) or z3.is_false(ct):
                    out += self.eval(e.body if z3.is_true(ct) else e.orelse, s1, fid, glob, func)
                    continue
                sa, sb = s1.copy(), s1.copy()
                self.assume(sa, t, "g")
                self.assume(sb, z3.Not(t), "g")
                ra = self.eval(e.body, sa, fid, glob, func)
                rb = self.eval(e.orelse, sb, fid, glob, func)
                merged = None
                if len(ra) == 1 and len(rb) == 1 and self.pure_since(s1, ra[0][0]) and self.pure_since(s1, rb[0][0]):
                    merged = self.merge(s1, t, ra[0], rb[0])
                if merged is not None:
                    base = len(s1.pc)
                    self.import_facts(s1, ra[0][0], [t], base)
                    self.import_facts(s1, rb[0][0], [z3.Not(t)], base)
                    out.append((s1, merged))
                else:
                    out += [(x, v) for x, v in ra + rb if self.feasible(x)]
        return out

    def merge(self, st, c, a, b):
        (sa, va), (sb, vb) = a, b
        if isinstance(va, (Sc, TupV)) and isinstance(vb, (Sc, TupV)):
            try:
                ta, tb = self.typeof(sa, va), self.typeof(sb, vb)
                j = join(ta, tb)
                x = coerce(self.term(sa, va), ta, j)
                y = coerce(self.term(sb, vb), tb, j)
            except Unsupported:
                return None
            return Sc(j, z3.If(c, x, y))
        return None

    NUM = ("Int", "Real", "Bool")

    def arith(self, st, op, a, b):
        ta, tb = a.ty, b.ty
        if ta.kind == "Opt":
            self.require(st, "operand is not None", is_some(ta, a.t))
            a = Sc(ta.args[0], optval(ta, a.t))
        if tb.kind == "Opt":
            self.require(st, "operand is not None", is_some(tb, b.t))
            b = Sc(tb.args[0], optval(tb, b.t))
        j = join(a.ty, b.ty)
        if j.kind == "Bool" and isinstance(op, ast.BitXor):
            return Sc(BOOL, z3.Xor(a.t, b.t))
        if j.kind == "Bool" and isinstance(op, ast.BitAnd):
            return Sc(BOOL, z3.And(a.t, b.t))
        if j.kind == "Bool" and isinstance(op, ast.BitOr):
            return Sc(BOOL, z3.Or(a.t, b.t))
        if j.kind == "Bool":
            j = INT
        if isinstance(op, ast.Div):
            j = REAL
        x, y = coerce(a.t, a.ty, j), coerce(b.t, b.ty, j)
        if isinstance(op, ast.Add):
            return Sc(j, x + y)
        if isinstance(op, ast.Sub):
            return Sc(j, x - y)
        if isinstance(op, ast.Mult):
            return Sc(j, x * y)
        if isinstance(op, ast.Div):
            self.require(st, "division by a non-zero number", y != 0)
            return Sc(REAL, x / y)
        if isinstance(op, ast.Pow):
            return Sc(REAL, z3.Function("power", z3.RealSort(), z3.RealSort(), z3.RealSort())(coerce(x, j, REAL), coerce(y, j, REAL)))
        if isinstance(op, (ast.FloorDiv, ast.Mod)) and j == INT:
            self.require(st, "division by a positive number", y > 0)
            return Sc(INT, x / y if isinstance(op, ast.FloorDiv) else x % y)
        raise Unsupported("operator %s" % type(op).__name__)

    def setlike(self, st, v):
        """(elt type, term) if v is a set-like value"""
        if isinstance(v, MaybeV):
            v = v.v
        if isinstance(v, Sc) and v.ty.kind == "FSet":
            return v.ty.args[0], v.t
        if isinstance(v, Ref):
            rt = self.rtype(st, v)
            if rt.kind == "Set":
                return rt.args[0], self.read(st, v)
            if rt.kind == "Untyped" and rt.args[0] in ("set", "frozenset"):
                return None, None
        if isinstance(v, ViewV) and v.kind == "keys":
            rt = self.rtype(st, v.ref)
            if rt.kind == "Untyped":
                return None, None
            return rt.args[0], dom(rt, self.read(st, v.ref))
        return False

    def setop(self, op, a, b, ty, st=None):
        S = sort(SET(ty))
        if st is not None and not st.binders and isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub)):
            a, b = self.named(st, a), self.named(st, b)
            share = getattr(self.proof, "share_setops", False)
            if share:
                known = st.notes.get("setops", {})
                hit = known.get((type(op).__name__, a.get_id(), b.get_id()))
                if hit is not None:
                    return hit[0]
            r = z3.Const(self.uid("setop"), S)
            if share:
                st.notes = dict(st.notes)
                st.notes["setops"] = dict(known, **{})
                st.notes["setops"][(type(op).__name__, a.get_id(), b.get_id())] = (r, a, b)
            x = z3.Const("x!set", sort(ty))
            A, B_, R = z3.Select(a, x), z3.Select(b, x), z3.Select(r, x)
            f = z3.Or(A, B_) if isinstance(op, ast.BitOr) else z3.And(A, B_) if isinstance(op, ast.BitAnd) else z3.And(A, z3.Not(B_))
            self.assume(st, z3.ForAll([x], R == f, patterns=[R] + [p for p in (A, B_) if not z3.is_const_array(p.arg(0))]))
            return r
        if isinstance(op, ast.BitOr):
            return z3.SetUnion(a, b)
        if isinstance(op, ast.BitAnd):
            return z3.SetIntersect(a, b)
        if isinstance(op, ast.Sub):
            return z3.SetDifference(a, b)
        raise Unsupported("set operator")

    def binop(self, st, op, a, b):
        if isinstance(a, MaybeV):
            a = a.v
        if isinstance(b, MaybeV):
            b = b.v
        if isinstance(a, LitV) and isinstance(b, LitV) and isinstance(op, ast.Add):
            return LitV(a.xs + b.xs)
        if isinstance(op, ast.Add) and {type(a), type(b)} <= {LitV, Ref}:
            for x, y, flip in ((a, b, 0), (b, a, 1)):
                if isinstance(x, Ref) and self.rtype(st, x).kind == "Untyped" and isinstance(y, LitV):
                    return y
        if isinstance(a, TupV) and isinstance(b, TupV) and isinstance(op, ast.Add):
            return TupV(a.xs + b.xs)
        sa, sb = self.setlike(st, a), self.setlike(st, b)
        if sa and sb:
            ety = sa[0] or sb[0]
            if ety is None:
                return self.alloc_untyped(st, "set")
            if sa[0] is not None and sb[0] is not None and sa[0] != sb[0]:
                raise Unsupported("set operation on %s and %s" % (sa[0], sb[0]))
            x = sa[1] if sa[0] is not None else empty(SET(ety))
            y = sb[1] if sb[0] is not None else empty(SET(ety))
            t = self.setop(op, x, y, ety, st)
            if isinstance(a, Sc):
                return Sc(FSET(ety), t)
            return self.alloc(st, SET(ety), t, "set")
        if isinstance(a, Sc) and isinstance(b, Sc):
            return self.arith(st, op, a, b)
        if isinstance(op, ast.Mod) and isinstance(a, StrC):
            return Sc(SYM("Str"), self.fresh(SYM("Str"), "fmt", st))
        if isinstance(op, ast.Add) and (isinstance(a, StrC) or isinstance(b, StrC)):
            if isinstance(a, StrC) and isinstance(b, StrC):
                return StrC(a.s + b.s)
            return Sc(SYM("Str"), self.fresh(SYM("Str"), "concat", st))
        if isinstance(op, ast.Add) and all(isinstance(x, (Ref, LitV)) for x in (a, b)):
            return self.seq_concat(st, a, b)
        raise Unsupported("operator %s on %s, %s" % (type(op).__name__, type(a).__name__, type(b).__name__))

    def seq_concat(self, st, a, b):
        ta, tb = self.typeof(st, a), self.typeof(st, b)
        if ta.kind == "Untyped":
            ta = tb
        ty = SEQ(join(ta.args[0], tb.args[0] if tb.kind != "Untyped" else ta.args[0]))
        x, y = self.term(st, a, ty), self.term(st, b, ty)
        r = self.havoc(ty, "concat", st)
        i = z3.Const("i!c", z3.IntSort())
        z = z3.Const("x!c", sort(ty.args[0]))
        na, nb = seqlen(ty, x), seqlen(ty, y)
        self.assume(st, lo(ty, r) == 0)
        self.assume(st, hi(ty, r) == na + nb)
        self.assume(st, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < na), z3.Select(arr(ty, r), i) == seqat(ty, x, i))))
        self.assume(st, z3.ForAll([i], z3.Implies(z3.And(na <= i, i < na + nb), z3.Select(arr(ty, r), i) == seqat(ty, y, i - na))))
        self.assume(st, z3.ForAll([z], z3.Select(cnt(ty, r), z) == z3.Select(cnt(ty, x), z) + z3.Select(cnt(ty, y), z)))
        return self.alloc(st, ty, r, "list")

    def e_BinOp(self, e, st, fid, glob, func):
        out = []
        for s, vs in self.evals([e.left, e.right], st, fid, glob, func):
            if isinstance(vs, RaisedV):
                out.append((s, vs))
            else:
                out.append((s, self.binop(s, e.op, *vs)))
        return out

    def equal(self, st, a, b):
        """z3 Bool for a == b on data values"""
        if isinstance(a, MaybeV):
            a = a.v
        if isinstance(b, MaybeV):
            b = b.v
        if isinstance(a, StrC) and isinstance(b, StrC):
            return z3.BoolVal(a.s == b.s)
        if isinstance(a, TupV) and isinstance(b, TupV):
            if len(a.xs) != len(b.xs):
                return z3.BoolVal(False)
            return z3.And(*[self.equal(st, x, y) for x, y in zip(a.xs, b.xs)]) if a.xs else z3.BoolVal(True)
        sa, sb = self.setlike(st, a), self.setlike(st, b)
        if sa and sb:
            ety = sa[0] or sb[0]
            if ety is None:
                return z3.BoolVal(True)
            x = sa[1] if sa[0] is not None else empty(SET(ety))
            y = sb[1] if sb[0] is not None else empty(SET(ety))
            return x == y
        if isinstance(a, (ObjV,)) or isinstance(b, ObjV):
            if isinstance(a, ObjV) and isinstance(b, ObjV):
                return z3.BoolVal(a.oid == b.oid)
            return z3.BoolVal(False)
        if isinstance(a, (FuncV, BoundV, ClassV)) or isinstance(b, (FuncV, BoundV, ClassV)):
            if isinstance(a, ClassV) and isinstance(b, ClassV):
                return z3.BoolVal(a.cls is b.cls)
            if isinstance(a, Sc) and a.ty == NONE or isinstance(b, Sc) and b.ty == NONE:
                return z3.BoolVal(False)
            raise Unsupported("comparison of functions")
        ta, tb = self.typeof(st, a), self.typeof(st, b)
        if ta.kind == "Untyped" or tb.kind == "Untyped":
            if ta.kind == "Untyped" and tb.kind == "Untyped":
                return z3.BoolVal(ta.args[0] == tb.args[0])
            x, tx = (b, tb) if ta.kind == "Untyped" else (a, ta)
            return z3.Not(self.truth(st, x))
        try:
            j = join(ta, tb)
        except Unsupported:
            if isinstance(a, StrC) or isinstance(b, StrC):
                x, y = (a, b) if isinstance(a, StrC) else (b, a)
                ty = self.typeof(st, y)
                if ty.kind == "Sym":
                    return self.term(st, y) == self.symconst(x.s, ty.args[0])
                if ty.kind == "Opt" and ty.args[0].kind == "Sym":
                    return self.term(st, y) == some(ty, self.symconst(x.s, ty.args[0].args[0]))
            return z3.BoolVal(False)
        x, y = coerce(self.term(st, a), ta, j), coerce(self.term(st, b), tb, j)
        if j.kind in ("Map", "DMap", "Seq", "Word"):
            return self.deep_eq(j, x, y)
        return x == y

    def deep_eq(self, ty, x, y):
        if ty.kind in ("Seq", "Word"):
            i = z3.Const("i!eq", z3.IntSort())
            return z3.And(seqlen(ty, x) == seqlen(ty, y),
                          z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < seqlen(ty, x)), seqat(ty, x, i) == seqat(ty, y, i))))
        raise Unsupported("equality of %s" % ty)

    def contains(self, st, x, c):
        if isinstance(c, MaybeV):
            c = c.v
        if isinstance(c, (TupV, LitV)):
            return z3.Or(*[self.equal(st, x, y) for y in c.xs]) if c.xs else z3.BoolVal(False)
        if isinstance(c, DictLit):
            return z3.Or(*[self.equal(st, x, k) for k, _ in c.items]) if c.items else z3.BoolVal(False)
        if isinstance(c, StrC) and isinstance(x, StrC):
            return z3.BoolVal(x.s in c.s)
        if isinstance(c, StrC):
            return z3.Or(*[self.equal(st, x, StrC(ch)) for ch in c.s])
        if isinstance(c, ViewV) and c.kind == "keys":
            c = c.ref
        if isinstance(c, Ref):
            rt = self.rtype(st, c)
            if rt.kind == "Untyped":
                return z3.BoolVal(False)
            t = self.read(st, c)
            if rt.kind == "Seq":
                return z3.Select(cnt(rt, t), self.term(st, x, rt.args[0])) >= 1
            s = t if rt.kind == "Set" else dom(rt, t)
            return self.mem(st, s, rt.args[0], x)
        if isinstance(c, Sc) and c.ty.kind == "FSet":
            return self.mem(st, c.t, c.ty.args[0], x)
        if isinstance(c, (GenV, ViewV)):
            it = self.iterate(st, c)
            k = z3.Const("k!in", z3.IntSort())
            return z3.Exists([k], z3.And(0 <= k, k < it.n, it.at(k) == self.term(st, x, it.ety)))
        if isinstance(c, RangeV):
            t = self.term(st, x, INT)
            return z3.And(c.lo <= t, t < c.hi)
        raise Unsupported("membership in %s" % type(c).__name__)

    def mem(self, st, s, ety, x):
        tx = self.typeof(st, x)
        if tx.kind == "Set":
            tx = FSET(tx.args[0])
        if tx == NONE and ety.kind != "Opt" or (tx, ety) in self.__dict__.get("apart", ()):
            return z3.BoolVal(False)
        if tx.kind == "Opt" and ety.kind != "Opt":
            t = self.term(st, x)
            return z3.And(is_some(tx, t), z3.Select(s, coerce(optval(tx, t), tx.args[0], ety)))
        if isinstance(x, StrC):
            return z3.Select(s, self.term(st, x, ety))
        if isinstance(x, TupV) and ety.kind == "Tup" and len(ety.args) == len(x.xs):
            conds, xs = [], []
            for y, t in zip(x.xs, ety.args):
                ty_ = self.typeof(st, y)
                ty_t = self.term(st, y)
                if ty_.kind == "Opt" and t.kind != "Opt":
                    conds.append(is_some(ty_, ty_t))
                    xs.append(optval(ty_, ty_t))
                elif ty_ == NONE and t.kind != "Opt":
                    return z3.BoolVal(False)
                else:
                    xs.append(self.term(st, y, t))
            return z3.And(*conds, z3.Select(s, mk(ety, *xs)))
        return z3.Select(s, coerce(self.term(st, x), tx, ety))

    def is_none_(self, st, v):
        if isinstance(v, MaybeV):
            v = v.v
        if isinstance(v, Sc):
            if v.ty == NONE:
                return z3.BoolVal(True)
            if v.ty.kind == "Opt":
                return is_none(v.ty, v.t)
        return z3.BoolVal(False)

    def user_eq(self, st, a, b):
        """does == on these go through a user __eq__?"""
        return isinstance(a, ObjV) and self.find_method(st.objs[a.oid][0], "__eq__") and \
            self.find_method(st.objs[a.oid][0], "__eq__")[0] is not object

    def compare1(self, st, op, a, b):
        """[(state, z3 bool)]"""
        if isinstance(op, (ast.Is, ast.IsNot)):
            if isinstance(b, Sc) and b.ty == NONE:
                t = self.is_none_(st, a)
            elif isinstance(a, Sc) and a.ty == NONE:
                t = self.is_none_(st, b)
            elif isinstance(a, ObjV) and isinstance(b, ObjV):
                t = z3.BoolVal(a.oid == b.oid)
            elif isinstance(a, Sc) and isinstance(b, Sc) and BOOL in (a.ty, b.ty):
                t = self.equal(st, a, b)
            else:
                raise Unsupported("'is' on %s" % type(a).__name__)
            return [(st, z3.Not(t) if isinstance(op, ast.IsNot) else t)]
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, ObjV):
                out = []
                for s, m in self.getattr(st, b, "__contains__"):
                    for s2, v in self.call(s, m, [a], {}):
                        t = self.truth(s2, v)
                        out.append((s2, z3.Not(t) if isinstance(op, ast.NotIn) else t))
                return out
            t = self.contains(st, a, b)
            return [(st, z3.Not(t) if isinstance(op, ast.NotIn) else t)]
        names = {ast.Eq: "__eq__", ast.NotEq: "__ne__", ast.Lt: "__lt__", ast.LtE: "__le__", ast.Gt: "__gt__", ast.GtE: "__ge__"}
        if isinstance(a, ObjV):
            m = self.find_method(st.objs[a.oid][0], names[type(op)])
            if m and m[0] is not object:
                out = []
                for s, r in self.getattr(st, a, names[type(op)]):
                    for s2, v in self.call(s, r, [b], {}):
                        for s3, t in self.truthy(s2, v):
                            out.append((s3, t))
                return out
        if isinstance(op, (ast.Eq, ast.NotEq)):
            t = self.equal(st, a, b)
            return [(st, z3.Not(t) if isinstance(op, ast.NotEq) else t)]
        return [(st, self.less(st, op, a, b))]

    def less(self, st, op, a, b):
        if isinstance(a, TupV) and isinstance(b, TupV):
            strict = isinstance(op, (ast.Lt, ast.Gt))
            res = z3.BoolVal(not strict)
            lt = ast.Lt() if isinstance(op, (ast.Lt, ast.LtE)) else ast.Gt()
            for x, y in reversed(list(zip(a.xs, b.xs))):
                res = z3.Or(self.less(st, lt, x, y), z3.And(self.equal(st, x, y), res))
            return res
        sa, sb = self.setlike(st, a), self.setlike(st, b)
        if sa and sb:
            if isinstance(op, ast.LtE):
                return z3.IsSubset(sa[1], sb[1])
            raise Unsupported("set ordering")
        if isinstance(a, StrC) and isinstance(b, StrC):
            return z3.BoolVal(eval("a %s b" % {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[type(op)], {"a": a.s, "b": b.s}))
        ta, tb = self.typeof(st, a), self.typeof(st, b)
        xa, xb = self.term(st, a), self.term(st, b)
        if ta.kind == "Opt":
            self.require(st, "compared value is not None", is_some(ta, xa))
            ta, xa = ta.args[0], optval(ta, xa)
        if tb.kind == "Opt":
            self.require(st, "compared value is not None", is_some(tb, xb))
            tb, xb = tb.args[0], optval(tb, xb)
        j = join(ta, tb)
        x, y = coerce(xa, ta, j), coerce(xb, tb, j)
        if j.kind in ("Int", "Real"):
            return {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)]
        if j.kind == "Tup":
            return self.less(st, op, TupV([Sc(t, fld(j, x, i)) for i, t in enumerate(j.args)]),
                             TupV([Sc(t, fld(j, y, i)) for i, t in enumerate(j.args)]))
        if j.kind == "Sym":
            lt = z3.Function("lt_" + j.args[0], sort(j), sort(j), z3.BoolSort())
            return {ast.Lt: lt(x, y), ast.Gt: lt(y, x), ast.LtE: z3.Or(x == y, lt(x, y)), ast.GtE: z3.Or(x == y, lt(y, x))}[type(op)]
        raise Unsupported("ordering of %s" % j)

    def e_Compare(self, e, st, fid, glob, func):
        out = []
        for s, vs in self.evals([e.left] + e.comparators, st, fid, glob, func):
            if isinstance(vs, RaisedV):
                out.append((s, vs))
                continue
            cur = [(s, z3.BoolVal(True))]
            for i, op in enumerate(e.ops):
                nxt = []
                for s1, acc in cur:
                    for s2, t in self.compare1(s1, op, vs[i], vs[i + 1]):
                        nxt.append((s2, z3.And(acc, t) if not z3.is_true(acc) else t))
                cur = nxt
            out += [(s2, B(t)) for s2, t in cur]
        return out

    def e_Subscript(self, e, st, fid, glob, func):
        out = []
        if isinstance(e.slice, ast.Slice):
            sl = e.slice
            parts = [x for x in (sl.lower, sl.upper) if x is not None]
            if sl.step is not None:
                try: step = ast.literal_eval(sl.step)
                except ValueError: step = None
                if step != -1 or parts or st.binders:
                    raise Unsupported("slice step")
                for s, v in self.eval(e.value, st, fid, glob, func):
                    if not isinstance(v, RaisedV):
                        ty = self.typeof(s, v)
                        if ty.kind == "Untyped" and ty.args[0] == "list": pass
                        elif ty.kind != "Seq" or isinstance(v, LitV): raise Unsupported("slice step")
                        else: v = self.alloc(s, ty, self.reverse_seq(s, ty, self.term(s, v)), "slice")
                    out.append((s, v))
                return out
            for s, vs in self.evals([e.value] + parts, st, fid, glob, func):
                if isinstance(vs, RaisedV):
                    out.append((s, vs))
                    continue
                rest = vs[1:]
                a = rest.pop(0) if sl.lower is not None else None
                b = rest.pop(0) if sl.upper is not None else None
                out.append((s, self.slice(s, vs[0], a, b)))
            return out
        for s, vs in self.evals([e.value, e.slice], st, fid, glob, func):
            if isinstance(vs, RaisedV):
                out.append((s, vs))
            else:
                out += self.getitem(s, vs[0], vs[1])
        return out

    def slice(self, st, v, a, b):
        if isinstance(v, StrC) and all(x is None or (isinstance(x, Sc) and z3.is_int_value(z3.simplify(x.t))) for x in (a, b)):
            f = lambda x: None if x is None else z3.simplify(x.t).as_long()
            return StrC(v.s[f(a):f(b)])
        if isinstance(v, (LitV, TupV)) and all(x is None or (isinstance(x, Sc) and z3.is_int_value(z3.simplify(x.t))) for x in (a, b)):
            f = lambda x: None if x is None else z3.simplify(x.t).as_long()
            return type(v)(v.xs[f(a):f(b)])
        ty = self.typeof(st, v)
        if ty.kind not in ("Seq", "Word"):
            raise Unsupported("slice of %s" % ty)
        t = self.term(st, v)
        n = seqlen(ty, t)

        def clamp(x):
            x = self.term(st, x, INT)
            x = z3.If(x < 0, z3.If(x + n < 0, z3.IntVal(0), x + n), z3.If(x > n, n, x))
            return x
        i = clamp(a) if a is not None and not (isinstance(a, Sc) and a.ty == NONE) else z3.IntVal(0)
        j = clamp(b) if b is not None and not (isinstance(b, Sc) and b.ty == NONE) else n
        j = z3.If(j < i, i, j)
        r = mk(WORD(ty.args[0]), lo(ty, t) + i, lo(ty, t) + j, arr(ty, t), cnt(ty, t))
        if ty.kind == "Word":
            return Sc(WORD(ty.args[0]), r)
        c = z3.Const(self.uid("cnt_slice"), cnt(ty, t).sort())
        r = mk(ty, lo(ty, t) + i, lo(ty, t) + j, arr(ty, t), c)
        for f in self.wf(ty, r):
            self.assume(st, f)
        return self.alloc(st, ty, r, "slice")

    def index_term(self, st, ty, t, idx):
        """absolute index of a Python index, with the bounds obligation"""
        i = self.term(st, idx, INT)
        n = seqlen(ty, t)
        self.require(st, "index in range", z3.And(-n <= i, i < n))
        s = z3.simplify(i)
        if z3.is_int_value(s):
            return lo(ty, t) + i if s.as_long() >= 0 else hi(ty, t) + i
        if not self.feasible(st, i < 0):
            return lo(ty, t) + i
        return z3.If(i >= 0, lo(ty, t) + i, hi(ty, t) + i)

    def key_may_raise(self, st):
        return any(issubclass(KeyError, c) for cs in st.tries for c in cs)

    def getitem(self, st, v, k):
        if isinstance(v, MaybeV):
            v = v.v
        if isinstance(v, ObjV):
            out = []
            for s, m in self.getattr(st, v, "__getitem__"):
                out += self.call(s, m, [k], {})
            return out
        if isinstance(v, Sc) and v.ty.kind == "Sym" and v.ty in self.symattr:
            return self.symattr[v.ty]("__getitem__", v)(self, st, v, [k], {})
        if isinstance(v, (TupV, LitV)):
            i = z3.simplify(self.term(st, k, INT))
            if z3.is_int_value(i):
                n = i.as_long()
                if not -len(v.xs) <= n < len(v.xs):
                    self.require(st, "index in range", z3.BoolVal(False))
                    return []
                return [(st, v.xs[n])]
            raise Unsupported("symbolic index into a tuple")
        if isinstance(v, StrC):
            i = z3.simplify(self.term(st, k, INT))
            if z3.is_int_value(i):
                return [(st, StrC(v.s[i.as_long()]))]
        if isinstance(v, DictLit):
            for kk, x in v.items:
                if z3.is_true(z3.simplify(self.equal(st, k, kk))):
                    return [(st, x)]
            raise Unsupported("lookup in a dict display")
        if isinstance(v, Sc) and v.ty.kind == "Tup":
            i = z3.simplify(self.term(st, k, INT))
            if z3.is_int_value(i):
                n = i.as_long()
                n = n + len(v.ty.args) if n < 0 else n
                return [(st, self.wrap(v.ty.args[n], fld(v.ty, v.t, n)))]
        if isinstance(v, Sc) and v.ty.kind == "Opt":
            self.require(st, "subscripted value is not None", is_some(v.ty, v.t))
            return self.getitem(st, self.wrap(v.ty.args[0], optval(v.ty, v.t)), k)
        if isinstance(v, Sc) and v.ty.kind == "Word":
            i = self.index_term(st, v.ty, v.t, k)
            return [(st, self.wrap(v.ty.args[0], z3.Select(arr(v.ty, v.t), i)))]
        if isinstance(v, PyC) and isinstance(v.o, tuple):
            i = z3.simplify(self.term(st, k, INT)).as_long()
            return [(st, self.from_py(v.o[i], st))]
        if isinstance(v, Ref):
            rt = self.rtype(st, v)
            if rt.kind == "Untyped":
                if rt.args[0] == "defaultdict":
                    vt = st.notes.get(("dd", v.loc))
                    if vt is None:
                        raise Unsupported("read from an untyped defaultdict (declare its type)")
                    self.retype(st, v, DMAP(self.keytype(self.typeof(st, k)), vt))
                    return self.getitem(st, v, k)
                self.require(st, "key present in empty container", z3.BoolVal(False))
                return []
            t = self.read(st, v)
            if rt.kind == "Seq" and self.index_may_raise(st) and not st.binders:
                i, n, out = self.term(st, k, INT), seqlen(rt, t), []
                for s, b in self.branch(st, z3.And(-n <= i, i < n)):
                    out.append((s, self.wrap(rt.args[0], z3.Select(arr(rt, t), self.index_term(s, rt, t, k))) if b else RaisedV(Exc(IndexError))))
                return out
            if rt.kind == "Seq":
                i = self.index_term(st, rt, t, k)
                return [(st, self.wrap(rt.args[0], z3.Select(arr(rt, t), i)))]
            if rt.kind in ("Map", "DMap"):
                kt, vt = rt.args
                if rt.kind == "Map":
                    present = self.mem(st, dom(rt, t), kt, k)
                    out = []
                    if self.key_may_raise(st):
                        for s, b in self.branch(st, present):
                            if b:
                                out += self.getitem_ok(s, v, rt, k)
                            else:
                                out.append((s, RaisedV(Exc(KeyError))))
                        return out
                    self.require(st, "key present in dict", present)
                return self.getitem_ok(st, v, rt, k)
        raise Unsupported("subscript of %s" % type(v).__name__)

    def getitem_ok(self, st, v, rt, k):
        kt, vt = rt.args
        kk = self.keyterm(st, k, kt)
        if rt.kind == "DMap":
            t = self.read(st, v)
            if not st.binders:
                self.write(st, v, mk(rt, z3.Store(dom(rt, t), kk, True), val(rt, t)))
            elif not z3.is_true(z3.simplify(z3.Select(dom(rt, t), kk))):
                st.notes["$dtouch"] = st.notes.get("$dtouch", ()) + ((v.loc,),)
        if vt.kind in ("Set", "Map", "DMap", "Seq"):
            loc, path = self.resolve(st, v)
            return [(st, Ref(loc, path + ((kt, kk),), self.tick()))]
        return [(st, self.wrap(vt, z3.Select(val(rt, self.read(st, v)), kk)))]

    def keyterm(self, st, k, kt):
        tk = self.typeof(st, k)
        if tk.kind == "Opt" and kt.kind != "Opt":
            return coerce(optval(tk, self.term(st, k)), tk.args[0], kt)
        if isinstance(k, TupV) and kt.kind == "Tup":
            return mk(kt, *[self.keyterm(st, x, t) for x, t in zip(k.xs, kt.args)])
        return self.term(st, k, kt)

    # -------- storing
    def freeze(self, st, v, ty):
        """term to store inside a container; returns (term, mover) where a root
        container reference is moved into the new place"""
        return self.term(st, v, ty)

    def setitem(self, st, c, k, v):
        if isinstance(c, MaybeV):
            c = c.v
        if isinstance(c, ObjV):
            out = []
            for s, m in self.getattr(st, c, "__setitem__"):
                out += self.call(s, m, [k, v], {})
            return out
        if not isinstance(c, Ref):
            raise Unsupported("item assignment on %s" % type(c).__name__)
        rt = self.rtype(st, c)
        if rt.kind == "Untyped":
            if rt.args[0] in ("dict", "defaultdict"):
                vt = self.typeof(st, v)
                if vt.kind == "Untyped":
                    raise Unsupported("untyped container stored in an untyped dict (declare types)")
                self.retype(st, c, MAP(self.keytype(self.typeof(st, k)), vt))
                rt = self.rtype(st, c)
            else:
                raise Unsupported("item assignment on empty list")
        t = self.read(st, c)
        if rt.kind == "Seq":
            i = self.index_term(st, rt, t, k)
            x = self.term(st, v, rt.args[0])
            old = z3.Select(arr(rt, t), i)
            ct = z3.Store(cnt(rt, t), old, z3.Select(cnt(rt, t), old) - 1)
            ct = z3.Store(ct, x, z3.Select(ct, x) + 1)
            self.write(st, c, mk(rt, lo(rt, t), hi(rt, t), z3.Store(arr(rt, t), i, x), ct))
            return [(st, NONE_)]
        if rt.kind not in ("Map", "DMap"):
            raise Unsupported("item assignment on %s" % rt)
        kt, vt = rt.args
        kk = self.keyterm(st, k, kt)
        try:
            x = self.term(st, v, vt)
        except Unsupported:
            x = None
        if x is None:
            # widen the map's value type if it is a fresh root map
            nt = join(self.typeof(st, v), vt)
            raise Unsupported("storing %s into %s" % (self.typeof(st, v), rt))
        loc, path = self.resolve(st, c)
        if vt.mutable and isinstance(v, Ref):
            vl, vp = self.resolve(st, v)
            if vl == loc and len(vp) == len(path) + 1 and all(a.eq(b) or not self.feasible(st, a != b) for (_, a), (_, b) in zip(vp, path + ((kt, kk),))):
                # the container already held at this key
                self.write(st, c, mk(rt, z3.Store(dom(rt, t), kk, True), val(rt, t)))
                return [(st, NONE_)]
        if vt.mutable:
            # previous container at this key becomes detached
            if not z3.is_false(z3.simplify(z3.Select(dom(rt, t), kk))):
                st.poison.append((loc, path + ((kt, kk),), self.tick()))
        self.write(st, c, mk(rt, z3.Store(dom(rt, t), kk, True), z3.Store(val(rt, t), kk, x)))
        if vt.mutable and isinstance(v, Ref):
            vl, vp = self.resolve(st, v)
            if vp:
                raise Unsupported("a nested container is stored twice")
            if vl != loc:
                st.fwd[vl] = (loc, path + ((kt, kk),))
                del st.heap[vl]
                v.born = self.tick()
                for fr in st.frames.values():
                    for n, y in fr.items():
                        if isinstance(y, Ref) and y.loc == vl:
                            y2 = Ref(y.loc, y.path, self.clock)
                            fr[n] = y2
        return [(st, NONE_)]

    def delitem(self, st, c, k):
        rt = self.rtype(st, c)
        if rt.kind == "Untyped":
            self.require(st, "key present in empty container", z3.BoolVal(False))
            return []
        if rt.kind not in ("Map", "DMap"):
            raise Unsupported("del on %s" % rt)
        t = self.read(st, c)
        present = self.mem(st, dom(rt, t), rt.args[0], k)
        states = [(st, True)]
        out = []
        if self.key_may_raise(st):
            states = self.branch(st, present)
        else:
            self.require(st, "deleted key present in dict", present)
        for s, ok in states:
            if not ok:
                out.append((s, RaisedV(Exc(KeyError))))
                continue
            kk = self.keyterm(s, k, rt.args[0])
            if rt.args[1].mutable:
                loc, path = self.resolve(s, c)
                s.poison.append((loc, path + ((rt.args[0], kk),), self.tick()))
            v = val(rt, t)
            if rt.kind == "DMap":
                v = z3.Store(v, kk, default(rt.args[1]))
            self.write(s, c, mk(rt, z3.Store(dom(rt, t), kk, False), v))
            out.append((s, NONE_))
        return out


class RaisedV(V):
    def __init__(self, exc):
        self.exc = exc
