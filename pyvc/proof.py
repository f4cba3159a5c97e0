"""Contracts as proofs: a Proof ties one function of /repo to its contract and yields the obligations."""
import importlib, sys, time
import z3
from .types import *
from .engine import *
from .engine import NONEV, NONE_, _modast
from .engine2 import Engine2, CallContract


class Setup:
    """builds the symbolic pre-state of a proof"""

    def __init__(self, eng, st):
        self.eng, self.st = eng, st
        self.notes = {}

    def const(self, ty, name):
        "an arbitrary value of an immutable type"
        t = self.eng.havoc(ty, name, self.st)
        return Sc(ty, t)

    def int(self, name):
        return self.const(INT, name)

    def word(self, ety, name):
        "an arbitrary immutable sequence (str)"
        ty = WORD(ety)
        n = z3.Int(self.eng.uid(name + "_len"))
        self.assume(n >= 0)
        return Sc(ty, mk(ty, z3.IntVal(0), n, z3.Const(self.eng.uid(name + "_at"), z3.ArraySort(z3.IntSort(), sort(ety))), z3.Const(self.eng.uid(name + "_cnt"), z3.ArraySort(sort(ety), z3.IntSort()))))

    def cont(self, ty, name):
        "an arbitrary container (heap allocated)"
        return self.eng.alloc(self.st, ty, self.eng.havoc(ty, name, self.st), name)

    def obj(self, cls, **attrs):
        return self.eng.new_obj(self.st, cls, attrs)

    def term(self, v):
        return self.eng.term(self.st, v)

    def assume(self, *ts):
        for t in ts:
            self.eng.assume(self.st, t)

    def ghost(self, name, ty, t):
        self.st.ghost[name] = (ty, t)


class Proof:
    def __init__(self, name, key, setup, post=None, raises=None, loops=None, contracts=(), types=None, modifies=None,
                 consume=None, pre=None, opaque=None, value_classes=("EdgeDescriptor", "Op"), symty="Sym", configure=None, axioms=None, may_not_return=False, note=""):
        self.__dict__.update(name=name, key=key, setup=setup, post=post or (lambda c: []), raises=raises or {}, loops=loops or {}, contracts=list(contracts),
                             types=types or {}, modifies=modifies, consume=consume, opaque=opaque or {}, value_classes=value_classes, symty=symty,
                             configure=configure, axioms=axioms, may_not_return=may_not_return, note=note, pre=pre)

    def generate(self):
        eng = Engine2(contracts=self.contracts, value_classes=self.value_classes, loops=self.loops, types=self.types, symty=self.symty)
        eng.proof = self
        eng.opaque = dict(self.opaque)
        if self.configure:
            self.configure(eng)
        st = State()
        S = Setup(eng, st)
        r = self.setup(S)
        args, kwargs = r if isinstance(r, tuple) else (r, {})
        modn, q = self.key.split(":")
        m = importlib.import_module(modn)
        f = self.find(eng, m, q)
        fargs = {}
        eng.proof_args = fargs
        env = eng.bind_args(st, f, args, kwargs)
        fargs.update({k: v for k, v in env.items() if not k.startswith("$")})
        eng.old_state = st
        if self.pre:
            for nm, t in self.pre(Ctx(eng, st, old=st, args=fargs, S=S, fid=None)):
                eng.assume(st, t)
        eng.old_state = st.copy()
        if self.axioms:
            eng.axioms += self.axioms(Ctx(eng, st, old=eng.old_state, args=fargs))
        eng.covers.append(("precondition", [t for _, t in st.pc], True))
        outs = eng.call_func(st, f, args, kwargs, toplevel=True)
        n = 0
        live = []
        for s, v in outs:
            if isinstance(v, RaisedV):
                cls = v.exc.cls
                spec = None
                for k, sp in self.raises.items():
                    if issubclass(cls, k):
                        spec = sp
                if spec is None:
                    eng.oblige(s, "raises:%s" % cls.__name__, z3.BoolVal(False), "raises")
                else:
                    c = Ctx(eng, s, old=eng.old_state, res=None, args=fargs, exc=v.exc, S=S, fid=None)
                    for nm, t in spec(c):
                        eng.oblige(s, "raises:%s:%s" % (cls.__name__, nm), t, "post")
                    self.frame(eng, s, c)
                continue
            if self.consume:
                cons = self.consume(eng, s, v)
            else:
                cons = [(s, v)]
            for s2, v2 in cons:
                if isinstance(v2, RaisedV):
                    eng.oblige(s2, "raises:%s" % v2.exc.cls.__name__, z3.BoolVal(False), "raises")
                    continue
                live.append([t for _, t in s2.pc])
                c = Ctx(eng, s2, old=eng.old_state, res=v2, args=fargs, S=S, fid=None)
                for nm, t in self.post(c):
                    n += 1
                    eng.oblige(s2, "post:%s" % nm, t, "post")
                self.frame(eng, s2, c)
        if not self.may_not_return:
            if not live:
                eng.oblige(st, "returns", z3.BoolVal(False), "post")
            else:
                eng.covers.append(("return", live, "any"))
        return eng

    def frame(self, eng, s, c):
        """what the contract does not list as modified is unchanged"""
        if self.modifies is None:
            return
        allowed = set()
        for m in self.modifies(c):
            if isinstance(m, Ref):
                allowed.add(m.loc)
            elif isinstance(m, tuple):
                allowed.add((m[0].oid, m[1]))
            else:
                allowed.add(m)
        old = eng.old_state
        for loc, (ty, t) in old.heap.items():
            if loc in allowed or ty.kind == "Untyped":
                continue
            ty2, t2 = s.heap[loc]
            if t2 is not t and not t2.eq(t):
                eng.oblige(s, "frame:%s" % loc.split("!")[0], t2 == t, "frame")
        for oid, (cls, at, _) in old.objs.items():
            for a, v in at.items():
                if (oid, a) in allowed:
                    continue
                w = s.objs[oid][1].get(a)
                if w is not v and not eng.same_value(v, w):
                    try:
                        g = eng.term(s, w) == eng.term(old, v)
                    except Exception:
                        g = z3.BoolVal(False)
                    eng.oblige(s, "frame:%s.%s" % (getattr(cls, "__name__", "obj"), a), g, "frame")
            for a in s.objs[oid][1]:
                if a not in at and (oid, a) not in allowed:
                    eng.oblige(s, "frame:%s.%s added" % (getattr(cls, "__name__", "obj"), a), z3.BoolVal(False), "frame")

    def find(self, eng, m, q):
        o = m
        owner = None
        for part in q.split("."):
            owner = o if isinstance(o, type) else None
            o = o.__dict__[part] if isinstance(o, type) and part in o.__dict__ else getattr(o, part)
        if isinstance(o, staticmethod):
            o = o.__func__
        f = eng.func_value(o, cls=owner)
        if not isinstance(f, FuncV):
            raise Unsupported("%s is not a function of the package" % q)
        return f


class Lemma:
    """a fact proved by itself: hyps |- goal"""

    def __init__(self, name, make):
        self.name, self.make = name, make

    def generate(self):
        eng = Engine2()
        st = State()
        for nm, hyps, goal in self.make():
            eng.obls.append(Obl(nm, list(hyps), goal, "lemma"))
        return eng
