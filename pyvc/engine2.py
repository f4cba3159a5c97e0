"""Iteration, comprehensions, calls, statements, loops."""
import copy, difflib
from .engine import *
from .engine import Engine as _E, RaisedV, composite


def plus(a, k):
    return k if z3.is_int_value(a) and a.as_long() == 0 else a + k


def minus(a, l):
    return a if z3.is_int_value(l) and l.as_long() == 0 else a - l


def free_consts(ts, b):
    """the uninterpreted constants that occur in ts, b excepted, in order of first occurrence"""
    seen, out, todo = set(), [], list(reversed(ts))
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not x.eq(b):
            out.append(x)
        elif z3.is_app(x):
            todo.extend(reversed(x.children()))
    return out


def occurs(vs, t, seen=None):
    """those of the constants vs that occur in t"""
    seen, found, todo = set(), set(), [t]
    ids = {v.get_id(): v for v in vs}
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i in ids:
            found.add(i)
        if z3.is_quantifier(x):
            todo.append(x.body())
            todo += [x.pattern(k) for k in range(x.num_patterns())]
        else:
            todo += x.children()
    return [v for v in vs if v.get_id() in found]


def close(bs, f):
    """forall bs. f, with unused binders dropped and nested quantifiers merged (so that their triggers stay usable)"""
    g = None
    if z3.is_app_of(f, z3.Z3_OP_IMPLIES) and z3.is_quantifier(f.arg(1)) and f.arg(1).is_forall():
        g, f0 = f.arg(0), f.arg(1)
    elif z3.is_quantifier(f) and f.is_forall():
        f0 = f
    else:
        bs = occurs(bs, f)
        return z3.ForAll(bs, f) if bs else f
    bs = occurs(bs, f)
    if not bs:
        return f
    vs = [z3.Const("%s!m%d" % (f0.var_name(i), f0.get_id()), f0.var_sort(i)) for i in range(f0.num_vars())]
    sub = lambda e: z3.substitute_vars(e, *reversed(vs))
    body = sub(f0.body())
    if g is not None:
        body = z3.Implies(g, body)
    pats = []
    for i in range(f0.num_patterns()):
        ts = [sub(t) for t in f0.pattern(i).children()]
        if len(occurs(bs + vs, z3.And(*[t == t for t in ts]))) == len(bs) + len(vs):
            pats.append(z3.MultiPattern(*ts) if len(ts) > 1 else ts[0])
    try:
        return z3.ForAll(bs + vs, body, patterns=pats) if pats else z3.ForAll(bs + vs, body)
    except z3.Z3Exception:
        return z3.ForAll(bs + vs, body)


def conjuncts(ts):
    for t in ts:
        if z3.is_and(t):
            yield from conjuncts(t.children())
        else:
            yield t


def guard_patterns(bs, guards):
    """triggers for 'forall bs. guards -> ...': the membership terms of the guards that mention all of bs"""
    ps = []
    for t in conjuncts(guards):
        if z3.is_select(t) and z3.is_bool(t) and not composite(t) and len(occurs(bs, t)) == len(bs):
            ps.append(t)
    return ps or None


class It:
    """an iterable after evaluation"""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


class Alt:
    def __init__(self, binders, guards, elt, st):
        self.binders, self.guards, self.elt, self.st = binders, guards, elt, st


class Engine2(_E):
    # ------------------------------------------------------------ iterables
    def iterate(self, st, v):
        """-> It"""
        if isinstance(v, MaybeV):
            v = v.v
        if isinstance(v, (TupV, LitV)):
            return It("lit", xs=list(v.xs))
        if isinstance(v, StrC):
            return It("lit", xs=[StrC(c) for c in v.s])
        if isinstance(v, RangeV):
            return It("range", lo=v.lo, hi=v.hi, ety=INT, elem=lambda s, i: Sc(INT, i))
        if isinstance(v, Sc):
            if v.ty.kind == "FSet":
                et = v.ty.args[0]
                return It("set", S=v.t, kty=et, elem=lambda s, x: self.wrap(et, x), ety=et)
            if v.ty.kind == "Word":
                return self.seq_it(v.ty, v.t)
            if v.ty.kind == "Tup":
                return It("lit", xs=[self.wrap(t, fld(v.ty, v.t, i)) for i, t in enumerate(v.ty.args)])
        if isinstance(v, Ref):
            rt = self.rtype(st, v)
            if rt.kind == "Untyped":
                return It("lit", xs=[])
            t = self.read(st, v)
            if rt.kind == "Set":
                et = rt.args[0]
                return It("set", S=t, kty=et, elem=lambda s, x: self.wrap(et, x), ety=et, src=(v, "set"))
            if rt.kind in ("Map", "DMap"):
                et = rt.args[0]
                return It("set", S=dom(rt, t), kty=et, elem=lambda s, x: self.wrap(et, x), ety=et, src=(v, "dom"))
            if rt.kind == "Seq":
                it = self.seq_it(rt, t)
                it.live = v
                return it
        if isinstance(v, ViewV):
            rt = self.rtype(st, v.ref)
            if rt.kind == "Untyped":
                return It("lit", xs=[])
            t = self.read(st, v.ref)
            kt, vt = rt.args
            loc, path = self.resolve(st, v.ref)
            clock = self.tick()

            def value(s, x):
                if vt.mutable:
                    return Ref(loc, path + ((kt, x),), clock)
                return self.wrap(vt, z3.Select(val(rt, self.read(s, v.ref)), x))
            f = {"keys": lambda s, x: self.wrap(kt, x), "values": value,
                 "items": lambda s, x: TupV([self.wrap(kt, x), value(s, x)])}[v.kind]
            return It("set", S=dom(rt, t), kty=kt, elem=f, ety=kt if v.kind == "keys" else None, src=(v.ref, "dom"), viewkind=v.kind)
        if isinstance(v, GenV):
            return self.iterate(st, self.force_gen(st, v))
        if isinstance(v, EnumV):
            inner = self.iterate(st, v.it)
            return It("enum", inner=inner, start=v.start)
        if isinstance(v, ZipV):
            return It("zip", inners=[self.iterate(st, x) for x in v.its])
        if isinstance(v, DictLit):
            return It("lit", xs=[k for k, _ in v.items])
        if isinstance(v, ObjV):
            r = self.getattr(st, v, "__iter__")
            res = self.call(r[0][0], r[0][1], [], {})
            if len(res) == 1 and res[0][0] is st:
                return self.iterate(st, res[0][1])
        raise Unsupported("iteration over %s" % (self.tname(v)))

    def tname(self, v):
        return "%s%s" % (type(v).__name__, ":" + str(v.ty) if isinstance(v, Sc) else "")

    def seq_it(self, ty, t):
        et = ty.args[0]
        return It("seq", ety=et, lo=lo(ty, t), hi=hi(ty, t), arr=arr(ty, t), sty=ty, t=t,
                  elem=lambda s, i: self.wrap(et, z3.Select(arr(ty, t), i)))

    def force_gen(self, st, g):
        res = self.comp_collect(st, g.node, g.fid, g.glob, g.func, outer=g.outer)
        return self.comp_seq(st, res, g.node)

    # -- comprehension core: list of alternatives
    def comp_collect(self, st, node, fid, glob, func, outer=None):
        """the alternatives of a comprehension; additions to sets made by its conditions are collected: during the
        comprehension such a set is unknown, afterwards it holds what it held and every element added"""
        grown = {}
        while True:
            probe = st.copy()
            during = {}
            for loc, ty in grown.items():
                during[loc] = (st.heap[loc], self.havoc(ty, "during", probe))
                probe.heap[loc] = (ty, during[loc][1])
            effects = []
            new = set()
            n_obl = len(self.obls)
            self.comp_effects.append((during, effects, new))
            try:
                alts = self.comp_collect1(probe, node, fid, glob, func, outer)
            finally:
                self.comp_effects.pop()
            if not new:
                break
            del self.obls[n_obl:]
            for loc in new:
                grown[loc] = st.heap[loc][0]
        if during and (st.binders or isinstance(node, ast.GeneratorExp)):
            raise Unsupported("side effect inside a nested or lazy comprehension")
        for k in st.__slots__:
            setattr(st, k, getattr(probe, k))
        for loc, ((ty, t0), d) in during.items():
            R = self.havoc(ty, "grown", st)
            x = z3.Const("x!g", sort(ty.args[0]))
            disj = [z3.Select(t0, x)]
            self.q(st, [x], z3.Implies(z3.Select(t0, x), z3.Select(R, x)), pats=[z3.Select(t0, x)])
            for l2, bs, gs, el, facts in effects:
                if l2 != loc:
                    continue
                g = z3.And(*gs) if gs else z3.BoolVal(True)
                for f in facts:
                    st.pc.append(("a", close(bs, f)))
                self.q(st, bs, z3.Implies(g, z3.Select(R, el)))
                sks = [z3.Function(self.uid("sk"), x.sort(), b.sort())(x) for b in bs]
                disj.append(z3.And(z3.substitute(g, *zip(bs, sks)), z3.substitute(el, *zip(bs, sks)) == x) if bs else z3.And(g, el == x))
            self.q(st, [x], z3.Implies(z3.Select(R, x), z3.Or(*disj)), pats=[z3.Select(R, x)])
            st.heap[loc] = (ty, R)
        return alts

    def comp_effect(self, s2, s4, base):
        "additions to sets by a condition of a comprehension: recorded and taken back"
        during, effects, new = self.comp_effects[-1]
        for loc, (ty, t) in s2.heap.items():
            x = s4.heap.get(loc)
            if x is None or ty.kind != "Set" or x[1] is t or x[1].eq(t):
                continue
            if loc not in during:
                new.add(loc)
                s4.heap[loc] = (ty, t)
                continue
            y = x[1]
            while not y.eq(t):
                if not (z3.is_app_of(y, z3.Z3_OP_STORE) and z3.is_true(y.arg(2))):
                    raise Unsupported("side effect inside a comprehension")
                gs, facts = [], []
                for kind, f in s4.pc[base:]:
                    if kind == "g": gs.append(f)
                    else: facts.append(z3.Implies(z3.And(*gs), f) if gs else f)
                effects.append((loc, list(s4.binders), gs, y.arg(1), facts))
                y = y.arg(0)
            s4.heap[loc] = (ty, t)

    def comp_collect1(self, st, node, fid, glob, func, outer=None):
        elts = [node.key, node.value] if isinstance(node, ast.DictComp) else [node.elt]
        cf = self.uid("comp")
        s0 = st.copy()
        s0.frames[cf] = {"$parent": fid, "$func": func}
        alts = []
        base = len(st.pc)

        def go(i, s, binders, guards):
            if i == len(node.generators):
                for s2, vs in self.evals(elts, s, cf, glob, func):
                    if isinstance(vs, RaisedV):
                        raise Unsupported("exception inside a comprehension")
                    alts.append(Alt(binders, self.local_guards(s2, base), vs, s2))
                return
            gen = node.generators[i]
            if i == 0 and outer is not None:
                srcs = [(s, outer)]
            else:
                srcs = self.eval(gen.iter, s, cf, glob, func)
            for s1, src in srcs:
                if isinstance(src, RaisedV):
                    raise Unsupported("exception inside a comprehension")
                it = self.iterate(s1, src)
                for s2, bs in self.bind_elem(s1, it, gen.target, cf, glob, func):
                    conds = [(s2, True)]
                    for test in gen.ifs:
                        nxt = []
                        for s3, _ in conds:
                            before = s3.copy()
                            for s4, v in self.eval(test, s3, cf, glob, func):
                                self.comp_effect(before, s4, base)
                                for s5, t in self.truthy(s4, v):
                                    if not z3.is_true(z3.simplify(t)):
                                        self.assume(s5, t, "g")
                                    nxt.append((s5, True))
                        conds = nxt
                    for s3, _ in conds:
                        if self.feasible(s3):
                            go(i + 1, s3, binders + bs, guards)
        go(0, s0, [], [])
        # purity
        for a in alts:
            if not self.pure_heap(st, a.st):
                raise Unsupported("side effect inside a comprehension")
            for l in a.st.notes.get("$dtouch", ()):
                if l not in st.notes.get("$dtouch", ()):
                    self.touch_dom(st, l[0])
            a.st.notes.pop("$dtouch", None)
        # export facts; locations and objects created inside become visible
        n = base
        for a in alts:
            gs = []
            for kind, t in a.st.pc[n:]:
                if kind == "g":
                    gs.append(t)
                else:
                    f = z3.Implies(z3.And(*gs), t) if gs else t
                    st.pc.append(("a", close(a.st.binders[len(st.binders):], f)))
            for loc, x in a.st.heap.items():
                if loc not in st.heap:
                    st.heap[loc] = x
            for o, x in a.st.objs.items():
                st.objs.setdefault(o, x)
            if a.st.track is not None and st.track is not None:
                st.track |= a.st.track
        return alts

    def touch_dom(self, st, loc):
        ty, t = st.heap[loc]
        d = z3.Const(self.uid("dom_touched"), dom(ty, t).sort())
        x = z3.Const("x!t", sort(ty.args[0]))
        st.pc.append(("a", z3.ForAll([x], z3.Implies(z3.Select(dom(ty, t), x), z3.Select(d, x)))))
        st.heap[loc] = (ty, mk(ty, d, val(ty, t)))

    def pure_heap(self, a, b):
        for loc, (ty, t) in a.heap.items():
            x = b.heap.get(loc)
            if x is None:
                return False
            if x[1] is not t and not (t is None and x[0].kind != "Untyped") and not (t is not None and x[1] is not None and x[1].eq(t)):
                return False
        for oid, (c, at, h) in a.objs.items():
            for k, x in at.items():
                if b.objs[oid][1].get(k) is not x:
                    return False
        for k, x in a.ghost.items():
            if b.ghost[k][1] is not x[1]:
                return False
        return True

    def local_guards(self, s, base):
        return [t for k, t in s.pc[base:] if k == "g"]

    def bind_elem(self, st, it, target, fid, glob, func):
        """bind a comprehension target to a generic element; [(state, binders)]"""
        out = []
        if it.kind == "lit":
            for x in it.xs:
                s = st.copy()
                for s2 in self.assigned(target, x, s, fid, glob, func):
                    out.append((s2, []))
            return out
        s = st
        if it.kind == "set":
            b = z3.Const(self.uid("x"), sort(it.kty))
            s.binders = s.binders + [b]
            self.assume(s, z3.Select(it.S, b), "g")
            v = it.elem(s, b)
            bs = [b]
        elif it.kind in ("seq", "range"):
            b = z3.Int(self.uid("i"))
            s.binders = s.binders + [b]
            self.assume(s, z3.And(it.lo <= b, b < it.hi), "g")
            v = it.elem(s, b)
            bs = [b]
        elif it.kind == "enum" and it.inner.kind == "seq":
            b = z3.Int(self.uid("i"))
            s.binders = s.binders + [b]
            self.assume(s, z3.And(it.inner.lo <= b, b < it.inner.hi), "g")
            v = TupV([Sc(INT, b - it.inner.lo + it.start), it.inner.elem(s, b)])
            bs = [b]
        elif it.kind == "enum" and it.inner.kind == "lit":
            for j, x in enumerate(it.inner.xs):
                s2 = st.copy()
                for s3 in self.assigned(target, TupV([I(j + it.start if isinstance(it.start, int) else j), x]), s2, fid, glob, func):
                    out.append((s3, []))
            return out
        elif it.kind == "enum" and it.inner.kind == "set":
            e = self.enumerate_set(s, it.inner)
            b = z3.Int(self.uid("i"))
            s.binders = s.binders + [b]
            self.assume(s, z3.And(0 <= b, b < e.n), "g")
            v = TupV([Sc(INT, b + it.start), it.inner.elem(s, e.key(b))])
            bs = [b]
        else:
            raise Unsupported("comprehension over %s" % it.kind)
        for s2 in self.assigned(target, v, s, fid, glob, func):
            out.append((s2, bs))
        return out

    def eltterm(self, st, alts, i=0, key=False):
        """common type and terms of the element of every alternative"""
        ty = None
        for a in alts:
            t = self.typeof(a.st, a.elt[i])
            if t.kind == "Set":
                t = FSET(t.args[0])
            if t.kind == "Untyped":
                continue
            ty = t if ty is None else join(ty, t)
        if ty is None:
            ty = FSET(INT) if alts else None
        ts = []
        for a in alts:
            s = a.st
            t0 = self.typeof(s, a.elt[i])
            if t0.kind == "Untyped":
                ts.append(empty(ty))
            else:
                ts.append(coerce(self.term(s, a.elt[i]), FSET(t0.args[0]) if t0.kind == "Set" else t0, ty))
        return ty, ts

    def comp_set(self, st, alts, hint=None):
        """SetComp value"""
        if not alts:
            return self.alloc_untyped(st, "set", hint)
        ty, ts = self.eltterm(st, alts)
        ty = self.keytype(ty)
        R = self.fresh(SET(ty), "setcomp", st)
        self.set_facts(st, R, ty, alts, ts)
        return self.alloc(st, SET(ty), R, "setcomp")

    def set_facts(self, st, R, ty, alts, ts, via=None):
        """R = { t | binders, guards } over all alternatives.  via: elements
        ts are themselves sets whose union is taken"""
        x = z3.Const("x!s", sort(ty))
        disj = []
        simple = None
        for a, t in zip(alts, ts):
            bs = a.st.binders[len(st.binders):]
            g = z3.And(*a.guards) if a.guards else z3.BoolVal(True)
            if via:
                self.q(st, bs + [x], z3.Implies(z3.And(g, z3.Select(t, x)), z3.Select(R, x)))
            elif len(bs) == 1 and t.eq(bs[0]):
                disj.append(z3.substitute(g, (bs[0], x)))
                f = z3.Implies(z3.substitute(g, (bs[0], x)), z3.Select(R, x))
                self.q(st, [x], f)
                continue
            else:
                self.q(st, bs, z3.Implies(g, z3.Select(R, t)))
            sks = [z3.Function(self.uid("sk"), *[b.sort() for b in st.binders], x.sort(), b.sort())(*st.binders, x) for b in bs]
            g2 = z3.substitute(g, *zip(bs, sks)) if bs else g
            t2 = z3.substitute(t, *zip(bs, sks)) if bs else t
            disj.append(z3.And(g2, z3.Select(t2, x) if via else t2 == x))
        self.q(st, [x], z3.Implies(z3.Select(R, x), z3.Or(*disj) if disj else z3.BoolVal(False)), pats=[z3.Select(R, x)])

    def q(self, st, vs, body, pats=None):
        f = body
        if vs:
            try:
                f = z3.ForAll(vs, body, patterns=pats) if pats else z3.ForAll(vs, body)
            except z3.Z3Exception:
                f = z3.ForAll(vs, body)
        self.assume(st, f)

    def comp_union(self, st, alts):
        if not alts:
            return None
        ty, ts = self.eltterm(st, alts)
        if ty.kind != "FSet":
            raise Unsupported("union of %s" % ty)
        et = ty.args[0]
        R = self.fresh(SET(et), "union", st)
        self.set_facts(st, R, et, alts, ts, via=True)
        return self.alloc(st, SET(et), R, "union")

    def comp_nonempty(self, st, alts):
        """Bool: some element exists"""
        b = self.fresh(BOOL, "nonempty", st)
        self.exists_facts(st, b, alts, None)
        return b

    def exists_facts(self, st, b, alts, ts):
        disj = []
        for j, a in enumerate(alts):
            bs = a.st.binders[len(st.binders):]
            g = z3.And(*(a.guards + ([ts[j]] if ts else [])))
            self.q(st, bs, z3.Implies(g, b))
            sks = [self.fresh_sort(st, x.sort(), "wit") for x in bs]
            disj.append(z3.substitute(g, *zip(bs, sks)) if bs else g)
        self.assume(st, z3.Implies(b, z3.Or(*disj) if disj else z3.BoolVal(False)))

    def fresh_sort(self, st, s, base):
        if st.binders:
            return z3.Function(self.uid(base), *[b.sort() for b in st.binders], s)(*st.binders)
        return z3.Const(self.uid(base), s)

    def comp_seq(self, st, alts, node=None):
        """ListComp / consumed generator: a fresh list"""
        if not alts:
            return LitV([])
        if all(not a.st.binders[len(st.binders):] and not a.guards for a in alts):
            return LitV([a.elt[0] for a in alts])
        try:
            ty, ts = self.eltterm(st, alts)
        except Unsupported:
            raise
        sty = SEQ(ty)
        T = sort(ty)
        i = z3.Int("i!l")
        # order preserving, deterministic: single sequence source
        if len(alts) == 1 and len(alts[0].st.binders) == len(st.binders) + 1 and not st.binders:
            a, t = alts[0], ts[0]
            b = a.st.binders[-1]
            src = self.seq_source(a, b)
            if src is not None:
                return self.alloc(st, sty, self.mapfilter(st, a, t, b, src, sty), "listcomp")
        if st.binders:
            raise Unsupported("list comprehension under another comprehension")
        R = mk(sty, z3.IntVal(0), z3.Int(self.uid("lc_n")), z3.Const(self.uid("lc_arr"), z3.ArraySort(z3.IntSort(), T)),
               z3.Const(self.uid("lc_cnt"), z3.ArraySort(T, z3.IntSort())))
        n, A = hi(sty, R), arr(sty, R)
        for f in self.wf(sty, R):
            self.assume(st, f)
        tag = z3.Function(self.uid("lc_tag"), z3.IntSort(), z3.IntSort())
        disj = []
        for j, (a, t) in enumerate(zip(alts, ts)):
            bs = a.st.binders[len(st.binders):]
            Bf = [z3.Function(self.uid("lc_b"), z3.IntSort(), b.sort()) for b in bs]
            Bi = [f(i) for f in Bf]
            g = z3.And(*a.guards) if a.guards else z3.BoolVal(True)
            gi = z3.substitute(g, *zip(bs, Bi)) if bs else g
            ti = z3.substitute(t, *zip(bs, Bi)) if bs else t
            one = len(alts) == 1
            disj.append(z3.And(gi, z3.Select(A, i) == ti) if one else z3.And(tag(i) == j, gi, z3.Select(A, i) == ti))
            if bs:
                pos = z3.Function(self.uid("lc_pos"), *[b.sort() for b in bs], z3.IntSort())
                P = pos(*bs)
                concl = [0 <= P, P < n, z3.Select(A, P) == t] + [f(P) == b for f, b in zip(Bf, bs)] + ([] if one else [tag(P) == j])
                self.q(st, bs, z3.Implies(g, z3.And(*concl)), pats=guard_patterns(bs, a.guards))
                PB = pos(*Bi)
                self.q(st, [i], z3.Implies(z3.And(0 <= i, i < n, *([] if one else [tag(i) == j])), PB == i), pats=[z3.Select(A, i)])
                if all(t2.eq(b2) for t2, b2 in zip([t], bs)) and len(bs) == 1:
                    x = z3.Const("x!u", T)
                    self.q(st, [x], z3.Select(cnt(sty, R), x) <= 1, pats=[z3.Select(cnt(sty, R), x)])
            else:
                p0 = z3.Int(self.uid("lc_p"))
                self.assume(st, z3.Implies(g, z3.And(0 <= p0, p0 < n, z3.Select(A, p0) == t, *([] if one else [tag(p0) == j]))))
                self.q(st, [i], z3.Implies(z3.And(0 <= i, i < n, *([] if one else [tag(i) == j])), i == p0))
        self.q(st, [i], z3.Implies(z3.And(0 <= i, i < n), z3.Or(*disj)), pats=[z3.Select(A, i)])
        r = self.alloc(st, sty, R, "listcomp")
        return r

    def seq_source(self, a, b):
        """if binder b ranges over the positions of one sequence: its (lo, hi, arr) guard"""
        g = a.guards[0] if a.guards else None
        if g is None or b.sort() != z3.IntSort() or not z3.is_and(g) or g.num_args() != 2:
            return None
        l, h = g.arg(0), g.arg(1)
        if not (l.num_args() == 2 and h.num_args() == 2 and l.arg(1).eq(b) and h.arg(0).eq(b)):
            return None
        return l.arg(0), h.arg(1)

    def mapfilter(self, st, a, t, b, src, sty):
        l, h = src
        conds = a.guards[1:]
        T = sort(sty.args[0])
        j = z3.Int("j!canon")
        sub = lambda e: z3.substitute(e, (b, j))
        i = z3.Int("i!l")
        if conds and getattr(self, "lift_comp", False):
            # the result is a function of the values that occur in the source, the item and the conditions
            free = free_consts([l, h, t] + list(conds), b)
            canon = [z3.Const("c!%d" % n_, c_.sort()) for n_, c_ in enumerate(free)]
            up = lambda e: z3.substitute(e, *zip(free, canon)) if free else e
            key = ("lift", sty.key, up(l).sexpr(), up(h).sexpr(), up(sub(t)).sexpr(), tuple(up(sub(c)).sexpr() for c in conds))
            if key not in self.comp_memo:
                fn = lambda nm, *ss: z3.Function(self.uid(nm), *[c_.sort() for c_ in canon], *ss)
                self.comp_memo[key] = (fn("fl_n", z3.IntSort()), fn("fl_arr", z3.ArraySort(z3.IntSort(), T)), fn("fl_cnt", z3.ArraySort(T, z3.IntSort())), fn("fl_b", z3.IntSort(), z3.IntSort()), fn("fl_pos", z3.IntSort(), z3.IntSort()))
            fs = self.comp_memo[key]
            R = mk(sty, z3.IntVal(0), fs[0](*free), fs[1](*free), fs[2](*free))
            n, A = hi(sty, R), arr(sty, R)
            Bf, pos = (lambda x_: fs[3](*free, x_)), (lambda x_: fs[4](*free, x_))
            c = z3.And(*conds)
            k = z3.Int("k!l")
            self.lifted = getattr(self, "lifted", []) + [(free, fs)]
            for f in list(self.wf(sty, R)) + [
                    z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(l <= Bf(i), Bf(i) < h, z3.substitute(c, (b, Bf(i))), z3.Select(A, i) == z3.substitute(t, (b, Bf(i))), pos(Bf(i)) == i)), patterns=[z3.Select(A, i)]),
                    z3.ForAll([b], z3.Implies(z3.And(l <= b, b < h, c), z3.And(0 <= pos(b), pos(b) < n, Bf(pos(b)) == b, z3.Select(A, pos(b)) == t))),
                    z3.ForAll([i, k], z3.Implies(z3.And(0 <= i, i < k, k < n), Bf(i) < Bf(k)), patterns=[z3.MultiPattern(Bf(i), Bf(k))]), n <= h - l]:
                self.assume(st, f)
            return R
        key = ("mf", sty.key, l.sexpr(), h.sexpr(), sub(t).sexpr(), tuple(sub(c).sexpr() for c in conds))
        if key in self.comp_memo:
            R, facts = self.comp_memo[key]
        else:
            # facts that are functions of the source only: abstract over free u if requested
            same = not conds and z3.is_int_value(l) and l.as_long() == 0 and z3.is_select(t) and t.arg(1).eq(b) and not occurs([b], t.arg(0))
            R = mk(sty, z3.IntVal(0), h if same else z3.Int(self.uid("mf_n")), t.arg(0) if same else z3.Const(self.uid("mf_arr"), z3.ArraySort(z3.IntSort(), T)),
                   z3.Const(self.uid("mf_cnt"), z3.ArraySort(T, z3.IntSort())))
            n, A = hi(sty, R), arr(sty, R)
            facts = list(self.wf(sty, R))
            if same:
                pass
            elif not conds:
                facts.append(n == h - l)
                facts.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Select(A, i) == z3.substitute(t, (b, plus(l, i)))), patterns=[z3.Select(A, i)]))
            else:
                Bf = z3.Function(self.uid("mf_b"), z3.IntSort(), z3.IntSort())
                pos = z3.Function(self.uid("mf_pos"), z3.IntSort(), z3.IntSort())
                c = z3.And(*conds)
                facts.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(l <= Bf(i), Bf(i) < h, z3.substitute(c, (b, Bf(i))),
                             z3.Select(A, i) == z3.substitute(t, (b, Bf(i))), pos(Bf(i)) == i)), patterns=[z3.Select(A, i)]))
                facts.append(z3.ForAll([b], z3.Implies(z3.And(l <= b, b < h, c), z3.And(0 <= pos(b), pos(b) < n, Bf(pos(b)) == b, z3.Select(A, pos(b)) == t))))
                k = z3.Int("k!l")
                facts.append(z3.ForAll([i, k], z3.Implies(z3.And(0 <= i, i < k, k < n), Bf(i) < Bf(k)), patterns=[z3.MultiPattern(Bf(i), Bf(k))]))
                facts.append(n <= h - l)
            self.comp_memo[key] = (R, facts)
        for f in facts:
            self.assume(st, f)
        return R

    def e_ListComp(self, e, st, fid, glob, func):
        return self.comp_fork(e, st, fid, glob, func, lambda s, alts: self.comp_seq(s, alts, e))

    def e_SetComp(self, e, st, fid, glob, func):
        return self.comp_fork(e, st, fid, glob, func, lambda s, alts: self.comp_set(s, alts))

    def e_DictComp(self, e, st, fid, glob, func):
        return self.comp_fork(e, st, fid, glob, func, self.comp_dict)

    def comp_dict(self, st, alts):
        if not alts:
            return self.alloc_untyped(st, "dict")
        kt, ks = self.eltterm(st, alts, 0)
        vt, vs = self.eltterm(st, alts, 1)
        ty = MAP(kt, vt)
        D = z3.Const(self.uid("dc_dom"), z3.ArraySort(sort(kt), z3.BoolSort()))
        VV = z3.Const(self.uid("dc_val"), z3.ArraySort(sort(kt), sort(vt)))
        x = z3.Const("x!s", sort(kt))
        disj = []
        for a, k, v in zip(alts, ks, vs):
            bs = a.st.binders[len(st.binders):]
            g = z3.And(*a.guards) if a.guards else z3.BoolVal(True)
            self.q(st, bs, z3.Implies(g, z3.Select(D, k)))
            sks = [z3.Function(self.uid("sk"), x.sort(), b.sort())(x) for b in bs]
            sb = lambda e: z3.substitute(e, *zip(bs, sks)) if bs else e
            disj.append(z3.And(sb(g), sb(k) == x, z3.Select(VV, x) == sb(v)))
        self.q(st, [x], z3.Implies(z3.Select(D, x), z3.Or(*disj)), pats=[z3.Select(D, x)])
        return self.alloc(st, ty, mk(ty, D, VV), "dictcomp")

    def comp_fork(self, e, st, fid, glob, func, fin):
        """evaluate the outermost iterable first (it may fork), then the rest"""
        out = []
        for s, src in self.eval(e.generators[0].iter, st, fid, glob, func):
            if isinstance(src, RaisedV):
                out.append((s, src))
                continue
            alts = self.comp_collect(s, e, fid, glob, func, outer=src)
            out.append((s, fin(s, alts)))
        return out

    def e_GeneratorExp(self, e, st, fid, glob, func):
        out = []
        for s, src in self.eval(e.generators[0].iter, st, fid, glob, func):
            out.append((s, src if isinstance(src, RaisedV) else GenV(e, fid, src, glob, func)))
        return out

    # ------------------------------------------------------------ enumeration of a set-like
    def enumerate_set(self, st, it):
        T = sort(it.kty)
        A = z3.Const(self.uid("enum_arr"), z3.ArraySort(z3.IntSort(), T))
        n = z3.Int(self.uid("enum_n"))
        pos = z3.Function(self.uid("enum_pos"), T, z3.IntSort())
        x, i = z3.Const("x!e", T), z3.Int("i!e")
        self.assume(st, n >= 0)
        self.q(st, [x], z3.Implies(z3.Select(it.S, x), z3.And(0 <= pos(x), pos(x) < n, z3.Select(A, pos(x)) == x)), pats=[z3.Select(it.S, x)])
        self.q(st, [x], z3.Implies(z3.And(0 <= pos(x), pos(x) < n, z3.Select(A, pos(x)) == x), z3.Select(it.S, x)), pats=[pos(x)])
        self.q(st, [i], z3.Implies(z3.And(0 <= i, i < n), z3.And(pos(z3.Select(A, i)) == i, z3.Select(it.S, z3.Select(A, i)))), pats=[z3.Select(A, i)])
        return It("enumset", n=n, key=lambda k: z3.Select(A, k), pos=pos, S=it.S, kty=it.kty, arr=A)

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st, fid, glob, func):
        out = []
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            fr = st.frames[fid]
            slf = self.lookup_local(st, fid, "$self")
            return [(st, SuperV(func.cls, slf))]
        argnodes = []
        for a in e.args:
            argnodes.append(a)
        for s, f in self.eval(e.func, st, fid, glob, func):
            if isinstance(f, RaisedV):
                out.append((s, f))
                continue
            cur = [(s, [])]
            for a in argnodes:
                nxt = []
                for s1, vs in cur:
                    if isinstance(a, ast.Starred) and isinstance(a.value, (ast.ListComp, ast.GeneratorExp)):
                        for s2, src in self.eval(a.value.generators[0].iter, s1, fid, glob, func):
                            nxt.append((s2, vs + [src if isinstance(src, RaisedV) else StarV(GenV(a.value, fid, src, glob, func))]))
                    elif isinstance(a, ast.Starred):
                        for s2, v in self.eval(a.value, s1, fid, glob, func):
                            nxt.append((s2, vs + [v if isinstance(v, RaisedV) else StarV(v)]))
                    else:
                        for s2, v in self.eval(a, s1, fid, glob, func):
                            nxt.append((s2, vs + [v]))
                cur = nxt
            for s1, vs in self.prop(cur):
                if isinstance(vs, RaisedV):
                    out.append((s1, vs))
                    continue
                vs = self.unstar(s1, vs)
                kws = [(s1, {})]
                for k in e.keywords:
                    nxt = []
                    for s2, d in kws:
                        for s3, v in self.eval(k.value, s2, fid, glob, func):
                            d2 = dict(d)
                            if k.arg is None:
                                if isinstance(v, DictLit):
                                    for kk, x in v.items:
                                        d2[kk.s] = x
                                elif isinstance(v, Ref) and self.rtype(s3, v).kind == "Untyped":
                                    pass
                                else:
                                    raise Unsupported("**kwargs of unknown content")
                            else:
                                d2[k.arg] = v
                            nxt.append((s3, d2))
                    kws = nxt
                for s2, d in kws:
                    out += self.call(s2, f, vs, d)
        return out

    def call(self, st, f, args, kwargs):
        if isinstance(f, MaybeV):
            f = f.v
        if isinstance(f, BoundV):
            if isinstance(f.f, BuiltinV):
                return self.builtin_method(st, f.f.name, f.slf, args, kwargs)
            if isinstance(f.f, HandV):
                return f.f.fn(self, st, f.slf, args, kwargs)
            return self.call(st, f.f, [f.slf] + list(args), kwargs)
        if isinstance(f, HandV):
            return f.fn(self, st, None, args, kwargs)
        if isinstance(f, FuncV):
            return self.call_func(st, f, args, kwargs)
        if isinstance(f, ClassV):
            return self.construct(st, f, args, kwargs)
        if isinstance(f, BuiltinV):
            return self.builtin(st, f.name, args, kwargs)
        if isinstance(f, ObjV):
            out = []
            for s, m in self.getattr(st, f, "__call__"):
                out += self.call(s, m, args, kwargs)
            return out
        if isinstance(f, Sc) and f.ty.kind == "Opt":
            raise Unsupported("call of an optional value")
        raise Unsupported("call of %s" % type(f).__name__)

    def bind_args(self, st, f, args, kwargs):
        a = f.node.args
        if any(isinstance(x, StarV) for x in args):
            raise Unsupported("star argument of unknown length")
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        for i, x in enumerate(args[:len(names)]):
            env[names[i]] = x
        extra = args[len(names):]
        if a.vararg:
            env[a.vararg.arg] = TupV(extra)
        elif extra:
            raise Unsupported("too many arguments for %s" % f.name)
        kw = dict(kwargs)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in kw:
                env[n] = kw.pop(n)
        if a.kwarg:
            env[a.kwarg.arg] = DictLit([(StrC(k), v) for k, v in kw.items()])
        elif kw:
            raise Unsupported("unexpected keyword arguments %s for %s" % (sorted(kw), f.name))
        defs = list(f.defaults)
        for n, d in zip(names[len(names) - len(defs):], defs):
            if n not in env:
                env[n] = d if isinstance(d, V) else self.from_py(d, st)
        for x, dn in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env:
                if x.arg in (f.kwdefaults or {}):
                    env[x.arg] = self.from_py(f.kwdefaults[x.arg], st)
                elif dn is not None and isinstance(dn, ast.Constant):
                    env[x.arg] = self.from_py(dn.value, st)
        for n in names:
            if n not in env:
                raise Unsupported("missing argument %s of %s" % (n, f.name))
        return env

    def call_func(self, st, f, args, kwargs, toplevel=False):
        env = self.bind_args(st, f, args, kwargs)
        if not toplevel and f.key:
            for c in self.contracts:
                if c.key == f.key or c.key == f.key.split(":")[-1]:
                    if c.when(self, st, env):
                        self.used_contracts.add("%s [%s]" % (f.key, c.label))
                        return c.apply(self, st, env)
        ev = f.name.split(".")[-1]
        if not toplevel and self.observed and f.cls is not None and ev in self.events and self.is_observed(f.cls) and not (self.callstack and self.callstack[-1].split(".")[-1] == ev):
            self.visitor_seen = args[0]
            if getattr(self, "events_all", False):
                self.events[ev](self, st, [env[n_] for n_ in names_of(f.node)[1:]])
            else: self.events[ev](self, st, self.term(st, args[1] if len(args) > 1 else env[names_of(f.node)[1]]))
        if f.key and f.key in self.callstack:
            raise Unsupported("recursive call of %s without a contract" % f.key)
        if len(self.callstack) > 40:
            raise Unsupported("call depth")
        if not toplevel and f.key:
            self.inlined.add(f.key)
        fr = self.uid("fr")
        st.frames[fr] = env
        env["$parent"] = f.fid
        env["$func"] = f
        names = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
        if f.cls is not None and names and not isinstance(f.node, ast.Lambda):
            env["$self"] = env[names[0]]
        self.callstack.append(f.key or f.name)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, st, fr, f.glob, f)
            if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node)):
                return self.call_generator(st, f, fr)
            outs = self.exec_block(f.node.body, st, fr, f.glob, f)
        finally:
            self.callstack.pop()
        res = []
        for o in outs:
            if o.kind == "normal":
                res.append((o.st, NONE_))
            elif o.kind == "return":
                res.append((o.st, o.v))
            elif o.kind == "raise":
                res.append((o.st, RaisedV(o.v)))
            else:
                raise Unsupported("stray %s" % o.kind)
        if toplevel:
            self.toplevel_frame = fr
        return res

    def is_observed(self, k):
        if isinstance(k, type):
            return issubclass(k, self.observed)
        if isinstance(k, ClassV) and isinstance(k.cls, type):
            return issubclass(k.cls, self.observed)
        return any(self.is_observed(b) for b in getattr(k, "bases", ()) or ())

    def call_generator(self, st, f, fr):
        """a generator function whose body is nested for/if around yields: rewritten
        to the equivalent generator expression"""
        body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        gens, cur, conds = [], body, []
        pre = []
        while True:
            while len(cur) > 1 and isinstance(cur[0], (ast.Assign, ast.AnnAssign)) and not gens:
                pre.append(cur[0])
                cur = cur[1:]
            if len(cur) != 1:
                raise Unsupported("generator function %s" % f.name)
            s = cur[0]
            if isinstance(s, ast.For) and not s.orelse:
                gens.append(ast.comprehension(target=s.target, iter=s.iter, ifs=[], is_async=0))
                cur = s.body
            elif isinstance(s, ast.If) and not s.orelse and gens:
                gens[-1].ifs.append(s.test)
                cur = s.body
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Yield) and gens:
                node = ast.GeneratorExp(elt=s.value.value, generators=gens)
                break
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.YieldFrom) and not gens:
                outs = self.exec_block(pre, st, fr, f.glob, f)
                res = []
                for o in outs:
                    res += self.eval(s.value.value, o.st, fr, f.glob, f)
                return res
            else:
                raise Unsupported("generator function %s" % f.name)
        res = []
        for o in self.exec_block(pre, st, fr, f.glob, f):
            res += self.e_GeneratorExp(node, o.st, fr, f.glob, f)
        return res

    def construct(self, st, c, args, kwargs):
        cls = c.cls
        if isinstance(cls, LocalClass):
            o = self.new_obj(st, cls)
            if self.find_method(cls, "__init__"):
                out = []
                for s, m in self.getattr(st, o, "__init__"):
                    for s2, r in self.call(s, m, args, kwargs):
                        out.append((s2, r if isinstance(r, RaisedV) else o))
                return out
            return [(st, o)]
        if cls.__name__ in self.opaque:
            return self.opaque[cls.__name__](self, st, None, args, kwargs)
        if cls in (set, frozenset, dict, list, tuple, int, float, bool, str, range, enumerate, zip, object, type, reversed) \
                or cls in (collections.deque, collections.defaultdict) or cls is itertools.chain:
            return self.builtin(st, cls.__name__, args, kwargs)
        if issubclass(cls, BaseException):
            return [(st, Exc(cls, args))]
        if issubclass(cls, tuple) and hasattr(cls, "_fields"):
            vals = dict(zip(cls._fields, args))
            vals.update(kwargs)
            vs = [vals[n] for n in cls._fields]
            ts = [self.typeof(st, x) for x in vs]
            ty = REC(cls.__name__, cls._fields, *ts)
            return [(st, Sc(ty, mk(ty, *[self.term(st, x) for x in vs])))]
        if not cls.__module__.startswith("pybgl"):
            raise Unsupported("construction of %s" % cls)
        o = self.new_obj(st, cls)
        r = self.find_method(cls, "__init__")
        if r is None or r[0] is object:
            return [(st, o)]
        out = []
        for s, m in self.getattr(st, o, "__init__"):
            for s2, x in self.call(s, m, args, kwargs):
                if isinstance(x, RaisedV):
                    out.append((s2, x))
                elif cls.__name__ in self.value_classes:
                    attrs = s2.objs[o.oid][1]
                    names = list(attrs)
                    vs = [attrs[n] for n in names]
                    ts = [self.typeof(s2, y) for y in vs]
                    ty = REC(cls.__name__, names, *ts)
                    t = mk(ty, *[self.term(s2, y) for y in vs])
                    del s2.objs[o.oid]
                    out.append((s2, Sc(ty, t)))
                else:
                    out.append((s2, o))
        return out

    # ------------------------------------------------------------ builtins
    def to_set(self, st, v, kind):
        """set(v) / frozenset(v)"""
        sl = self.setlike(st, v)
        if sl:
            if sl[0] is None:
                return self.alloc_untyped(st, "set") if kind == "set" else Sc(FSET(INT), empty(FSET(INT)))
            return self.alloc(st, SET(sl[0]), sl[1], "set") if kind == "set" else Sc(FSET(sl[0]), sl[1])
        if isinstance(v, GenV):
            alts = self.comp_collect(st, v.node, v.fid, v.glob, v.func, outer=v.outer)
            r = self.comp_set(st, alts)
        else:
            it = self.iterate(st, v)
            if it.kind == "lit":
                if not it.xs:
                    return self.alloc_untyped(st, "set") if kind == "set" else Sc(FSET(INT), empty(FSET(INT)))
                ty = None
                for x in it.xs:
                    t = self.keytype(self.typeof(st, x))
                    ty = t if ty is None else join(ty, t)
                t = empty(SET(ty))
                for x in it.xs:
                    t = z3.Store(t, self.term(st, x, ty), True)
                r = self.alloc(st, SET(ty), t, "set")
            elif it.kind == "set" and it.ety is not None:
                r = self.alloc(st, SET(it.kty), it.S, "set")
            elif it.kind == "seq":
                R = self.fresh(SET(it.ety), "setof", st)
                x, i = z3.Const("x!s", sort(it.ety)), z3.Int("i!s")
                w = z3.Function(self.uid("sk"), *[b.sort() for b in st.binders], x.sort(), z3.IntSort())(*st.binders, x)
                self.q(st, [i], z3.Implies(z3.And(it.lo <= i, i < it.hi), z3.Select(R, z3.Select(it.arr, i))), pats=[z3.Select(it.arr, i)])
                self.q(st, [x], z3.Implies(z3.Select(R, x), z3.And(it.lo <= w, w < it.hi, z3.Select(it.arr, w) == x)), pats=[z3.Select(R, x)])
                r = self.alloc(st, SET(it.ety), R, "set")
            elif it.kind == "range":
                R = self.fresh(SET(INT), "setof", st)
                x = z3.Int("x!s")
                self.q(st, [x], z3.Select(R, x) == z3.And(it.lo <= x, x < it.hi), pats=[z3.Select(R, x)])
                r = self.alloc(st, SET(INT), R, "set")
            else:
                raise Unsupported("set() of %s" % it.kind)
        if kind == "frozenset":
            rt = self.rtype(st, r)
            if rt.kind == "Untyped":
                return Sc(FSET(INT), empty(FSET(INT)))
            return Sc(FSET(rt.args[0]), self.read(st, r))
        return r

    def to_list(self, st, v):
        if isinstance(v, Ref):
            rt = self.rtype(st, v)
            if rt.kind == "Untyped":
                return self.alloc_untyped(st, "list")
            if rt.kind == "Seq":
                return self.alloc(st, rt, self.read(st, v), "list")
        if isinstance(v, LitV):
            return LitV(v.xs)
        if isinstance(v, TupV):
            return LitV(v.xs)
        if isinstance(v, GenV):
            return self.force_gen(st, v)
        it = self.iterate(st, v)
        if it.kind == "lit":
            return LitV(it.xs) if it.xs else self.alloc_untyped(st, "list")
        if it.kind == "seq":
            sty = SEQ(it.ety)
            t = mk(sty, it.lo, it.hi, it.arr, z3.Const(self.uid("cnt"), z3.ArraySort(sort(it.ety), z3.IntSort())))
            for f in self.wf(sty, t):
                self.assume(st, f)
            return self.alloc(st, sty, t, "list")
        if it.kind == "set":
            e = self.enumerate_set(st, it)
            v0 = it.elem(st, e.key(z3.Int("i!x")))
            if it.ety is not None:
                sty = SEQ(it.kty)
                C = z3.Const(self.uid("cnt"), z3.ArraySort(sort(it.kty), z3.IntSort()))
                t = mk(sty, z3.IntVal(0), e.n, e.arr, C)
                for f in self.wf(sty, t):
                    self.assume(st, f)
                x = z3.Const("x!u", sort(it.kty))
                self.q(st, [x], z3.Select(C, x) == z3.If(z3.Select(it.S, x), 1, 0), pats=[z3.Select(C, x)])
                return self.alloc(st, sty, t, "list")
            ty = self.typeof(st, v0)
            if ty.kind in ("Set", "Map"):
                raise Unsupported("list of containers")
            sty = SEQ(ty)
            t = self.havoc(sty, "list", st)
            i = z3.Int("i!l")
            self.assume(st, lo(sty, t) == 0)
            self.assume(st, hi(sty, t) == e.n)
            self.q(st, [i], z3.Implies(z3.And(0 <= i, i < e.n), z3.Select(arr(sty, t), i) == self.term(st, it.elem(st, e.key(i)), ty)), pats=[z3.Select(arr(sty, t), i)])
            x = z3.Const("x!e", sort(it.kty))
            self.q(st, [x], z3.Implies(z3.Select(it.S, x), z3.And(0 <= e.pos(x), e.pos(x) < e.n, e.key(e.pos(x)) == x,
                                                                 z3.Select(arr(sty, t), e.pos(x)) == self.term(st, it.elem(st, x), ty))), pats=[z3.Select(it.S, x)])
            return self.alloc(st, sty, t, "list")
        if it.kind == "range":
            sty = SEQ(INT)
            t = self.havoc(sty, "list", st)
            i = z3.Int("i!l")
            n = z3.If(it.hi < it.lo, z3.IntVal(0), it.hi - it.lo)
            self.assume(st, z3.And(lo(sty, t) == 0, hi(sty, t) == n))
            self.q(st, [i], z3.Implies(z3.And(0 <= i, i < n), z3.Select(arr(sty, t), i) == it.lo + i), pats=[z3.Select(arr(sty, t), i)])
            return self.alloc(st, sty, t, "list")
        raise Unsupported("list() of %s" % it.kind)

    def card(self, st, ty, t):
        s = t.sort()
        c = z3.Function("card_" + str(ty.args[0]), s, z3.IntSort())
        e = ty.args[0]

        def ax():
            S, x = z3.Const("S!c", s), z3.Const("x!c", sort(e))
            the = z3.Function("the_" + str(e), s, sort(e))
            two = z3.Function("two_" + str(e), s, sort(e))
            return [z3.ForAll([S], c(S) >= 0, patterns=[c(S)]),
                    z3.ForAll([S], (c(S) == 0) == (S == z3.K(sort(e), z3.BoolVal(False))), patterns=[c(S)]),
                    z3.ForAll([S], z3.Implies(c(S) >= 1, z3.Select(S, the(S))), patterns=[c(S)]),
                    z3.ForAll([S, x], z3.Implies(z3.And(c(S) == 1, z3.Select(S, x)), x == the(S)), patterns=[z3.MultiPattern(c(S), z3.Select(S, x))]),
                    z3.ForAll([S], z3.Implies(c(S) >= 2, z3.And(z3.Select(S, two(S)), two(S) != the(S))), patterns=[c(S)])]
        self.axiom(("card", e.key), ax)
        return c(t)

    def length(self, st, v):
        if isinstance(v, MaybeV):
            v = v.v
        if isinstance(v, (TupV, LitV)):
            return z3.IntVal(len(v.xs))
        if isinstance(v, StrC):
            return z3.IntVal(len(v.s))
        if isinstance(v, DictLit):
            return z3.IntVal(len(v.items))
        if isinstance(v, ViewV):
            v = v.ref
        if isinstance(v, RangeV):
            return z3.If(v.hi < v.lo, z3.IntVal(0), v.hi - v.lo)
        ty = self.typeof(st, v)
        if ty.kind == "Untyped":
            return z3.IntVal(0)
        t = self.term(st, v)
        if ty.kind in ("Seq", "Word"):
            return seqlen(ty, t)
        if ty.kind in ("Set", "FSet"):
            return self.card(st, ty, t)
        if ty.kind in ("Map", "DMap"):
            return self.card(st, FSET(ty.args[0]), dom(ty, t))
        raise Unsupported("len of %s" % ty)

    def builtin(self, st, name, args, kwargs):
        if name in self.externals:
            return self.externals[name](self, st, args, kwargs)
        f = getattr(self, "b_" + name.replace(".", "_"), None)
        if f is None:
            raise Unsupported("call of %s" % name)
        r = f(st, *args, **kwargs)
        if isinstance(r, list):
            return r
        return [(st, r)]

    def b_chain(self, st, *its):
        "itertools.chain: lazily, the items of each iterable (their order is left open)"
        node = ast.parse("(x for it in its for x in it)", mode="eval").body
        return GenV(node, None, LitV(list(its)), {}, None)

    def b_len(self, st, v):
        if isinstance(v, ObjV):
            out = []
            for s, m in self.getattr(st, v, "__len__"):
                out += self.call(s, m, [], {})
            return out
        return Sc(INT, self.length(st, v))

    def b_bool(self, st, v=None):
        if v is None:
            return B(False)
        return [(s, B(t)) for s, t in self.truthy(st, v)]

    def b_int(self, st, v=None):
        if v is None:
            return I(0)
        ty = self.typeof(st, v)
        if ty.kind in ("Int", "Bool"):
            return Sc(INT, self.term(st, v, INT))
        raise Unsupported("int()")

    def b_float(self, st, v=None):
        return Sc(REAL, self.term(st, v, REAL))

    def b_str(self, st, v=None):
        return Sc(SYM("Str"), self.fresh(SYM("Str"), "str", st))

    def b_repr(self, st, v=None):
        return Sc(SYM("Str"), self.fresh(SYM("Str"), "str", st))

    def b_print(self, st, *a, **k):
        return NONE_

    def b_object(self, st):
        raise Unsupported("object()")

    def b_hash(self, st, v):
        ty = self.typeof(st, v)
        h = z3.Function("hash_" + ty.name(), sort(ty), z3.IntSort())
        return Sc(INT, h(self.term(st, v)))

    def b_range(self, st, a, b=None, c=None):
        if c is not None:
            raise Unsupported("range step")
        l, h = (z3.IntVal(0), self.term(st, a, INT)) if b is None else (self.term(st, a, INT), self.term(st, b, INT))
        return RangeV(l, h)

    def b_enumerate(self, st, v, start=None):
        return EnumV(v, z3.simplify(self.term(st, start, INT)) if start is not None else 0)

    def b_zip(self, st, *vs):
        return ZipV(list(vs))

    def b_iter(self, st, v):
        return v

    def b_set(self, st, v=None):
        return self.alloc_untyped(st, "set") if v is None else self.to_set(st, v, "set")

    def b_frozenset(self, st, v=None):
        return Sc(FSET(INT), empty(FSET(INT))) if v is None else self.to_set(st, v, "frozenset")

    def b_list(self, st, v=None):
        return self.alloc_untyped(st, "list") if v is None else self.to_list(st, v)

    def b_tuple(self, st, v=None):
        if v is None:
            return TupV([])
        if isinstance(v, (LitV, TupV)):
            return TupV(v.xs)
        r = self.to_list(st, v)
        if isinstance(r, LitV):
            return TupV(r.xs)
        rt = self.rtype(st, r)
        return Sc(WORD(rt.args[0]), self.read(st, r))

    def b_deque(self, st, v=None, maxlen=None):
        if v is None:
            return self.alloc_untyped(st, "deque")
        r = self.to_list(st, v)
        if isinstance(r, LitV):
            if not r.xs:
                return self.alloc_untyped(st, "deque")
            return self.alloc(st, self.typeof(st, r), self.term(st, r), "deque")
        return r

    def b_dict(self, st, v=None, **kw):
        if v is None and not kw:
            return self.alloc_untyped(st, "dict")
        if v is None:
            return DictLit([(StrC(k), x) for k, x in kw.items()])
        if isinstance(v, Ref):
            rt = self.rtype(st, v)
            if rt.kind == "Untyped":
                return self.alloc_untyped(st, "dict")
            if rt.kind == "Map":
                return self.alloc(st, rt, self.read(st, v), "dict")
        raise Unsupported("dict() of %s" % self.tname(v))

    def b_defaultdict(self, st, factory=None, init=None):
        if init is not None and not (isinstance(init, Ref) and self.rtype(st, init).kind == "Untyped"):
            if isinstance(init, Ref) and self.rtype(st, init).kind == "Map":
                rt = self.rtype(st, init)
                t = self.read(st, init)
                ty = DMAP(*rt.args)
                V_ = z3.Const(self.uid("dd_val"), val(rt, t).sort())
                x = z3.Const("x!dd", sort(rt.args[0]))
                self.q(st, [x], z3.Select(V_, x) == z3.If(z3.Select(dom(rt, t), x), z3.Select(val(rt, t), x), default(rt.args[1])), pats=[z3.Select(V_, x)])
                return self.alloc(st, ty, mk(ty, dom(rt, t), V_), "ddict")
            raise Unsupported("defaultdict initialiser")
        if factory is None or (isinstance(factory, Sc) and factory.ty == NONE):
            r = self.alloc_untyped(st, "dict")
            st.notes[("ddnone", r.loc)] = True
            return r
        ok = isinstance(factory, ClassV) and factory.cls in (int, bool, set, dict, list, float)
        vt = None
        if ok:
            vt = {int: INT, bool: BOOL}.get(factory.cls)
        elif isinstance(factory, FuncV) and isinstance(factory.node, ast.Lambda) and isinstance(factory.node.body, ast.Constant) and factory.node.body.value is None:
            ok = True
        elif isinstance(factory, FuncV) and isinstance(factory.node, ast.Lambda):
            d = ast.unparse(factory.node.body)
            if isinstance(factory.node.body, ast.Name) and type(getattr(factory.glob, d, None) if not isinstance(factory.glob, dict) else factory.glob.get(d)) in (int, bool):
                d = str(factory.glob.get(d) if isinstance(factory.glob, dict) else getattr(factory.glob, d))
            ok = d in ("0", "False", "set()")
            vt = INT if d == "0" else BOOL if d == "False" else None
        if not ok:
            raise Unsupported("defaultdict factory")
        r = self.alloc_untyped(st, "defaultdict")
        st.notes[("dd", r.loc)] = vt
        return r

    b_collections_deque, b_collections_defaultdict = b_deque, b_defaultdict

    def minmax(self, st, vs, is_min):
        cur = vs[0]
        for v in vs[1:]:
            lt = self.less(st, ast.Lt(), v, cur) if is_min else self.less(st, ast.Gt(), v, cur)
            j = join(self.typeof(st, v), self.typeof(st, cur))
            cur = Sc(j, z3.If(lt, self.term(st, v, j), self.term(st, cur, j)))
        return cur

    def b_min(self, st, *vs, **kw):
        return self.mm(st, vs, kw, True)

    def b_max(self, st, *vs, **kw):
        return self.mm(st, vs, kw, False)

    def mm(self, st, vs, kw, is_min):
        if kw:
            raise Unsupported("min/max with key")
        if len(vs) > 1:
            return self.minmax(st, list(vs), is_min)
        v = vs[0]
        if isinstance(v, (LitV, TupV)):
            return self.minmax(st, v.xs, is_min)
        it = self.iterate(st, v)
        if it.kind == "lit":
            return self.minmax(st, it.xs, is_min)
        if it.kind == "set" and it.ety is not None and it.ety.kind in ("Int", "Real"):
            self.require(st, "min/max of a non-empty set", it.S != empty(SET(it.kty)))
            m = self.fresh(it.ety, "minmax", st)
            self.assume(st, z3.Select(it.S, m))
            x = z3.Const("x!m", sort(it.ety))
            self.q(st, [x], z3.Implies(z3.Select(it.S, x), m <= x if is_min else m >= x), pats=[z3.Select(it.S, x)])
            return Sc(it.ety, m)
        raise Unsupported("min/max of %s" % it.kind)

    def b_abs(self, st, v):
        t = self.term(st, v)
        return Sc(v.ty, z3.If(t >= 0, t, -t))

    def b_pow(self, st, a, b):
        raise Unsupported("pow")

    def b_sorted(self, st, v, **kw):
        r = self.to_list(st, v)
        if isinstance(r, LitV) or kw:
            raise Unsupported("sorted")
        rt = self.rtype(st, r)
        if rt.kind == "Untyped":
            return r
        t = self.read(st, r)
        n = self.havoc(rt, "sorted", st)
        self.assume(st, z3.And(lo(rt, n) == 0, hi(rt, n) == seqlen(rt, t), cnt(rt, n) == cnt(rt, t)))
        i, j = z3.Int("i!so"), z3.Int("j!so")
        pf, pg = z3.Function(self.uid("perm"), z3.IntSort(), z3.IntSort()), z3.Function(self.uid("perm_inv"), z3.IntSort(), z3.IntSort())
        m = hi(rt, n)
        self.q(st, [i], z3.Implies(z3.And(0 <= i, i < m), z3.And(0 <= pf(i), pf(i) < m, pg(pf(i)) == i, z3.Select(arr(rt, n), i) == seqat(rt, t, pf(i)))), pats=[z3.Select(arr(rt, n), i), pf(i)])
        self.q(st, [i], z3.Implies(z3.And(0 <= i, i < m), z3.And(0 <= pg(i), pg(i) < m, pf(pg(i)) == i, z3.Select(arr(rt, n), pg(i)) == seqat(rt, t, i))), pats=[seqat(rt, t, i), pg(i)])
        if rt.args[0].kind != "Sym":
            le = self.less(st, ast.LtE(), self.wrap(rt.args[0], z3.Select(arr(rt, n), i)), self.wrap(rt.args[0], z3.Select(arr(rt, n), j)))
            self.q(st, [i, j], z3.Implies(z3.And(0 <= i, i < j, j < hi(rt, n)), le),
                   pats=[z3.MultiPattern(z3.Select(arr(rt, n), i), z3.Select(arr(rt, n), j))])
        return self.alloc(st, rt, n, "sorted")

    def b_any(self, st, v):
        return self.anyall(st, v, True)

    def b_all(self, st, v):
        return self.anyall(st, v, False)

    def anyall(self, st, v, is_any):
        if isinstance(v, GenV):
            alts = self.comp_collect(st, v.node, v.fid, v.glob, v.func, outer=v.outer)
            ts = []
            for a in alts:
                t = self.truth(a.st, a.elt[0])
                if t is None:
                    raise Unsupported("truthiness in any/all")
                ts.append(t if is_any else z3.Not(t))
        else:
            it = self.iterate(st, v)
            if it.kind == "lit":
                ts = [self.truth(st, x) for x in it.xs]
                return B((z3.Or(*ts) if ts else z3.BoolVal(False)) if is_any else (z3.And(*ts) if ts else z3.BoolVal(True)))
            if it.kind == "seq":
                i = z3.Int("i!a")
                tr = self.truth(st, it.elem(st, i))
                b = self.fresh(BOOL, "any", st)
                w = self.fresh(INT, "wit", st)
                rng = lambda k: z3.And(it.lo <= k, k < it.hi)
                p = tr if is_any else z3.Not(tr)
                self.q(st, [i], z3.Implies(z3.And(rng(i), p), b), pats=[z3.Select(it.arr, i)])
                self.assume(st, z3.Implies(b, z3.And(rng(w), z3.substitute(p, (i, w)))))
                return B(b if is_any else z3.Not(b))
            raise Unsupported("any/all over %s" % it.kind)
        b = self.fresh(BOOL, "any", st)
        self.exists_facts(st, b, alts, ts)
        return B(b if is_any else z3.Not(b))

    def b_sum(self, st, v, *a):
        raise Unsupported("sum")

    def b_isinstance(self, st, v, c):
        cs = [x.cls for x in c.xs] if isinstance(c, TupV) else [c.cls]
        if isinstance(v, MaybeV):
            v = v.v

        def cls_of(v):
            if isinstance(v, ObjV):
                return st.objs[v.oid][0]
            if isinstance(v, StrC):
                return str
            if isinstance(v, Sc):
                return {"Int": int, "Bool": bool, "Real": float, "None": type(None), "Word": str, "Sym": str, "FSet": frozenset, "Tup": tuple}.get(v.ty.kind)
            if isinstance(v, Ref):
                rt = self.rtype(st, v)
                k = rt.args[0] if rt.kind == "Untyped" else rt.kind
                if ("ddnone", v.loc) in st.notes:
                    return collections.defaultdict
                return {"Set": set, "Map": dict, "DMap": collections.defaultdict, "Seq": list, "set": set, "dict": dict,
                        "list": list, "deque": collections.deque, "defaultdict": collections.defaultdict}.get(k)
            if isinstance(v, (LitV,)):
                return list
            if isinstance(v, TupV):
                return tuple
            return None
        if isinstance(v, Sc) and v.ty.kind == "Opt":
            inner = self.b_isinstance(st, Sc(v.ty.args[0], optval(v.ty, v.t)), c)
            return B(z3.And(is_some(v.ty, v.t), inner.t))
        k = cls_of(v)
        if k is None:
            raise Unsupported("isinstance of %s" % self.tname(v))
        if isinstance(k, LocalClass):
            return B(any(x in list(self.local_mro(k)) for x in cs))
        return B(any(issubclass(k, x) for x in cs if isinstance(x, type)))

    def b_type(self, st, v):
        if isinstance(v, ObjV):
            return ClassV(st.objs[v.oid][0])
        raise Unsupported("type()")

    def b_callable(self, st, v):
        return B(isinstance(v, (FuncV, BoundV, ClassV, HandV, BuiltinV)))

    def b_getattr(self, st, o, name, *dflt):
        return self.getattr(st, o, name.s)

    def b_setattr(self, st, o, name, v):
        st.objs[o.oid][1][name.s] = v
        return NONE_

    def b_hasattr(self, st, o, name):
        if isinstance(o, ObjV):
            cls, attrs, handlers = st.objs[o.oid]
            return B(name.s in attrs or name.s in handlers or bool(self.find_method(cls, name.s)))
        raise Unsupported("hasattr")

    def b_ord(self, st, v):
        if isinstance(v, StrC):
            return I(ord(v.s))
        raise Unsupported("ord")

    def b_next(self, st, v, *d):
        if isinstance(v, GenV) and not d:
            raise Unsupported("next")
        raise Unsupported("next")

    def b_set_union(self, st, *vs):
        if len(vs) == 1 and isinstance(vs[0], StarV):
            g = vs[0].v
            if isinstance(g, GenV):
                alts = self.comp_collect(st, g.node, g.fid, g.glob, g.func, outer=g.outer)
                if not alts:
                    self.require(st, "set.union(*...) of at least one set", z3.BoolVal(False))
                    return []
                if not st.binders or True:
                    self.require(st, "set.union(*...) of at least one set", self.comp_nonempty(st, alts))
                return self.comp_union(st, alts)
            it = self.iterate(st, g)
            if it.kind == "seq" and it.ety.kind == "FSet":
                et = it.ety.args[0]
                self.require(st, "set.union(*...) of at least one set", it.lo < it.hi)
                R = self.fresh(SET(et), "union", st)
                x, i = z3.Const("x!s", sort(et)), z3.Int("i!s")
                w = z3.Function(self.uid("sk"), *[b.sort() for b in st.binders], x.sort(), z3.IntSort())(*st.binders, x)
                self.q(st, [i, x], z3.Implies(z3.And(it.lo <= i, i < it.hi, z3.Select(z3.Select(it.arr, i), x)), z3.Select(R, x)))
                self.q(st, [x], z3.Implies(z3.Select(R, x), z3.And(it.lo <= w, w < it.hi, z3.Select(z3.Select(it.arr, w), x))), pats=[z3.Select(R, x)])
                return self.alloc(st, SET(et), R, "union")
            if it.kind == "lit":
                vs = it.xs
            else:
                raise Unsupported("set.union(*%s)" % it.kind)
        if not vs:
            self.require(st, "set.union(*...) of at least one set", z3.BoolVal(False))
            return []
        cur = self.to_set(st, vs[0], "set")
        for v in vs[1:]:
            cur = self.binop(st, ast.BitOr(), cur, self.to_set(st, v, "set"))
        return cur

    def b_reversed(self, st, v):
        raise Unsupported("reversed")

    def b_list_append(self, st, l, x):
        return self.builtin_method(st, "m.append", l, [x], {})

    # ------------------------------------------------------------ container methods
    def builtin_method(self, st, name, o, args, kwargs):
        if isinstance(o, MaybeV):
            o = o.v
        n = name.split(".")[-1]
        h = self.call_hooks.get((name, type(o).__name__)) or self.call_hooks.get(name)
        if h:
            return h(self, st, o, args, kwargs)
        if isinstance(o, ObjV) and name.split(".")[0] in ("deque", "list") and (n != "__init__" or not args):
            if n == "__init__":
                st.objs[o.oid][1]["$items"] = self.builtin(st, "list", [], {})[0][1]
                return [(st, NONE_)]
            o = st.objs[o.oid][1]["$items"]
            if n == "__len__":
                return [(st, Sc(INT, self.length(st, o)))]
        if n == "__init__" and isinstance(o, ObjV):
            return [(st, NONE_)]
        if n == "__setattr__" and isinstance(o, ObjV):
            st.objs[o.oid][1][args[0].s] = args[1]
            return [(st, NONE_)]
        f = getattr(self, "m_" + n, None)
        if f is None:
            raise Unsupported("method %s" % name)
        r = f(st, o, *args, **kwargs)
        return r if isinstance(r, list) else [(st, r)]

    def m_keys(self, st, o):
        if isinstance(o, DictLit):
            return LitV([k for k, _ in o.items])
        return ViewV("keys", o)

    def m_values(self, st, o):
        if isinstance(o, DictLit):
            return LitV([v for _, v in o.items])
        return ViewV("values", o)

    def m_items(self, st, o):
        if isinstance(o, DictLit):
            return LitV([TupV([k, v]) for k, v in o.items])
        return ViewV("items", o)

    def m_get(self, st, o, k, d=None):
        d = d if d is not None else NONE_
        if isinstance(o, DictLit):
            for kk, x in o.items:
                e = z3.simplify(self.equal(st, k, kk))
                if z3.is_true(e):
                    return x
                if not z3.is_false(e):
                    raise Unsupported("get on a dict display")
            return d
        rt = self.rtype(st, o)
        if rt.kind == "Untyped":
            return d
        t = self.read(st, o)
        kt, vt = rt.args
        present = self.mem(st, dom(rt, t), kt, k)
        if not vt.mutable and isinstance(d, (Sc, TupV, StrC)):
            kk = self.keyterm(st, k, kt)
            x = z3.Select(val(rt, t), kk)
            dt = self.typeof(st, d)
            j = join(vt, dt)
            return Sc(j, z3.If(present, coerce(x, vt, j), coerce(self.term(st, d), dt, j)))
        out = []
        for s, b in self.branch(st, present):
            if b:
                loc, path = self.resolve(s, o)
                if vt.mutable:
                    out.append((s, Ref(loc, path + ((kt, self.keyterm(s, k, kt)),), self.tick())))
                else:
                    out.append((s, self.wrap(vt, z3.Select(val(rt, t), self.keyterm(s, k, kt)))))
            else:
                out.append((s, d))
        return out

    def m_setdefault(self, st, o, k, d=None):
        rt = self.rtype(st, o)
        if rt.kind == "Untyped":
            self.setitem(st, o, k, d)
            return self.getitem(st, o, k)
        t = self.read(st, o)
        out = []
        for s, b in self.branch(st, self.mem(st, dom(rt, t), rt.args[0], k)):
            if not b:
                self.setitem(s, o, k, d)
            out += self.getitem(s, o, k)
        return out

    def elemtype(self, st, o, x, kind):
        rt = self.rtype(st, o)
        if rt.kind == "Untyped":
            et = self.keytype(self.typeof(st, x)) if kind == "set" else self.typeof(st, x)
            if et.kind in ("Untyped",):
                raise Unsupported("untyped element")
            self.retype(st, o, SET(et) if kind == "set" else SEQ(self.keytype(et)))
            rt = self.rtype(st, o)
        return rt

    def m_add(self, st, o, x):
        rt = self.elemtype(st, o, x, "set")
        if rt.kind != "Set":
            raise Unsupported("add on %s" % rt)
        tx = self.typeof(st, x)
        t = self.term(st, x)
        if tx.kind == "Set":
            raise Unsupported("mutable set stored in a set")
        self.write(st, o, z3.Store(self.read(st, o), self.term(st, x, rt.args[0]), True))
        return NONE_

    def m_discard(self, st, o, x):
        rt = self.rtype(st, o)
        if rt.kind == "Untyped":
            return NONE_
        self.write(st, o, z3.Store(self.read(st, o), self.term(st, x, rt.args[0]), False))
        return NONE_

    def m_remove(self, st, o, x):
        rt = self.rtype(st, o)
        if rt.kind == "Set":
            t = self.read(st, o)
            self.require(st, "removed element is in the set", self.mem(st, t, rt.args[0], x))
            self.write(st, o, z3.Store(t, self.keyterm(st, x, rt.args[0]), False))
            return NONE_
        if rt.kind == "Untyped":
            self.require(st, "removed element is in the set", z3.BoolVal(False))
            return []
        raise Unsupported("remove on %s" % rt)

    def m_union(self, st, o, *vs):
        cur = self.to_set(st, o, "set")
        for v in vs:
            cur = self.binop(st, ast.BitOr(), cur, self.to_set(st, v, "set"))
        return cur

    def m_difference(self, st, o, v):
        return self.binop(st, ast.Sub(), o, self.to_set(st, v, "set"))

    def m_intersection(self, st, o, v):
        return self.binop(st, ast.BitAnd(), o, self.to_set(st, v, "set"))

    def m_isdisjoint(self, st, o, v):
        a, b = self.setlike(st, o), self.setlike(st, v)
        return B(z3.SetIntersect(a[1], b[1]) == empty(SET(a[0])))

    def m_issubset(self, st, o, v):
        a, b = self.setlike(st, o), self.setlike(st, v)
        return B(z3.IsSubset(a[1], b[1]))

    def m_update(self, st, o, v):
        rt = self.rtype(st, o)
        if rt.kind == "Set" or (rt.kind == "Untyped" and rt.args[0] == "set"):
            return self.aug_set(st, ast.BitOr(), o, self.to_set(st, v, "set"))
        raise Unsupported("update")

    def aug_set(self, st, op, o, v):
        a, b = self.setlike(st, o), self.setlike(st, v)
        if not b:
            raise Unsupported("in-place set operator on %s" % self.tname(v))
        ety = a[0] or b[0]
        if ety is None:
            return NONE_
        rt = self.rtype(st, o)
        if rt.kind == "Untyped":
            self.retype(st, o, SET(ety))
        x = self.read(st, o)
        y = b[1] if b[0] is not None else empty(SET(ety))
        self.write(st, o, self.setop(op, x, y, ety, st))
        return NONE_

    def m_copy(self, st, o):
        if isinstance(o, Ref):
            rt = self.rtype(st, o)
            if rt.kind == "Untyped":
                return self.alloc_untyped(st, rt.args[0])
            return self.alloc(st, rt, self.read(st, o), "copy")
        raise Unsupported("copy")

    def m_clear(self, st, o):
        rt = self.rtype(st, o)
        if rt.kind != "Untyped":
            self.write(st, o, default(rt) if rt.kind == "DMap" else empty(rt))
        return NONE_

    def m_append(self, st, o, x):
        if isinstance(o, LitV):
            raise Unsupported("append to a list display")
        rt = self.elemtype(st, o, x, "seq")
        t = self.read(st, o)
        v = self.term(st, x, rt.args[0])
        c = z3.Store(cnt(rt, t), v, z3.Select(cnt(rt, t), v) + 1)
        self.write(st, o, mk(rt, lo(rt, t), hi(rt, t) + 1, z3.Store(arr(rt, t), hi(rt, t), v), c))
        return NONE_

    def m_appendleft(self, st, o, x):
        rt = self.elemtype(st, o, x, "seq")
        t = self.read(st, o)
        v = self.term(st, x, rt.args[0])
        c = z3.Store(cnt(rt, t), v, z3.Select(cnt(rt, t), v) + 1)
        self.write(st, o, mk(rt, lo(rt, t) - 1, hi(rt, t), z3.Store(arr(rt, t), lo(rt, t) - 1, v), c))
        return NONE_

    def m_insert(self, st, o, i, x):
        it = z3.simplify(self.term(st, i, INT))
        if z3.is_int_value(it) and it.as_long() == 0:
            return self.m_appendleft(st, o, x)
        raise Unsupported("list.insert at a position other than 0")

    def m_extend(self, st, o, v):
        it = self.iterate(st, v)
        if it.kind == "lit":
            for x in it.xs:
                self.m_append(st, o, x)
            return NONE_
        r = self.seq_concat(st, o, self.to_list(st, v))
        rt = self.rtype(st, r)
        if self.rtype(st, o).kind == "Untyped":
            self.retype(st, o, rt)
        self.write(st, o, self.read(st, r))
        return NONE_

    def m_pop(self, st, o, *a):
        if isinstance(o, DictLit):
            for i, (k, v) in enumerate(o.items):
                if z3.is_true(z3.simplify(self.equal(st, a[0], k))):
                    o.items.pop(i)
                    return v
            return a[1] if len(a) > 1 else []
        rt = self.rtype(st, o)
        if rt.kind == "Untyped":
            if len(a) > 1:
                return a[1]
            self.require(st, "pop from a non-empty container", z3.BoolVal(False))
            return []
        t = self.read(st, o)
        if rt.kind == "Seq":
            left = False
            if a:
                i = z3.simplify(self.term(st, a[0], INT))
                if not z3.is_int_value(i) or i.as_long() not in (0, -1):
                    raise Unsupported("pop(i)")
                left = i.as_long() == 0
            return self.pop_end(st, o, rt, t, left)
        if rt.kind == "Set":
            self.require(st, "pop from a non-empty set", t != empty(rt))
            x = self.fresh(rt.args[0], "popped", st)
            self.assume(st, z3.Select(t, x))
            self.write(st, o, z3.Store(t, x, False))
            return self.wrap(rt.args[0], x)
        if rt.kind in ("Map", "DMap") and a:
            v = self.getitem(st, o, a[0]) if len(a) == 1 else None
            if v is None:
                out = []
                for s, b in self.branch(st, self.mem(st, dom(rt, t), rt.args[0], a[0])):
                    if b:
                        x = self.wrap(rt.args[1], z3.Select(val(rt, t), self.keyterm(s, a[0], rt.args[0])))
                        self.delitem(s, o, a[0])
                        out.append((s, x))
                    else:
                        out.append((s, a[1]))
                return out
            if rt.args[1].mutable:
                raise Unsupported("dict.pop of containers")
            self.delitem(st, o, a[0])
            return v
        raise Unsupported("pop on %s" % rt)

    def index_may_raise(self, st):
        return any(issubclass(IndexError, c) for c in getattr(getattr(self, "proof", None), "raises", None) or {}) or any(issubclass(IndexError, c) for cs in st.tries for c in cs)

    def pop_end(self, st, o, rt, t, left):
        if self.index_may_raise(st):
            out = []
            for s, b in self.branch(st, lo(rt, t) < hi(rt, t)):
                out.append((s, self.popped(s, o, rt, t, left) if b else RaisedV(Exc(IndexError))))
            return out
        self.require(st, "pop from a non-empty sequence", lo(rt, t) < hi(rt, t))
        return self.popped(st, o, rt, t, left)

    def popped(self, st, o, rt, t, left):
        i = lo(rt, t) if left else hi(rt, t) - 1
        x = z3.Select(arr(rt, t), i)
        # name the popped element: keeps terms small
        xn = self.fresh(rt.args[0], "popped", st)
        self.assume(st, xn == x)
        # membership count of the popped element is positive (wf instance)
        self.assume(st, z3.Select(cnt(rt, t), xn) >= 1)
        c = z3.Store(cnt(rt, t), xn, z3.Select(cnt(rt, t), xn) - 1)
        nt = mk(rt, lo(rt, t) + 1 if left else lo(rt, t), hi(rt, t) if left else hi(rt, t) - 1, arr(rt, t), c)
        self.write(st, o, nt)
        y = z3.Const("x!pe", sort(rt.args[0]))
        j = z3.Int("j!pe")
        l2, h2 = lo(rt, nt), hi(rt, nt)
        self.q(st, [j], z3.Implies(z3.And(l2 <= j, j < h2), z3.Select(c, z3.Select(arr(rt, t), j)) >= 1), pats=[z3.Select(arr(rt, t), j)])
        self.q(st, [y], z3.Implies(l2 == h2, z3.Select(c, y) == 0), pats=[z3.Select(cnt(rt, t), y)])
        return self.wrap(rt.args[0], xn)

    def m_popleft(self, st, o):
        rt = self.rtype(st, o)
        if rt.kind == "Untyped":
            self.require(st, "pop from a non-empty sequence", z3.BoolVal(False))
            return []
        return self.pop_end(st, o, rt, self.read(st, o), True)

    def m_startswith(self, st, o, p):
        if isinstance(o, StrC) and isinstance(p, StrC):
            return B(o.s.startswith(p.s))
        raise Unsupported("startswith")

    def m_join(self, st, o, v):
        return Sc(SYM("Str"), self.fresh(SYM("Str"), "join", st))

    def m_format(self, st, o, *a, **k):
        return Sc(SYM("Str"), self.fresh(SYM("Str"), "fmt", st))

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st, fid, glob, func):
        outs = []
        cur = [st]
        for i, s in enumerate(stmts):
            nxt = []
            for x in cur:
                for o in self.exec(s, x, fid, glob, func):
                    if o.kind == "normal":
                        nxt.append(o.st)
                    else:
                        outs.append(o)
            cur = nxt
            if not cur:
                break
        return outs + [Out("normal", s) for s in cur]

    def exec(self, s, st, fid, glob, func):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(s).__name__)
        return m(s, st, fid, glob, func)

    def split(self, res):
        """separate raising evaluations"""
        ok, raised = [], []
        for s, v in res:
            if isinstance(v, RaisedV):
                raised.append(Out("raise", s, v.exc))
            else:
                ok.append((s, v))
        return ok, raised

    def s_Pass(self, s, st, fid, glob, func):
        return [Out("normal", st)]

    def s_Import(self, s, st, fid, glob, func):
        for a in s.names:
            st.frames[fid][a.asname or a.name] = ModV(importlib.import_module(a.name))
        return [Out("normal", st)]

    def s_ImportFrom(self, s, st, fid, glob, func):
        m = importlib.import_module("." * s.level + (s.module or ""), glob["__package__"]) if s.level else importlib.import_module(s.module)
        for a in s.names:
            st.frames[fid][a.asname or a.name] = self.from_py(getattr(m, a.name), st)
        return [Out("normal", st)]

    def s_Global(self, s, st, fid, glob, func):
        raise Unsupported("global statement")

    def s_Nonlocal(self, s, st, fid, glob, func):
        st.frames[fid]["$nonlocal"] = tuple(s.names) + st.frames[fid].get("$nonlocal", ())
        return [Out("normal", st)]

    def s_Expr(self, s, st, fid, glob, func):
        if isinstance(s.value, ast.Constant):
            return [Out("normal", st)]
        ok, raised = self.split(self.eval(s.value, st, fid, glob, func))
        return raised + [Out("normal", x) for x, _ in ok]

    def s_Return(self, s, st, fid, glob, func):
        if s.value is None:
            return [Out("return", st, NONE_)]
        ok, raised = self.split(self.eval(s.value, st, fid, glob, func))
        return raised + [Out("return", x, v) for x, v in ok]

    def s_Break(self, s, st, fid, glob, func):
        return [Out("break", st)]

    def s_Continue(self, s, st, fid, glob, func):
        return [Out("continue", st)]

    def s_Assert(self, s, st, fid, glob, func):
        ok, raised = self.split(self.eval(s.test, st, fid, glob, func))
        outs = raised
        for x, v in ok:
            for y, t in self.truthy(x, v):
                if any(issubclass(AssertionError, c) for c in getattr(getattr(self, "proof", None), "raises", None) or {}):
                    outs += [Out("normal", z) if b else Out("raise", z, Exc(AssertionError)) for z, b in self.branch(y, t)]
                    continue
                self.require(y, "assert %s" % ast.unparse(s.test)[:40], t)
                if not (z3.is_expr(t) and z3.is_false(z3.simplify(t))):     # else the obligation just made says that no execution gets here
                    outs.append(Out("normal", y))
        return outs

    def s_Raise(self, s, st, fid, glob, func):
        if s.exc is None:
            return [Out("raise", st, st.notes.get("$exc", Exc(Exception)))]
        try:
            res = self.eval(s.exc, st, fid, glob, func)
        except Unsupported:
            # the message of an exception is not observable here
            node = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            (s1, c), = self.eval(node, st, fid, glob, func)
            return [Out("raise", s1, Exc(c.cls))]
        ok, raised = self.split(res)
        outs = raised
        for x, v in ok:
            if isinstance(v, ClassV):
                v = Exc(v.cls)
            outs.append(Out("raise", x, v))
        return outs

    def s_If(self, s, st, fid, glob, func):
        ok, outs = self.split(self.eval(s.test, st, fid, glob, func))
        for x, v in ok:
            for y, t in self.truthy(x, v):
                for z, b in self.branch(y, t):
                    outs += self.exec_block(s.body if b else s.orelse, z, fid, glob, func)
        return outs

    def s_FunctionDef(self, s, st, fid, glob, func):
        ds = self.evals(s.args.defaults, st, fid, glob, func)
        outs = []
        for x, vs in ds:
            x.frames[fid][s.name] = FuncV(s, fid, glob, s.name, defaults=tuple(vs), cls=None,
                                          key=(func.key + ".<locals>." + s.name) if func.key else None)
            outs.append(Out("normal", x))
        return outs

    def s_ClassDef(self, s, st, fid, glob, func):
        bases = []
        for b in s.bases:
            (st, v), = self.eval(b, st, fid, glob, func)
            bases.append(v.cls)
        c = LocalClass(s.name, bases, {})
        for d in s.body:
            if isinstance(d, ast.FunctionDef):
                (st2, vs), = self.evals(d.args.defaults, st, fid, glob, func)
                c.methods[d.name] = FuncV(d, fid, glob, d.name, defaults=tuple(vs), cls=c,
                                          key=(func.key + ".<locals>." + s.name + "." + d.name) if func.key else None)
            elif isinstance(d, (ast.Pass,)) or (isinstance(d, ast.Expr) and isinstance(d.value, ast.Constant)):
                pass
            else:
                raise Unsupported("class body statement")
        st.frames[fid][s.name] = ClassV(c)
        return [Out("normal", st)]

    def s_Assign(self, s, st, fid, glob, func):
        hint = self.hint(s.targets)
        ok, outs = self.split(self.eval(s.value, st, fid, glob, func))
        for x, v in ok:
            v = self.apply_hint(x, v, hint)
            cur = [x]
            # inner-most target last: python assigns left to right; moving stores go last
            targets = sorted(s.targets, key=lambda t: isinstance(t, ast.Subscript))
            for t in targets:
                nxt = []
                for y in cur:
                    nxt += [y] if isinstance(y, Out) else self.assign(t, v, y, fid, glob, func)
                cur = nxt
            outs += [y if isinstance(y, Out) else Out("normal", y) for y in cur]
        return outs

    def hint(self, targets):
        for t in targets:
            n = t.id if isinstance(t, ast.Name) else t.attr if isinstance(t, ast.Attribute) else None
            if n and n in self.types:
                return n
        return None

    def apply_hint(self, st, v, hint):
        if isinstance(v, DictLit) and hint and self.types[hint].kind == "Map" and not self.types[hint].args[1].mutable:
            ty = self.types[hint]
            t = empty(ty)
            for kk, y in v.items:
                kt = self.keyterm(st, kk, ty.args[0])
                t = mk(ty, z3.Store(dom(ty, t), kt, True), z3.Store(val(ty, t), kt, self.term(st, y, ty.args[1])))
            return self.alloc(st, ty, t, hint)
        if isinstance(v, Ref) and hint:
            rt = self.rtype(st, v)
            if rt.kind == "Untyped":
                self.retype(st, v, self.types[hint])
        elif isinstance(v, Ref) and self.rtype(st, v).kind == "Untyped" and self.rtype(st, v).args[0] == "defaultdict":
            vt = st.notes.get(("dd", v.loc))
            if vt is not None and "$ddkey" in self.types:
                self.retype(st, v, DMAP(self.types["$ddkey"], vt))
        return v

    def s_AnnAssign(self, s, st, fid, glob, func):
        if s.value is None:
            return [Out("normal", st)]
        return self.s_Assign(ast.Assign(targets=[s.target], value=s.value), st, fid, glob, func)

    def assigned(self, *a):
        r = self.assign(*a)
        if any(isinstance(x, Out) for x in r):
            raise Unsupported("exception while a target is bound")
        return r

    def e_NamedExpr(self, e, st, fid, glob, func):
        if st.binders:
            raise Unsupported("a name bound inside a comprehension")
        out = []
        for s, v in self.eval(e.value, st, fid, glob, func):
            if isinstance(v, RaisedV):
                out.append((s, v))
            else:
                for s2 in self.assigned(e.target, v, s, fid, glob, func):
                    out += self.eval(ast.copy_location(ast.Name(e.target.id, ast.Load()), e), s2, fid, glob, func)
        return out

    def reverse_seq(self, st, ty, t):
        a = z3.Const(self.uid("reversed"), arr(ty, t).sort())
        i, l, h, b = z3.Int("i!rv"), lo(ty, t), hi(ty, t), self.named(st, arr(ty, t))
        self.assume(st, z3.ForAll([i], z3.Implies(z3.And(l <= i, i < h), z3.Select(a, i) == z3.Select(b, l + h - 1 - i)), patterns=[z3.Select(a, i)]))
        self.assume(st, z3.ForAll([i], z3.Implies(z3.And(l <= i, i < h), z3.Select(b, i) == z3.Select(a, l + h - 1 - i)), patterns=[z3.Select(b, i)]))
        return mk(ty, l, h, a, cnt(ty, t))

    def m_reverse(self, st, o):
        rt = self.rtype(st, o)
        if rt.kind == "Seq":
            self.write(st, o, self.reverse_seq(st, rt, self.read(st, o)))
        elif rt.kind != "Untyped":
            raise Unsupported("reverse")
        return NONE_

    def assign(self, t, v, st, fid, glob, func):
        """-> list of states"""
        if isinstance(t, ast.Name):
            if isinstance(v, LitV) and v.xs:
                try:
                    ty = self.typeof(st, v)
                    v = self.alloc(st, ty, self.term(st, v, ty), "list")
                except Unsupported:
                    pass
            fr = fid
            if t.id in st.frames[fid].get("$nonlocal", ()):
                fr = st.frames[fid]["$parent"]
                while fr is not None and t.id not in st.frames[fr]:
                    fr = st.frames[fr].get("$parent")
            if isinstance(v, Sc) and z3.is_app(v.t) and v.t.num_args() > 0 and v.ty.kind in ("FSet",) and not st.binders:
                pass
            st.frames[fr][t.id] = v
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(st, v, len(t.elts))
            cur = [st]
            for tt, x in zip(t.elts, vs):
                nxt = []
                for y in cur:
                    nxt += [y] if isinstance(y, Out) else self.assign(tt, x, y, fid, glob, func)
                cur = nxt
            return cur
        if isinstance(t, ast.Attribute):
            out = []
            for s, o in self.eval(t.value, st, fid, glob, func):
                if not isinstance(o, ObjV):
                    raise Unsupported("attribute assignment on %s" % type(o).__name__)
                if isinstance(v, LitV) and v.xs:
                    try:
                        ty = self.typeof(s, v)
                        v = self.alloc(s, ty, self.term(s, v, ty), "list")
                    except Unsupported:
                        pass
                s.objs[o.oid][1][t.attr] = v
                out.append(s)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s, vs in self.evals([t.value, t.slice], st, fid, glob, func):
                if isinstance(vs, RaisedV):
                    raise Unsupported("exception in a subscript target")
                out += [Out("raise", x, r.exc) if isinstance(r, RaisedV) else x for x, r in self.setitem(s, vs[0], vs[1], v)]
            return out
        raise Unsupported("assignment target")

    def unpack(self, st, v, n):
        if isinstance(v, MaybeV):
            v = v.v
        if isinstance(v, (TupV, LitV)):
            if len(v.xs) != n:
                raise Unsupported("unpacking arity")
            return v.xs
        if isinstance(v, Sc) and v.ty.kind == "Tup" and len(v.ty.args) == n:
            return [self.wrap(t, fld(v.ty, v.t, i)) for i, t in enumerate(v.ty.args)]
        if isinstance(v, Sc) and v.ty.kind == "Opt":
            self.require(st, "unpacked value is not None", is_some(v.ty, v.t))
            return self.unpack(st, Sc(v.ty.args[0], optval(v.ty, v.t)), n)
        if isinstance(v, RangeV) and n == 2:
            return [Sc(INT, v.lo), Sc(INT, v.lo + 1)]
        if isinstance(v, PyC) and isinstance(v.o, tuple):
            return [self.from_py(x, st) for x in v.o]
        raise Unsupported("unpacking of %s" % self.tname(v))

    def s_AugAssign(self, s, st, fid, glob, func):
        outs = []
        load = ast.copy_location(ast.fix_missing_locations(ast.parse(ast.unparse(s.target), mode="eval").body), s)
        ok, outs = self.split(self.evals_pair([load, s.value], st, fid, glob, func))
        for x, (a, b) in ok:
            if isinstance(a, Ref) and isinstance(s.op, (ast.BitOr, ast.BitAnd, ast.Sub)) and self.setlike(x, a):
                self.aug_set(x, s.op, a, b)
                outs.append(Out("normal", x))
                continue
            if isinstance(a, Ref) and isinstance(s.op, ast.Add):
                self.m_extend(x, a, b)
                outs.append(Out("normal", x))
                continue
            v = self.binop(x, s.op, a, b)
            outs += [y if isinstance(y, Out) else Out("normal", y) for y in self.assign(s.target, v, x, fid, glob, func)]
        return outs

    def evals_pair(self, es, st, fid, glob, func):
        return self.evals(es, st, fid, glob, func)

    def s_Delete(self, s, st, fid, glob, func):
        cur = [Out("normal", st)]
        for t in s.targets:
            nxt = []
            for o in cur:
                if o.kind != "normal":
                    nxt.append(o)
                    continue
                if isinstance(t, ast.Name):
                    o.st.frames[fid].pop(t.id, None)
                    nxt.append(o)
                    continue
                if not isinstance(t, ast.Subscript):
                    raise Unsupported("del target")
                for s1, vs in self.evals([t.value, t.slice], o.st, fid, glob, func):
                    if isinstance(vs, RaisedV):
                        nxt.append(Out("raise", s1, vs.exc))
                        continue
                    for s2, r in self.delitem(s1, *vs):
                        nxt.append(Out("raise", s2, r.exc) if isinstance(r, RaisedV) else Out("normal", s2))
            cur = nxt
        return cur

    def s_Try(self, s, st, fid, glob, func):
        classes = []
        for h in s.handlers:
            if h.type is None:
                classes.append((BaseException,))
            else:
                (st, v), = self.eval(h.type, st, fid, glob, func)
                classes.append(tuple(x.cls for x in v.xs) if isinstance(v, TupV) else (v.cls,))
        st.tries = st.tries + [tuple(c for cs in classes for c in cs)]
        outs = []
        for o in self.exec_block(s.body, st, fid, glob, func):
            o.st.tries = o.st.tries[:-1]
            if o.kind == "raise":
                for h, cs in zip(s.handlers, classes):
                    if any(issubclass(o.v.cls, c) for c in cs):
                        if h.name:
                            o.st.frames[fid][h.name] = o.v
                        o.st.notes["$exc"] = o.v
                        outs += self.exec_block(h.body, o.st, fid, glob, func)
                        break
                else:
                    outs.append(o)
            elif o.kind == "normal" and s.orelse:
                outs += self.exec_block(s.orelse, o.st, fid, glob, func)
            else:
                outs.append(o)
        if s.finalbody:
            res = []
            for o in outs:
                for f in self.exec_block(s.finalbody, o.st, fid, glob, func):
                    res.append(Out(o.kind, f.st, o.v) if f.kind == "normal" else f)
            return res
        return outs

    # ------------------------------------------------------------ loops
    def loop_spec(self, node, func):
        key = func.key or func.name
        if isinstance(func.node, ast.Lambda):
            raise Unsupported("loop in lambda")
        ls = loops_of(func.node)
        idx = [i for i, x in enumerate(ls) if x is node]
        idx = idx[0] if idx else None
        for k in ((key, idx), (key.split(":")[-1], idx)):
            if k in self.loops:
                self.loopstats.append(k)
                return self.loops[k], k
        # a loop moved into an uncontracted helper: take the next unclaimed spec
        if not hasattr(self, "_fallback"):
            self._fallback = {}
            self._unclaimed = []
            for (fk, i) in self.loops:
                n = self.current_loop_count(fk)
                if n is not None and i >= n:
                    self._unclaimed.append((fk, i))
        if id(node) not in self._fallback:
            if not self._unclaimed:
                raise Unsupported("loop without an invariant in %s (loop %s)" % (key, idx))
            self._fallback[id(node)] = self._unclaimed.pop(0)
        k = self._fallback[id(node)]
        return self.loops[k], k

    def current_loop_count(self, fk):
        try:
            mod, q = fk.split(":") if ":" in fk else (None, fk)
            if mod is None:
                return None
            m = importlib.import_module(mod)
            q = q.replace(".<locals>", "")
            d = find_def(m, q)
            return len(loops_of(d)) if d is not None else 0
        except Exception:
            return None

    def s_While(self, s, st, fid, glob, func):
        return self.loop(s, st, fid, glob, func, None)

    def s_For(self, s, st, fid, glob, func):
        outs = []
        for x, v in self.eval(s.iter, st, fid, glob, func):
            if isinstance(v, RaisedV):
                outs.append(Out("raise", x, v.exc))
                continue
            if isinstance(v, ObjV):
                for s2, m in self.getattr(x, v, "__iter__"):
                    for s3, v2 in self.call(s2, m, [], {}):
                        outs += self.for_over(s, s3, v2, fid, glob, func)
                continue
            outs += self.for_over(s, x, v, fid, glob, func)
        return outs

    def for_over(self, s, x, v, fid, glob, func):
        x.track = set() if x.track is None else x.track
        saved = x.track
        x.track = set()
        it = self.iterate(x, v)
        deps, x.track = x.track, (None if saved is None else saved | x.track)
        enum_start = None
        base = it
        if it.kind == "enum":
            enum_start = it.start
            base = it.inner
        if base.kind == "lit":
            cur, outs = [x], []
            for j, e in enumerate(base.xs):
                val_ = e if enum_start is None else TupV([I(j) if isinstance(enum_start, int) and enum_start == 0 else Sc(INT, enum_start + j), e])
                nxt = []
                for st in cur:
                    for st2 in self.assigned(s.target, val_, st, fid, glob, func):
                        for o in self.exec_block(s.body, st2, fid, glob, func):
                            if o.kind in ("normal", "continue"):
                                nxt.append(o.st)
                            elif o.kind == "break":
                                outs.append(Out("normal", o.st))
                            else:
                                outs.append(o)
                cur = nxt
            for st in cur:
                outs += self.exec_block(s.orelse, st, fid, glob, func)
            return outs
        if base.kind == "set":
            e = self.enumerate_set(x, base)
            d = It("loop", n=e.n, elem=lambda st, k: base.elem(st, e.key(k)), key=e.key, pos=e.pos, S=base.S, src=getattr(base, "src", None), live=None)
        elif base.kind == "seq":
            live = getattr(base, "live", None)
            d = It("loop", n=minus(base.hi, base.lo), elem=lambda st, k: base.elem(st, plus(base.lo, k)), key=lambda k: z3.Select(base.arr, plus(base.lo, k)),
                   pos=None, S=None, src=None, live=live, sty=base.sty)
        elif base.kind == "range":
            n = z3.If(base.hi < base.lo, z3.IntVal(0), base.hi - base.lo)
            d = It("loop", n=n, elem=lambda st, k: Sc(INT, plus(base.lo, k)), key=lambda k: plus(base.lo, k), pos=None, S=None, src=None, live=None)
        elif base.kind == "zip":
            ins = []
            for b in base.inners:
                if b.kind == "seq":
                    ins.append((b.hi - b.lo, (lambda b: lambda st, k: b.elem(st, plus(b.lo, k)))(b)))
                elif b.kind == "range":
                    ins.append((z3.If(b.hi < b.lo, z3.IntVal(0), b.hi - b.lo), (lambda b: lambda st, k: Sc(INT, plus(b.lo, k)))(b)))
                else:
                    raise Unsupported("zip over %s" % b.kind)
            n = ins[0][0]
            for m, _ in ins[1:]:
                n = z3.If(m < n, m, n)
            d = It("loop", n=n, elem=lambda st, k: TupV([f(st, k) for _, f in ins]), key=None, pos=None, S=None, src=None, live=None)
        else:
            raise Unsupported("loop over %s" % base.kind)
        d.start = enum_start
        d.deps = deps
        return self.loop(s, x, fid, glob, func, d)

    def loop(self, node, st, fid, glob, func, it):
        """it is None for while loops"""
        if self.dry:
            spec, key = None, None
        else:
            spec, key = self.loop_spec(node, func)
        entry = st
        # ---- which locations does the body modify?
        M = {"vars": {}, "attrs": {}, "locs": {}, "ghost": set()}
        assigned = {n.id for x in node.body for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        if it is not None:
            assigned |= {n.id for n in ast.walk(node.target) if isinstance(n, ast.Name)}
        else:
            assigned |= {n.target.id for n in ast.walk(node.test) if isinstance(n, ast.NamedExpr)}
        types = {}
        self.dry += 1
        saved_obls, saved_ax = len(self.obls), None
        try:
            for rnd in range(8):
                h = entry.copy()
                self.do_havoc(h, M, types, fid, spec)
                outs = self.loop_body(node, h.copy(), fid, glob, func, it, z3.Int(self.uid("k")))
                changed = self.diff(h, [o.st for o in outs if o.kind in ("normal", "continue")], M, types, fid, assigned)  # only what reaches the next iteration
                if not changed:
                    break
            else:
                raise Unsupported("loop modification analysis did not converge")
        finally:
            self.dry -= 1
        if it is not None and it.live is not None and self.resolve(entry, it.live)[0] not in M["locs"]:
            it = copy.copy(it)
            it.live = None  # the body leaves the list alone
        # untyped containers that acquire a type in the loop
        h = entry
        for loc, ty in types.items():
            if isinstance(loc, tuple) and loc[0] == "loc" and loc[1] in h.heap and h.heap[loc[1]][0].kind == "Untyped":
                self.retype(h, Ref(loc[1]), ty)
        if self.dry:
            # abstract execution of an inner loop while analysing an outer one
            head = entry
            self.do_havoc(head, M, types, fid, spec, mark=True)
            k = z3.Int(self.uid("k"))
            outs = self.loop_body(node, head.copy(), fid, glob, func, it, k)
            res = [Out("normal", head)]
            for o in outs:
                if o.kind == "break":
                    res.append(Out("normal", o.st))
                elif o.kind in ("return", "raise"):
                    res.append(o)
            # exit through else / after loop; merge effects of all body states
            for o in outs:
                if o.kind in ("normal", "continue"):
                    res.append(Out("normal", o.st))
            fin = []
            for o in res:
                if o.kind == "normal" and node.orelse:
                    fin += self.exec_block(node.orelse, o.st, fid, glob, func)
                else:
                    fin.append(o)
            return fin
        # ---- invariant on entry
        name = "%s#%s" % (key[0].split(":")[-1], key[1])
        old = getattr(self, "old_state", None)

        def ctx(s, k, **kw):
            self.loop_node = node
            return Ctx(self, s, old=old, fid=fid, k=k, n=it.n if it is not None else None, it=it, entry=entry0, args=getattr(self, "proof_args", None), **kw)
        entry0 = entry.copy()
        zero = z3.IntVal(0)
        self.check_inv(spec, ctx(entry, zero), name + ":entry", entry)
        # ---- arbitrary iteration
        head = entry
        self.do_havoc(head, M, types, fid, spec)
        k = z3.Int(self.uid("k"))
        if it is not None:
            self.assume(head, z3.And(k >= 0))
            if it.live is None:
                self.assume(head, k <= it.n)
        c = ctx(head, k)
        for nm, t in spec.inv(c):
            self.assume(head, t)
        self.covers.append((name + ":head", [t for _, t in head.pc], True))
        outs = []
        body_in = head.copy()
        bouts = self.loop_body(node, body_in, fid, glob, func, it, k, exits=outs)
        if not bouts and not (it is not None and z3.is_int_value(z3.simplify(it.n))) and not getattr(self.proof, "dead_loops", False):
            self.oblige(entry0, name + ":the body is reachable", z3.BoolVal(False), "vacuity")
        for o in bouts:
            if o.kind in ("normal", "continue"):
                self.covers.append((name + ":body-end", [t for _, t in o.st.pc], False))
                self.check_src(o.st, it, head, name)
                if spec.lemma:
                    for nm, t in spec.lemma(ctx(o.st, k, head=head)):
                        self.oblige(o.st, name + ":lemma:" + nm, t)
                        self.assume(o.st, t)
                self.check_inv(spec, ctx(o.st, k + 1 if it is not None else None, head=head), name + ":preserved", o.st)
            elif o.kind == "break":
                outs.append(Out("normal", o.st, "break"))
            else:
                outs.append(o)
        res = []
        for o in outs:
            if o.kind == "normal" and it is not None:
                o.st.notes = dict(o.st.notes)
                o.st.notes[("it",) + tuple(key)] = it
        for o in outs:
            if o.kind == "normal" and o.v != "break" and node.orelse:
                res += self.exec_block(node.orelse, o.st, fid, glob, func)
            else:
                if o.kind == "normal":
                    o.v = None
                res.append(o)
        return res

    def check_inv(self, spec, c, name, st):
        for nm, t in spec.inv(c):
            self.oblige(st, "%s:%s" % (name, nm), t)

    def check_src(self, st, it, head, name):
        if it is None or it.src is None:
            if it is not None and it.deps and it.live is None:
                for loc in it.deps:
                    if loc in head.heap and loc in st.heap and st.heap[loc][1] is not head.heap[loc][1]:
                        raise Unsupported("the loop modifies what its lazy iterable reads")
            return
        ref, kind = it.src
        loc, path = self.resolve(st, ref)
        if loc in head.heap and st.heap[loc][1] is head.heap[loc][1]:
            return
        ty = self.rtype(st, ref)
        t = self.read(st, ref)
        self.oblige(st, name + ":iterated container is not resized", (t if kind == "set" else dom(ty, t)) == it.S, "safety")

    def loop_body(self, node, st, fid, glob, func, it, k, exits=None):
        """execute the guard and the body once from the loop head; appends exit states"""
        outs = []
        if it is None:
            ok, raised = self.split(self.eval(node.test, st, fid, glob, func))
            outs += raised
            for x, v in ok:
                for y, t in self.truthy(x, v):
                    for z, b in self.branch(y, t):
                        if b:
                            outs += self.exec_block(node.body, z, fid, glob, func)
                        elif exits is not None:
                            exits.append(Out("normal", z))
                        elif self.dry:
                            outs.append(Out("normal", z))
            return outs
        n = it.n
        if it.live is not None:
            rt = self.rtype(st, it.live)
            n = seqlen(rt, self.read(st, it.live))
        if exits is not None:
            e = st.copy()
            self.assume(e, k >= n, "g")
            if it.live is None:
                self.assume(e, k == n)
            if self.feasible(e):
                # the loop variables keep the last item
                if isinstance(node.target, (ast.Name, ast.Tuple)):
                    v = it.elem(e, k - 1) if it.live is None else None
                    if v is not None:
                        v = v if it.start is None else TupV([Sc(INT, k - 1 + it.start), v])
                        self.bind_last(e, node.target, v, fid, k > 0)
                exits.append(Out("normal", e))
        b = st
        self.assume(b, k < n, "g")
        if it.live is not None:
            rt = self.rtype(b, it.live)
            t = self.read(b, it.live)
            v = self.wrap(rt.args[0], z3.Select(arr(rt, t), plus(lo(rt, t), k)))
        else:
            v = it.elem(b, k)
        if it.start is not None:
            v = TupV([Sc(INT, k + it.start), v])
        if self.feasible(b):
            for s2 in self.assigned(node.target, v, b, fid, glob, func):
                outs += self.exec_block(node.body, s2, fid, glob, func)
        return outs

    def bind_last(self, st, target, v, fid, cond):
        if isinstance(target, ast.Name):
            prev = st.frames[fid].get(target.id)
            if prev is not None and not isinstance(prev, MaybeV) and isinstance(prev, Sc) and isinstance(v, Sc):
                j = join(prev.ty, v.ty)
                st.frames[fid][target.id] = Sc(j, z3.If(cond, coerce(v.t, v.ty, j), coerce(prev.t, prev.ty, j)))
            elif prev is None or isinstance(prev, MaybeV):
                st.frames[fid][target.id] = MaybeV(v, cond)
            return
        vs = self.unpack(st, v, len(target.elts))
        for t, x in zip(target.elts, vs):
            self.bind_last(st, t, x, fid, cond)

    def do_havoc(self, st, M, types, fid, spec, mark=False):
        """replace everything in M by arbitrary values"""
        for loc in M["locs"]:
            ty = types.get(("loc", loc)) or st.heap[loc][0]
            if st.heap[loc][0].kind == "Untyped" and ty.kind == "Untyped":
                continue
            st.heap[loc] = (ty, self.havoc(ty, "h_" + loc.split("!")[0], st))
        for (fr, n) in M["vars"]:
            if n not in st.frames[fr]:
                continue
            st.frames[fr][n] = self.havoc_value(st, types.get(("var", fr, n)), n)
        for (oid, a) in M["attrs"]:
            if a in st.objs[oid][1]:
                st.objs[oid][1][a] = self.havoc_value(st, types.get(("attr", oid, a)), a)
        for g in M["ghost"]:
            ty = st.ghost[g][0]
            st.ghost[g] = (ty, self.havoc(ty, "g_" + g, st))

    def havoc_value(self, st, ty, base):
        if ty is None or isinstance(ty, str):
            raise Unsupported("loop variable '%s' of unknown type (%s)" % (base, ty))
        if ty.kind == "Untyped":
            return Ref(self.alloc(st, ty, None, base).loc, (), self.tick())
        if ty.kind in ("Set", "Map", "DMap", "Seq"):
            return self.alloc(st, ty, self.havoc(ty, "h_" + base, st), base)
        return Sc(ty, self.havoc(ty, base, st))

    def same_value(self, a, b):
        if a is b:
            return True
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.loc == b.loc and len(a.path) == len(b.path) and all(x[1].eq(y[1]) for x, y in zip(a.path, b.path))
        if isinstance(a, Sc) and isinstance(b, Sc):
            return a.ty == b.ty and a.t.eq(b.t)
        if isinstance(a, ObjV) and isinstance(b, ObjV):
            return a.oid == b.oid
        if isinstance(a, TupV) and isinstance(b, TupV):
            return len(a.xs) == len(b.xs) and all(self.same_value(x, y) for x, y in zip(a.xs, b.xs))
        if isinstance(a, StrC) and isinstance(b, StrC):
            return a.s == b.s
        if isinstance(a, FuncV) and isinstance(b, FuncV):
            return a.node is b.node and a.fid == b.fid
        return False

    def note_type(self, types, key, st, v, st0=None, v0=None):
        """join the type of v into types[key]; True if it changed"""
        if isinstance(v, MaybeV):
            v = v.v
        if not isinstance(v, (Sc, Ref, TupV, StrC, LitV)):
            if v0 is not None and self.same_value(v, v0):
                return False
            new = "unsupported value %s" % type(v).__name__
        else:
            new = self.typeof(st, v)
        cur = types.get(key)
        if cur is None:
            if v0 is not None and isinstance(v0, (Sc, Ref, TupV, StrC, LitV)) and not isinstance(new, str):
                t0 = self.typeof(st0, v0)
                if t0.kind != "Untyped":
                    new = t0 if new.kind == "Untyped" else join(new, t0)
            types[key] = new
            return True
        if isinstance(cur, str) or isinstance(new, str):
            return False
        j = cur if new.kind == "Untyped" else new if cur.kind == "Untyped" else join(cur, new)
        if j != cur:
            types[key] = j
            return True
        return False

    def diff(self, head, states, M, types, fid, assigned):
        changed = False
        for s in states:
            for loc, (ty, t) in head.heap.items():
                x = s.heap.get(loc)
                if x is None:
                    raise Unsupported("a container created before the loop is moved inside it")
                if x[0] != ty or (x[1] is not t and not (t is not None and x[1] is not None and x[1].eq(t))):
                    if loc not in M["locs"]:
                        M["locs"][loc] = True
                        changed = True
                    if x[0] != types.get(("loc", loc)):
                        if x[0].kind != "Untyped":
                            types[("loc", loc)] = x[0]
                            changed = True
            for oid, (c, at, hd) in head.objs.items():
                for a, v in at.items():
                    w = s.objs[oid][1].get(a)
                    if w is None or not self.same_value(v, w):
                        if w is None:
                            raise Unsupported("attribute deleted in a loop")
                        if (oid, a) not in M["attrs"]:
                            M["attrs"][(oid, a)] = True
                            changed = True
                        changed |= self.note_type(types, ("attr", oid, a), s, w, head, v)
            for fr, vars_ in head.frames.items():
                for n, v in vars_.items():
                    if n.startswith("$"):
                        continue
                    w = s.frames[fr].get(n)
                    if w is None:
                        continue
                    if not self.same_value(v, w):
                        if (fr, n) not in M["vars"]:
                            M["vars"][(fr, n)] = True
                            changed = True
                        changed |= self.note_type(types, ("var", fr, n), s, w, head, v)
            for g, (ty, t) in head.ghost.items():
                if s.ghost[g][1] is not t and not s.ghost[g][1].eq(t):
                    if g not in M["ghost"]:
                        M["ghost"].add(g)
                        changed = True
            # aliasing between rebound variables
            seen = {}
            for (fr, n) in M["vars"]:
                w = s.frames.get(fr, {}).get(n)
                if isinstance(w, Ref) and n in head.frames.get(fr, {}):
                    l = self.resolve(s, w)[0] if w.loc in s.heap or w.loc in s.fwd else w.loc
                    key = (l, tuple(p[1].get_id() for p in w.path))
                    if key in seen and seen[key] != (fr, n):
                        raise Unsupported("loop variables alias the same container")
                    seen[key] = (fr, n)
                    if l in head.heap and w.loc in head.heap and not self.same_value(head.frames[fr][n], w):
                        raise Unsupported("loop variable '%s' rebinds to a container that outlives the iteration" % n)
        return changed

    # -------- specification-side variable recovery
    def lookup_local(self, st, fid, name):
        v = super().lookup_local(st, fid, name)
        return v


def names_of(node):
    return [x.arg for x in node.args.posonlyargs + node.args.args]


class CallContract:
    """behavioural contract of a callee, used at call sites"""
    key = None
    label = "contract"
    raises = ()

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def when(self, eng, st, a):
        return True

    def pre(self, c):
        return []

    def modifies(self, c):
        return []

    def result(self, c):
        return NONE_

    def post(self, c):
        return []

    def exceptional(self, c):
        """[(exception class, [(name, term)])]"""
        return []

    def apply(self, eng, st, env):
        args = {k: v for k, v in env.items() if not k.startswith("$")}
        c = Ctx(eng, st, old=None, args=args)
        short = (self.key or "").split(":")[-1]
        for nm, t in self.pre(c):
            eng.oblige(st, "pre:%s:%s" % (short, nm), t)
            eng.assume(st, t, "g" if st.binders else "a")
        old = st.copy()
        if st.binders and self.modifies(c):
            raise Unsupported("call with side effects inside a comprehension")
        out = []
        for exc, facts in self.exceptional(Ctx(eng, st, old=old, args=args)):
            s = st.copy()
            self.havoc_all(eng, s, args)
            for nm, t in facts(Ctx(eng, s, old=old, args=args)):
                eng.assume(s, t, "g")
            if eng.feasible(s):
                out.append((s, RaisedV(Exc(exc))))
        self.havoc_all(eng, st, args)
        c2 = Ctx(eng, st, old=old, args=args)
        r = self.result(c2)
        c2.res = r
        for nm, t in self.post(c2):
            eng.assume(st, t)
        out.append((st, r))
        return out

    def havoc_all(self, eng, st, args):
        for m in self.modifies(Ctx(eng, st, args=args)):
            if isinstance(m, Ref):
                ty = eng.rtype(st, m)
                if ty.kind == "Untyped":
                    raise Unsupported("untyped container passed to a contracted callee")
                eng.write(st, m, eng.havoc(ty, "mod", st))
            elif isinstance(m, tuple):
                o, a = m
                v = st.objs[o.oid][1][a]
                if isinstance(v, Ref):
                    ty = eng.rtype(st, v)
                    eng.write(st, v, eng.havoc(ty, "mod_" + a, st))
                else:
                    ty = eng.typeof(st, v)
                    st.objs[o.oid][1][a] = Sc(ty, eng.havoc(ty, "mod_" + a, st))
            else:
                ty = st.ghost[m][0]
                st.ghost[m] = (ty, eng.havoc(ty, "mod_" + m, st))
