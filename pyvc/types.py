"""Static types of the verified fragment and their z3 sorts."""
import z3


class Unsupported(Exception):
    """The current source uses a construct outside the verified fragment."""


class Ty:
    def __init__(self, kind, *args):
        self.kind, self.args = kind, args
        self.key = (kind,) + tuple(a.key if isinstance(a, Ty) else a for a in args)

    def __eq__(self, o):
        return isinstance(o, Ty) and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return self.name()

    def name(self):
        if not self.args:
            return self.kind
        return self.kind + "<" + ",".join(a.name() if isinstance(a, Ty) else str(a) for a in self.args) + ">"

    @property
    def mutable(self):
        return self.kind in ("Set", "Map", "DMap", "Seq")


INT, BOOL, REAL, NONE = Ty("Int"), Ty("Bool"), Ty("Real"), Ty("None")


def SYM(n):
    return Ty("Sym", n)


def OPT(t):
    return t if t.kind == "Opt" else Ty("Opt", t)


def TUP(*ts):
    return Ty("Tup", *ts)


def REC(cls, names, *ts):
    return Ty("Rec", cls, ",".join(names), *ts)


def rec_fields(t):
    return t.args[1].split(","), t.args[2:]


def SET(t):
    return Ty("Set", t)


def FSET(t):
    return Ty("FSet", t)


def MAP(k, v):
    return Ty("Map", k, v)


def DMAP(k, v):
    """defaultdict / total map: reads never fail."""
    return Ty("DMap", k, v)


def SEQ(t):
    return Ty("Seq", t)


def WORD(t):
    """immutable sequence (str, tuple of unknown length)"""
    return Ty("Word", t)


_sorts = {}
_dts = {}


def _mk(name, *ctors):
    d = z3.Datatype(name)
    for c, fs in ctors:
        d.declare(c, *fs)
    return d.create()


def sort(t):
    s = _sorts.get(t)
    if s is not None:
        return s
    k = t.kind
    n = t.name()
    if k == "Int":
        s = z3.IntSort()
    elif k == "Bool":
        s = z3.BoolSort()
    elif k == "Real":
        s = z3.RealSort()
    elif k == "None":
        s = _mk("NoneT", ("none_v", []))
    elif k == "Sym":
        s = z3.DeclareSort(t.args[0])
    elif k == "Opt":
        s = _mk(n, ("none_" + n, []), ("some_" + n, [("val_" + n, sort(t.args[0]))]))
    elif k == "Tup":
        s = _mk(n, ("mk_" + n, [("f%d_%s" % (i, n), sort(a)) for i, a in enumerate(t.args)]))
    elif k == "Rec":
        names, ts = rec_fields(t)
        s = _mk(n, ("mk_" + n, [("%s_%s" % (f, n), sort(a)) for f, a in zip(names, ts)]))
    elif k in ("Set", "FSet"):
        s = z3.ArraySort(sort(t.args[0]), z3.BoolSort())
    elif k in ("Map", "DMap"):
        K, V = sort(t.args[0]), sort(t.args[1])
        s = _mk(n, ("mk_" + n, [("dom_" + n, z3.ArraySort(K, z3.BoolSort())), ("val_" + n, z3.ArraySort(K, V))]))
    elif k in ("Seq", "Word"):
        n = "Seq<%s>" % t.args[0].name()
        if n in _dts:
            s = _dts[n]
        else:
            T = sort(t.args[0])
            s = _dts[n] = _mk(n, ("mk_" + n, [("lo_" + n, z3.IntSort()), ("hi_" + n, z3.IntSort()),
                                              ("arr_" + n, z3.ArraySort(z3.IntSort(), T)),
                                              ("cnt_" + n, z3.ArraySort(T, z3.IntSort()))]))
    else:
        raise Unsupported("no sort for type %s" % t)
    _sorts[t] = s
    return s


# --- constructors / accessors on raw terms -------------------------------
def none(t):
    return sort(t).constructor(0)()


def some(t, x):
    return sort(t).constructor(1)(x)


def is_none(t, x):
    return sort(t).recognizer(0)(x)


def is_some(t, x):
    return sort(t).recognizer(1)(x)


def optval(t, x):
    return z3.simplify(sort(t).accessor(1, 0)(x)) if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR else sort(t).accessor(1, 0)(x)


def mk(t, *xs):
    return sort(t).constructor(0)(*xs)


def fld(t, x, i):
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR and x.num_args() > i:
        return x.arg(i)
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
        a, b = fld(t, x.arg(1), i), fld(t, x.arg(2), i)
        if a.eq(b):
            return a
    return sort(t).accessor(0, i)(x)


def dom(t, x):
    return fld(t, x, 0)


def val(t, x):
    return fld(t, x, 1)


def lo(t, x):
    return fld(t, x, 0)


def hi(t, x):
    return fld(t, x, 1)


def arr(t, x):
    return fld(t, x, 2)


def cnt(t, x):
    return fld(t, x, 3)


def seqlen(t, x):
    return hi(t, x) - lo(t, x)


def seqat(t, x, i):
    l = lo(t, x)
    return z3.Select(arr(t, x), i if z3.is_int_value(l) and l.as_long() == 0 else l + i)


def empty(t):
    """the empty container of type t"""
    k = t.kind
    if k in ("Set", "FSet"):
        return z3.K(sort(t.args[0]), z3.BoolVal(False))
    if k in ("Map",):
        K, V = sort(t.args[0]), sort(t.args[1])
        return mk(t, z3.K(K, z3.BoolVal(False)), z3.K(K, default(t.args[1])))
    if k in ("Seq", "Word"):
        T = sort(t.args[0])
        return mk(t, z3.IntVal(0), z3.IntVal(0), z3.K(z3.IntSort(), default(t.args[0])), z3.K(T, z3.IntVal(0)))
    raise Unsupported("empty %s" % t)


_defs = {}


def default(t):
    """an arbitrary, fixed value of type t (never observable)"""
    if t not in _defs:
        if t.kind == "Int":
            d = z3.IntVal(0)
        elif t.kind == "Bool":
            d = z3.BoolVal(False)
        elif t.kind == "Opt":
            d = none(t)
        elif t.kind in ("Set", "FSet", "Map", "Seq", "Word"):
            d = empty(t)
        elif t.kind == "DMap":
            K = sort(t.args[0])
            d = mk(t, z3.K(K, z3.BoolVal(False)), z3.K(K, default(t.args[1])))
        elif t.kind == "Tup":
            d = mk(t, *[default(a) for a in t.args])
        else:
            d = z3.Const("dflt!" + t.name(), sort(t))
        _defs[t] = d
    return _defs[t]


def join(a, b):
    """least common type"""
    if a == b:
        return a
    if a.kind == "None":
        return OPT(b)
    if b.kind == "None":
        return OPT(a)
    if a.kind == "Opt" or b.kind == "Opt":
        x = a.args[0] if a.kind == "Opt" else a
        y = b.args[0] if b.kind == "Opt" else b
        return OPT(join(x, y))
    if {a.kind, b.kind} <= {"Int", "Real", "Bool"}:
        if "Real" in (a.kind, b.kind):
            return REAL
        return INT
    if a.kind == b.kind == "Tup" and len(a.args) == len(b.args):
        return TUP(*[join(x, y) for x, y in zip(a.args, b.args)])
    if a.kind == b.kind == "Rec" and a.args[0] == b.args[0]:
        return REC(a.args[0], rec_fields(a)[0], *[join(x, y) for x, y in zip(a.args[2:], b.args[2:])])
    if {a.kind, b.kind} == {"Set", "FSet"} and a.args == b.args:
        return FSET(a.args[0])
    if {a.kind, b.kind} == {"Seq", "Word"} and a.args == b.args:
        return WORD(a.args[0])
    raise Unsupported("cannot join types %s and %s" % (a, b))


def coerce(x, a, b):
    """term x of type a as a term of type b (b must be above a)"""
    if a == b or sort(a) == sort(b):
        return x
    if b.kind == "Opt":
        if a.kind == "None":
            return none(b)
        if a.kind == "Opt":
            return z3.If(is_none(a, x), none(b), some(b, coerce(optval(a, x), a.args[0], b.args[0])))
        return some(b, coerce(x, a, b.args[0]))
    if b.kind == "Real":
        if a.kind == "Int":
            return z3.ToReal(x)
        if a.kind == "Bool":
            return z3.If(x, z3.RealVal(1), z3.RealVal(0))
    if b.kind == "Int" and a.kind == "Bool":
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    if a.kind == b.kind == "Tup":
        return mk(b, *[coerce(fld(a, x, i), p, q) for i, (p, q) in enumerate(zip(a.args, b.args))])
    if a.kind == b.kind == "Rec" and a.args[0] == b.args[0]:
        return mk(b, *[coerce(fld(a, x, i), p, q) for i, (p, q) in enumerate(zip(a.args[2:], b.args[2:]))])
    raise Unsupported("cannot coerce %s to %s" % (a, b))
