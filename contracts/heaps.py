"""Contracts assumed on the standard library's heapq, and the abstract heap they give."""
from contracts.graphs import *
def heapq_contracts(T, LT):
    """T = TUP(key, INT, element), LT the order of the keys (a strict weak order), ISHEAP the (opaque) heap shape of a list of T"""
    L = SEQ(T)
    ISHEAP = z3.Function("isheap_%s" % abs(hash(str(T))), sort(L), z3.BoolSort())
    def less(a, b): return Or(LT(fld(T, a, 0), fld(T, b, 0)), And(Not(LT(fld(T, b, 0), fld(T, a, 0))), fld(T, a, 1) < fld(T, b, 1)))
    x = Const("x!hq", sort(T)); a_ = Const("a!hq", sort(L)); i_, m_ = Ints("i!hq m!hq")
    def heapify(eng, st, args, kw):
        ref = args[0]; t = eng.read(st, ref)
        new = eng.havoc(L, "heapified", st)
        eng.assume(st, And(lo(L, new) == lo(L, t), hi(L, new) == hi(L, t), cnt(L, new) == cnt(L, t), ISHEAP(new)))
        eng.assume(st, fa([i_, m_], Implies(And(lo(L, new) <= i_, i_ < m_, m_ < hi(L, new), Select(arr(L, new), i_) == Select(arr(L, new), m_)), Select(cnt(L, new), Select(arr(L, new), i_)) >= 2), z3.MultiPattern(Select(arr(L, new), i_), Select(arr(L, new), m_))))
        # when only the item at position m of a heap was lowered, the items after m stay in place
        A_ = arr(L, t)
        if z3.is_app_of(A_, z3.Z3_OP_STORE):
            A0_, m, y = A_.children(); C_ = eng.heap_before(st) if hasattr(eng, "heap_before") else None
            if C_ is not None:
                eng.assume(st, Implies(And(ISHEAP(C_), arr(L, C_) == A0_, lo(L, C_) == lo(L, t), hi(L, C_) == hi(L, t), Not(less(Select(A0_, m), y))),
                    fa([i_], Implies(And(m < i_, i_ < hi(L, t)), Select(arr(L, new), i_) == Select(A_, i_)), Select(arr(L, new), i_), Select(A0_, i_))))
        eng.write(st, ref, new)
        return [(st, NONE_)]
    def heappush(eng, st, args, kw):
        ref, v_ = args; t = eng.read(st, ref); vt = eng.named(st, eng.term(st, v_, T))
        eng.require(st, "heappush on a heap", ISHEAP(t))
        new = eng.havoc(L, "pushed", st)
        eng.assume(st, And(lo(L, new) == lo(L, t), hi(L, new) == hi(L, t) + 1, cnt(L, new) == z3.Store(cnt(L, t), vt, Select(cnt(L, t), vt) + 1), ISHEAP(new)))
        eng.write(st, ref, new)
        return [(st, NONE_)]
    def heappop(eng, st, args, kw):
        ref = args[0]; t = eng.read(st, ref)
        eng.require(st, "heappop on a non-empty heap", And(seqlen(L, t) > 0, ISHEAP(t)))
        new = eng.havoc(L, "popped", st); r_ = eng.havoc(T, "least", st)
        eng.assume(st, And(lo(L, new) == lo(L, t), hi(L, new) == hi(L, t) - 1, Select(cnt(L, t), r_) >= 1, cnt(L, new) == z3.Store(cnt(L, t), r_, Select(cnt(L, t), r_) - 1), ISHEAP(new)))
        eng.assume(st, fa([x], Implies(Select(cnt(L, t), x) >= 1, Not(less(x, r_))), Select(cnt(L, t), x)))
        eng.write(st, ref, new)
        return [(st, Sc(T, r_))]
    def nsmallest(eng, st, args, kw):
        n_, ref = args; t = eng.read(st, ref)
        eng.require(st, "nsmallest of all items", eng.term(st, n_) == seqlen(L, t))
        new = eng.havoc(L, "smallest", st); j_ = Int("j!hq")
        eng.assume(st, And(lo(L, new) == 0, hi(L, new) == seqlen(L, t), cnt(L, new) == cnt(L, t)))
        eng.assume(st, fa([i_, j_], Implies(And(0 <= i_, i_ < j_, j_ < hi(L, new)), Not(less(Select(arr(L, new), j_), Select(arr(L, new), i_)))), z3.MultiPattern(Select(arr(L, new), i_), Select(arr(L, new), j_))))
        return [(st, eng.alloc(st, L, new, "smallest"))]
    names = {}
    for f in (heapify, heappush, heappop, nsmallest):
        names["_heapq." + f.__name__] = f; names["heapq." + f.__name__] = f
    return names, ISHEAP, less
def weak_order(LT, K):
    x_, y_, z_ = Consts("x!wo y!wo z!wo", sort(K))
    return [fa([x_, y_], Implies(LT(x_, y_), Not(LT(y_, x_))), LT(x_, y_)),
            fa([x_, y_, z_], Implies(And(LT(x_, y_), LT(y_, z_)), LT(x_, z_)), z3.MultiPattern(LT(x_, y_), LT(y_, z_))),
            fa([x_, y_, z_], Implies(And(Not(LT(x_, y_)), Not(LT(y_, z_))), Not(LT(x_, z_))), z3.MultiPattern(LT(x_, y_), LT(y_, z_)))]
