from contracts.search import *
NOTE = "Hopcroft's partition is proved stable, coarsest and compatible with final states; the automaton built from it reads the same words"
TRUSTED = TRUSTED_BASE
ASSUMPTIONS = ASSUME_BASE + ["the automaton to minimize answers its queries consistently and is not modified meanwhile", "termination of the refinement is not proved"]
HM = "pybgl.hopcroft_minimize:"; HA = HM + "hopcroft_agglomerate_states"
from contracts import C03 as c3
from contracts.automata import SY, OI, HAS, TGT, QX, FIN, DADJ, isfin, INIT, STEP, ainv, acon_inv, ft, a as sy_
from contracts.construct import local
ET = SYM("Transition")
BLOCK = FSET(INT); PART = SET(BLOCK); bs = sort(BLOCK)
VTX = Const("states", sort(SET(INT))); ALPH = Const("alphabet", sort(SET(SY)))
I_, B_ = z3.IntSort(), z3.BoolSort()
FINF = z3.Function("final", I_, B_); HASF = z3.Function("reads", I_, sort(SY), B_); DEL = z3.Function("next_state", I_, sort(SY), I_)
TS, TT, TLAB = z3.Function("transition_source", sort(ET), I_), z3.Function("transition_target", sort(ET), I_), z3.Function("transition_label", sort(ET), sort(SY))
TMEM = z3.Function("is_transition", sort(ET), B_); TOF = z3.Function("transition_of", I_, sort(SY), sort(ET))
INS, OUTT = z3.Function("incoming", I_, sort(SET(ET))), z3.Function("outgoing", I_, sort(SET(ET)))
EQV = z3.Function("equivalent", I_, I_, B_)
Z, Y, C_, Z2 = Consts("Z Y C Z2", bs)
s1 = Const("s1", sort(SY)); t1 = Const("t1", sort(ET))
x, y = Ints("x y")
def inb(S_, q_): return Select(S_, q_)
def IN(p_, s_, S_): return And(HASF(p_, s_), inb(S_, DEL(p_, s_)))
AX = [fa([t1], Implies(TMEM(t1), And(inb(VTX, TS(t1)), HASF(TS(t1), TLAB(t1)), DEL(TS(t1), TLAB(t1)) == TT(t1), TOF(TS(t1), TLAB(t1)) == t1)), TMEM(t1)),
      fa([q, s1], Implies(HASF(q, s1), And(TMEM(TOF(q, s1)), TS(TOF(q, s1)) == q, TLAB(TOF(q, s1)) == s1, TT(TOF(q, s1)) == DEL(q, s1), inb(VTX, q), inb(VTX, DEL(q, s1)), Select(ALPH, s1))), HASF(q, s1)),
      fa([q, t1], Select(INS(q), t1) == And(TMEM(t1), TT(t1) == q), Select(INS(q), t1)),
      fa([q, t1], Implies(And(TMEM(t1), TT(t1) == q), Select(INS(q), t1)), z3.MultiPattern(INS(q), TMEM(t1))),
      fa([q, t1], Select(OUTT(q), t1) == And(TMEM(t1), TS(t1) == q), Select(OUTT(q), t1)),
      fa([q, t1], Implies(And(TMEM(t1), TS(t1) == q), Select(OUTT(q), t1)), z3.MultiPattern(OUTT(q), TMEM(t1))),
      # equivalent states: as final, reading the same symbols to equivalent states
      fa([p, q], Implies(EQV(p, q), FINF(p) == FINF(q)), EQV(p, q)),
      fa([p, q, s1], Implies(And(EQV(p, q), HASF(p, s1)), And(HASF(q, s1), EQV(DEL(p, s1), DEL(q, s1)))), z3.MultiPattern(EQV(p, q), HASF(p, s1))),
      fa([p, q], EQV(p, q) == EQV(q, p), EQV(p, q))]
def dfa_obj(S, more={}):
    for t in AX: S.assume(t)
    e = S.eng
    val_ = lambda ty, f: lambda eng, st, slf, args, kw: [(st, Sc(ty, f(eng.term(st, args[0]))))]
    def coll(ty, f):
        def h_(eng, st, slf, args, kw):
            t = f(*[eng.constant(st, eng.term(st, a_)) for a_ in args])
            if st.binders or z3.is_const(t): return [(st, eng.alloc(st, ty, t, "listing"))]
            r_ = Const(eng.uid("listed"), sort(ty)); eng.assume(st, r_ == t)
            return [(st, eng.alloc(st, ty, r_, "listing"))]
        return h_
    h = dict(vertices=coll(SET(INT), lambda: VTX), alphabet=coll(SET(SY), lambda: ALPH), is_final=val_(BOOL, FINF), in_edges=coll(SET(ET), INS), out_edges=coll(SET(ET), OUTT), source=val_(INT, TS), target=val_(INT, TT), label=val_(SY, TLAB))
    h.update(more)
    return e.new_obj(S.st, cls("incidence_automaton:IncidenceAutomaton"), {}, h)
def reduce_(eng, st, args, kw):
    "functools.reduce of a union over a non-empty collection of sets"
    f, gen = args
    A0_, B0_ = Consts("A!red B!red", bs)
    for s2, r_ in eng.call(st.copy(), f, [Sc(BLOCK, A0_), Sc(BLOCK, B0_)], {}):
        t = eng.term(s2, r_); m_ = Int("m!red")
        eng.oblige(s2, "event:the sets are united", fa([m_], Select(t, m_) == Or(Select(A0_, m_), Select(B0_, m_))))
    out = []
    for s2, l in eng.builtin(st, "list", [gen], {}):
        ty = eng.typeof(s2, l); t = eng.named(s2, eng.term(s2, l))
        eng.oblige(s2, "event:there is a set to unite", seqlen(ty, t) > 0)
        R = eng.constant(s2, eng.havoc(BLOCK, "united", s2)); at = z3.Function(eng.uid("united_at"), I_, I_)
        eng.assume(s2, fa([q], Implies(Select(R, q), And(0 <= at(q), at(q) < seqlen(ty, t), Select(seqat(ty, t, at(q)), q))), Select(R, q)))
        eng.assume(s2, fa([i, q], Implies(And(0 <= i, i < seqlen(ty, t), Select(seqat(ty, t, i), q)), Select(R, q)), Select(seqat(ty, t, i), q)))
        out.append((s2, Sc(BLOCK, R)))
    return out

def setup(S):
    S.eng.externals["_functools.reduce"] = reduce_
    S.assume(VTX != EMPTYSET)
    return [dfa_obj(S)]
def part(c, name):
    t = c.v(name)
    return c.t(t) if c.ty(t).kind != "Untyped" else empty(PART)
def separated(c, W, cur, pend):
    "SEP(p, q, s): a splitter in W (or cur, for the pending symbols) holds one of the states p and q reach on s, not both"
    e = c.eng
    SEP, SK = z3.Function(e.uid("separated"), I_, I_, sort(SY), B_), z3.Function(e.uid("separator"), I_, I_, sort(SY), bs)
    sk = SK(p, q, s1)
    cand = Or(Select(W, sk), And(sk == cur, pend(s1))) if cur is not None else Select(W, sk)
    ax = [fa([p, q, s1], Implies(SEP(p, q, s1), And(cand, IN(p, s1, sk) != IN(q, s1, sk))), SEP(p, q, s1)),
          fa([p, q, s1, C_], Implies(And(Select(W, C_), IN(p, s1, C_) != IN(q, s1, C_)), SEP(p, q, s1)), z3.MultiPattern(SEP(p, q, s1), Select(W, C_)))]
    if cur is not None: ax.append(fa([p, q, s1], Implies(And(pend(s1), IN(p, s1, cur) != IN(q, s1, cur)), SEP(p, q, s1)), SEP(p, q, s1)))
    for t in ax: e.assume(c.st, t)
    return SEP, SK, ax
def shape(P, W):
    return [("blocks are made of states", fa([Z, q], Implies(And(Select(P, Z), inb(Z, q)), inb(VTX, q)), z3.MultiPattern(Select(P, Z), inb(Z, q)))),
        ("blocks are not empty", fa([Z], Implies(Select(P, Z), Z != EMPTYSET), Select(P, Z))),
        ("blocks are disjoint", fa([Z, Y, q], Implies(And(Select(P, Z), Select(P, Y), inb(Z, q), inb(Y, q)), Z == Y), z3.MultiPattern(Select(P, Z), Select(P, Y), inb(Z, q), inb(Y, q)))),
        ("every state is in a block", fa([q], Implies(inb(VTX, q), Not(fa([Z], Implies(Select(P, Z), Not(inb(Z, q))), Select(P, Z)))), inb(VTX, q))),
        ("a block is final or not", fa([Z, p, q], Implies(And(Select(P, Z), inb(Z, p), inb(Z, q)), FINF(p) == FINF(q)), z3.MultiPattern(Select(P, Z), inb(Z, p), inb(Z, q)))),
        ("a block holds the states equivalent to its own", fa([Z, p, q], Implies(And(Select(P, Z), inb(Z, p), EQV(p, q), inb(VTX, q)), inb(Z, q)), z3.MultiPattern(Select(P, Z), inb(Z, p), EQV(p, q)))),
        ("a splitter holds the states equivalent to its own", fa([Z, p, q], Implies(And(Select(W, Z), inb(Z, p), EQV(p, q), inb(VTX, q)), inb(Z, q)), z3.MultiPattern(Select(W, Z), inb(Z, p), EQV(p, q)))),
        ("splitters are made of states", fa([Z, q], Implies(And(Select(W, Z), inb(Z, q)), inb(VTX, q)), z3.MultiPattern(Select(W, Z), inb(Z, q)))),
        ("splitters are not empty", fa([Z], Implies(Select(W, Z), Z != EMPTYSET), Select(W, Z)))]
def waits(P, SEP):
    return ("what separates two states of a block still waits", fa([Y, Z, p, q, s1], Implies(And(Select(P, Y), Select(P, Z), inb(Y, p), inb(Y, q), IN(p, s1, Z), Not(IN(q, s1, Z))), SEP(p, q, s1)),
            z3.MultiPattern(Select(P, Y), Select(P, Z), inb(Y, p), inb(Y, q), HASF(p, s1), HASF(q, s1)), z3.MultiPattern(Select(P, Y), Select(P, Z), inb(Y, p), inb(Y, q), SEP(p, q, s1))))
def inv(c, P, W, cur=None, pend=lambda s_: BoolVal(False)):
    "P a partition of the states, coarse enough; what still splits it is in W (or is cur, for the pending symbols)"
    n_ = c.st.notes.get("sep ready")
    SEP = n_[1] if n_ and n_[0] == str(c.k) else separated(c, W, cur, pend)
    c.st.notes = dict(c.st.notes); c.st.notes["sep"] = SEP; c.st.notes.pop("sep ready", None)
    return shape(P, W) + [waits(P, SEP[0])]
def l_while(c): return inv(c, part(c, "aggregated_states"), part(c, "waiting_states"))
def cur_(c):
    t = c.t("current_states")
    return t
def cur_ok(c, C):
    return [("the splitter is made of states", fa([q], Implies(inb(C, q), inb(VTX, q)), inb(C, q))), ("the splitter is not empty", C != EMPTYSET), ("the splitter holds the states equivalent to its own", fa([p, q], Implies(And(inb(C, p), EQV(p, q), inb(VTX, q)), inb(C, q)), z3.MultiPattern(inb(C, p), EQV(p, q))))]
def l_sym(c):
    k_, pos = c.k, c.it.pos
    c.st.notes["pending"] = (pos, k_)
    C = cur_(c)
    return inv(c, part(c, "aggregated_states"), part(c, "waiting_states"), C, lambda s_: And(Select(ALPH, s_), pos(s_) >= k_)) + cur_ok(c, C)
def pure(S_, X): return Or(fa([q], Implies(inb(S_, q), inb(X, q)), inb(S_, q)), fa([q], Implies(inb(S_, q), Not(inb(X, q))), inb(S_, q)))
def l_block(c):
    pos, k_ = c.st.notes["pending"]; C = cur_(c); X = c.t("x"); P0 = part(c, "aggregated_states"); P = part(c, "new_aggregated_states"); L = c.it.key
    return inv(c, P, part(c, "waiting_states"), C, lambda s_: And(Select(ALPH, s_), pos(s_) >= k_)) + cur_ok(c, C) + [x_def(c, C, X),
        ("blocks not met yet are still there", fa([Z], Implies(And(Select(P0, Z), c.it.pos(Z) >= c.k), Select(P, Z)), Select(P0, Z))),
        ("the others are not split by x", fa([Z, p, q], Implies(And(Select(P, Z), Not(And(Select(P0, Z), c.it.pos(Z) >= c.k)), inb(Z, p), inb(Z, q)), inb(X, p) == inb(X, q)), z3.MultiPattern(Select(P, Z), inb(Z, p), inb(Z, q))))]
def x_def(c, C, X): return ("x is made of the states going to the splitter", fa([q], inb(X, q) == IN(q, c.t("a"), C), inb(X, q), HASF(q, c.t("a"))))
def block_step(c):
    "the effect of one block on the partition and on the splitters"
    e = c.eng; C = cur_(c); X = c.named(c.t("x")); yb = c.t("y"); P, W = part(c, "new_aggregated_states"), part(c, "waiting_states")
    P0, W0 = [c.named(c.t(n_, None, c.head)) if c.ty(c.v(n_)).kind != "Untyped" else empty(PART) for n_ in ("new_aggregated_states", "waiting_states")]
    ops = c.st.notes.get("setops", {})
    def op(n_, l_, r_, f):
        for k_ in ((n_, l_.get_id(), r_.get_id()),) + (((n_, r_.get_id(), l_.get_id()),) if n_ == "BitAnd" else ()):
            if k_ in ops: return ops[k_][0]
        t = Const(e.uid("part"), bs)
        e.assume(c.st, fa([q], inb(t, q) == f(inb(l_, q), inb(r_, q)), inb(t, q), inb(l_, q)))
        return t
    A_, B2 = op("BitAnd", yb, X, lambda l_, r_: And(l_, r_)), op("Sub", yb, X, lambda l_, r_: And(l_, Not(r_)))
    split = Const(e.uid("split"), B_)
    dsplit = split == And(A_ != EMPTYSET, B2 != EMPTYSET)
    e.assume(c.st, dsplit)
    dA = fa([q], inb(A_, q) == And(inb(yb, q), inb(X, q)), inb(A_, q), inb(yb, q)); dB = fa([q], inb(B2, q) == And(inb(yb, q), Not(inb(X, q))), inb(B2, q), inb(yb, q))
    lemma(c, "the part of y in x", dA); lemma(c, "the part of y out of x", dB)
    BL = fa([Z], Select(P, Z) == If(split, Or(And(Select(P0, Z), Z != yb), Z == A_, Z == B2), Select(P0, Z)), Select(P, Z), Select(P0, Z))
    WL = fa([Z], And(Implies(Select(W, Z), Or(Select(W0, Z), And(split, Or(Z == A_, Z == B2)))), Implies(And(Select(W0, Z), Not(And(split, Z == yb))), Select(W, Z))), Select(W, Z), Select(W0, Z))
    WA = Implies(And(split, Select(W0, yb)), And(Select(W, A_), Select(W, B2))); WO = Implies(split, Or(Select(W, A_), Select(W, B2)))
    lemma(c, "the blocks once y is considered", BL); lemma(c, "the splitters once y is considered", WL)
    lemma(c, "a split splitter is replaced by both parts", WA); lemma(c, "a split block leaves a splitter", WO)
    yin = Select(P0, yb); lemma(c, "y is a block", yin)
    PA = Implies(split, And(Select(P, A_), Select(P, B2))); lemma(c, "both parts are blocks", PA)
    satx = fa([p, q], Implies(And(inb(X, p), EQV(p, q), inb(VTX, q)), inb(X, q)), z3.MultiPattern(inb(X, p), EQV(p, q)))
    xd = x_def(c, C, X)[1]; symm = AX[-1]
    derive(c, "x holds the states equivalent to its own", satx, [xd] + AX + [t_ for _, t_ in cur_ok(c, C)])
    known = dict(shape(P0, W0)); base = [dA, dB, BL, WL, dsplit, yin, PA, symm]
    for n_, t_ in shape(P, W): derive(c, n_, t_, base + [satx] + [known[x_] for x_ in {n_, "blocks are made of states", "a block holds the states equivalent to its own"}])
    pos, k_ = c.st.notes["pending"]; P1 = part(c, "aggregated_states")
    nsp = lambda P_, kk: fa([Z, p, q], Implies(And(Select(P_, Z), Not(And(Select(P1, Z), c.it.pos(Z) >= kk)), inb(Z, p), inb(Z, q)), inb(X, p) == inb(X, q)), z3.MultiPattern(Select(P_, Z), inb(Z, p), inb(Z, q)))
    at = [fa([Z], Implies(And(Select(P1, Z), c.it.pos(Z) == c.k), Z == yb), Select(P1, Z))]
    lemma(c, "y is the block considered", at[0])
    derive(c, "the others are not split by x", nsp(P, c.k + 1), base + at + [nsp(P0, c.k), nempty(A_), nempty(B2)])
    S0, SK0, ax0 = c.st.notes["sep"]; pend = lambda s_: And(Select(ALPH, s_), pos(s_) >= k_)
    S2, SK2, ax2 = separated(c, W, C, pend)
    differ = lambda S_: IN(p, s1, S_) != IN(q, s1, S_)
    inside = fa([p, s1], Implies(HASF(p, s1), And(Implies(inb(A_, DEL(p, s1)), inb(yb, DEL(p, s1))), Implies(inb(B2, DEL(p, s1)), inb(yb, DEL(p, s1))))), HASF(p, s1))
    both = fa([p, q, s1], Implies(And(split, differ(A_), differ(B2)), S2(p, q, s1)), S2(p, q, s1))
    derive(c, "separated by both parts", both, ax2 + [WO])
    kept = fa([p, q, s1], Implies(S0(p, q, s1), S2(p, q, s1)), S0(p, q, s1))
    derive(c, "separated before, separated now", kept, ax0 + ax2 + [WL, WA, dA, dB])
    derive(c, "separated by a part, separated by y or by the other part", fa([p, q, s1], Implies(And(Not(differ(yb))), differ(A_) == differ(B2)), S2(p, q, s1)), [dA, dB])
    byp = fa([Z, p, q, s1], Implies(And(split, Or(Z == A_, Z == B2), differ(Z), Implies(differ(yb), S0(p, q, s1))), S2(p, q, s1)), z3.MultiPattern(S2(p, q, s1), Select(P, Z)))
    derive(c, "separated by a part, separated now", byp, [dA, dB, both, kept])
    derive(c, "what separates two states of a block still waits", waits(P, S2)[1], base + [waits(P0, S0)[1], kept, byp], "other")
    c.st.notes = dict(c.st.notes); c.st.notes["sep ready"] = (str(c.k + 1), (S2, SK2, ax2))
    return []
def nempty(S_): return Implies(S_ == EMPTYSET, fa([q], Not(inb(S_, q)), inb(S_, q)))
def derive(c, name, goal, hints, tag=""):
    "proved from the hints alone, then available"
    s2 = c.st.copy(); s2.pc = [("a", t) for t in hints]
    c.eng.oblige(s2, "lemma:" + name + tag, goal, "lemma")
    c.eng.assume(c.st, goal)
def agg_post(c):
    P = c.t(c.res)
    I0 = [(n_, t_) for n_, t_ in inv(c, P, empty(PART)) if "splitter" not in n_ and "waits" not in n_]
    return I0 + [("states of a block go to the same blocks", fa([Y, Z, p, q, s1], Implies(And(Select(P, Y), Select(P, Z), inb(Y, p), inb(Y, q), IN(p, s1, Z)), IN(q, s1, Z)), z3.MultiPattern(Select(P, Y), Select(P, Z), inb(Y, p), inb(Y, q), HASF(p, s1))))]
agg = Fn("partition", HA, setup, lambda c: [], agg_post, modifies=lambda c: [], types={"aggregated_states": PART, "waiting_states": PART, "new_aggregated_states": PART},
    loops={(HA, 0): LoopSpec(inv=l_while), (HA, 1): LoopSpec(inv=l_sym), (HA, 2): LoopSpec(inv=l_block, lemma=block_step)})
AGGP = agg.proof(); AGGP.share_setops = True

# ---------------------------------------------------------------- the automaton of the blocks
MIN = HM + "hopcroft_minimize"; QINIT = Int("initial_state")
def agg_result(c):
    r_ = new(c, PART, "blocks"); c.eng.partition_term = c.named(c.eng.term(c.st, r_))
    return r_
agg.result = agg_result
def names_in(t, seen=None):
    out, todo, seen = set(), [t], set()
    while todo:
        x_ = todo.pop()
        if x_.get_id() in seen: continue
        seen.add(x_.get_id())
        if z3.is_quantifier(x_): todo.append(x_.body())
        elif z3.is_app(x_):
            if x_.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x_.decl().name().split("!")[0])
            todo += x_.children()
    return out
def about(c, *names):
    "the facts known here that are only about the given symbols (a choice of hints)"
    return [t for _, t in c.st.pc if names_in(t) <= set(names)]
L_ = SEQ(BLOCK)
def min_setup(S):
    S.assume(VTX != EMPTYSET, Select(VTX, QINIT)); S.eng.word = S.word(SY, "w")
    e = S.eng; bool_ = lambda f: lambda eng, st, slf, args, kw: [(st, B(f(*[eng.term(st, a_) for a_ in args])))]
    return [dfa_obj(S, dict(has_vertex=bool_(lambda: VTX != EMPTYSET), is_initial=bool_(lambda q_: q_ == QINIT)))]
class Blocks:
    "the numbered blocks: BOF(q) the number of the block of q, REP(i) a state of block i"
    def __init__(self, c):
        e = c.eng; x_ = local(c, "aggregated_states"); ty = c.ty(x_); t = c.named(c.t(x_))
        self.n = seqlen(ty, t); at = lambda i_: seqat(ty, t, i_); self.at = at
        kn = c.st.notes.get("blocks")
        if kn is not None:
            self.BOF, self.REP = kn; return
        self.BOF, self.REP = z3.Function(e.uid("block_of"), I_, I_), z3.Function(e.uid("member_of"), I_, I_)
        n_ = self.n; rng = lambda i_: And(0 <= i_, i_ < n_)
        lemma(c, "every state is in a numbered block", fa([q], Implies(inb(VTX, q), Not(fa([i], Implies(rng(i), Not(inb(at(i), q))), at(i)))), inb(VTX, q)))
        lemma(c, "no block is empty", fa([i], Implies(rng(i), at(i) != EMPTYSET), at(i)))
        e.assume(c.st, fa([q], Implies(inb(VTX, q), And(rng(self.BOF(q)), inb(at(self.BOF(q)), q))), inb(VTX, q), self.BOF(q)))
        e.assume(c.st, fa([i], Implies(rng(i), inb(at(i), self.REP(i))), self.REP(i), at(i)))
        lemma(c, "members of blocks are states", fa([i, q], Implies(And(rng(i), inb(at(i), q)), inb(VTX, q)), inb(at(i), q)))
        P = e.partition_term; known = about(c, "enum_n", "enum_pos", "enum_arr", "blocks", "def", "k", P.decl().name().split("!")[0])
        arep = fa([i], Implies(rng(i), Select(P, at(i))), at(i))
        derive(c, "numbered blocks are blocks", arep, known)
        derive(c, "blocks are numbered once", fa([i, j], Implies(And(rng(i), rng(j), i != j), at(i) != at(j)), z3.MultiPattern(at(i), at(j))), known)
        derive(c, "numbered blocks are disjoint", fa([i, j, q], Implies(And(rng(i), rng(j), inb(at(i), q), inb(at(j), q)), at(i) == at(j)), z3.MultiPattern(inb(at(i), q), inb(at(j), q))), [arep, dict(shape(P, P))["blocks are disjoint"]])
        lemma(c, "the block of a state is the only one it is in", fa([i, q], Implies(And(rng(i), inb(at(i), q)), self.BOF(q) == i), inb(at(i), q)))
        lemma(c, "states of a block read the same symbols to the same blocks", fa([p, q, s1], Implies(And(inb(VTX, p), inb(VTX, q), self.BOF(p) == self.BOF(q), HASF(p, s1)), And(HASF(q, s1), self.BOF(DEL(p, s1)) == self.BOF(DEL(q, s1)))), z3.MultiPattern(self.BOF(p), self.BOF(q), HASF(p, s1)), z3.MultiPattern(self.BOF(p), HASF(p, s1), HASF(q, s1))))
        lemma(c, "states of a block are alike final", fa([p, q], Implies(And(inb(VTX, p), inb(VTX, q), self.BOF(p) == self.BOF(q)), FINF(p) == FINF(q)), z3.MultiPattern(self.BOF(p), self.BOF(q))))
        lemma(c, "equivalent states are in the same block", fa([p, q], Implies(And(inb(VTX, p), inb(VTX, q), EQV(p, q)), self.BOF(p) == self.BOF(q)), EQV(p, q)))
        c.st.notes = dict(c.st.notes); c.st.notes["blocks"] = (self.BOF, self.REP)
def l_find(c):
    ty = c.ty("aggregated_states"); t = c.named(c.t("aggregated_states"))
    return [("the initial state is not in the blocks seen", fa([i], Implies(And(0 <= i, i < c.k), Not(inb(seqat(ty, t, i), QINIT))), seqat(ty, t, i))), ("none chosen yet", Not(is_some(OI, c.t("q0", OI))))]
def min_is(c, done):
    "the automaton built has a state per block and the transitions of the blocks, as far as done(i, a)"
    b_ = Blocks(c); g = local(c, "min_g"); adj = c.at(g, "adjacencies")
    return ainv(c, g) + c3.amirror(c, g) + [
        ("a state per block", fa([q], QX(adj, q) == And(0 <= q, q < b_.n), QX(adj, q))), ("the initial state", INIT(c, None, g) == some(OI, IntVal(0))),
        ("the final states", fa([q], Implies(And(0 <= q, q < b_.n), isfin(c, q, None, g) == FINF(b_.REP(q))), isfin(c, q, None, g))),
        ("the transitions of the blocks", ft(HAS(adj, q, sy_) == And(0 <= q, q < b_.n, done(q, sy_), HASF(b_.REP(q), sy_)), adj)),
        ("their targets", ft(Implies(HAS(adj, q, sy_), TGT(adj, q, sy_) == b_.BOF(DEL(b_.REP(q), sy_))), adj))]
def noted(c, k_):
    c.st.notes = dict(c.st.notes); c.st.notes[k_] = c.k
def l_b(c): noted(c, "kb"); return min_is(c, lambda q_, s_: q_ < c.k)
def l_q(c):
    noted(c, "kq"); kb = c.st.notes["kb"]
    return min_is(c, lambda q_, s_: Or(q_ < kb, And(q_ == kb, c.k > 0)))
def l_e(c):
    kb, kq = c.st.notes["kb"], c.st.notes["kq"]; u_ = c.t("q"); b_ = Blocks(c)
    rep = b_.REP(kb)
    lemma(c, "transitions are at positions", fa([s1], Implies(HASF(u_, s1), c.it.pos(TOF(u_, s1)) >= 0), HASF(u_, s1), TOF(u_, s1)))
    front = [("the state is in the block", And(0 <= kb, kb < b_.n, inb(VTX, u_), b_.BOF(u_) == kb, inb(VTX, rep), b_.BOF(rep) == kb)), ("the block reads what the state reads", fa([s1], HASF(u_, s1) == HASF(rep, s1), HASF(u_, s1), HASF(rep, s1))),
             ("to the same blocks", fa([s1], Implies(HASF(u_, s1), b_.BOF(DEL(u_, s1)) == b_.BOF(DEL(rep, s1))), HASF(u_, s1), HASF(rep, s1)))]
    return front + min_is(c, lambda q_, s_: Or(q_ < kb, And(q_ == kb, Or(kq > 0, And(HASF(u_, s_), c.it.pos(TOF(u_, s_)) < c.k)))))
def l_r(c):
    b_ = Blocks(c)
    return [("the target is not in the blocks seen", fa([i], Implies(And(0 <= i, i < c.k), Not(inb(b_.at(i), c.t("r")))), b_.at(i)))]
def min_post(c):
    g = c.res; b_ = Blocks(c); adj = c.named(c.at(g, "adjacencies"))
    W_ = c.eng.word; w_ = c.named(c.eng.term(c.st, W_)); gstep = lambda o, s_: If(And(is_some(OI, o), HASF(optval(OI, o), s_)), some(OI, DEL(optval(OI, o), s_)), none(OI))
    trans = fa([q, sy_], Implies(inb(VTX, q), And(HAS(adj, b_.BOF(q), sy_) == HASF(q, sy_), Implies(HASF(q, sy_), TGT(adj, b_.BOF(q), sy_) == b_.BOF(DEL(q, sy_))))), HASF(q, sy_))
    lemma(c, "transitions of blocks", trans); ini = b_.BOF(QINIT) == 0; lemma(c, "the first block", ini)
    rg, rm = Run(c.eng, "run of the argument", gstep, some(OI, QINIT), w_, W_.ty), Run(c.eng, "run of the result", lambda o, s_: STEP(adj, o, s_), some(OI, IntVal(0)), w_, W_.ty)
    for r_ in (rg, rm):
        for t_ in r_.axioms(): c.eng.assume(c.st, t_)
    def same(k_):
        o = rg(k_)
        return And(rm(k_) == If(is_some(OI, o), some(OI, b_.BOF(optval(OI, o))), none(OI)), Implies(is_some(OI, o), inb(VTX, optval(OI, o))))
    def unfolded(K):
        o = optval(OI, rg(K)); s_ = rg.at(K)
        return [rg.unfold(K), rm.unfold(K), Implies(inb(VTX, o), And(HAS(adj, b_.BOF(o), s_) == HASF(o, s_), Implies(HASF(o, s_), And(inb(VTX, DEL(o, s_)), TGT(adj, b_.BOF(o), s_) == b_.BOF(DEL(o, s_))))))]
    lemma(c, "a step in both", fa([q, sy_], Implies(inb(VTX, q), And(HAS(adj, b_.BOF(q), sy_) == HASF(q, sy_), Implies(HASF(q, sy_), And(inb(VTX, DEL(q, sy_)), TGT(adj, b_.BOF(q), sy_) == b_.BOF(DEL(q, sy_)))))), HASF(q, sy_)))
    induct(c, "runs go through corresponding states", same, IntVal(0), hints=unfolded, pats=lambda k_: [rg(k_), rm(k_)], ctx=[rg.f(0) == rg.start, rm.f(0) == rm.start, ini])
    n_ = seqlen(W_.ty, w_); og, om = rg(n_), rm(n_)
    return [("the word is accepted by the result when it is by the argument, and conversely", And(is_some(OI, om), isfin(c, optval(OI, om), None, g)) == And(is_some(OI, og), FINF(optval(OI, og)))),
        ("complete when the argument is", Implies(fa([q, sy_], Implies(And(inb(VTX, q), Select(ALPH, sy_)), HASF(q, sy_)), HASF(q, sy_), z3.MultiPattern(inb(VTX, q), Select(ALPH, sy_))), fa([i, sy_], Implies(And(QX(adj, i), Select(ALPH, sy_)), HAS(adj, i, sy_)), z3.MultiPattern(QX(adj, i), Select(ALPH, sy_))))),
        ("distinct states of the result are not equivalent", fa([i, j], Implies(And(QX(adj, i), QX(adj, j), i != j), Not(EQV(b_.REP(i), b_.REP(j)))), z3.MultiPattern(b_.REP(i), b_.REP(j)))),
        ("the initial state is the block of the initial one", b_.BOF(QINIT) == 0), ("initial state", INIT(c, None, g) == some(OI, IntVal(0))),
        ("the states are the blocks", fa([q], Implies(inb(VTX, q), QX(adj, b_.BOF(q))), b_.BOF(q))), ("each of them is", fa([i], Implies(QX(adj, i), And(inb(VTX, b_.REP(i)), b_.BOF(b_.REP(i)) == i)), QX(adj, i))),
        ("transitions", fa([q, sy_], Implies(inb(VTX, q), And(HAS(adj, b_.BOF(q), sy_) == HASF(q, sy_), Implies(HASF(q, sy_), TGT(adj, b_.BOF(q), sy_) == b_.BOF(DEL(q, sy_))))), HASF(q, sy_))),
        ("final states", fa([q], Implies(inb(VTX, q), isfin(c, b_.BOF(q), None, g) == FINF(q)), b_.BOF(q))),
        ("states that are equivalent are one state", fa([p, q], Implies(And(inb(VTX, p), inb(VTX, q), EQV(p, q)), b_.BOF(p) == b_.BOF(q)), EQV(p, q)))]
GI = LoopSpec(inv=lambda c: c3.iinv(c) + acon_inv(c, c.k))
minp = Fn("automaton of the blocks", MIN, min_setup, lambda c: [], min_post, modifies=lambda c: [], uses=[agg, c3.ia_add_edge, c3.ia_add_vertex], types={"adjacencies": DADJ, "map_vfinal": FIN, "in_adjacencies": c3.IADJ, "final_states_new": FIN, "q0": OI, "map_set_idx": MAP(BLOCK, INT)},
    loops={("pybgl.graph:Graph.__init__", 0): GI, (MIN, 0): LoopSpec(inv=l_find), (MIN, 1): LoopSpec(inv=l_b), (MIN, 2): LoopSpec(inv=l_q), (MIN, 3): LoopSpec(inv=l_e), (MIN, 4): LoopSpec(inv=l_r)})
PROOFS = [AGGP, minp.proof()]
