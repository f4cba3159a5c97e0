from contracts.products import *
NOTE = "union and intersection proved for every pair of deterministic automata: states are the pairs met, transitions follow the operands', language by induction on the word"
TRUSTED = TRUSTED_BASE
ASSUMPTIONS = ASSUME_BASE + NOTES[:1] + ["the absent state is not marked final"]
UN = "pybgl.deterministic_union:deterministic_union"; INT_ = "pybgl.deterministic_intersection:deterministic_intersection"
anyp = lambda p: Or(is_some(OI, P1(p)), is_some(OI, P2(p)))
bothp = lambda p: And(is_some(OI, P1(p)), is_some(OI, P2(p)))
UNION = (anyp, lambda p, s: BoolVal(True), lambda x_, y_: Or(x_, y_))
INTER = (bothp, lambda p, s: bothp(NXT(p, s)), lambda x_, y_: And(x_, y_))
def setup(filt):
    def f(S):
        g1, g2 = operands(S)
        S.assume(fa([p_], PASS(p_) == filt(p_), PASS(p_)))
        S.eng.word = S.word(SY, "w")
        visitor(S, given=False)
        return [g1, g2]
    return f
L = []
for nm, key, kind, filt in (("union", UN, UNION, lambda p: BoolVal(True)), ("intersection", INT_, INTER, bothp)):
    J = product_J(*kind)
    L.append(Fn(nm, key, setup(filt), post=product_post(J, *kind), loops=loops(J), types=TYPES, uses=CONTRACTS(kind[2])))
PROOFS = [f.proof() for f in L] + [mixin_proof(nm, op) for nm, op in (("union", UNION[2]), ("intersection", INTER[2]))]
