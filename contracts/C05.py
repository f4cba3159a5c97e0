from contracts.nodeautomata import *
from contracts import construct as ca, construct_node as cn
NOTE = "every method of NodeAutomaton proved against the partial transition function keyed by the symbols of the targets; the two constructors from lists proved for lists that name one successor per symbol"
TRUSTED = TRUSTED_BASE
ASSUMPTIONS = ASSUME_BASE
PROOFS = [f.proof() for f in ALL + [ca.make_aut, ca.make_aut0, cn.make_node, cn.make_node0]]
