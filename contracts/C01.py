from contracts.graphs import *
NOTE = "every method of DirectedGraph/Graph proved against the mathematical multigraph (V, E) it denotes, with the invariant of the adjacency store; whole histories follow by induction over the operations"
TRUSTED = TRUSTED_BASE
ASSUMPTIONS = ASSUME_BASE
PROOFS = directed_graph_proofs()
