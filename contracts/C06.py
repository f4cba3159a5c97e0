from contracts.nfas import *
NOTE = "every method of Nfa proved against the finite set of transitions it stores; the states reached by a word are proved to be those of the least closures of its prefixes"
TRUSTED = TRUSTED_BASE
ASSUMPTIONS = ASSUME_BASE + ["the words read do not contain the mark of the empty move (stated in the property)"]
PROOFS = [f.proof() for f in NALL]
