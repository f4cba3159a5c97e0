from contracts.dijkstra import *
NOTE = "Dijkstra proved over any graph, any non-negative weights (whole or fractional), any visitor or none, colours given or not, with and without a comparison, the heap through its contract"
TRUSTED = TRUSTED_BASE + ["Heap under the comparison wrapper of a strict order: as its contract (C13 proves it for preorders and for keys)"]
ASSUMPTIONS = ASSUME_BASE + GRAPH_NOTE[:1] + NOTES_D
L = [Fn("shortest paths" + nm, DSP, setup(**kw), post=facts, loops=LOOPS, types={"color": DC}, uses=[] if kw.get("vis", True) else EVC) for nm, kw in (("", {}), (", by default", dict(vis=False, color=False)), (", a comparison given", dict(compare=True)))]
from contracts.lib import instance
dr = instance("dijkstra", PARAM_W=REAL)
L.append(Fn("shortest paths, fractional weights", DSP, dr.setup(numbers=True), post=dr.facts, loops=dr.LOOPS, types={"color": DC}))
PROOFS = [f.proof() for f in L]
