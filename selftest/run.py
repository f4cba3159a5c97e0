"""Self-test of the generator: every true claim proved, no false claim proved. Exit 1 otherwise."""
import sys, os
sys.path.insert(0, "/verif"); sys.path.insert(0, "/verif/selftest"); sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo") + "/src")
import z3
import claims
bad = 0
def proved(p):
    try: eng = p.generate()
    except Exception as ex: return None, "%s: %s" % (type(ex).__name__, ex)
    for o in eng.obls:
        s = z3.Solver(); s.set("timeout", 3000); s.add(*o.hyps); s.add(z3.Not(o.goal))
        if s.check() != z3.unsat: return False, o.name
    return True, ""
for p in claims.T:
    r, w = proved(p)
    if r is not True: bad += 1; print("NOT PROVED", p.name, w)
for p in claims.W:
    r, w = proved(p)
    if r is not False: bad += 1; print("PROVED" if r else "ERROR", p.name, w)
print("%d true, %d false claims, %d wrong verdicts" % (len(claims.T), len(claims.W), bad))
sys.exit(bad > 0)
