#!/usr/bin/env python3
"""check.py ID : decides one property on /repo's current working tree.

1. proofs: the verification conditions generated from /repo's current source against the contracts of contracts/ID.py
   are discharged (pyvc/prove.py); an obligation that is not discharged is reported by name;
2. the bounded check oracles/ID.py runs the real code; it supplies failing inputs and stands in for what is not proved.
Exit 0 (held) or 1 (a line VIOLATION property=ID replay=PATH); anything else is an error of the check."""
import sys, os, json, time, subprocess, hashlib, tempfile
V = os.path.dirname(os.path.abspath(__file__)); PY = "/opt/veriftools/pyvenv/bin/python3"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")

def known(pid):
    "cases listed as known findings: lines 'known: property=ID case=<json> <text>'"
    out = {}
    try:
        for l in open(os.path.join(V, "known_findings.txt"), encoding="utf8"):
            if l.startswith("known: property=%s case=" % pid):
                dec = json.JSONDecoder(); c, n = dec.raw_decode(l.split(" case=", 1)[1]); out[json.dumps(c, sort_keys=True)] = l.split(" case=", 1)[1][n:].strip()
    except FileNotFoundError: pass
    return out

def replay_file(pid, d):
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    s = json.dumps(d, indent=1, ensure_ascii=False, sort_keys=True); h = hashlib.sha1(s.encode()).hexdigest()[:10]
    p = os.path.join(V, "replays", "%s-%s.json" % (pid, h)); open(p, "w", encoding="utf8").write(s + "\n"); return p

def call(args, limit):
    p = subprocess.Popen([PY, "-B"] + args, cwd=V, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try: out, _ = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); out, _ = p.communicate(); return None, out.decode("utf8", "replace")
    return p.returncode, out.decode("utf8", "replace")

def main(pid):
    t0 = time.time(); tier = os.environ.get("VERIF_TIER", "quick"); tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1); W = min(8, os.cpu_count() or 1)
    tmp = tempfile.mkdtemp(prefix="verif_")
    cfg = json.load(open(os.path.join(V, "budget.json"))); b = dict(cfg["default"], **cfg.get(pid, {}))
    proof = None
    if os.path.exists(os.path.join(V, "contracts", pid + ".py")):
        o = os.path.join(tmp, "proof.json")
        rc, log = call(["pyvc/prove.py", pid, o, str(W), tier], b["proof_limit_" + tier])
        if os.path.exists(o): proof = json.load(open(o))
        else: proof = dict(obligations=[], error="the verifier gave no answer: " + log[-3000:])
    o = os.path.join(tmp, "oracle.json")
    rc, log = call(["oracles/run.py", pid, tier, str(seed), str(b["oracle_" + tier]), str(W), o], b["oracle_" + tier] + 150)
    if not os.path.exists(o): print("the bounded check gave no answer:\n" + log[-3000:]); return 2
    r = json.load(open(o)); kn = known(pid); bad = None
    for case, msg in r["fails"]:
        d = dict(property=pid, case=case, message=msg, how="python3-vt oracles/run.py --case %s FILE" % pid)
        if case is not None:
            f = os.path.join(tmp, "case.json"); json.dump(d, open(f, "w"))
            if call(["oracles/run.py", "--shrink", pid, f], 60)[0] == 0: d = json.load(open(f))
        k = json.dumps(d["case"], sort_keys=True)
        if k in kn: print("KNOWN-FINDING: property=%s %s" % (pid, kn[k])); continue
        bad = d; break
    failed = [x for x in (proof or {}).get("obligations", []) if x["status"] != "discharged"]
    perr = (proof or {}).get("error")
    ev = dict(property=pid, tier=tier, seed=seed, wall_s=0, violations=0)
    cov = dict(evaluations=r["evaluations"], distinct_nontrivial=r["distinct_nontrivial"], rule=rule(pid), samples=r["samples"], exhaustive=False)
    if proof is not None:
        ev["level"] = "proof"
        obs = proof.get("obligations", [])
        cov = dict(obligations=len(obs), discharged=sum(x["status"] == "discharged" for x in obs), checker_cmd="python3-vt pyvc/prove.py %s OUT.json" % pid,
                   trusted_base=proof.get("trusted", []), functions_under_contract=proof.get("functions", []), back_ends=proof.get("backends", {}), solver_time_s=proof.get("solver_s", 0),
                   inlined=proof.get("inlined", []), vacuity_covers=proof.get("covers", 0), not_discharged=[x["name"] for x in failed],
                   bounded_stand_in=dict(note="bounded, never counted as proved", **cov), evaluations=cov["evaluations"], distinct_nontrivial=cov["distinct_nontrivial"])
        ev["assumptions"] = proof.get("assumptions", [])
    else:
        ev["level"] = "exploration"; ev["assumptions"] = ["bounded stand-in: only the generated cases were run"]
    ev["coverage"] = cov; rc = 0
    if bad is not None:
        if failed: bad["obligations"] = [x["name"] for x in failed]
        print("%s: %s" % (pid, bad["message"])); print("input: %s" % json.dumps(bad["case"], ensure_ascii=False)[:2000])
        print("VIOLATION property=%s replay=%s" % (pid, replay_file(pid, bad))); rc = 1; ev["violations"] = 1
    elif failed or perr:
        d = dict(property=pid, obligation=failed[0]["name"] if failed else "generation of the obligations", obligations=failed[:20], error=perr, how="python3-vt pyvc/prove.py %s OUT.json" % pid)
        print("%s: not discharged: %s" % (pid, ", ".join(x["name"] for x in failed[:6]) or perr))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, replay_file(pid, d))); rc = 1; ev["violations"] = 1
    ev["wall_s"] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1, ensure_ascii=False)
    print("%s: %s; bounded cases %d; obligations %s; %.1fs" % (pid, "broken" if rc else "held", r["evaluations"], "%d/%d" % (cov.get("discharged", 0), cov.get("obligations", 0)) if proof is not None else "none", time.time() - t0))
    subprocess.call(["rm", "-rf", tmp]); return rc

def rule(pid):
    import ast
    for n in ast.parse(open(os.path.join(V, "oracles", pid + ".py"), encoding="utf8").read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "RULE": return ast.literal_eval(n.value)
    return ""

if __name__ == "__main__": sys.exit(main(sys.argv[1]))
