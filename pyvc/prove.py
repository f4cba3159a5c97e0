#!/usr/bin/env python3
"""prove.py ID OUT.json [WORKERS] [TIER] [NAMEFILTER]: generates the obligations of contracts/ID.py from /repo's current source and discharges them."""
import sys, os, json, time, importlib, traceback, multiprocessing as mp
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def gen_one(i, proof, tmp):
    import z3
    from pyvc import solve
    from pyvc.types import Unsupported
    t0 = time.time()
    res = dict(proof=proof.name, obls=[], covers=[], error=None)
    try:
        eng = proof.generate()
        for j, o in enumerate(eng.obls):
            name = "%s / %s" % (proof.name, o.name)
            if z3.is_true(o.goal):
                res["obls"].append((name, o.kind, None)); continue
            f = os.path.join(tmp, "o%d_%d.smt2" % (i, j))
            open(f, "w").write(solve.to_smt(eng.axioms, o.hyps, o.goal))
            res["obls"].append((name, o.kind, f))
        groups = {}
        for nm, hyps, must in eng.covers:
            if must is False:
                continue
            groups.setdefault(nm, []).extend(hyps if must == "any" else [hyps])
        for j, (nm, alts) in enumerate(groups.items()):
            fs = []
            for k, h in enumerate(alts[:12]):
                f = os.path.join(tmp, "c%d_%d_%d.smt2" % (i, j, k))
                open(f, "w").write(solve.to_smt(eng.axioms, h, z3.BoolVal(False)))
                fs.append(f)
            res["covers"].append(("%s / cover:%s" % (proof.name, nm), fs))
        res["inlined"] = sorted(eng.inlined)
        res["contracts"] = sorted(eng.used_contracts)
    except Unsupported as e:
        res["error"] = "outside the verified fragment: %s" % e
        res["trace"] = traceback.format_exc()[-3000:]
    except Exception as e:
        res["error"] = "generation failed: %s: %s" % (type(e).__name__, e)
        res["trace"] = traceback.format_exc()[-3000:]
    res["gen_s"] = time.time() - t0
    json.dump(res, open(os.path.join(tmp, "g%d.json" % i), "w"))


GEN_LIMIT = 200
FAILED = None      # obligations not discharged so far: after a few, the others get the first two solver configurations only


def work(args):
    from pyvc import solve
    kind, name, f, scale = args
    if kind == "cover":
        txts = f
        ok = False
        for x in f:
            if solve.cover(open(x).read()):
                ok = True
                break
        return kind, name, "ok" if ok else "vacuous", "", 0, ""
    short = FAILED is not None and FAILED.value >= 4
    st, be, s, info = solve.discharge(open(f).read(), scale, solve.CONF[:2] if short else None)
    if st != "discharged" and FAILED is not None:
        FAILED.value += 1
    return kind, name, st, be, s, info


def main(pid, out, W, tier, flt=None, keep=None):
    import tempfile, shutil
    global FAILED
    t0 = time.time()
    tmp = keep or tempfile.mkdtemp(prefix="pyvc_")
    try:
        try:
            mod = importlib.import_module("contracts." + pid)
            proofs = list(mod.PROOFS)
        except Exception as e:
            json.dump(dict(obligations=[], error="the contracts cannot be read against the current source: %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])), open(out, "w"))
            return
        if flt:
            proofs = [p for p in proofs if flt in p.name]
        ctx = mp.get_context("fork")
        run = []
        todo = list(enumerate(proofs))
        while todo or run:
            for p in run:
                if p.is_alive() and time.time() > p.end:
                    p.kill()
            run = [p for p in run if p.is_alive()]
            while todo and len(run) < W:
                i, p = todo.pop(0)
                q = ctx.Process(target=gen_one, args=(i, p, tmp))
                q.start()
                q.end = time.time() + GEN_LIMIT
                run.append(q)
            time.sleep(0.02)
        obs, covers, inl, con, errs, tasks, gs = [], 0, set(), set(), [], [], 0
        for i, p in enumerate(proofs):
            f = os.path.join(tmp, "g%d.json" % i)
            if not os.path.exists(f):
                obs.append(dict(name=p.name + " / generation", status="error", info="the generator died"))
                continue
            r = json.load(open(f))
            gs += r["gen_s"]
            if r["error"]:
                obs.append(dict(name=p.name + " / generation of the obligations", status="error", info=r["error"] + "\n" + r.get("trace", "")))
                continue
            if not r["obls"]:
                obs.append(dict(name=p.name + " / generation of the obligations", status="error", info="no obligation was generated"))
            inl |= set(r["inlined"])
            con |= set(r["contracts"])
            for nm, kind, f in r["obls"]:
                if f is None:
                    obs.append(dict(name=nm, kind=kind, status="discharged", backend="simplifier", s=0))
                else:
                    tasks.append(("obl", nm, f, 1.0 if tier == "quick" else 2.0))
            for nm, fs in r["covers"]:
                covers += 1
                tasks.append(("cover", nm, fs, 1))
        be, solver_s = {}, 0
        FAILED = ctx.Value("i", 0)
        with ctx.Pool(W, maxtasksperchild=40) as pool:
            for kind, nm, st, b, s, info in pool.imap_unordered(work, tasks, chunksize=1):
                solver_s += s
                if kind == "cover":
                    if st != "ok":
                        obs.append(dict(name=nm, status="vacuous", info="the hypotheses are contradictory"))
                    continue
                obs.append(dict(name=nm, status=st, backend=b, s=round(s, 2), info=info))
        for o in obs:
            if o["status"] == "discharged":
                be[o["backend"]] = be.get(o["backend"], 0) + 1
        fns = sorted({"%s (%s)" % (p.key, p.name) for p in proofs if hasattr(p, "key")})
        json.dump(dict(obligations=sorted(obs, key=lambda o: o["name"]), error=None if obs else "no obligation", functions=fns, backends=be, solver_s=round(solver_s, 2), gen_s=round(gs, 2),
                       inlined=sorted(inl), contracts_used=sorted(con), covers=covers, trusted=list(getattr(mod, "TRUSTED", [])), assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
                       wall_s=round(time.time() - t0, 2)), open(out, "w"), indent=1)
    finally:
        if not keep:
            shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    main(a[0], a[1], int(a[2]) if len(a) > 2 else 8, a[3] if len(a) > 3 else "quick", a[4] if len(a) > 4 else None, os.environ.get("PYVC_KEEP"))
    if os.environ.get("PYVC_SHOW"):
        r = json.load(open(a[1]))
        n = len(r["obligations"])
        bad = [o for o in r["obligations"] if o["status"] != "discharged"]
        print("%d obligations, %d discharged, wall %.1fs, solver %.1fs, gen %.1fs %s" % (n, n - len(bad), r.get("wall_s", 0), r.get("solver_s", 0), r.get("gen_s", 0), r.get("error") or ""))
        for o in bad:
            print("--", o["status"], o["name"], "\n    ", o.get("info", "")[:int(os.environ["PYVC_SHOW"])])
        sl = sorted(r["obligations"], key=lambda o: -o.get("s", 0))[:5]
        print("slowest:", [(o["name"], o.get("s")) for o in sl if o.get("s", 0) > 1])
