#!/usr/bin/env python3
"""Runs the bounded check of one property on the real code: run.py ID TIER SEED SECONDS WORKERS OUT.json
(one process per worker; every case is generated from the seed, worker i takes the cases i, i+W, ...)."""
import sys, os, json, time, random, resource, importlib, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from oracles import base

def worker(pid, tier, seed, secs, i, W, maxcases, q, last):
    fd = os.open(last, os.O_RDWR | os.O_CREAT)
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 1)
    t0 = time.time(); res = dict(evaluations=0, distinct=0, fails=[], samples=[])
    try:
        m = importlib.import_module("oracles." + pid)
    except BaseException as e:
        res["fails"].append((None, "the code cannot be imported: %s: %s" % (type(e).__name__, e))); q.put((i, res)); return
    triv = getattr(m, "trivial", lambda c: False); cpu = getattr(m, "CPU", base.CASE_CPU)
    seen = set()
    rng = random.Random(seed * 1000003 + 17)
    for k, case in enumerate(m.gen(rng, tier)):
        if time.time() - t0 > secs or k >= maxcases: break
        if k % W != i: continue
        key = hash(json.dumps(case, sort_keys=True))
        new = key not in seen; seen.add(key)
        if not new: continue
        j = json.dumps(case).encode(); os.pwrite(fd, b"%10d" % len(j) + j, 0)
        msg = base.run_case(m.run, json.loads(json.dumps(case)), cpu)
        res["evaluations"] += 1
        if not triv(case):
            res["distinct"] += 1
            if len(res["samples"]) < 2: res["samples"].append(case)
        if msg is not None:
            res["fails"].append((case, msg))
            if len(res["fails"]) >= 25: break
            if time.time() - t0 > 3 and len(res["fails"]) >= 3: break
    os.pwrite(fd, b"%10d" % 0, 0)
    q.put((i, res))

def shrink(m, case, msg, secs=6):
    "Greedy: drop elements of any list inside the case, as long as it still fails."
    key = lambda m_: (m_.split(":")[0][:24], m_.rsplit(" at ", 1)[-1] if m_.startswith("raised") else "")
    t0 = time.time(); cpu = min(3.0, getattr(m, "CPU", base.CASE_CPU))
    if "terminate" in msg: return case, msg
    def lists(x, path=()):
        if isinstance(x, list):
            yield path, x
            for i, y in enumerate(x): yield from lists(y, path + (i,))
        elif isinstance(x, dict):
            for k, y in x.items(): yield from lists(y, path + (k,))
    changed = True
    while changed and time.time() - t0 < secs:
        changed = False
        for path, l in list(lists(case)):
            if len(path) > 3: continue
            for i in reversed(range(len(l))):
                if time.time() - t0 > secs: break
                c = json.loads(json.dumps(case)); y = c
                for p_ in path: y = y[p_]
                if i >= len(y): continue
                del y[i]
                try: r = base.run_case(m.run, json.loads(json.dumps(c)), cpu)
                except BaseException: r = None
                # an exception of the harness on a mangled case is no failure
                if r is not None and key(r) == key(msg):
                    case, msg, changed = c, r, True; break
            if changed: break
    return case, msg

def main(pid, tier, seed, secs, W, out, maxcases=10**9):
    ctx = mp.get_context("fork"); q = ctx.Queue()
    t0 = time.time()
    ps = [ctx.Process(target=worker, args=(pid, tier, seed, secs, i, W, maxcases, q, out + ".last%d" % i), daemon=True) for i in range(W)]
    for p in ps: p.start()
    rs = []
    deadline = t0 + secs + 60
    while len(rs) < W and time.time() < deadline:
        try: rs.append(q.get(timeout=1))
        except Exception:
            if not any(p.is_alive() for p in ps) and q.empty(): break
    for p in ps:
        p.terminate()
    lost = set(range(W)) - {i for i, r in rs}; rs = [r for i, r in rs]
    for i in sorted(lost):          # the process of this worker died or hangs: its last case is the failing one
        try:
            b = open(out + ".last%d" % i, "rb").read(); n = int(b[:10])
            if n: rs.append(dict(evaluations=0, distinct=0, samples=[], fails=[(json.loads(b[10:10 + n]), "the process running this case died or does not answer")]))
        except Exception: pass
    for i in range(W):
        try: os.unlink(out + ".last%d" % i)
        except OSError: pass
    fails = sorted([f for r in rs for f in r["fails"]], key=lambda f: len(json.dumps(f[0])))
    res = dict(evaluations=sum(r["evaluations"] for r in rs), distinct_nontrivial=sum(r["distinct"] for r in rs),
               samples=[s for r in rs for s in r["samples"]][:4], fails=fails[:40], lost_workers=len(lost), wall_s=time.time() - t0)
    json.dump(res, open(out, "w"))

if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "--case":           # run.py --case ID FILE : replay one case
        m = importlib.import_module("oracles." + a[1]); case = json.load(open(a[2]))
        case = case.get("case", case) if isinstance(case, dict) else case
        msg = base.run_case(m.run, case, getattr(m, "CPU", base.CASE_CPU)); print(msg or "holds"); sys.exit(1 if msg else 0)
    if a[0] == "--shrink":         # run.py --shrink ID FILE : shrinks the case of FILE in place
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
        m = importlib.import_module("oracles." + a[1]); d = json.load(open(a[2]))
        sys.stdout.flush(); dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 1)
        d["case"], d["message"] = shrink(m, d["case"], d["message"]); json.dump(d, open(a[2], "w")); sys.exit(0)
    main(a[0], a[1], int(a[2]), float(a[3]), int(a[4]), a[5], int(a[6]) if len(a) > 6 else 10**9)
