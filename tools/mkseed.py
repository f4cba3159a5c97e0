#!/usr/bin/env python3
"""mkseed.py ID : makes a scratch copy of /repo, applies seeded/ID/patch.diff there, and confirms that
it builds, passes the stable tests, that demo.sh passes without it and fails with it; then runs the check on the copy."""
import sys, os, json, subprocess, shutil, tempfile
V = "/verif"
def sh(cmd, cwd, env=None, t=300):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0"); e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t); return p.returncode, p.stdout.decode("utf8", "replace")
def main(i, nocheck=False):
    d = V + "/seeded/" + i; m = json.load(open(d + "/meta.json")); tmp = tempfile.mkdtemp(prefix="seed_"); R = tmp + "/repo"
    try:
        shutil.copytree("/repo", R, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        # demo.sh uses cwd; PYTHONPATH puts the copy first
        env = dict(PYTHONPATH=R + "/src", VERIF_REPO=R)
        a, o1 = sh("bash %s/demo.sh" % d, R, env); 
        if a: print(i, "DEMO FAILS ON CLEAN", o1[-800:]); return 1
        rc, o = sh("git apply --unsafe-paths --directory=%s %s/patch.diff" % (R, d), "/")
        if rc: print(i, "PATCH", o); return 1
        b, o2 = sh("bash %s/demo.sh" % d, R, env)
        if not b: print(i, "DEMO PASSES WITH THE BUG"); return 1
        base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        rc, o = sh("/opt/venv/bin/python -m pytest -q -c %s/pyproject.toml --rootdir=%s -p no:cacheprovider --timeout=300 -x --continue-on-collection-errors -o 'addopts=--doctest-modules' tests" % (R, R), R, env)
        if rc: print(i, "TESTS", o[-600:]); return 1
        os.mkdir(tmp + "/cwd")
        rc, o = sh("/opt/venv/bin/python -m pytest -q -c %s/pyproject.toml --rootdir=%s -p no:cacheprovider --timeout=300 -o 'addopts=--doctest-modules' %s/src" % (R, R, R), tmp + "/cwd", env)
        if o.count("\nFAILED") != 6: print(i, "DOCTESTS (look)", o[-600:])
        msg = ""
        if not nocheck:
            rc, o = sh("python3 check.py " + m["property"], V, env, 900)
            msg = "caught" if rc == 1 and "VIOLATION property=" + m["property"] in o else "MISSED rc=%d" % rc
            msg += " | " + " / ".join(l for l in o.splitlines() if l)[:300]
        print(i, "demo ok, tests ok;", msg); return 0
    finally:
        shutil.rmtree(tmp)
if __name__ == "__main__":
    for x in sys.argv[1:]:
        main(x)
