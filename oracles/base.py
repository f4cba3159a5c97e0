"""Shared machinery of the bounded checks (the stand-ins that run the real code of /repo).

Each module oracles/Cxx.py provides
    RULE            text: how cases are made, what makes one non-trivial
    gen(rng, tier)  generator of JSON-able cases (endless or finite)
    run(case)       None when the real code behaves as the property says, else a message
Nothing here is counted as proved; a failing case is a concrete failing input.
"""
import sys, os, signal, itertools, random, ast
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
if REPO + "/src" not in sys.path:
    sys.path.insert(0, REPO + "/src")

class Bad(Exception):
    "The property is broken on this case."

class CaseTimeout(BaseException):
    pass

def need(cond, msg, *args):
    if not cond:
        raise Bad(msg % args if args else msg)

def same(got, want, what):
    if got != want:
        raise Bad("%s: got %s, expected %s" % (what, short(got), short(want)))

def short(x, n=300):
    r = repr(x)
    return r if len(r) <= n else r[:n] + "..."

def msort(xs):  # any total order
    return sorted(xs, key=lambda x: (str(type(x)), repr(x)))

def harvest(files):
    "Integer and string literals of the current source: used to aim cases at special values."
    ints, strs = set(), set()
    for f in files:
        p = os.path.join(REPO, "src/pybgl", f)
        try:
            tree = ast.parse(open(p, encoding="utf8").read())
        except Exception:
            continue
        docs = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                docs.add(id(n.value))
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and id(n) not in docs:
                v = n.value
                if isinstance(v, bool):
                    continue
                if isinstance(v, int) and 0 <= v <= 300:
                    ints.add(v)
                elif isinstance(v, str) and 0 < len(v) <= 4:
                    strs.add(v)
    return sorted(ints), sorted(strs)

# ------------------------------------------------------------------ generic cases
def all_digraphs(n, loops=True):
    pairs = [(u, v) for u in range(n) for v in range(n) if loops or u != v]
    for k in range(len(pairs) + 1):
        for c in itertools.combinations(pairs, k):
            yield [list(x) for x in c]

def rand_edges(rng, n, m):
    if n == 0:
        return []
    return [[rng.randrange(n), rng.randrange(n)] for _ in range(m)]

def graph_cases(rng, max_exh=2, nmax=6, big=True):
    "n, edge list: all small graphs, then random multigraphs (self-loops, parallel edges), sometimes large."
    yield 0, []
    for n in range(1, max_exh + 1):
        for es in all_digraphs(n):
            yield n, es
    while True:
        r = rng.random()
        if r < 0.04 and big:
            n = rng.choice([12, 20, 40])
            m = rng.randrange(0, 3 * n)
        else:
            n = rng.randrange(1, nmax + 1)
            m = rng.choice([0, 1, 2, n, n + 1, 2 * n, 3 * n, rng.randrange(0, n * n + 2)])
        es = rand_edges(rng, n, m)
        if es and rng.random() < 0.3:
            es += [list(rng.choice(es)) for _ in range(rng.randrange(1, 3))]
        if rng.random() < 0.15:      # chain / dag shapes
            es = [[min(a, b), max(a, b)] for a, b in es if a != b]
        yield n, es

def words(alphabet, maxlen):
    for k in range(maxlen + 1):
        for t in itertools.product(alphabet, repeat=k):
            yield "".join(t)

def reach(succ, srcs):
    seen = set(srcs); todo = list(seen)
    while todo:
        u = todo.pop()
        for v in succ(u):
            if v not in seen:
                seen.add(v); todo.append(v)
    return seen

def bfs_dist(succ, srcs):
    d = {s: 0 for s in srcs}; todo = list(d)
    for u in todo:
        for v in succ(u):
            if v not in d:
                d[v] = d[u] + 1; todo.append(v)
    return d

# ------------------------------------------------------------------ running
CASE_CPU = 10.0

def _alarm(sig, frm):
    raise CaseTimeout()

def run_case(run, case, cpu=CASE_CPU):
    "Message or None; an exception escaping from the real code, or no termination, is a failure."
    import traceback
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, cpu)
    try:
        run(case)
        return None
    except Bad as e:
        return str(e)
    except CaseTimeout:
        return "no answer after %g s of processor time (the call does not terminate)" % cpu
    except MemoryError:
        return "memory exhausted (the call does not terminate)"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f for f in reversed(tb) if "pybgl" in f.filename), tb[-1] if tb else None)
        w = " at %s:%s" % (os.path.basename(where.filename), where.name) if where else ""
        return "raised %s: %s%s" % (type(e).__name__, short(str(e)), w)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
