"""Small functions for the self-test of the verification-condition generator (never run by the checks of PyBGL)."""
from collections import defaultdict, deque

class Box:
    def __init__(self, x):
        self.x = x
    def bump(self):
        self.x += 1
    def get(self, d=3):
        return self.x + d

class Box2(Box):
    def bump(self):
        super().bump()
        self.x += 1

def f_sum(xs):
    n = 0
    for x in xs:
        n += x
    return n

def f_fill(xs, m):
    for x in xs:
        m[x] = 1
    return m

def f_fill2(xs, d):
    for x in xs:
        d[x].add(x)
    return d

def f_bump(b, xs):
    for x in xs:
        b.bump()
    return b

def f_bump2(xs):
    b = Box2(0)
    b.bump()
    return b.x

def f_append(xs, q):
    for x in xs:
        q.append(x)
    return q

def f_while(n):
    i = 0
    while i < n:
        i += 2
    return i

def f_nested(n, m):
    c = 0
    for i in range(n):
        for j in range(m):
            c += 1
    return c

def f_default(d, k):
    v = d[k]
    return v

def f_alias(xs):
    ys = xs
    ys.append(1)
    return len(xs)

def f_copy(xs):
    ys = list(xs)
    ys.append(1)
    return len(xs)

def f_break(xs, a):
    r = False
    for x in xs:
        if x == a:
            r = True
            break
    return r

def f_else(xs, a):
    for x in xs:
        if x == a:
            break
    else:
        return 1
    return 0

def f_ret_in_loop(xs, a):
    n = 0
    for x in xs:
        n += 1
        if x == a:
            return n
    return 0

def f_gen(xs):
    return (x + 1 for x in xs if x > 0)

def f_len_gen(xs):
    return len([x for x in xs if x > 0])

def f_set(xs):
    return {x for x in xs}

def f_pop(q):
    x = q.pop()
    return x

def f_popleft(q):
    return q.popleft()

def f_appendleft(q, x):
    q.appendleft(x)
    return q

def f_del(m, k):
    del m[k]
    return m

def f_getdef(m, k):
    return m.get(k, 7)

def f_raise(x):
    if x < 0:
        raise ValueError("negative")
    return x

def f_try(x):
    try:
        y = f_raise(x)
    except ValueError:
        y = 0
    return y

def f_cond(x):
    return 1 if x > 0 else -1 if x < 0 else 0

def f_or(x, y):
    return x or y

def f_default_arg(x, y=2):
    return x + y

def f_kw(x):
    return f_default_arg(y=x, x=1)

def f_closure(n):
    def g(k):
        return k + n
    n = n + 1
    return g(0)

def f_mutate_in_callee(m):
    helper(m)
    return m[0]

def helper(m):
    m[0] = 5

def f_div(a, b):
    return a // b

def f_mod(a, b):
    return a % b

def f_chain(a, b, c):
    return a < b < c

def f_swap(a, b):
    a, b = b, a
    return a

def f_slice(xs):
    return xs[1:]

def f_neg_index(xs):
    return xs[-1]

def f_enumerate(xs):
    s = 0
    for i, x in enumerate(xs, 1):
        s = i
    return s

def f_continue(xs):
    n = 0
    for x in xs:
        if x < 0:
            continue
        n += 1
    return n

def f_isnone(x=None):
    if x is None:
        x = 4
    return x

def f_set_remove(s, x):
    s.remove(x)
    return s

def f_setdefault_rows(d, u, v):
    d[u][v] = 1
    return d

def f_two_lists(n):
    a = []
    b = a
    for i in range(n):
        b.append(i)
    return len(a)

def f_attr_loop(b, n):
    i = 0
    while i < n:
        b.x = i
        i += 1
    return b.x

def f_inner_break(n):
    c = 0
    for i in range(n):
        while True:
            c += 1
            break
    return c

def f_reassign_in_loop(n):
    s = {0}
    for i in range(n):
        s = {i}
    return s

def f_comp_effect(xs, s):
    class Keep:
        def __init__(self, s):
            self.s = s
        def __call__(self, x):
            if x > 0:
                self.s.add(x)
            return x <= 0
    k = Keep(s)
    return [x for x in xs if k(x)]

def f_comp_effect_read(xs, s):
    def first(x):
        if x in s:
            return False
        s.add(x)
        return True
    return [x for x in xs if first(x)]

def f_comp_effect_lazy(xs, s):
    def first(x):
        s.add(x)
        return x > 0
    return any(True for x in xs if first(x))
