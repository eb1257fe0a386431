"""Self-test of the verifier, run by setup.sh: small functions with a right and a wrong contract each.
The right contract must be proved, the wrong one must not be (a refutation has to be false on the real code too)."""
import os, sys, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True; sys.setrecursionlimit(20000)
D = tempfile.mkdtemp(prefix="selftest")
os.environ["VC_SRC"] = D
TOY = '''
import numpy as np
def total(a):
    s = 0.0
    for k in range(a.shape[0]): s += a[k]
    return s
def shifted(a):
    b = np.zeros(a.shape)
    for k in range(1, a.shape[0]): b[k] = a[k - 1]
    return b
def alias(a):
    b = a
    b[0] = 1.0
    return a
def copied(a):
    b = a.copy()
    b[0] = 1.0
    return a
def view(a):
    b = a[1:]
    b[0] = 7.0
    return a
def grow(a, q):
    s = 1.0
    for k in range(a.shape[0]): s = q * s + a[k]
    return s
def clip(x): return 0.0 if x < 0 else (1.0 if x > 1 else x)
def trapezoid(a, h):
    d = h * (a[:-1] + a[1:]) / 2
    return d
def solve(M, b): return np.linalg.inv(M).dot(b)
def mult(A, x): return np.einsum('...ij,...j->...i', A, x)
def accumulate(a, k, v):
    a[k] += v
    a[k] += v
    return a
def nested(n, m):
    c = np.zeros([n, m])
    for i in range(n):
        for j in range(m): c[i, j] = i * m + j
    return c
def late(n):
    return [lambda t: 2 * t for _ in range(n)]
def last(a):
    for k in range(a.shape[0]): x = a[k]
    return x
def clear_middle(a):
    a[1:-1] = 0
    return a
def largest(a): return np.max(a)
class Counter:
    def __init__(self): self.n = 0
    def add(self, k):
        for _ in range(k): self.n += 1
def find(a, v):
    if v not in a: raise ValueError('absent')
    return True
'''
open(os.path.join(D, "toy.py"), "w").write(TOY)
from vc.ctx import Ctx
from vc import world, loader
T = []
def pair(right, wrong): T.append((right, wrong))
def vec(w, lo=2): n = w.int("n", lo); return n, w.arr("a", (n,))
def f(w, name): return getattr(w.mod("toy"), name)

def a(w, off=0.0):
    n, x = vec(w); w.eq("sum", f(w, "total")(x), w.np.sum(x) + off)
pair(a, lambda w: a(w, 1e-3))
def b(w, lag=1):
    n, x = vec(w, 3); y = f(w, "shifted")(x); w.forall([("k", lag, n)], lambda k: w.eq("shift", y[k], x[k - lag])); w.eq("first", y[0], 0)
pair(b, lambda w: b(w, 2))
def c(w, k=0, v=1.0):
    n, x = vec(w); o = w.copy(x); f(w, "alias")(x); w.eq("seen through the alias", x[k], v); w.forall([("k", 1, n)], lambda k: w.eq("rest", x[k], o[k]))
pair(c, lambda w: c(w, 1))
def d(w, bad=False):
    n, x = vec(w); o = w.copy(x); f(w, "copied")(x); w.same("unchanged", x, o)
    if bad: w.eq("changed", x[0], 1.0)
pair(d, lambda w: d(w, True))
def e(w, k=1):
    n, x = vec(w); f(w, "view")(x); w.eq("written through the view", x[k], 7.0)
pair(e, lambda w: e(w, 0))
def h(w, lo=0):
    x = w.real("x"); y = f(w, "clip")(x); w.check("range", w.land(y >= lo, y <= 1)); w.check("inside", w.lor(x < 0, x > 1, y == x))
pair(h, lambda w: h(w, 0.5))
def i(w, k=0.5):
    n, x = vec(w); s = w.real("h", pos=True); y = f(w, "trapezoid")(x, s); w.forall([("k", 0, n - 1)], lambda q: w.eq("mean", y[q], s * (k * x[q] + (1 - k) * x[q + 1])))
pair(i, lambda w: i(w, 0.25))
def j(w, tr=False):
    n = w.int("n", 1); M = w.arr("M", (n, n), dd=True); r = w.arr("r", (n,)); x = f(w, "solve")(M, r)
    res = (M.T if tr else M) @ x
    w.forall([("k", 0, n)], lambda q: w.eq("residual", res[q], r[q]))
pair(j, lambda w: j(w, True))
def l(w, swap=False):
    n, m = w.int("n", 1), w.int("m", 1); A = w.arr("A", (m, n, n)); x = w.arr("x", (m, n)); y = f(w, "mult")(A, x)
    w.forall([("q", 0, m)], lambda q: w.forall([("k", 0, n)], lambda k: w.eq("product", y[q, k], ((A[q].T if swap else A[q]) @ x[q])[k])))
pair(l, lambda w: l(w, True))
def m(w, t=2):
    n, x = vec(w); k = w.int("k", 0); w.assume(k < n); v = w.real("v"); o = w.copy(x); f(w, "accumulate")(x, k, v); w.eq("twice", x[k], o[k] + t * v)
pair(m, lambda w: m(w, 1))
def n_(w, s=1):
    p, q = w.int("p", 1), w.int("q", 1); y = f(w, "nested")(p, q); w.forall([("i", 0, p)], lambda r: w.forall([("j", 0, q)], lambda t: w.eq("entry", y[r, t], r * q + s * t)))
pair(n_, lambda w: n_(w, 2))
def o(w, k=-1):
    n, x = vec(w); w.eq("last", f(w, "last")(x), x[k])
pair(o, lambda w: o(w, 0))
def p(w, lo=1):
    n, x = vec(w, 3); y = w.copy(x); f(w, "clear_middle")(x); w.eq("ends", x[0], y[0]); w.eq("ends", x[n - 1], y[n - 1]); w.forall([("k", lo, n - 1)], lambda k: w.eq("middle", x[k], 0))
pair(p, lambda w: p(w, 0))
def q(w, strict=False):
    n, x = vec(w); y = f(w, "largest")(x); w.forall([("k", 0, n)], lambda k: w.check("bound", x[k] < y if strict else x[k] <= y))
pair(q, lambda w: q(w, True))
def r(w, off=0):
    k = w.int("k", 0); c = w.mod("toy").Counter(); c.add(k); w.eq("count", c.n, k + off)
pair(r, lambda w: r(w, 1))
def s(w, sq=1):
    n, x = vec(w); z = w.real("z"); y = f(w, "grow")(x, z); w.eq("one more", f(w, "grow")(x[:0], z), sq)
pair(s, lambda w: s(w, 2))

def status(fn):
    Ctx.cur = Ctx()
    ct = world.Contract("T", "toy", fn, [], [None], True, True, 60, 5, [], 64)
    res = world.run_sym(ct, None, loader.Package(D), 1, 60)
    if res["kind"] != "done": return f"{res['kind']}: {res['err']}"
    st = {x.status for x in res["obs"]}
    return "proved" if st == {"proved"} else "refuted" if "refuted" in st else "open"
bad = 0; count = {}
try:
    for k, (right, wrong) in enumerate(T):
        x, y = status(right), status(wrong)
        count[x[:12], y[:12]] = count.get((x[:12], y[:12]), 0) + 1
        if y == "proved": bad = 1; print(f"UNSOUND: wrong contract {k} ({right.__name__}) was proved")
        if x == "refuted": bad = 1; print(f"FALSE ALARM: right contract {k} ({right.__name__}) was refuted")
        if x != "proved": print(f"note: right contract {k} ({right.__name__}): {x}")
        if y != "refuted": print(f"note: wrong contract {k} ({right.__name__}): {y}")
finally: shutil.rmtree(D, ignore_errors=True)
print("self-test:", count)
sys.exit(bad)
