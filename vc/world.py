"""One contract text, two readings: 'sym' = proof obligations over all inputs, 'conc' = execution of the real
code at one instance (runtime assertion checking; used to replay refutations and as the bounded stand-in)."""
import sys, os, math, random, time, traceback, itertools, importlib, copy
import numpy as _np
from . import terms as T
from .terms import *
from .ctx import Ctx, ctx, Unsupported, Infeasible, next_prefix
from . import values as V
from .values import SymInt, SymReal, SymBool, SymFun, Arr, Buf, DI, NP, PVAR, TPOLY, toix, topoly, tocond, mkbool, mkint, Trace, generic
from . import prove as PV

class Skip(Exception):
    """the instance does not satisfy the precondition"""
class Failed(Exception): pass

class Obligation:
    __slots__ = ("label", "status", "detail", "inst", "exc", "replay", "starved")
    def __init__(s, label, status, detail="", inst=None):
        s.label, s.status, s.detail, s.inst, s.exc, s.replay = label, status, detail, inst, False, None
        s.starved = status == "open" and Ctx.cur is not None and Ctx.cur.starved > 0      # the clock ran out somewhere: says nothing
    def json(s): return dict(label=s.label, status=s.status, detail=s.detail[:400], starved=s.starved)

def dump_inst(inst):
    return dict(seed=inst.seed, ints={k: int(v) for k, v in inst.ints.items()},
                over=[[n, list(i), list(a), v] for (n, i, a), v in inst.over.items()])
def load_inst(d):
    i = PV.Instance(d["seed"], d["ints"])
    for n, ix_, a, v in d.get("over", []): i.over[(n, tuple(ix_), tuple(a))] = v
    return i

# ------------------------------------------------------------------------------------------- symbolic
class SymWorld:
    sym = True
    def __init__(self, pkg, case, seed=1, deadline=None):
        self.pkg, self.case, self.seed, self.deadline = pkg, case, seed, deadline
        self.obs = []; self.np = pkg.np
        self.stack = []; self.rec = []
    def mod(self, name): return self.pkg.load("src." + name)
    # ---- arbitrary values
    def int(self, name, lo=0, hi=None):
        c = ctx(); s = isym(name)
        c.assume(ige(s - Ix(lo)))
        if hi is not None: c.assume(ige(Ix(hi) - s))
        if hi == lo: return lo
        return SymInt(s)
    def real(self, name, pos=False, nonneg=False):
        if pos: T.POSITIVE.add(name)
        if nonneg: T.NONNEG.add(name)
        return SymReal(T.sym(name))
    def arr(self, name, shape, pos=False, nonneg=False, dd=False):
        if dd: T.DIAGDOM.add(name)
        if pos: T.POSITIVE.add(name)
        if nonneg: T.NONNEG.add(name)
        sh = tuple(toix(x) for x in shape)
        return Arr(Buf(sh, Poly.atom(Atom("v", name, DI[:len(sh)]))))
    def symmetric(self, name, shape, pos=False):
        """last two axes symmetric: entries are read at (min,max)"""
        sh = tuple(toix(x) for x in shape); r = len(sh)
        i, j = DI[r - 2], DI[r - 1]
        a = Poly.atom(Atom("v", name, DI[:r]))
        b = Poly.atom(Atom("v", name, DI[:r - 2] + (j, i)))
        return Arr(Buf(sh, ite(ige(j - i), a, b)))
    def poles(self, name, shape):
        """array of pole vectors (object array, hidden axis)"""
        sh = tuple(toix(x) for x in shape)
        return Arr(Buf(sh, Poly.atom(Atom("v", name, DI[:len(sh)] + (isym(PVAR),))), "o"))
    def polevec(self, obj_entry, p): return obj_entry
    def fun(self, name): return SymFun(Poly.atom(Atom("v", name, (), (TPOLY,))))
    def funarr(self, name, shape):
        sh = tuple(toix(x) for x in shape)
        return Arr(Buf(sh, Poly.atom(Atom("v", name, DI[:len(sh)], (TPOLY,))), "fun"))
    def val(self, f, t):
        """value of an array-of-functions entry"""
        return f(t)
    def ufun(self, name, *args): return SymReal(app(name, (), tuple(topoly(a) for a in args)))
    def value(self, e, **at):
        """value of an expression of the symbolic algebra package (or of a plain number)"""
        from .spshim import SExpr
        if isinstance(e, SExpr): return SymReal(e.ev({k: topoly(v) for k, v in at.items()}))
        return self.num(e)
    def field(self, name, *vs):
        """an arbitrary expression of the named variables (of the symbolic algebra package the code uses)"""
        sp = self.pkg.sp
        return sp.Function("field_" + name)(*[sp.Symbol(v) for v in vs])
    def symfun(self, name):
        """an arbitrary function applicable to symbolic expressions"""
        return self.pkg.sp.Function("field_" + name)
    def fieldval(self, name, *args): return SymReal(app("field_" + name, (), tuple(topoly(a) for a in args)))
    def integral(self, fn, lo, hi):
        from .spshim import integral
        return SymReal(integral(topoly(fn(SymReal(T.sym("%u")))), topoly(lo), topoly(hi)))
    def funcomb(self, a, A, b, B):
        """array of functions a A + b B"""
        return Arr(Buf(A.shape_ix, topoly(a) * A.elem(DI[:A.ndim]) + topoly(b) * B.elem(DI[:B.ndim]), "fun"))
    def zero_state(self, z): z.buf.set(P0)
    def eye(self, n): return self.np.eye(n)
    def delta(self, i, j): return SymReal(bracket(ieq(toix(i) - toix(j))))
    def ind(self, cond): return SymReal(bracket(tocond(cond)))
    def ite(self, cond, a, b): return SymReal(ite(tocond(cond), topoly(a), topoly(b)))
    def ite_int(self, cond, a, b):
        """case split on an integer value"""
        return a if cond else b
    def num(self, x): return x if isinstance(x, SymReal) else SymReal(topoly(x))
    def sqrt(self, x): return SymReal(topoly(x).root())
    def exp(self, x): return SymReal(FN["exp"](topoly(x)))
    def sin(self, x): return SymReal(FN["sin"](topoly(x)))
    def abs(self, x): return abs(x)
    def land(self, *cs): return mkbool(cand(*[tocond(c) for c in cs]))
    def lor(self, *cs): return mkbool(cor(*[tocond(c) for c in cs]))
    def lnot(self, c): return mkbool(cnot(tocond(c)))
    def floor(self, x): return mkint(V.floor_ix(topoly(x)))
    def psum(self, fn):
        """sum over the entries of pole vectors: fn receives a selector"""
        j = T.fresh()
        return SymReal(topoly(fn(isym(j))).sum_over(j, NP))
    def pole(self, entry, sel):
        if isinstance(entry, Arr): return SymReal(entry.elem((sel,)))
        return SymReal(topoly(entry))
    def sel(self): return isym(PVAR)
    def pix(self, k): return toix(k)
    def cplx(self, a, b): return SymReal(topoly(a) + I_UNIT * topoly(b))
    def cexp(self, z): return self.np.exp(z)
    def re(self, z): return self.np.real(z)
    def im(self, z): return self.np.imag(z)
    def exists(self, n, fn):
        from .npshim import exists_cond
        k = V.freshsym("x")
        cases = generic([(k, toix(n))], lambda: tocond(fn(SymInt(isym(k)))))
        return mkbool(exists_cond(cor(*[cand(c, v) for c, v in cases]), [k], [toix(n)]))
    def vmin(self, a): return self.np.min(a)
    def nearest(self, u, pos):
        """index of the node of u nearest to pos (the first one if several are)"""
        d = u - pos
        return self.np.argmin(d[:, 0] * d[:, 0] + d[:, 1] * d[:, 1] + d[:, 2] * d[:, 2])
    def vmax(self, a): return self.np.max(a)
    def spectrum(self, x):
        """shifted discrete Fourier transform"""
        return self.np.fft.fftshift(self.np.fft.fft(x))
    def eigs(self, A):
        from .npshim import eigvals
        return eigvals(A)
    def sum(self, n, fn, lo=0):
        n = toix(n) - toix(lo)
        if n.const:
            r = SymReal(P0)
            for j in range(max(n.c, 0)): r = r + fn(mkint(Ix(j) + toix(lo)))
            return r
        k = V.freshsym("s")
        cases = generic([(k, n)], lambda: topoly(fn(SymInt(isym(k) + toix(lo)))))
        p = V.merge_polys(cases)
        j = T.fresh()
        return SymReal(p.subst({k: isym(j)}).sum_over(j, n))
    def forall(self, ranges, fn):
        """ranges: [(name, lo, hi)]"""
        syms = []; sizes = []
        for nm, lo, hi in ranges:
            k = V.freshsym(nm)
            syms.append((k, toix(lo))); sizes.append((k, toix(hi) - toix(lo)))
        for _, s in sizes:
            if ctx().entails(ige(-s)): return
        self.stack.append(syms)
        try: generic(sizes, lambda: fn(*[mkint(isym(k) + lo) for k, lo in syms]))
        finally: self.stack.pop()
    def record(self, label, p):
        if len(self.rec) < 400: self.rec.append((label, [(k, lo) for fr in self.stack for k, lo in fr], p, list(ctx().facts())))
    # ---- assertions
    def assume(self, cond):
        c = tocond(cond)
        ctx().assume(c)
    def feasible_here(self): return ctx().feasible()
    def _tick(self):
        if self.deadline and time.time() > self.deadline: raise TimeoutError
    def zero(self, label, p, **k):
        self._tick()
        self.record(label, p)
        facts = ctx().facts()
        b = {"n": 400, "t": time.time() + k.get("secs", 60)}
        r = PV.prove_zero(p, budget=b, tele=k.get("tele", False))
        while not r.ok and "def:" in p.key and not k.get("stay") and time.time() < b["t"]:
            if os.environ.get("VC_DEBUG2"): print("OPEN", label, len(p.d), r.detail[:1500], {k for k in set(V._defre.findall(p.key))})
            p = V.expand_newest(p)
            r = PV.prove_zero(p, budget=b, tele=k.get("tele", False))
        if r.ok: self.obs.append(Obligation(label, "proved")); return
        inst, good = PV.refute(p, facts, seed=self.seed)
        if inst is not None: self.obs.append(Obligation(label, "refuted", r.detail, dump_inst(inst)))
        else: self.obs.append(Obligation(label, "open", f"{r.detail} (numerically zero at {good} instances)"))
    def eq(self, label, a, b=0, **k):
        if isinstance(a, SymFun) or isinstance(b, SymFun):
            return self.zero(label, V.fun_poly(a) - V.fun_poly(b), **k)
        if isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)):
            return self.check(label, a == b)
        if isinstance(a, (str, tuple)) or a is None or isinstance(b, str) or b is None: return self.check(label, a == b)
        self.zero(label, topoly(a) - topoly(b), **k)
    def check(self, label, cond):
        self._tick()
        c = tocond(cond)
        if ctx().entails(c): self.obs.append(Obligation(label, "proved")); return
        if ctx().entails_nl(c): self.obs.append(Obligation(label, "proved")); return
        if "def:" in c.key and ctx().entails(V._expand_cond(c)): self.obs.append(Obligation(label, "proved")); return
        facts = ctx().facts()
        inst, good = PV.refute(P1 - bracket(c), facts, seed=self.seed)
        if inst is not None: self.obs.append(Obligation(label, "refuted", c.key, dump_inst(inst)))
        else: self.obs.append(Obligation(label, "open", f"{c.key[:200]} ({good} instances)"))
    def shape(self, label, a, shape):
        sh = a.shape if hasattr(a, "shape") else None
        self.check(label, sh is not None and len(sh) == len(shape) and self.land(*[x == y for x, y in zip(sh, shape)]))
    def same(self, label, a, b, **k):
        """equal shapes and entries (b may be a number)"""
        if not isinstance(a, Arr): return self.eq(label, a, b)
        if isinstance(b, Arr): self.shape(label, a, b.shape)
        nm = [(f"q{j}", 0, mkint(s)) for j, s in enumerate(a.shape_ix)]
        def at(*ix_):
            if a.kind in ("fun", "o"):
                x = a.elem(tuple(toix(i) for i in ix_))
                y = b.elem(tuple(toix(i) for i in ix_)) if isinstance(b, Arr) else topoly(b)
                return self.zero(label, x - y)
            return self.eq(label, a[ix_] if len(ix_) > 1 else a[ix_[0]], (b[ix_] if len(ix_) > 1 else b[ix_[0]]) if isinstance(b, Arr) else b, **k)
        if not nm: return self.eq(label, a.scalar(), b.scalar() if isinstance(b, Arr) else b)
        self.forall(nm, at)
    def copy(self, a): return a.copy()
    def opaque(self, a, tag):
        if isinstance(a, Arr): a.buf.opaque = tag
    def raises(self, label, fn, exc=Exception):
        try: fn()
        except (Unsupported, Infeasible, TimeoutError): raise
        except exc: self.obs.append(Obligation(label, "proved")); return
        if not ctx().feasible(): return
        self.obs.append(Obligation(label, "refuted", "no exception", self._witness()))
    def _witness(self):
        inst, good = PV.refute(P1, ctx().facts(), seed=self.seed)
        return dump_inst(inst) if inst is not None else None
    def trace(self): return Trace()

# ------------------------------------------------------------------------------------------- concrete
_real_loaded = {}
def real_module(name):
    """the real module, imported from /repo's working tree"""
    return importlib.import_module("src." + name)

class ConcFun:
    pass
class ConcWorld:
    sym = False
    def __init__(self, inst, case, rng=None, tol=1e-6, replay=False):
        self.inst, self.case, self.rng, self.tol, self.replay = inst, case, rng or random.Random(inst.seed), tol, replay
        self.np = _np; self.nchecks = 0; self.inputs = {}
        self.stack = (); self.vals = {}
    def mod(self, name): return real_module(name)
    def int(self, name, lo=0, hi=None):
        if hi == lo: return lo
        v = self.inst.ints.get(name)
        if v is None:
            top = hi if hi is not None and hi - lo <= 8 else lo + self.rng.choice([1, 2, 2, 3, 4])
            v = self.rng.randint(lo, top)
            self.inst.ints[name] = v
        if v < lo or (hi is not None and v > hi): raise Skip
        if v > 400: raise Skip
        self.inputs[name] = v
        return int(v)
    def real(self, name, pos=False, nonneg=False):
        if pos: T.POSITIVE.add(name)
        if nonneg: T.NONNEG.add(name)
        v = float(self.inst.value(name)); self.inputs[name] = v
        return v
    def arr(self, name, shape, pos=False, nonneg=False, dd=False):
        if dd: T.DIAGDOM.add(name)
        if pos: T.POSITIVE.add(name)
        if nonneg: T.NONNEG.add(name)
        a = _np.empty(tuple(int(s) for s in shape))
        for t in _np.ndindex(*a.shape): a[t] = self.inst.value(name, tuple(t))
        self.inputs[name] = a
        return a
    def symmetric(self, name, shape, pos=False):
        a = self.arr(name, shape)
        for t in _np.ndindex(*a.shape):
            if t[-2] > t[-1]: a[t] = a[t[:-2] + (t[-1], t[-2])]
        self.inputs[name] = a
        return a
    def poles(self, name, shape):
        n = self.inst.ints.setdefault("NPOLES", 2)
        a = _np.zeros(tuple(int(s) for s in shape), dtype=object)
        for t in _np.ndindex(*a.shape): a[t] = _np.array([self.inst.value(name, tuple(t) + (p,)) for p in range(n)])
        return a
    def _mkfun(self, name, idx):
        inst = self.inst
        return lambda t: inst.value(name, idx, (float(t),))
    def fun(self, name): return self._mkfun(name, ())
    def funarr(self, name, shape):
        a = _np.empty(tuple(int(s) for s in shape), dtype=object)
        for t in _np.ndindex(*a.shape): a[t] = self._mkfun(name, tuple(t))
        return a
    def val(self, f, t):
        """value of a function of time the code holds (one that cannot be evaluated is a failure of the code, not of the contract)"""
        if not callable(f): return f(t)
        try: r = f(t)
        except (NameError, TypeError, ValueError, AttributeError, KeyError, IndexError, ZeroDivisionError) as e:
            return self.fail("a function of time can be evaluated", f"{type(e).__name__}: {e}")
        if getattr(r, "free_symbols", None): return self.fail("a function of time gives a number", str(r)[:120])
        return r
    def ufun(self, name, *args): return self.inst.value(name, (), tuple(float(a) for a in args))
    def value(self, e, **at):
        if hasattr(e, "subs"):
            import sympy
            e = e.subs({sympy.Symbol(k): v for k, v in at.items()})
        return float(e)
    def field(self, name, *vs):
        import sympy
        return self.inst.smooth("field_" + name, [sympy.Symbol(v) for v in vs])
    def symfun(self, name): return lambda x: self.inst.smooth("field_" + name, [x])
    def fieldval(self, name, *args): return self.inst.smooth("field_" + name, [float(a) for a in args])
    def integral(self, fn, lo, hi):
        return (hi - lo) / 2 * sum(wt * fn((lo + hi) / 2 + (hi - lo) / 2 * q) for q, wt in zip(*_np.polynomial.legendre.leggauss(12)))
    def funcomb(self, a, A, b, B):
        r = _np.empty(A.shape, dtype=object)
        for t in _np.ndindex(*A.shape): r[t] = (lambda f, g: lambda x: a * f(x) + b * g(x))(A[t], B[t])
        return r
    def zero_state(self, z):
        for t in _np.ndindex(*z.shape): z[t] = 0.0 * _np.zeros(self.inst.ints.get("NPOLES", 2))
    def eye(self, n): return _np.eye(n)
    def delta(self, i, j): return 1.0 if i == j else 0.0
    def ind(self, c): return 1.0 if c else 0.0
    def ite(self, c, a, b): return a if c else b
    def ite_int(self, c, a, b): return a if c else b
    def num(self, x): return float(x)
    def sqrt(self, x): return math.sqrt(x)
    def exp(self, x): return math.exp(x)
    def sin(self, x): return math.sin(x)
    def abs(self, x): return abs(x)
    def land(self, *cs): return all(bool(c) for c in cs)
    def lor(self, *cs): return any(bool(c) for c in cs)
    def lnot(self, c): return not c
    def floor(self, x): return int(math.floor(x))
    def psum(self, fn):
        n = self.inst.ints.setdefault("NPOLES", 2)
        return sum(fn(p) for p in range(n))
    def pole(self, entry, sel):
        if isinstance(entry, _np.ndarray): return entry[sel] if sel < len(entry) else 0.0
        return entry
    def pix(self, k): return k
    def cplx(self, a, b): return complex(a, b)
    def cexp(self, z): return _np.exp(z)
    def re(self, z): return _np.real(z)
    def im(self, z): return _np.imag(z)
    def sel(self): return self.inst.value("sel") > 0 and 1 or 0
    def exists(self, n, fn): return any(bool(fn(k)) for k in range(n))
    def vmin(self, a): return _np.min(a)
    def nearest(self, u, pos):
        d = ((_np.asarray(u) - pos) ** 2).sum(axis=1)
        o = _np.sort(d)
        if len(o) > 1 and o[1] - o[0] < 1e-9: raise Skip
        return int(_np.argmin(d))
    def vmax(self, a): return _np.max(a)
    def spectrum(self, x): return _np.fft.fftshift(_np.fft.fft(x))
    def eigs(self, A): return _np.real(_np.linalg.eigvals(A))
    def sum(self, n, fn, lo=0):
        r = 0.0
        for j in range(lo, int(n)): r = r + fn(j)
        return r
    def forall(self, ranges, fn):
        st = self.stack
        try:
            for t in itertools.product(*[range(int(lo), int(hi)) for _, lo, hi in ranges]):
                self.stack = st + t
                fn(*t)
        finally: self.stack = st
    def assume(self, cond):
        if not cond: raise Skip
    def fail(self, label, detail): raise Failed(f"{label}: {detail}")
    def eq(self, label, a, b=0, tol=None, **k):
        self.nchecks += 1
        if callable(a) or callable(b):
            for t in (0.0, 0.37, -1.3, 2.9): self.eq(label, a(t) if callable(a) else a, b(t) if callable(b) else b)
            return
        if isinstance(a, (str, tuple, bool)) or a is None or isinstance(b, str) or b is None:
            if a != b: self.fail(label, f"{a!r} != {b!r}")
            return
        a = complex(a); b = complex(b)
        self.vals.setdefault((label, self.stack), []).append((a, b))
        if not (abs(a - b) <= (tol or self.tol) * (1 + abs(a) + abs(b))): self.fail(label, f"{a:.12g} differs from {b:.12g} at {self.stack}")
    def check(self, label, cond):
        self.nchecks += 1
        if not bool(cond): self.fail(label, "condition is false")
    def shape(self, label, a, shape):
        self.nchecks += 1
        if tuple(a.shape) != tuple(int(s) for s in shape): self.fail(label, f"shape {a.shape} instead of {tuple(shape)}")
    def same(self, label, a, b, **k):
        self.nchecks += 1
        if not isinstance(a, _np.ndarray): return self.eq(label, a, b)
        if isinstance(b, _np.ndarray): self.shape(label, a, b.shape)
        st = self.stack
        for t in _np.ndindex(*a.shape):
            self.stack = st + tuple(t)
            x = a[t]; y = b[t] if isinstance(b, _np.ndarray) else b
            if callable(x) or callable(y):
                for tt in (0.0, 0.41, -1.7, 3.3): self.eq(f"{label} at {t}", x(tt) if callable(x) else x, y(tt) if callable(y) else y)
            elif isinstance(x, _np.ndarray) or isinstance(y, _np.ndarray):
                n = self.inst.ints.get("NPOLES", 2)
                for p in range(max(n, 1)): self.eq(f"{label} at {t}", self.pole(x, p), self.pole(y, p))
            else: self.eq(label, x, y, **k)
        self.stack = st
    def zero(self, label, p, **k): raise AssertionError
    def opaque(self, a, tag): pass
    def copy(self, a): return a.copy() if a.dtype != object else copy.deepcopy(a) if False else a.copy()
    def raises(self, label, fn, exc=Exception):
        self.nchecks += 1
        try: fn()
        except exc: return
        self.fail(label, "no exception was raised")
    def trace(self):
        t = Trace.__new__(Trace); t.items = []; return t

# ------------------------------------------------------------------------------------------- contracts
CONTRACTS = {}
class Contract:
    def __init__(self, pid, name, fn, funcs, cases, sym, conc, secs, seeds, notes, maxpaths):
        self.pid, self.name, self.fn, self.funcs, self.cases, self.sym, self.conc = pid, name, fn, funcs, cases, sym, conc
        self.secs, self.seeds, self.notes, self.maxpaths = secs, seeds, notes, maxpaths
def contract(pid, name, funcs=(), cases=(None,), sym=True, conc=True, secs=120, seeds=40, notes=(), maxpaths=256):
    def deco(f):
        for p in (pid if isinstance(pid, (list, tuple)) else [pid]):
            CONTRACTS.setdefault(p, []).append(Contract(p, name, f, list(funcs), list(cases), sym, conc, secs, seeds, list(notes), maxpaths))
        return f
    return deco

def run_sym(ct, case, pkg, seed=1, secs=None):
    """-> dict(status, obligations, paths, error, stats)"""
    t0 = time.time()
    deadline = t0 + (secs or ct.secs)
    c = Ctx(); Ctx.cur = c
    prefix = []; paths = 0; obs = []; err = None; kind = "done"; recs = []
    try:
        while True:
            V.Trace.all.clear(); V.AttrLog.active.clear(); V.COLLECT.clear(); c.loopbufs.clear(); c.readlogs.clear()
            del c.frames[1:]
            c.frames[0].restart(prefix); c.axioms.clear()
            w = SymWorld(pkg, case, seed, deadline)
            try:
                ct.fn(w) if case is None else ct.fn(w, case)
                if not ctx().feasible(): pass
                else: obs += w.obs; paths += 1; recs += w.rec
            except Infeasible: pass
            except (Unsupported, TimeoutError): raise
            except RecursionError: raise Unsupported("recursion")
            except Exception as e:
                del c.frames[1:]
                if c.feasible():
                    tb = traceback.extract_tb(e.__traceback__)
                    where, fr = classify(tb)
                    text = f"{type(e).__name__}: {e} at {os.path.basename(fr.filename)}:{fr.lineno}"
                    if where == "harness": raise Unsupported(f"the contract does not fit the code: {text}")
                    if where == "engine" and not isinstance(e, (IndexError, ValueError, ZeroDivisionError)): raise Unsupported(f"not modelled: {text}")
                    obs += w.obs
                    obs.append(Obligation("no exception on this path", "refuted", text, w._witness()))
                    obs[-1].exc = True
                    paths += 1
            prefix = next_prefix(c.frames[0].taken)
            if prefix is None: break
            if paths > ct.maxpaths: raise Unsupported("too many paths")
            if time.time() > deadline: raise TimeoutError
    except Unsupported as e:
        kind = "unsupported"; tb = traceback.extract_tb(e.__traceback__)
        loc = [f for f in tb if "/python/src/" in f.filename]
        err = f"{e}" + (f" at {os.path.basename(loc[-1].filename)}:{loc[-1].lineno} `{loc[-1].line}`" if loc else "")
        if os.environ.get("VC_DEBUG"): traceback.print_exc()
    except TimeoutError: kind = "timeout"; err = "time budget exhausted"
    except RecursionError: kind = "unsupported"; err = "recursion"
    return dict(kind=kind, obs=obs, paths=paths, err=err, recs=recs, ctx=c, queries=c.queries, solver_time=c.solver_time, wall=time.time() - t0)

def run_conc(ct, case, inst, tol=1e-6, replay=False):
    """-> ('ok', nchecks) | ('skip', why) | ('fail', text) | ('harness', text)"""
    w = ConcWorld(inst, case, tol=tol, replay=replay)
    try:
        with _np.errstate(all="ignore"):
            ct.fn(w) if case is None else ct.fn(w, case)
    except Skip: return "skip", "precondition", w
    except Failed as e: return "fail", str(e), w
    except _np.linalg.LinAlgError as e: return "skip", "singular", w
    except Exception as e:
        where, fr = classify(traceback.extract_tb(e.__traceback__))
        text = "".join(traceback.format_exception(e))[-1500:]
        # an exception raised by the code under test (or by numpy called from it) on a valid input is a failure;
        # one raised by the contract text itself (a name it relies on is gone) decides nothing
        if where == "harness": return "harness", text, w
        return "fail", f"unexpected {type(e).__name__}: {e} ({os.path.basename(fr.filename)}:{fr.lineno})\n" + text, w
    return "ok", w.nchecks, w

def classify(tb):
    """who raised: the code under test, the verifier's models, or the contract text"""
    for f in reversed(tb):
        if "/python/src/" in f.filename or f.filename.startswith(os.environ.get("VC_SRC", "/repo/python/src")):
            return ("code" if f is tb[-1] or "/vc/" not in tb[-1].filename else "engine"), f
        if "/contracts/" in f.filename or f.filename.endswith("world.py"): return "harness", f
    return "harness", tb[-1]

def conform(ct, case, res, seed):
    """compare the terms the symbolic execution produced with a run of the real code at the same instance
    -> (compared, mismatches)"""
    c = res["ctx"]; Ctx.cur = c
    inst = PV.Instance(seed, {})
    k, d, w = run_conc(ct, case, inst)
    if k != "ok": return 0, []
    inst.defs = c.defs
    n = 0; bad = []
    seen = {}
    t0 = time.time()
    for label, syms, p, facts in res["recs"]:
        if time.time() - t0 > 20: break
        for (lb, idx), vals in w.vals.items():
            if lb != label or len(idx) != len(syms) or len(vals) != 1 or n > 300: continue
            e = {}
            try:
                for (s, lo), v in zip(syms, idx): e[s] = v - inst.ix(lo, e)
                if not all(inst.cond(f, e) for f in facts): continue
                x = inst.poly(p, e); mag = inst.magnitude(p, e)
            except (Unsupported, ZeroDivisionError, OverflowError, ValueError, KeyError, _np.linalg.LinAlgError): continue
            a, b = vals[0]
            n += 1
            if not abs((a - b) - x) <= 1e-6 * (1 + abs(a) + abs(b) + mag): bad.append(f"{label} at {idx}: real code {a - b:.9g}, terms {x:.9g}")
    return n, bad
