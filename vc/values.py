"""Symbolic values: integers, reals, booleans, arrays of symbolic shape, lists of symbolic length."""
import itertools, types, math, builtins
from fractions import Fraction as Fr
from .terms import *
from . import terms as T
from .ctx import Ctx, ctx, Unsupported, Infeasible, next_prefix, Frame

_cnt = itertools.count()
def freshsym(p): return f"{p}!{next(_cnt)}"

D = tuple(f"%{i}" for i in range(8))
DI = tuple(isym(d) for d in D)
PVAR = "%p"              # hidden axis of pole vectors
NP = isym("NPOLES")      # universal length of the hidden axis (entries are zero padded)
TVAR = "%t"
TPOLY = sym(TVAR)

# ------------------------------------------------------------------ substitution of real symbols
def rsubst(p, m):
    if not any(n in p.key for n in m): return p
    acc = P0
    for mo, c in p.d.items():
        if not any(n in mo.key for n in m): acc = acc + Poly({mo: c}); continue
        b, f = T._rename_fresh(mo) if mo.b else ((), mo.f)
        r = P1
        for a, e in f: r = r * atom_rsubst(a, m).pow(e)
        if b:
            d = {}
            for m2, c2 in r.d.items():
                b2, f2 = T._rename_fresh(m2) if m2.b else ((), m2.f)
                T._addto(d, mk(tuple(b2) + tuple(b), f2), c2)
            r = Poly(d)
        acc = acc + r.scale(c)
    return acc
def atom_rsubst(a, m):
    if not any(n in a.key for n in m): return Poly.atom(a)
    if a.kind == "v" and a.name in m and not a.idx and not a.args: return m[a.name]
    if a.kind == "br": return bracket(cond_rsubst(a.extra[0], m))
    args = tuple(rsubst(x, m) for x in a.args)
    if a.kind == "rc": return args[0].recip()
    if a.kind == "pw": return args[0].root()
    if a.kind == "v" and a.name in FN: return FN[a.name](*args)
    return Poly.atom(Atom(a.kind, a.name, a.idx, args, a.extra))
def cond_rsubst(c, m):
    if c.op in ("rge", "req"):
        q = rsubst(c.a[0], m)
        return rge(q) if c.op == "rge" else req(q)
    if c.op == "not": return cnot(cond_rsubst(c.a[0], m))
    if c.op == "and": return cand(*[cond_rsubst(x, m) for x in c.a])
    if c.op == "or": return cor(*[cond_rsubst(x, m) for x in c.a])
    return c

# ------------------------------------------------------------------ scalars
class SymBool:
    __slots__ = ("c",)
    def __init__(self, c): self.c = c
    def __bool__(self): return ctx().decide(self.c)
    def __and__(self, o): return mkbool(cand(self.c, tocond(o)))
    __rand__ = __and__
    def __or__(self, o): return mkbool(cor(self.c, tocond(o)))
    __ror__ = __or__
    def __invert__(self): return mkbool(cnot(self.c))
    def __xor__(self, o):
        o = tocond(o); return mkbool(cor(cand(self.c, cnot(o)), cand(cnot(self.c), o)))
    def _r(self): return SymReal(bracket(self.c))
    def __mul__(self, o): return o * self._r() if isinstance(o, Arr) else self._r() * o
    __rmul__ = __mul__
    def __add__(self, o): return self._r() + o
    __radd__ = __add__
    def __sub__(self, o): return self._r() - o
    def __rsub__(self, o): return o - self._r()
    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            o = tocond(o); return mkbool(cor(cand(self.c, o), cand(cnot(self.c), cnot(o))))
        return self._r() == o
    def __hash__(self): return hash(self.c)
    def any(self): return self
    all = any
    def __repr__(self): return f"SymBool({self.c})"

def mkbool(c):
    if c is TRUE: return True
    if c is FALSE: return False
    return SymBool(c)
def tocond(x):
    if isinstance(x, SymBool): return x.c
    if isinstance(x, bool): return TRUE if x else FALSE
    if isinstance(x, Cond): return x
    if isinstance(x, SymReal): return cnot(req(x.p))
    if isinstance(x, SymInt): return cnot(ieq(x.i))
    if isinstance(x, Arr):
        if not x.shape_ix or all(s is ONE for s in x.shape_ix): return tocond(x.scalar())
        raise Unsupported("truth value of an array")
    if x is None: return FALSE
    return TRUE if x else FALSE

def mkint(i):
    return i.c if i.const else SymInt(i)
class SymInt:
    __slots__ = ("i",)
    def __init__(self, i): self.i = i
    def __repr__(self): return f"SymInt({self.i})"
    def __hash__(self): return hash(self.i)
    def _o(self, o):
        if isinstance(o, SymInt): return o.i
        if isinstance(o, bool): return Ix(int(o))
        if isinstance(o, int): return Ix(o)
        return None
    def _real(self): return SymReal(Poly.from_ix(self.i))
    def __add__(self, o):
        k = self._o(o)
        return mkint(self.i + k) if k is not None else self._real() + o
    __radd__ = __add__
    def __sub__(self, o):
        k = self._o(o)
        return mkint(self.i - k) if k is not None else self._real() - o
    def __rsub__(self, o):
        k = self._o(o)
        return mkint(k - self.i) if k is not None else o - self._real()
    def __neg__(self): return mkint(-self.i)
    def __pos__(self): return self
    def __mul__(self, o):
        if isinstance(o, list): return SymList.repeat(o, self.i)
        k = self._o(o)
        if k is not None and k.const: return mkint(self.i.scale(k.c))
        return self._real() * o
    __rmul__ = __mul__
    def __truediv__(self, o): return self._real() / o
    def __rtruediv__(self, o): return o / self._real()
    def __pow__(self, o): return self._real() ** o
    def __floordiv__(self, o): raise Unsupported("integer division of a symbolic integer")
    def __mod__(self, o): raise Unsupported("mod of a symbolic integer")
    def _cmp(self, o, f, g):
        k = self._o(o)
        if k is not None: return mkbool(f(self.i, k))
        return getattr(self._real(), g)(o)
    def __lt__(self, o): return self._cmp(o, lambda a, b: ige(b - a - ONE), "__lt__")
    def __le__(self, o): return self._cmp(o, lambda a, b: ige(b - a), "__le__")
    def __gt__(self, o): return self._cmp(o, lambda a, b: ige(a - b - ONE), "__gt__")
    def __ge__(self, o): return self._cmp(o, lambda a, b: ige(a - b), "__ge__")
    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple, list, dict)): return False
        return self._cmp(o, lambda a, b: ieq(a - b), "__eq__")
    def __ne__(self, o):
        if o is None or isinstance(o, (str, tuple, list, dict)): return True
        return self._cmp(o, lambda a, b: cnot(ieq(a - b)), "__ne__")
    def __bool__(self): return ctx().decide(cnot(ieq(self.i)))
    def __index__(self): raise Unsupported("symbolic integer where a concrete one is needed")
    def __abs__(self): return self if (self >= 0) else -self
    def __int__(self): raise Unsupported("int() of symbolic integer")
    def __float__(self): raise Unsupported("float() of symbolic integer")
    @property
    def real(self): return self
    def item(self): return self
    def astype(self, t): return self
    @property
    def shape(self): return ()
    @property
    def size(self): return 1
    @property
    def ndim(self): return 0

def toix(x):
    if isinstance(x, SymInt): return x.i
    if isinstance(x, bool): return Ix(int(x))
    if isinstance(x, int): return Ix(x)
    if isinstance(x, Ix): return x
    if isinstance(x, SymReal):
        r = poly_to_ix(x.p)
        if r is not None: return r
    if isinstance(x, Arr) and not x.shape_ix: return toix(x.scalar())
    if isinstance(x, float) and x == int(x): return Ix(int(x))
    raise Unsupported(f"not an integer: {type(x).__name__}")
def poly_to_ix(p):
    r = ZERO
    for m, c in p.d.items():
        if c.denominator != 1: return None
        if m is UNIT: r = r + Ix(int(c)); continue
        if m.b or len(m.f) != 1 or m.f[0][1] != 1 or m.f[0][0].kind != "ix": return None
        r = r + m.f[0][0].idx[0].scale(int(c))
    return r

class SymReal:
    __slots__ = ("p",)
    def __init__(self, p): self.p = p
    def __repr__(self): return f"SymReal({self.p})"
    def __hash__(self): return hash(self.p)
    def _bin(self, o, f):
        if isinstance(o, (Arr, SymFun)): return NotImplemented
        q = topoly(o, None)
        if q is None: return NotImplemented
        return SymReal(f(self.p, q))
    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._bin(o, lambda a, b: a * recip(b))
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: b * recip(a))
    def __neg__(self): return SymReal(-self.p)
    def __pos__(self): return self
    def __abs__(self): return SymReal(FN["abs"](self.p))
    def __pow__(self, o):
        if isinstance(o, SymReal) and o.p.is_const(): o = o.p.const()
        if isinstance(o, (int, Fr)) or (isinstance(o, float)):
            o = Fr(o) if not isinstance(o, Fr) else o
            if o.denominator == 1: return SymReal(self.p.pow(int(o)) if o >= 0 else recip(self.p.pow(int(-o))))
            if o.denominator == 2:
                r = self.p.root().pow(abs(o.numerator))
                return SymReal(r if o > 0 else recip(r))
        k = topoly(o, None)
        if k is not None and not isinstance(k, complex) and T.is_pos(self.p):      # a^k = exp(k log a) for a > 0
            return SymReal(FN["exp"](k * FN["log"](self.p)))
        raise Unsupported("power with general exponent")
    def __rpow__(self, o): return SymReal(topoly(o)) ** self
    def __mod__(self, o):
        return SymReal(realmod(self.p, topoly(o)))
    def __rmod__(self, o):
        return SymReal(realmod(topoly(o), self.p))
    def __floordiv__(self, o): return SymReal(Poly.from_ix(floor_ix(self.p * recip(topoly(o)))))
    def _cmp(self, o, f):
        if isinstance(o, (Arr, SymFun)): return NotImplemented
        if isinstance(o, float) and o in (math.inf, -math.inf): return None
        q = topoly(o, None)
        if q is None: return NotImplemented
        return mkbool(f(self.p, q))
    def __le__(self, o):
        r = self._cmp(o, lambda a, b: rge(b - a)); return (o > 0) if r is None else r
    def __lt__(self, o):
        r = self._cmp(o, lambda a, b: cnot(rge(a - b))); return (o > 0) if r is None else r
    def __ge__(self, o):
        r = self._cmp(o, lambda a, b: rge(a - b)); return (o < 0) if r is None else r
    def __gt__(self, o):
        r = self._cmp(o, lambda a, b: cnot(rge(b - a))); return (o < 0) if r is None else r
    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple, list, dict)): return False
        return self._cmp(o, lambda a, b: req(a - b))
    def __ne__(self, o):
        if o is None or isinstance(o, (str, tuple, list, dict)): return True
        r = self._cmp(o, lambda a, b: cnot(req(a - b))); return r
    def __bool__(self): return ctx().decide(cnot(req(self.p)))
    def __float__(self):
        if self.p.is_const(): return float(self.p.const())
        raise Unsupported("float() of a symbolic real")
    def __int__(self): raise Unsupported("int() of a symbolic real")
    def __index__(self): raise Unsupported("symbolic real as index")
    @property
    def real(self): return SymReal(realpart(self.p))
    @property
    def imag(self): return SymReal(imagpart(self.p))
    def conjugate(self): return SymReal(conj(self.p))
    @property
    def shape(self): return ()
    @property
    def size(self): return 1
    @property
    def ndim(self): return 0
    def item(self): return self
    def copy(self): return self
    def astype(self, t):
        from .npshim import exact
        exact(t)
        return self
    def reshape(self, *s): return as_arr(self).reshape(*s)
    def sum(self): return self
    def dot(self, o): return self * o

def recip(p):
    """1/p; records that p must not vanish"""
    if p.is_zero(): raise ZeroDivisionError
    return p.recip()

_im = T.IMAG
def csplit(p):
    """(real part, imaginary part)"""
    if _im.key not in p.key: return p, P0
    RE, IM = {}, {}
    for m, c in p.d.items():
        b, f = T._rename_fresh(m) if m.b else ((), m.f)
        re, im = P1, P0
        for a, e in f:
            if _im.key not in a.key:
                q = Poly(mk((), ((a, e),))); re, im = re * q, im * q
                continue
            x, y = _asplit(a)
            if e < 0:
                n = (x * x + y * y).recip(); x, y, e = x * n, -(y * n), -e
            for _ in range(e): re, im = re * x - im * y, re * y + im * x
        for part, acc in ((re, RE), (im, IM)):
            for m2, c2 in part.d.items():
                b2, f2 = T._rename_fresh(m2) if m2.b else ((), m2.f)
                T._addto(acc, mk(tuple(b2) + tuple(b), f2), c2 * c)
    return Poly(RE), Poly(IM)
def _asplit(a):
    if a is _im: return P0, P1
    if a.kind == "v" and a.name == "exp":
        x, y = csplit(a.args[0]); g = T.FN["exp"](x)
        return g * T.FN["cos"](y), g * T.FN["sin"](y)
    if a.kind == "rc":
        x, y = csplit(a.args[0]); n = (x * x + y * y).recip()
        return x * n, -(y * n)
    if a.kind == "br": return bracket(a.extra[0]), P0
    raise Unsupported(f"parts of a complex {a.kind} {a.name}")
def realpart(p): return csplit(p)[0]
def imagpart(p): return csplit(p)[1]
def conj(p): return realpart(p) - imagpart(p) * T.I_UNIT

def floor_ix(p):
    """floor of a real as a named integer"""
    r = poly_to_ix(p)
    if r is not None: return r
    if p.is_const(): return Ix(math.floor(p.const()))
    # whole part: floor(k + x) = k + floor(x)
    whole = {m: c for m, c in p.d.items() if c.denominator == 1 and not m.b and all(a.kind == "ix" and e > 0 for a, e in m.f)}
    if whole:
        w = poly_to_ix(Poly(whole))
        if w is not None: return w + floor_ix(p - Poly(whole))
    if ctx().entails(rge(p)) and ctx().entails(cnot(rge(p - P1))): return Ix(0)
    n = named_int("floor", p.key, ("floor", p))
    f = Poly.from_ix(isym(n))
    ctx().axiom(rge(p - f)); ctx().axiom(cnot(rge(p - f - P1)))
    if is_nonneg(p): ctx().axiom(ige(isym(n)))
    return isym(n)
def realmod(p, q):
    """python/numpy remainder for q>0 (and sign of q)"""
    return p - q * Poly.from_ix(floor_ix(p * recip(q)))

_named = {}
def named_int(kind, key, defn):
    k = (kind, key)
    n = _named.get(k)
    if n is None: n = _named[k] = f"{kind}~{len(_named)}"
    ctx().defs[n] = defn
    return n

def topoly(x, default=Ellipsis):
    if isinstance(x, SymReal): return x.p
    if isinstance(x, SymInt): return Poly.from_ix(x.i)
    if isinstance(x, bool): return P1 if x else P0
    if isinstance(x, (int, float, Fr)):
        return Poly.c(x)
    if isinstance(x, complex): return T.complexp(x)
    if isinstance(x, SymBool): return bracket(x.c)
    if isinstance(x, Poly): return x
    if isinstance(x, Arr) and all(s is ONE for s in x.shape_ix): return x.elem((ZERO,) * len(x.shape_ix))
    if default is Ellipsis: raise Unsupported(f"not a real: {type(x).__name__}")
    return default
def real(p): return SymReal(p)

import re as _re
_defre = _re.compile(r"def:[^!\[]*!(\d+)")
def expand_newest(p):
    """expand the most recently defined named contents"""
    n = max(_defre.finditer(p.key), key=lambda x: int(x.group(1))).group(0)
    global _only
    _only = n
    try: return expand_defs(p, 1)
    finally: _only = None
_only = None
def expand_defs(p, rounds=12):
    """replace named array contents by their definitions"""
    c = ctx()
    for _ in range(rounds):
        if (_only or "def:") not in p.key: return p
        out = P0
        for m, k in p.d.items():
            if "def:" not in m.key: out = out + Poly({m: k}); continue
            b, f = T._rename_fresh(m) if m.b else ((), m.f)
            r = P1
            for a, e in f:
                q = _expand_atom(a)
                r = r * (q.pow(e) if e >= 0 else q.recip().pow(-e))
            d = {}
            for m2, c2 in r.d.items():
                b2, f2 = T._rename_fresh(m2) if m2.b else ((), m2.f)
                T._addto(d, mk(tuple(b2) + tuple(b), f2), c2)
            out = out + Poly(d).scale(k)
        p = c.resolve(out)
    return p
def _expand_atom(a):
    if (_only or "def:") not in a.key: return Poly.atom(a)
    if a.kind == "v" and (a.name == _only if _only else a.name.startswith("def:")):
        _, r, t = ctx().defs[a.name]
        sub = {D[j]: a.idx[j] for j in range(r)}
        if len(a.idx) > r: sub[PVAR] = a.idx[r]
        return t.subst(sub)
    args = tuple(expand_defs(x) for x in a.args)
    if a.kind == "br": return bracket(_expand_cond(a.extra[0]))
    if a.kind == "rc": return args[0].recip()
    if a.kind == "pw": return args[0].root()
    if a.kind == "v" and a.name in FN: return FN[a.name](*args)
    return Poly.atom(Atom(a.kind, a.name, a.idx, args, a.extra))
def _expand_cond(c):
    if "def:" not in c.key: return c
    if c.op in ("rge", "req"):
        q = expand_defs(c.a[0]); return rge(q) if c.op == "rge" else req(q)
    if c.op == "not": return cnot(_expand_cond(c.a[0]))
    if c.op in ("and", "or"): return (cand if c.op == "and" else cor)(*[_expand_cond(x) for x in c.a])
    return c

# ------------------------------------------------------------------ time functions
class _Code:
    co_varnames = ("t",)
    co_argcount = 1
class SymFun:
    """function of time given by a term in %t"""
    __code__ = _Code()
    __name__ = "f"
    def __init__(self, p): self.p = p
    def __call__(self, t): return SymReal(rsubst(self.p, {TVAR: topoly(t)}))
    def __eq__(self, o):
        return isinstance(o, SymFun) and o.p == self.p
    def __ne__(self, o):
        r = (self == o); return not r
    def __hash__(self): return hash(self.p)
    def __repr__(self): return f"SymFun({self.p})"
def fun_poly(f):
    if isinstance(f, SymFun): return f.p
    if callable(f): return topoly(f(SymReal(TPOLY)))
    raise Unsupported("not a function of time")

# ------------------------------------------------------------------ generic evaluation over index ranges

def generic(names_sizes, fn):
    """evaluate fn() for generic indices; -> list of (cond, value), one per path of fn"""
    c = ctx()
    fr = c.push([n for n, _ in names_sizes])
    prefix = []; out = []
    try:
        while True:
            fr.restart(prefix)
            for n, s in names_sizes:
                fr.facts.append(ige(isym(n))); fr.facts.append(ige(s - isym(n) - ONE))
            try: out.append((None, fn()))
            except Infeasible: pass
            if out: out[-1] = (cand(*[k if b else cnot(k) for k, b in fr.taken]), out[-1][1])
            prefix = next_prefix(fr.taken)
            if prefix is None: break
            if len(out) > 64: raise Unsupported("too many paths in a loop body")
    finally: c.pop()
    return out
def merge_polys(cases):
    """sum of [cond]*value over exhaustive exclusive cases"""
    if len(cases) == 1: return cases[0][1]
    r = P0
    for c, p in cases: r = r + bracket(c) * p
    return r

# ------------------------------------------------------------------ arrays
class Buf:
    __slots__ = ("shape", "tpl", "kind", "uid", "opaque")
    _n = itertools.count()
    def __init__(self, shape, tpl, kind="r"):
        self.shape, self.tpl, self.kind = tuple(shape), tpl, kind
        self.uid = next(Buf._n); self.opaque = None
    def set(self, tpl):
        c = ctx()
        for d in c.loopbufs:
            if self.uid < d.born and self not in d: d[self] = self.tpl
        if self.opaque and not c.loopbufs and len(tpl.d) > 1:
            # name the new contents; the definition is expanded only where a proof needs it
            n = freshsym("def:" + self.opaque)
            c.defs[n] = ("arr", len(self.shape), tpl)
            tpl = Poly.atom(Atom("v", n, DI[:len(self.shape)] + ((isym(PVAR),) if self.kind == "o" else ())))
        self.tpl = tpl
    def __hash__(self): return self.uid
    def __eq__(self, o): return self is o

def dims_facts(shape):
    out = []
    for d, s in zip(D, shape): out += [ige(isym(d)), ige(s - isym(d) - ONE)]
    return out

class Flags: writeable = True
class Arr:
    """view of a buffer; im[j] is the buffer index of axis j in terms of the view indices %0.."""
    __array_priority__ = 1000
    def __init__(self, buf, shape=None, im=None):
        self.buf = buf
        self.shape_ix = tuple(buf.shape if shape is None else shape)
        self.im = tuple(DI[:len(buf.shape)] if im is None else im)
    @staticmethod
    def new(shape, tpl, kind="r"):
        shape = tuple(toix(s) for s in shape)
        tpl = ctx().resolve(tpl, dims_facts(shape))
        return Arr(Buf(shape, tpl, kind))
    # ---- info
    @property
    def kind(self): return self.buf.kind
    @property
    def shape(self): return tuple(mkint(s) for s in self.shape_ix)
    @shape.setter
    def shape(self, s):
        v = self.reshape(s); self.shape_ix, self.im = v.shape_ix, v.im
    @property
    def ndim(self): return len(self.shape_ix)
    @property
    def size(self):
        r = 1
        for s in self.shape: r = r * s
        return r
    @property
    def dtype(self): return {"fun": object, "o": object, "i": int}.get(self.kind, float)
    @property
    def flags(self): return Flags
    def __repr__(self): return f"Arr{self.shape}<{self.kind}>"
    def elem(self, idx):
        """Poly at the given view indices (tuple of Ix)"""
        m = {d: i for d, i in zip(D, idx)}
        bi = tuple(e.subst(m) for e in self.im)
        p = self.buf.tpl
        c = ctx()
        if c.readlogs:
            fs = c.frames[-1].facts + c.frames[-2].facts if len(c.frames) > 1 else []
            for l in c.readlogs: l.append((self.buf, bi, self.shape_ix, fs))
        return p.subst({D[j]: b for j, b in enumerate(bi) if b is not DI[j]})
    def tpl(self):
        return ctx().resolve(self.elem(DI[:self.ndim]), dims_facts(self.shape_ix))
    def wrap(self, p):
        p = ctx().resolve(p)
        if self.kind == "fun": return SymFun(p)
        if self.kind == "o": return Arr(Buf((NP,), p.subst({PVAR: DI[0]}), "hid"))
        if self.kind == "i":
            i = poly_to_ix(p)
            if i is not None: return mkint(i)
        if self.kind == "b": return poly_to_bool(p)
        return SymReal(p)
    def scalar(self): return self.wrap(self.elem((ZERO,) * self.ndim))
    def item(self, *a):
        if not a: return self.scalar()
        return self[a if len(a) > 1 else a[0]]
    # ---- views
    def view(self, shape, im_new):
        """im_new: tuple (per view axis of self) of Ix in new view indices"""
        m = {d: e for d, e in zip(D, im_new)}
        return Arr(self.buf, shape, tuple(e.subst(m) for e in self.im))
    @property
    def T(self):
        n = self.ndim
        return self.view(self.shape_ix[::-1], tuple(DI[n - 1 - j] for j in range(n)))
    def transpose(self, *ax):
        if not ax: return self.T
        if len(ax) == 1 and isinstance(ax[0], (tuple, list)): ax = ax[0]
        inv = [0] * len(ax)
        for k, a in enumerate(ax): inv[a] = k
        return self.view(tuple(self.shape_ix[a] for a in ax), tuple(DI[inv[j]] for j in range(len(ax))))
    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)): shape = tuple(shape[0])
        shape = [toix(s) for s in shape]
        src = [(j, s) for j, s in enumerate(self.shape_ix) if s is not ONE]
        if any(s.const and s.c == -1 for s in shape):
            rest = [s for s in shape if s is not ONE and not (s.const and s.c == -1)]
            left = list(src)
            for s in rest:
                for x in left:
                    if same(x[1], s): left.remove(x); break
                else: raise Unsupported("reshape with -1")
            if len(left) > 1: raise Unsupported("reshape with -1")
            shape = [(left[0][1] if left else ONE) if (s.const and s.c == -1) else s for s in shape]
        dst = [(j, s) for j, s in enumerate(shape) if s is not ONE]
        if len(src) == len(dst) and all(same(a[1], b[1]) for a, b in zip(src, dst)):
            im = [ZERO] * self.ndim
            for (j, _), (k, _) in zip(src, dst): im[j] = DI[k]
            return self.view(tuple(shape), tuple(im))
        if all(s.const for s in self.shape_ix) and all(s.const for s in shape):
            from .npshim import const_elems, from_elems
            e = const_elems(self)
            return from_elems([self.elem(i) for i in e], tuple(s.c for s in shape), self.kind)
        # axes of size possibly one: pair by position
        if len(src) < len(dst) or len(src) > len(dst):
            big, small = (dst, src) if len(dst) > len(src) else (src, dst)
            k = 0; match = []
            for j, s in big:
                if k < len(small) and same(s, small[k][1]): match.append((j, small[k][0])); k += 1
                elif ctx().decide(ieq(s - ONE)): pass
                else: raise Unsupported("reshape")
            if k == len(small):
                im = [ZERO] * self.ndim
                for j, q in match:
                    if big is dst: im[q] = DI[j]
                    else: im[j] = DI[q]
                return self.view(tuple(shape), tuple(im))
        raise Unsupported(f"reshape {self.shape} -> {shape}")
    def ravel(self):
        if self.ndim == 1: return self
        nz = [j for j, s in enumerate(self.shape_ix) if s is not ONE]
        if len(nz) <= 1:
            return self.reshape((self.shape_ix[nz[0]] if nz else ONE,))
        if all(s.const for s in self.shape_ix):
            n = 1
            for s in self.shape_ix: n *= s.c
            return self.reshape((n,))
        raise Unsupported("ravel of a symbolic matrix")
    flatten = lambda self: self.ravel().copy()
    def squeeze(self, axis=None):
        keep = [j for j, s in enumerate(self.shape_ix) if s is not ONE]
        im = [ZERO] * self.ndim
        for k, j in enumerate(keep): im[j] = DI[k]
        return self.view(tuple(self.shape_ix[j] for j in keep), tuple(im))
    @property
    def flat(self): return self.ravel()
    # ---- indexing
    def _index(self, key):
        """-> (shape, im) of the view, or special tuple for array indexing"""
        if not isinstance(key, tuple): key = (key,)
        if any(isinstance(k, (list,)) for k in key) or any(isinstance(k, Arr) and k.ndim > 0 for k in key): return None
        if any(k is Ellipsis for k in key):
            p = [j for j, k in enumerate(key) if k is Ellipsis][0]
            used = sum(1 for k in key if k is not None and k is not Ellipsis)
            key = key[:p] + (slice(None),) * (self.ndim - used) + key[p + 1:]
        used = sum(1 for k in key if k is not None)
        if used > self.ndim: raise IndexError("too many indices for array")
        key = key + (slice(None),) * (self.ndim - used)
        shape = []; im = []; j = 0
        for k in key:
            if k is None: shape.append(ONE); continue
            s = self.shape_ix[j]; j += 1
            if isinstance(k, slice):
                d = DI[len(shape)]
                lo, n, st = norm_slice(k, s)
                shape.append(n); im.append(lo + d.scale(st))
            else:
                im.append(norm_index(toix(k), s))
        return tuple(shape), tuple(im)
    def __getitem__(self, key):
        if isinstance(key, NonZero): return Selection(self, key)
        v = self._index(key)
        if v is None: return self._fancy(key)
        shape, im = v
        r = self.view(shape, im)
        if not shape: return r.scalar()
        return r
    def _fancy(self, key):
        if not isinstance(key, tuple): key = (key,)
        key = key + (slice(None),) * (self.ndim - len(key))
        # one list / integer array, the others basic
        pos = [j for j, k in enumerate(key) if isinstance(k, list) or (isinstance(k, Arr) and k.ndim > 0)]
        if len(pos) != 1: raise Unsupported("fancy indexing")
        q = key[pos[0]]
        if isinstance(q, Arr) and q.kind == "b": raise Unsupported("boolean mask")
        shape = []; im = []; 
        for j, k in enumerate(key):
            s = self.shape_ix[j]
            d = DI[len(shape)]
            if j == pos[0]:
                if isinstance(q, list): q = as_arr(q, kind="i")
                if q.ndim != 1: raise Unsupported("fancy indexing")
                e = poly_to_ix(q.elem((d,)))
                if e is None and isinstance(key[j], list): return self._picked(key, j)
                if e is None: raise Unsupported("fancy indexing by a non-affine index")
                shape.append(q.shape_ix[0]); im.append(e)
            elif isinstance(k, slice):
                lo, n, st = norm_slice(k, s); shape.append(n); im.append(lo + d.scale(st))
            else: im.append(norm_index(toix(k), s))
        r = self.view(tuple(shape), tuple(im))
        return r.copy()
    def _picked(self, key, pos):
        """rows chosen by a list of integers of which nothing is known but their values"""
        p = P0
        for i, it in enumerate(key[pos]):
            shape, im = [], []
            for j, k in enumerate(key):
                s, d = self.shape_ix[j], DI[len(shape)]
                if j == pos: row = d; shape.append(Ix(len(key[pos]))); im.append(norm_index(toix(it), s))
                elif isinstance(k, slice): lo, n, st = norm_slice(k, s); shape.append(n); im.append(lo + d.scale(st))
                else: im.append(norm_index(toix(k), s))
            p = p + bracket(ieq(row - Ix(i))) * self.view(tuple(shape), tuple(im)).tpl()
        return Arr.new(tuple(shape), p, self.kind)
    def __setitem__(self, key, val):
        if isinstance(key, Arr) and key.kind == "b" and key.ndim == self.ndim:
            t = bracket_of(key)
            old = self.tpl()
            v = self._valpoly(val, self.shape_ix)
            self._write(self, old + t * (v - old)); return
        v = self._index(key)
        if v is None:
            if not isinstance(key, tuple): key = (key,)
            pos = [j for j, k in enumerate(key) if isinstance(k, list) or (isinstance(k, Arr) and k.ndim > 0)]
            if len(pos) == 1 and not isinstance(val, Arr):
                q = key[pos[0]]
                items = q if isinstance(q, list) else list(q)
                for it in items:
                    k2 = list(key); k2[pos[0]] = it; self[tuple(k2)] = val
                return
            if len(pos) == 1 and isinstance(key[pos[0]], list) and not any(k is None or k is Ellipsis for k in key):
                axis = sum(isinstance(k, slice) for k in key[:pos[0]])
                rank = self.ndim - sum(not isinstance(k, (slice, list)) for k in key)
                val = val.copy()
                for i, it in enumerate(key[pos[0]]):
                    k2 = list(key); k2[pos[0]] = it
                    a = axis - (rank - val.ndim)
                    self[tuple(k2)] = val if a < 0 or val.shape_ix[a] is ONE and len(key[pos[0]]) > 1 and val.ndim < rank else val[(slice(None),) * a + (0 if val.shape_ix[a] is ONE else i,)]
                return
            raise Unsupported("assignment with fancy indexing")
        shape, im = v
        w = self.view(shape, im)
        self._write(w, self._valpoly(val, shape))
    def _valpoly(self, val, shape):
        if self.kind == "fun":
            if isinstance(val, Arr): return broadcast(val, shape).tpl()
            return fun_poly(val)
        if self.kind == "o":
            if isinstance(val, (list, tuple)):
                val = as_arr(val)
                if val.kind == "r" and val.tpl().is_zero(): return P0
            if isinstance(val, Arr) and val.kind == "o": return broadcast(val, shape).tpl()
            if isinstance(val, Arr) and val.kind == "hid":
                return val.elem((isym(PVAR),))
            if isinstance(val, Arr) and val.ndim == 1 and not [s for s in shape if s is not ONE]:
                n = val.shape_ix[0]
                ctx().axiom(ige(NP - n))
                return bracket(ige(n - isym(PVAR) - ONE)) * val.elem((isym(PVAR),))
            if isinstance(val, SymList): return val.as_array().tpl()
            if not isinstance(val, Arr):
                p = topoly(val)
                if p.is_zero(): return p
            raise Unsupported("object array assignment")
        if isinstance(val, SymList): val = val.as_array()
        if isinstance(val, (list, tuple)): val = as_arr(val)
        if isinstance(val, Arr):
            if len([s for s in val.shape_ix if s is not ONE]) == 0 and val.ndim >= 1 and not shape:
                return val.elem((ZERO,) * val.ndim)
            return broadcast(val, shape).tpl()
        return topoly(val)
    @staticmethod
    def _write(w, p):
        """write template p (over the view indices of w) through view w"""
        c = ctx()
        b = w.buf
        sol = {}; conds = []
        for j, e in enumerate(w.im):
            ds = [n for n in e.names() if n in D]
            tgt = isym(D[j] + "'")
            if not ds: conds.append(ieq(tgt - e)); continue
            if len(ds) != 1 or abs(e.coef(ds[0])) != 1 or ds[0] in sol: raise Unsupported("write through a general view")
            k = e.coef(ds[0])
            r = (tgt - (e - Ix(0, ((ds[0], k),)))).scale(k)
            sol[ds[0]] = r
            n = w.shape_ix[D.index(ds[0])]
            conds += [ige(r), ige(n - r - ONE)]
        for k, n in enumerate(w.shape_ix):
            if D[k] not in sol and n is not ONE:
                # axis without a buffer axis (broadcast view)
                if not (n.const and n.c == 1): raise Unsupported("write through a broadcast view")
                sol[D[k]] = ZERO
            elif D[k] not in sol: sol[D[k]] = ZERO
        back = {D[j] + "'": DI[j] for j in range(len(b.shape))}
        p2 = p.subst(sol).subst(back)
        facts = dims_facts(b.shape)
        keep = []
        for q in conds:
            q = q.subst(back)
            if q is TRUE or c.entails(q, facts): continue
            keep.append(q)
        cond = cand(*keep)
        new = ite(cond, p2, b.tpl)
        b.set(c.resolve(new, facts))
    # ---- iteration
    def __len__(self): raise Unsupported("len of symbolic array")
    def __iter__(self):
        if not self.shape_ix: raise TypeError("iteration over a 0-d array")
        n = self.shape_ix[0]
        if n.const:
            for k in range(n.c): yield self[k]
        else:
            for k in SymRange(ZERO, n): yield self[k]
    # ---- arithmetic
    def _bin(self, o, f): return binop(self, o, f)
    def __add__(self, o): return binop(self, o, lambda a, b: a + b)
    def __radd__(self, o): return binop(o, self, lambda a, b: a + b)
    def __sub__(self, o): return binop(self, o, lambda a, b: a - b)
    def __rsub__(self, o): return binop(o, self, lambda a, b: a - b)
    def __mul__(self, o): return binop(self, o, lambda a, b: a * b)
    def __rmul__(self, o): return binop(o, self, lambda a, b: a * b)
    def __truediv__(self, o): return binop(self, o, lambda a, b: a * recip(b))
    def __rtruediv__(self, o): return binop(o, self, lambda a, b: a * recip(b))
    def __mod__(self, o): raise Unsupported("mod of an array")
    def __pow__(self, k):
        if isinstance(k, Arr): raise Unsupported("array exponent")
        return unop(self, lambda a: (SymReal(a) ** k).p)
    def __neg__(self): return unop(self, lambda a: -a)
    def __pos__(self): return self.copy()
    def __abs__(self): return unop(self, FN["abs"])
    def __matmul__(self, o):
        from .npshim import matmul
        return matmul(self, o)
    def __rmatmul__(self, o):
        from .npshim import matmul
        return matmul(as_arr(o), self)
    def _iop(self, o, f):
        r = binop(self, o, f)
        if self.kind == "hid": return r                 # an entry of an object array: the caller stores the result back
        if len(r.shape_ix) != len(self.shape_ix): raise ValueError("non-broadcastable output operand")
        Arr._write(self, r.tpl()); return self
    def __iadd__(self, o): return self._iop(o, lambda a, b: a + b)
    def __isub__(self, o): return self._iop(o, lambda a, b: a - b)
    def __imul__(self, o): return self._iop(o, lambda a, b: a * b)
    def __itruediv__(self, o): return self._iop(o, lambda a, b: a * recip(b))
    def _cmp(self, o, f):
        return binop(self, o, lambda a, b: bracket(f(a, b)), kind="b")
    def __le__(self, o): return self._cmp(o, lambda a, b: rge(b - a))
    def __lt__(self, o): return self._cmp(o, lambda a, b: cnot(rge(a - b)))
    def __ge__(self, o): return self._cmp(o, lambda a, b: rge(a - b))
    def __gt__(self, o): return self._cmp(o, lambda a, b: cnot(rge(b - a)))
    def __eq__(self, o):
        if self.kind == "hid":
            if self.buf.tpl.is_zero() and topoly(o).is_zero(): return True
            raise Unsupported("comparison of a pole vector")
        return self._cmp(o, lambda a, b: req(a - b) if not poly_int(a, b) else ieq(poly_to_ix(a - b)))
    def __ne__(self, o): return self._cmp(o, lambda a, b: cnot(req(a - b)))
    __hash__ = None
    def __and__(self, o): return binop(self, o, lambda a, b: a * b, kind="b")
    def __or__(self, o): return binop(self, o, lambda a, b: a + b - a * b, kind="b")
    def __invert__(self): return unop(self, lambda a: P1 - a, kind="b")
    def __bool__(self):
        if all(s is ONE for s in self.shape_ix): return bool(self.scalar())
        raise Unsupported("truth value of an array")
    def __float__(self): return float(self.scalar())
    # ---- methods
    def copy(self, order=None):
        return Arr(Buf(self.shape_ix, self.tpl(), self.kind))
    __copy__ = copy
    def __deepcopy__(self, memo):
        # views of one buffer stay views of one buffer
        b = memo.get(("buf", self.buf.uid))
        if b is None:
            b = Buf(self.buf.shape, self.buf.tpl, self.buf.kind); memo[("buf", self.buf.uid)] = b
        return Arr(b, self.shape_ix, self.im)
    def fill(self, v): self[...] = v if not isinstance(v, Arr) else v
    def dot(self, o):
        from .npshim import dot
        return dot(self, o)
    def sum(self, axis=None, **k):
        from .npshim import np_sum
        return np_sum(self, axis)
    def mean(self, axis=None):
        from .npshim import np_mean
        return np_mean(self, axis)
    def min(self, axis=None):
        from .npshim import extremum
        return extremum("min", self, axis)
    def max(self, axis=None):
        from .npshim import extremum
        return extremum("max", self, axis)
    def argmin(self, axis=None):
        from .npshim import argmin
        return argmin(self)
    def all(self, axis=None):
        from .npshim import np_all
        return np_all(self)
    def any(self, axis=None):
        from .npshim import np_any
        return np_any(self)
    def astype(self, t, copy=True):
        from .npshim import exact
        if self.kind != "i" or t is not int and getattr(t, "_t", t) is not int: exact(t)
        return self.copy()
    def diagonal(self):
        from .npshim import np_diag
        return np_diag(self)
    def conj(self): return unop(self, conj)
    def conjugate(self): return unop(self, conj)
    def tolist(self): return list(self)
    @property
    def real(self): return unop(self, realpart)
    @property
    def imag(self): return unop(self, imagpart)

def poly_int(a, b):
    return poly_to_ix(a) is not None and poly_to_ix(b) is not None
def poly_to_bool(p):
    if p == P1: return True
    if p.is_zero(): return False
    r = []
    # sum of products of brackets with coefficient +-1: rebuild as a condition when simple
    if len(p.d) == 1:
        m, c = next(iter(p.d.items()))
        if c == 1 and not m.b and all(a.kind == "br" for a, _ in m.f): return mkbool(cand(*[a.extra[0] for a, _ in m.f]))
    q = P1 - p
    if len(q.d) == 1:
        m, c = next(iter(q.d.items()))
        if c == 1 and not m.b and all(a.kind == "br" for a, _ in m.f): return mkbool(cnot(cand(*[a.extra[0] for a, _ in m.f])))
    return mkbool(cnot(req(p)))
def bracket_of(a):
    return a.tpl()

class ndarray(Arr):
    def __new__(cls, shape=(), dtype=float, **k):
        if isinstance(shape, (int, SymInt)): shape = (shape,)
        kind = "r"
        if dtype in (object, "O", "object"): kind = "fun"
        else:
            from .npshim import exact
            exact(dtype)
        shape = tuple(toix(s) for s in shape)
        if any(s is ZERO for s in shape): return Arr(Buf(shape, P0, kind))
        n = freshsym("undef")
        return Arr(Buf(shape, Poly.atom(Atom("v", n, DI[:len(shape)])), kind))
    def __init__(self, *a, **k): pass

def same(a, b):
    return a is b or ctx().entails(ieq(a - b))

def norm_index(i, s):
    """index normalisation with bounds check (paths that fail raise IndexError)"""
    c = ctx()
    if i.const and i.c < 0: i = s + i
    elif not i.const and not c.entails(ige(i)):
        if not c.decide(ige(i)): i = s + i
    if not c.entails(cand(ige(i), ige(s - i - ONE))):
        if not c.decide(cand(ige(i), ige(s - i - ONE))): raise IndexError(f"index {i} out of bounds for axis of size {s}")
    return i
def clampix(i, s):
    c = ctx()
    if i.const and i.c < 0: i = s + i
    elif not c.entails(ige(i)):
        if not c.decide(ige(i)): i = s + i
    if not c.decide(ige(i)): return ZERO
    if not c.decide(ige(s - i)): return s
    return i
def norm_slice(k, s):
    c = ctx()
    st = 1 if k.step is None else toix(k.step)
    if isinstance(st, Ix):
        if not st.const: raise Unsupported("symbolic slice step")
        st = st.c
    if st == -1:
        if k.start is None and k.stop is None: return s - ONE, s, -1
        raise Unsupported("negative step slice")
    if st != 1: raise Unsupported("slice step")
    lo = ZERO if k.start is None else clampix(toix(k.start), s)
    hi = s if k.stop is None else clampix(toix(k.stop), s)
    n = hi - lo
    if not c.decide(ige(n)): n = ZERO
    return lo, n, 1

def as_arr(x, kind="r"):
    if isinstance(x, Arr): return x
    if isinstance(x, SymList): return x.as_array()
    if isinstance(x, IVec): return Arr(Buf((Ix(len(x.v)),), list_poly([Poly.from_ix(toix(i)) for i in x.v]), "i"))
    if isinstance(x, (list, tuple)):
        if any(isinstance(e, (list, tuple, Arr, SymList)) for e in x):
            rows = [as_arr(e, kind) for e in x]
            sh = rows[0].shape_ix
            for r in rows:
                if len(r.shape_ix) != len(sh): raise ValueError("inhomogeneous shape")
            p = P0
            for k, r in enumerate(rows):
                q = r.elem(tuple(DI[j + 1] for j in range(len(sh))))
                p = p + bracket(ieq(DI[0] - Ix(k))) * q
            kd = "o" if any(r.kind == "o" for r in rows) else rows[0].kind
            if len(rows) == 1: p = rows[0].elem(tuple(DI[j + 1] for j in range(len(sh))))
            return Arr(Buf((Ix(len(rows)),) + sh, p, kd))
        if all(isinstance(e, bool) for e in x) and x: kind = "b"
        elif all(isinstance(e, (int, SymInt)) for e in x) and x and kind == "r": kind = "i"
        if any(isinstance(e, SymFun) or isinstance(e, types.FunctionType) for e in x):
            return Arr(Buf((Ix(len(x)),), list_poly([fun_poly(e) for e in x]), "fun"))
        return Arr(Buf((Ix(len(x)),), list_poly([topoly(e) for e in x]), kind))
    if isinstance(x, (SymFun, types.FunctionType)): return Arr(Buf((), fun_poly(x), "fun"))
    return Arr(Buf((), topoly(x), kind))
def list_poly(ps):
    if len(ps) == 1: return ps[0]
    if ps and all(p == ps[0] for p in ps): return ps[0]
    r = P0
    for k, p in enumerate(ps): r = r + bracket(ieq(DI[0] - Ix(k))) * p
    return r

def broadcast(a, shape):
    if a.ndim > len(shape):
        # numpy allows assigning when leading axes have size one
        if all(s is ONE for s in a.shape_ix[:a.ndim - len(shape)]):
            a = a.reshape(a.shape_ix[a.ndim - len(shape):])
        else: raise ValueError("could not broadcast")
    off = len(shape) - a.ndim
    im = []
    for j, s in enumerate(a.shape_ix):
        t = shape[off + j]
        if s is ONE and t is not ONE: im.append(ZERO)
        elif same(s, t): im.append(DI[off + j])
        elif ctx().decide(ieq(s - t)): im.append(DI[off + j])
        elif ctx().decide(ieq(s - ONE)): im.append(ZERO)
        else: raise ValueError(f"could not broadcast {a.shape} into {shape}")
    return a.view(tuple(shape), tuple(im))
def bshape(a, b):
    n = max(len(a), len(b)); out = []
    a = (ONE,) * (n - len(a)) + tuple(a); b = (ONE,) * (n - len(b)) + tuple(b)
    for x, y in zip(a, b):
        if x is y: out.append(x)
        elif x is NP: out.append(y)
        elif y is NP: out.append(x)
        elif x is ONE: out.append(y)
        elif y is ONE: out.append(x)
        elif same(x, y): out.append(x)
        elif ctx().decide(ieq(x - y)): out.append(x)
        elif ctx().decide(ieq(x - ONE)): out.append(y)
        elif ctx().decide(ieq(y - ONE)): out.append(x)
        else: raise ValueError(f"operands could not be broadcast together {a} {b}")
    return tuple(out)
def binop(a, b, f, kind=None):
    for x in (a, b):
        if not isinstance(x, (Arr, SymReal, SymInt, SymBool, int, float, complex, Fr, list, tuple, SymList, bool, IVec)):
            return NotImplemented
    if isinstance(a, SymList) or isinstance(b, SymList):
        a = a.as_array() if isinstance(a, SymList) else a
        b = b.as_array() if isinstance(b, SymList) else b
    A, B = as_arr(a), as_arr(b)
    if "fun" in (A.kind, B.kind): raise Unsupported("arithmetic on arrays of functions")
    k = kind or ("o" if "o" in (A.kind, B.kind) else "hid" if (A.kind == "hid" and B.ndim == 0 or B.kind == "hid" and A.ndim == 0 or (A.kind == B.kind == "hid"))
                 else "i" if (A.kind == "i" and B.kind == "i") else "r")
    if k == "o":
        # object entries are pole vectors: a 1-d operand against a hidden entry is not elementwise by axis
        for x in (A, B):
            if x.kind == "hid": raise Unsupported("mixing pole vectors and object arrays")
    hid = "hid" in (A.kind, B.kind)
    for x, y in ((A, B), (B, A)):
        # an unset entry is the number 0; vectors of different lengths cannot be combined
        if x.kind == "hid" and x.ndim == 1 and y.ndim == 1 and y.kind != "hid" and not ctx().resolve(x.elem((DI[0],))).is_zero():
            raise Unsupported("pole vectors of possibly different lengths")
    sh = bshape(A.shape_ix, B.shape_ix)
    def op(x, shp):
        if hid and x.kind == "hid" and x.ndim == 1:
            return x.elem((DI[len(shp) - 1],))
        return broadcast(x, shp).tpl()
    if any(x.const and x.c == 0 for x in sh): return Arr.new(sh, P0, k)      # no entries to compute
    r = f(op(A, sh), op(B, sh))
    return Arr.new(sh, r, k)
def unop(a, f, kind=None):
    if a.kind == "fun": raise Unsupported("arithmetic on arrays of functions")
    return Arr.new(a.shape_ix, f(a.tpl()), kind or ("r" if a.kind == "b" else a.kind))

# ------------------------------------------------------------------ loops over symbolic ranges
class SymRange:
    def __init__(self, lo, hi, fn=None, label=None):
        self.lo, self.hi, self.fn = lo, hi, fn
    def __iter__(self): return loop_iter(self.lo, self.hi, self.fn or (lambda k: mkint(k)))
    def __len__(self): raise Unsupported("len")
    @property
    def length(self): return self.hi - self.lo
    def __getitem__(self, k):
        if isinstance(k, slice): raise Unsupported("slice of a range")
        k = toix(k)
        if k.const and k.c < 0:
            if not ctx().decide(ige(self.length + k)): raise IndexError("range object index out of range")
            return self._at(self.hi + k)
        if not ctx().decide(cand(ige(k), ige(self.length - k - ONE))): raise IndexError("range object index out of range")
        return self._at(self.lo + k)
    def _at(self, i): return self.fn(i) if self.fn else mkint(i)

class AttrLog:
    """attributes rebound while a symbolic loop body runs"""
    active = []          # list of dicts (id(obj), name) -> (obj, had, old)

class Log(dict):
    """buffers written by a loop body, with their contents before (those made by the body itself are its own)"""
    def __init__(self): self.born = next(Buf._n)

class Locals:
    """loop-carried local variables of the loop being executed (installed by the loader)"""
    def __init__(self): self.start = {}; self.end = {}

COLLECT = []
SKIP = object()
def loop_iter(lo, hi, fn):
    """Inductive treatment of 'for k in range(lo,hi)': the body is run for a generic k.
    Arrays: parallel maps (each iteration writes its own elements; what it reads of them is its own or not
    written by the loop) or additive accumulation; attributes and carried locals: constant increment."""
    c = ctx()
    n = hi - lo
    if n.const and n.c <= 0: return
    if not n.const and not c.decide(ige(n - ONE)): return
    if n.const and n.c <= 12:
        for j in range(n.c): yield fn(lo + Ix(j))
        return
    if COLLECT and not any(x[0] == "open" for x in COLLECT[-1]):
        # a builtin (any, all, sum ...) consumes this loop: hand it the generic element
        k = freshsym("k"); K = isym(k)
        fr = c.push([k]); prefix = []
        ent = ["open", k, lo, hi, [], []]
        COLLECT[-1].append(ent)
        try:
            while True:
                fr.restart(prefix)
                fr.facts += [ige(K - lo), ige(hi - K - ONE)]
                nv = len(ent[4])
                yield fn(K)
                if len(ent[4]) == nv: ent[4].append(SKIP)
                ent[5].append(cand(*[q if b else cnot(q) for q, b in fr.taken]))
                prefix = next_prefix(fr.taken)
                if prefix is None: break
        finally:
            c.pop()
            ent[0] = "closed"
        return
    ind = {}                     # (id,name) -> dict(obj,name,a0,delta,s)
    acc = {}                     # buf -> (orig template, fresh name)
    while True:
        k = freshsym("k")
        K = isym(k)
        fr = c.push([k] + [v["s"] for v in ind.values() if v["s"]] + [v[1] for v in acc.values()])
        results = []
        prefix = []
        marks = [(t, len(t.items)) for t in Trace.all]
        c.readlogs.append([])
        try:
            while True:
                fr.restart(prefix)
                fr.facts += [ige(K - lo), ige(hi - K - ONE)]
                log, alog = Log(), {}
                for b, (orig, nm) in acc.items():
                    log[b] = orig
                    b.tpl = Poly.atom(Atom("v", nm, DI[:len(b.shape)] + ((isym(PVAR),) if b.kind == "o" else ())))
                for v in ind.values():
                    object.__setattr__(v["obj"], v["name"], carried(v, K - lo, lo))
                start = {b: b.tpl for b in acc}
                c.loopbufs.append(log); AttrLog.active.append(alog)
                done = False
                yield fn(K)
                if c.loopbufs[-1] is not log: raise Unsupported("loop left early")
                c.loopbufs.pop(); AttrLog.active.pop()
                bufs = {}
                for b, old in log.items(): bufs[b] = (start.get(b, old), b.tpl); b.tpl = old
                attrs = {}
                for key, (o, had, old) in alog.items():
                    if not hasattr(o, key[1]): raise Unsupported("attribute deleted in a loop")
                    attrs[key] = (o, had, old, getattr(o, key[1]))
                for key, v in ind.items():
                    if key not in attrs: attrs[key] = (v["obj"], True, v["a0"], getattr(v["obj"], v["name"]))
                for key, (o, had, old, new) in attrs.items():
                    a0 = ind[key]["a0"] if key in ind else old
                    if had: object.__setattr__(o, key[1], a0)
                    else: object.__delattr__(o, key[1])
                ev = [(t, m, t.items[m:]) for t, m in marks if len(t.items) > m]
                for t, m, _ in ev: del t.items[m:]
                results.append((cand(*[q if b else cnot(q) for q, b in fr.taken]), bufs, attrs, ev))
                prefix = next_prefix(fr.taken)
                if prefix is None: break
                if len(results) > 32: raise Unsupported("too many paths in a loop body")
        finally:
            reads = c.readlogs.pop()
            c.pop()
        # ---- does the induction hypothesis have to be refined?
        again = False
        keys = {}
        for r in results: keys.update(r[2])
        for key, (o, had, old, new) in keys.items():
            if key not in ind and had and new is not old and isinstance(old, Arr) and old.kind != "fun":
                ind[key] = dict(obj=o, name=key[1], a0=old, delta=None, s=freshsym("carry"), final=False, k=k, flag=False, arr=True); again = True
            elif key not in ind and had and new is not old and not isinstance(old, (int, float, SymReal, SymInt, SymBool)):
                ind[key] = dict(obj=o, name=key[1], a0=old, delta=None, s=None, final=True, k=k, flag=False, poison=True); again = True
            elif key not in ind and had and isinstance(old, (int, float, SymReal, SymInt, SymBool)):
                ind[key] = dict(obj=o, name=key[1], a0=old, delta=None, s=freshsym("carry"), final=False, k=k,
                                flag=isinstance(old, (bool, SymBool))); again = True
                if isinstance(old, (int, SymInt)) and not isinstance(old, bool): ind[key].update(delta=P1, s=None, guess=True)      # a counter, checked below
        if again: continue
        for key, v in ind.items():
            if v["flag"]:
                # a flag that some iterations set: final value = old or (some k sets it)
                me = SymBool(opaque(v["s"]))
                sets = []
                for r in results:
                    x = r[2][key][3]
                    if v["s"] in r[0].key: raise Unsupported(f"branch on the loop-carried flag {v['name']}")
                    if isinstance(x, SymBool) and x.c is me.c: continue
                    if isinstance(x, SymBool) and x.c.op == "or" and me.c in x.c.a:
                        sets.append((r[0], cor(*[y for y in x.c.a if y is not me.c]))); val = True
                        if v["s"] in sets[-1][1].key: raise Unsupported(f"loop-carried flag {v['name']}")
                        continue
                    if not isinstance(x, bool): raise Unsupported(f"loop-carried flag {v['name']}")
                    sets.append((r[0], TRUE if x else FALSE))
                if {c2 is FALSE for _, c2 in sets} == {True, False}: raise Unsupported(f"loop-carried flag {v['name']}")
                v["sets"] = sets
                v["to"] = not (sets and sets[0][1] is FALSE)
                continue
            if v.get("arr") and v["delta"] is None and not v["final"]:
                vals = [r[2][key][3] for r in results]
                if not all(isinstance(x, Arr) and len(x.shape_ix) == len(v["a0"].shape_ix) and all(same(p, q) for p, q in zip(x.shape_ix, v["a0"].shape_ix)) for x in vals): raise Unsupported(f"loop-carried array {v['name']}")
                me = carried(v, K, lo).tpl()
                ds = [x.tpl() - me for x in vals]
                if all(v["s"] not in d.key for d in ds) and all(v["s"] not in r[0].key for r in results):
                    v["delta"] = merge_polys([(r[0], d) for r, d in zip(results, ds)]).subst({k: isym("%kk")}); v["s"] = None; again = True
                elif len(vals) == 1 and v["s"] not in vals[0].tpl().key: v["final"] = True
                else: raise Unsupported(f"loop-carried array {v['name']}")
                continue
            if v.get("guess"):
                if all(topoly(r[2][key][3]) - topoly(carried(v, K - lo, lo)) == v["delta"] for r in results if not isinstance(r[2][key][3], Arr)) and not any(isinstance(r[2][key][3], Arr) for r in results): v["guess"] = False
                else: v.update(delta=None, s=freshsym("carry"), guess=False); again = True
                continue
            if v["delta"] is None and not v["final"]:
                shs = [r[2][key][3].shape_ix for r in results if isinstance(r[2][key][3], Arr)]
                if shs and not isinstance(v["a0"], bool) and not v.get("was") and not any(k in s.names() for s in shs[0]):
                    # a number that the loop adds arrays to: the same as an array filled with that number
                    v.update(arr=True, was=True, a0=Arr(Buf(shs[0], topoly(v["a0"]), "r"))); again = True
                    continue
                vals = [topoly(r[2][key][3]) for r in results]
                ds = [x - sym(v["s"]) for x in vals]
                if all(v["s"] not in d.key for d in ds) and all(v["s"] not in r[0].key for r in results):
                    v["delta"] = merge_polys([(r[0], d) for r, d in zip(results, ds)]).subst({k: isym("%kk")}); v["s"] = None; again = True
                elif len(vals) == 1 and v["s"] not in vals[0].key: v["final"] = True
                else: raise Unsupported(f"loop-carried variable {v['name']}")
        if again: continue
        allb = {}
        for r in results:
            for b in r[1]: allb[b] = None
        plan = {}
        for b in allb:
            if isinstance(b, SymList): continue
            old = [r[1][b][0] for r in results if b in r[1]][0]
            cases = [(r[0], r[1][b][1] if b in r[1] else old) for r in results]
            delta = P0
            for cd, nw in cases: delta = delta + bracket(cd) * (nw - old)
            ex = None if b in acc else map_equation(b, delta, k)
            if ex is None and b not in acc:
                if delta.is_zero(): plan[b] = ("same",); continue
                acc[b] = (old, freshsym("acc")); again = True
            elif ex is not None:
                if not reads_ok(b, ex, k, lo, hi, reads): raise Unsupported("an iteration reads what another one writes")
                plan[b] = ("map", old, delta, ex)
            else: plan[b] = ("acc", acc[b][0], delta)
        if again: continue
        for b, (orig, nm) in acc.items():
            if b not in plan: plan[b] = ("same",)
        for b, pl in plan.items():
            if len(pl) > 2:
                for _, nm in acc.values():
                    if nm in pl[2].key: raise Unsupported("loop that is neither a map nor an accumulation")
        break
    for v in ind.values():
        if v["flag"]:
            if not v["sets"]: setattr(v["obj"], v["name"], v["a0"]); continue
            from .npshim import exists_cond
            ex = exists_cond(cor(*[cand(a, b if v["to"] else TRUE) for a, b in v["sets"]]).subst({k: isym(k) + lo}), [k], [n])
            a0 = tocond(v["a0"])
            setattr(v["obj"], v["name"], mkbool(cor(a0, ex) if v["to"] else cand(a0, cnot(ex))))
        elif v["delta"] is not None: setattr(v["obj"], v["name"], carried(v, n, lo))
        elif v.get("arr") or v.get("poison"):
            if len(results) > 1: setattr(v["obj"], v["name"], Poison(f"variable {v['name']} rebound in a loop with paths")); continue
            setattr(v["obj"], v["name"], at_last(results[0][2][(id(v["obj"]), v["name"])][3], k, hi, acc))
        else:
            nv = topoly(results[0][2][(id(v["obj"]), v["name"])][3])
            setattr(v["obj"], v["name"], SymReal(nv.subst({k: hi - ONE})))
    for key, (o, had, old, new) in keys.items():
        if key in ind: continue
        if len(results) > 1: setattr(o, key[1], Poison(f"attribute {key[1]} rebound in a loop with paths")); continue
        setattr(o, key[1], at_last(new, k, hi, acc))
    facts_of = {}
    for b, pl in plan.items():
        facts = dims_facts(b.shape)
        if pl[0] == "map":
            _, old, delta, ex = pl
            sol = (ex - Ix(0, ((k, ex.coef(k)),))).scale(-ex.coef(k))
            cond = cand(ige(sol - lo), ige(hi - sol - ONE))
            b.set(c.resolve(old + bracket(cond) * delta.subst({k: sol}), facts))
        elif pl[0] == "acc":
            j = T.fresh()
            b.set(c.resolve(pl[1] + pl[2].subst({k: isym(j) + lo}).sum_over(j, n), facts))
    for b in {b for r in results for b in r[1] if isinstance(b, SymList)}:
        if len(results) != 1: raise Unsupported("conditional list update in a loop")
        finalize_list(b, results[0][1][b][0], results[0][1][b][1], k, lo, hi)
    for cond, _, _, ev in results:
        for t, m, items in ev: t.items.append(("loop", k, lo, hi, cond, items))

def at_last(new, k, hi, acc):
    for _, nm in acc.values():
        if nm in repr(getattr(new, "p", "")): raise Unsupported("value after a loop")
    m = {k: hi - ONE}
    if isinstance(new, Arr): return Arr(Buf(tuple(s.subst(m) for s in new.shape_ix), new.tpl().subst(m), new.kind))
    if isinstance(new, SymReal): return SymReal(new.p.subst(m))
    if isinstance(new, SymInt): return mkint(new.i.subst(m))
    if isinstance(new, SymFun): return SymFun(new.p.subst(m))
    if new is None or isinstance(new, (int, float, str, bool)): return new
    return Poison("value rebound in a loop")

class Poison:
    """a value the verifier lost track of"""
    def __init__(self, why): object.__setattr__(self, "_why", why)
    def _no(self, *a, **k): raise Unsupported(object.__getattribute__(self, "_why"))
    __getattr__ = __call__ = __getitem__ = __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = __bool__ = __iter__ = __eq__ = __lt__ = __len__ = __truediv__ = _no
    __hash__ = object.__hash__

def carried(v, K, lo):
    """value of a carried variable after K iterations"""
    if v["flag"]: return SymBool(opaque(v["s"]))
    if v.get("poison"): return Poison("value of an earlier iteration")
    if v.get("arr"):
        a0 = v["a0"]; nd = len(a0.shape_ix)
        if v["delta"] is None:
            return Arr(Buf(a0.shape_ix, Poly.atom(Atom("v", v["s"], DI[:nd] + ((isym(PVAR),) if a0.kind == "o" else ()))), a0.kind))
        d = v["delta"]
        if "%kk" in d.free():
            j = T.fresh(); d = d.subst({"%kk": isym(j) + lo}).sum_over(j, K)
        else: d = d * Poly.from_ix(K)
        return Arr(Buf(a0.shape_ix, a0.tpl() + d, a0.kind))
    if v["delta"] is None: return SymReal(sym(v["s"]))
    a0, delta = v["a0"], v["delta"]
    if "%kk" in delta.free():
        j = T.fresh()
        r = topoly(a0) + delta.subst({"%kk": isym(j) + lo}).sum_over(j, K)
    else: r = topoly(a0) + delta * Poly.from_ix(K)
    i = poly_to_ix(r)
    if i is not None and isinstance(a0, (int, SymInt)): return mkint(i)
    return SymReal(r)

def map_equation(b, delta, k):
    """an equation  %j == affine(k)  that every changed element satisfies"""
    rank = len(b.shape)
    eqs = None
    for m in delta.d:
        s = set()
        for a, e in m.f:
            if a.kind == "br" and a.extra[0].op == "eq":
                ex = a.extra[0].a[0]
                if abs(ex.coef(k)) == 1 and sum(n in D[:rank] for n in ex.names()) == 1: s.add(ex)
        eqs = s if eqs is None else eqs & s
    return sorted(eqs, key=lambda e: e.key)[0] if eqs else None

def reads_ok(b, ex, k, lo, hi, reads):
    """every logged read of b is of an element this iteration writes or no iteration writes"""
    c = ctx()
    ax = [D.index(n) for n in ex.names() if n in D][0]
    K = isym(k)
    for buf, bi, shape, facts in reads:
        if buf is not b: continue
        i = bi[ax]
        ren = {D[j]: isym(f"%x{j}") for j in range(len(D))}
        i2 = i.subst(ren)
        e2 = ex.subst({D[ax]: i2})                 # zero iff read element belongs to iteration k
        if e2 is ZERO: continue
        fs = list(facts) + [f.subst(ren) for f in dims_facts(shape)]
        if c.entails(ieq(e2), fs): continue
        sol = (e2 - Ix(0, ((k, e2.coef(k)),))).scale(-ex.coef(k)) if abs(e2.coef(k)) == 1 else None
        # iteration that would write it
        so = (ex - Ix(0, ((k, ex.coef(k)),))).scale(-ex.coef(k)).subst({D[ax]: i2})
        if c.entails(cor(ige(lo - so - ONE), ige(so - hi)), fs): continue
        return False
    return True

class Trace:
    """ghost event log"""
    all = []
    def __init__(self): self.items = []; Trace.all.append(self)
    def add(self, *e): self.items.append(e)

# ------------------------------------------------------------------ lists of symbolic length, small int vectors
class IVec:
    """1-d integer array of concrete length"""
    def __init__(self, v): self.v = list(v)
    def __iter__(self): return iter(self.v)
    def __len__(self): return len(self.v)
    @property
    def shape(self): return (len(self.v),)
    @property
    def size(self): return len(self.v)
    @property
    def ndim(self): return 1
    def __getitem__(self, k):
        r = self.v[k]
        return IVec(r) if isinstance(k, slice) else r
    def __setitem__(self, k, x): self.v[k] = x
    def _b(self, o, f):
        if isinstance(o, (IVec, list, tuple)):
            o = list(o); a = self.v
            if len(a) == 1 and len(o) != 1: a = a * len(o)
            if len(o) == 1 and len(a) != 1: o = o * len(a)
            if len(a) != len(o): raise ValueError("shapes")
            return IVec([f(x, y) for x, y in zip(a, o)])
        if isinstance(o, (int, SymInt)): return IVec([f(x, o) for x in self.v])
        return NotImplemented
    def __add__(self, o):
        r = self._b(o, lambda a, b: a + b)
        return as_arr(self) + o if r is NotImplemented else r
    __radd__ = __add__
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: b - a)
    def __mul__(self, o):
        r = self._b(o, lambda a, b: a * b)
        return as_arr(self) * o if r is NotImplemented else r
    __rmul__ = __mul__
    def __truediv__(self, o): return as_arr(self) / o
    def sum(self):
        r = 0
        for x in self.v: r = r + x
        return r
    def copy(self): return IVec(self.v)
    def tolist(self): return list(self.v)
    def astype(self, t): return IVec(self.v)
    def __deepcopy__(self, memo): return IVec(self.v)

class SymList:
    """list of symbolic length; elements are arrays (one shape per piece) or reals"""
    LV = "%L"
    def __init__(self, n, pieces): self.n, self.pieces = n, pieces     # pieces: [(lo, hi, shape, tpl, kind)]
    @staticmethod
    def repeat(lst, n):
        if len(lst) != 1: raise Unsupported("repeating a list of several elements")
        x = lst[0]
        if isinstance(x, Arr): return SymList(n, [(ZERO, n, x.shape_ix, x.tpl(), x.kind)])
        if isinstance(x, (int, float, SymReal, SymInt)): return SymList(n, [(ZERO, n, None, topoly(x), "r")])
        raise Unsupported("repeating a list of objects")
    @staticmethod
    def of_array(a):
        """list view (copy) of an array's rows"""
        sub = {D[0]: isym(SymList.LV)}
        for j in range(1, a.ndim): sub[D[j]] = DI[j - 1]
        return SymList(a.shape_ix[0], [(ZERO, a.shape_ix[0], a.shape_ix[1:] if a.ndim > 1 else None, a.tpl().subst(sub), a.kind)])
    @property
    def length(self): return self.n
    def _find(self, k):
        c = ctx()
        for pc in self.pieces:
            if c.decide(cand(ige(k - pc[0]), ige(pc[1] - k - ONE))): return pc
        raise IndexError("list index out of range")
    def __getitem__(self, k):
        if isinstance(k, slice):
            lo, n, st = norm_slice(k, self.n)
            if st != 1: raise Unsupported("list slice step")
            out = []
            for a, b, sh, tp, kd in self.pieces:
                a2, b2 = maxix(a, lo) - lo, minix(b, lo + n) - lo
                if ctx().decide(ige(b2 - a2 - ONE)): out.append((a2, b2, sh, tp.subst({SymList.LV: isym(SymList.LV) + lo}), kd))
            return SymList(n, out)
        k = norm_index(toix(k), self.n)
        lo, hi, sh, tp, kd = self._find(k)
        p = tp.subst({SymList.LV: k})
        if sh is None: return SymReal(p)
        return Arr(Buf(sh, p, kd))
    def __setitem__(self, k, v):
        if isinstance(k, slice): raise Unsupported("list slice assignment")
        k = norm_index(toix(k), self.n)
        for d in ctx().loopbufs:
            if self not in d: d[self] = self.pieces
        if isinstance(v, Arr): sh, p, kd = v.shape_ix, v.tpl(), v.kind
        else: sh, p, kd = None, topoly(v), "r"
        new = []
        pc = self._find(k)
        for q in self.pieces:
            if q is not pc: new.append(q); continue
            lo, hi = q[0], q[1]
            if not same(lo, k): new.append((lo, k, q[2], q[3], q[4]))
            new.append((k, k + ONE, sh, p, kd))
            if not same(k + ONE, hi): new.append((k + ONE, hi, q[2], q[3], q[4]))
        self.pieces = new
    # loop protocol: behaves like a buffer whose "template" is the list of pieces
    @property
    def tpl(self): return self.pieces
    @tpl.setter
    def tpl(self, v): self.pieces = v
    def __hash__(self): return id(self)
    def __eq__(self, o): return self is o
    def as_array(self):
        sh = self.pieces[0][2]
        rk = 0 if sh is None else len(sh)
        sub = {SymList.LV: DI[0]}
        p = P0
        for lo, hi, s2, tp, kd in self.pieces:
            if (s2 is None) != (sh is None): raise ValueError("inhomogeneous list")
            if sh is not None:
                if len(s2) != rk: raise ValueError("inhomogeneous list")
                for x, y in zip(sh, s2):
                    if not same(x, y): raise ValueError("inhomogeneous list")
            q = tp.subst({D[j]: isym(f"%q{j}") for j in range(rk)}).subst({SymList.LV: DI[0], **{f"%q{j}": DI[j + 1] for j in range(rk)}})
            cs = [x for x in (ige(DI[0] - lo), ige(hi - DI[0] - ONE))]
            f = [ige(DI[0]), ige(self.n - DI[0] - ONE)]
            cs = [x for x in cs if x is not TRUE and not ctx().entails(x, f)]
            p = p + bracket(cand(*cs)) * q
        return Arr.new((self.n,) + tuple(sh or ()), p, self.pieces[0][4])
    def __iter__(self): 
        for k in SymRange(ZERO, self.n): yield self[k]
    def __deepcopy__(self, memo): return SymList(self.n, list(self.pieces))
    def copy(self): return SymList(self.n, list(self.pieces))
    def __rmul__(self, o): raise Unsupported("list repetition")
def maxix(a, b): return a if ctx().decide(ige(a - b)) else b
def minix(a, b): return b if ctx().decide(ige(a - b)) else a

def finalize_list(b, old, new, k, lo, hi):
    K = isym(k)
    mine = [pc for pc in new if pc[0] is K and pc[1] is K + ONE]
    if len(mine) != 1: raise Unsupported("list update in a loop")
    _, _, sh, tp, kd = mine[0]
    if sh is not None and any(k in s.names() for s in sh): raise Unsupported("element shape depends on the index")
    tp = tp.subst({k: isym(SymList.LV)})
    out = []
    c = ctx()
    for pc in old:
        a, e = pc[0], pc[1]
        if c.decide(ige(lo - a - ONE)): out.append((a, minix(e, lo)) + pc[2:])
    out.append((lo, hi, sh, tp, kd))
    for pc in old:
        a, e = pc[0], pc[1]
        if c.decide(ige(e - hi - ONE)): out.append((maxix(a, hi), e) + pc[2:])
    b.pieces = out

class NonZero:
    def __init__(self, a): self.a = a
class Selection:
    """elements of an array selected by a condition (only reductions are supported)"""
    def __init__(self, arr, nz): self.arr, self.nz = arr, nz
    def min(self):
        from .npshim import extremum
        return extremum("min", self)
    def max(self):
        from .npshim import extremum
        return extremum("max", self)

for _c in (SymBool, SymInt, SymReal, SymFun):        # immutable
    _c.__deepcopy__ = lambda self, memo: self
    _c.__copy__ = lambda self: self
