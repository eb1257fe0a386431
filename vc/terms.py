"""Canonical terms: integer index expressions, real polynomials with symbolic sums, conditions.

A real term (Poly) is a finite sum  c * SUM_{b1<s1,..} a1^e1 * ... * ak^ek  with rational c, integer
exponents, bound index variables ranging over 0..size-1, and atoms: uninterpreted symbols / array
elements / function applications, Iverson brackets [cond], reciprocals of sums, roots, entries of
the inverse of a matrix, order statistics (min/max) of a family.  Everything is kept in a canonical
form, so syntactic equality of canonical forms is the deciding test for identities.
"""
from fractions import Fraction as Fr
from itertools import permutations, product
import itertools

_fresh = itertools.count()
def fresh(prefix="#"):
    return f"{prefix}{next(_fresh)}"

# --------------------------------------------------------------------------- integer expressions
class Ix:
    __slots__ = ("c", "t", "key", "_h")
    _cache = {}
    def __new__(cls, c=0, t=()):
        k = (c, t)
        o = cls._cache.get(k)
        if o is None:
            o = object.__new__(cls)
            o.c, o.t = c, t
            o.key = "+".join([f"{k}*{n}" if k != 1 else n for n, k in t] + ([str(c)] if c or not t else []))
            o._h = hash(k)
            cls._cache[k] = o
        return o
    def __hash__(self): return self._h
    def __eq__(self, o): return self is o
    def __repr__(self): return self.key
    @property
    def const(self): return not self.t
    def names(self): return [n for n, _ in self.t]
    def coef(self, n):
        for m, k in self.t:
            if m == n: return k
        return 0
    def __add__(self, o):
        if not self.t and not self.c: return o
        if not o.t: return Ix(self.c + o.c, self.t) if o.c else self
        d = dict(self.t)
        for n, k in o.t:
            v = d.get(n, 0) + k
            if v: d[n] = v
            else: d.pop(n, None)
        return Ix(self.c + o.c, tuple(sorted(d.items())))
    def scale(self, k):
        if k == 1: return self
        if k == 0: return ZERO
        return Ix(self.c * k, tuple((n, v * k) for n, v in self.t))
    def __neg__(self): return self.scale(-1)
    def __sub__(self, o): return self + o.scale(-1)
    def subst(self, m):
        if not self.t: return self
        hit = False
        for n, _ in self.t:
            if n in m: hit = True; break
        if not hit: return self
        r = Ix(self.c)
        for n, k in self.t:
            v = m.get(n)
            r = r + (v.scale(k) if v is not None else Ix(0, ((n, k),)))
        return r

ZERO = Ix(0)
ONE = Ix(1)
def iconst(k): return Ix(int(k))
def isym(n): return Ix(0, ((n, 1),))
def ix(x):
    if isinstance(x, Ix): return x
    if isinstance(x, bool): return Ix(int(x))
    if isinstance(x, int): return Ix(x)
    if isinstance(x, str): return isym(x)
    raise TypeError(f"not an index: {x!r}")

# --------------------------------------------------------------------------- conditions
class Cond:
    """Boolean combination of  ix>=0, ix==0, poly>=0, poly==0."""
    __slots__ = ("op", "a", "key")
    _cache = {}
    def __new__(cls, op, a=()):
        key = op + "(" + ",".join(x.key if not isinstance(x, str) else x for x in a) + ")"
        o = cls._cache.get(key)
        if o is None:
            o = object.__new__(cls); o.op, o.a, o.key = op, a, key
            cls._cache[key] = o
        return o
    def __hash__(self): return hash(self.key)
    def __eq__(self, o): return self is o
    def __repr__(self): return self.key
    def subst(self, m):
        if self.op in ("true", "false", "opq"): return self
        a = tuple(x.subst(m) for x in self.a)
        if self.op == "ge": return ige(a[0])
        if self.op == "eq": return ieq(a[0])
        if self.op == "rge": return rge(a[0])
        if self.op == "req": return req(a[0])
        if self.op == "not": return cnot(a[0])
        if self.op == "and": return cand(*a)
        if self.op == "or": return cor(*a)
        raise AssertionError(self.op)
    def free(self):
        if self.op in ("ge", "eq"): return frozenset(self.a[0].names())
        if self.op in ("rge", "req"): return self.a[0].free()
        r = frozenset()
        for x in self.a:
            if isinstance(x, Cond): r |= x.free()
        return r
    def is_real(self):
        if self.op in ("rge", "req", "opq"): return True
        return any(isinstance(x, Cond) and x.is_real() for x in self.a)

TRUE, FALSE = Cond("true"), Cond("false")
def ige(e):
    if not e.t: return TRUE if e.c >= 0 else FALSE
    from math import gcd
    g = 0
    for _, k in e.t: g = gcd(g, abs(k))
    if g > 1: e = Ix(e.c // g, tuple((n, k // g) for n, k in e.t))
    return Cond("ge", (e,))
def ieq(e):
    if not e.t: return TRUE if e.c == 0 else FALSE
    if e.t[0][1] < 0: e = -e
    return Cond("eq", (e,))
def _unroot(p):
    """a root compared with a constant or another root: compare the squares (roots are of non-negative values)"""
    if len(p.d) > 2: return None
    ts = []
    for m, c in p.d.items():
        if m is UNIT: ts.append((c, None))
        elif not m.b and len(m.f) == 1 and m.f[0][0].kind == "pw" and m.f[0][1] == 1 and m.f[0][0].name == "": ts.append((c, m.f[0][0].args[0]))
        else: return None
    if len(ts) < 2: return None
    (a, X), (b, Y) = ts
    if a < 0: a, X, b, Y = b, Y, a, X
    if a < 0 or b > 0: return None
    sq = lambda k, Z: (P1 if Z is None else Z).scale(k * k)
    return sq(a, X) - sq(b, Y)
def _unfactor(p):
    """without the positive factors common to all terms (their least powers, denominators included)"""
    if any(m.b for m in p.d): return p
    low = None
    for m in p.d:
        e = {a: k for a, k in m.f if a.kind != "ix" and atom_pos(a)}
        low = e if low is None else {a: min(low.get(a, 0), e.get(a, 0)) for a in set(low) | set(e)}
    f = tuple((a, -k) for a, k in sorted(low.items(), key=lambda x: x[0].key) if k)
    if not f: return p
    return p * Poly({Mono((), f): Fr(1)})
def rge(p):
    if p.is_const(): return TRUE if p.const() >= 0 else FALSE
    q = _unroot(p)
    if q is not None: return rge(q)
    p = _unfactor(p)
    if p.is_const(): return TRUE if p.const() >= 0 else FALSE
    s = p.lead_abs()
    return Cond("rge", (p.scale(1 / s),))
def req(p):
    if p.is_const(): return TRUE if p.const() == 0 else FALSE
    if len(p.d) == 1:
        m, _ = next(iter(p.d.items()))
        if not m.b:
            nrm = lambda q: q.scale(1 / q.lead_coef()).key
            den = {nrm(a.args[0]) for a, e in m.f if a.kind == "rc"}                    # divisors do not vanish, nor do their roots
            keep = tuple((a, 1) for a, e in m.f if e > 0 and a.kind != "rc" and not (a.kind == "v" and (a.name in POSITIVE or a.name == "exp")) and not (a.kind == "pw" and nrm(a.args[0]) in den))
            if not keep: return FALSE
            p = Poly({Mono((), keep): Fr(1)})
    return Cond("req", (p.scale(1 / p.lead_coef()),))
def cnot(c):
    if c is TRUE: return FALSE
    if c is FALSE: return TRUE
    if c.op == "not": return c.a[0]
    if c.op == "ge": return ige(-c.a[0] - ONE)
    return Cond("not", (c,))
def cand(*cs):
    out = []
    for c in cs:
        if c is TRUE: continue
        if c is FALSE: return FALSE
        for d in (c.a if c.op == "and" else (c,)):
            if d not in out: out.append(d)
    for d in out:
        if cnot(d) in out: return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return Cond("and", tuple(sorted(out, key=lambda c: c.key)))
def cor(*cs):
    out = []
    for c in cs:
        if c is FALSE: continue
        if c is TRUE: return TRUE
        for d in (c.a if c.op == "or" else (c,)):
            if d not in out: out.append(d)
    for d in out:
        if cnot(d) in out: return TRUE
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return Cond("or", tuple(sorted(out, key=lambda c: c.key)))
def opaque(name): return Cond("opq", (name,))

# --------------------------------------------------------------------------- atoms
LAMV = ("@r", "@c", "@l0", "@l1", "@l2")     # variables bound inside inv / lam bodies

class Atom:
    """kind: v (symbol/element/application), inv, br, rc, pw, lam (min/max family), ix (index as real)"""
    __slots__ = ("kind", "name", "idx", "args", "extra", "key", "_free", "level")
    _cache = {}
    def __new__(cls, kind, name="", idx=(), args=(), extra=()):
        key = f"{kind}:{name}[{','.join(i.key for i in idx)}]({';'.join(a.key for a in args)}){{{','.join(e.key if hasattr(e,'key') else str(e) for e in extra)}}}"
        o = cls._cache.get(key)
        if o is None:
            o = object.__new__(cls)
            o.kind, o.name, o.idx, o.args, o.extra, o.key = kind, name, idx, args, extra, key
            f = set()
            for i in idx: f.update(i.names())
            for e in extra:
                if isinstance(e, Ix): f.update(e.names())
                elif isinstance(e, Cond): f |= e.free()
            lv = 0
            for a in args:
                fa = a.free()
                if kind in ("inv", "lam"): fa = fa - set(LAMV)
                f |= fa
                lv = max(lv, a.level())
            for e in extra:
                if isinstance(e, Cond) and e.is_real(): lv = max(lv, _cond_level(e))
            o._free = frozenset(f); o.level = lv
            cls._cache[key] = o
        return o
    def __hash__(self): return hash(self.key)
    def __eq__(self, o): return self is o
    def __repr__(self): return self.key
    def free(self): return self._free

def _cond_level(c):
    if c.op in ("rge", "req"): return c.a[0].level()
    return max([_cond_level(x) for x in c.a if isinstance(x, Cond)] + [0])

_subst_cache = {}
def atom_subst(at, m):
    """-> Poly"""
    if not (at._free & m.keys()): return Poly.atom(at)
    mm = tuple(sorted((k, v.key) for k, v in m.items() if k in at._free))
    ck = (at.key, mm)
    r = _subst_cache.get(ck)
    if r is not None: return r
    idx = tuple(i.subst(m) for i in at.idx)
    m2 = m
    if at.kind in ("inv", "lam"):
        m2 = {k: v for k, v in m.items() if k not in LAMV}
    args = tuple(a.subst(m2) for a in at.args)
    extra = tuple(e.subst(m) if isinstance(e, (Ix, Cond)) else e for e in at.extra)
    if at.kind == "ix": r = Poly.from_ix(idx[0])
    elif at.kind == "br": r = bracket(extra[0])
    elif at.kind == "rc": r = args[0].recip()
    elif at.kind == "pw": r = args[0].root()
    elif at.kind == "v" and at.name in FN: r = FN[at.name](*args)
    else: r = Poly.atom(Atom(at.kind, at.name, idx, args, extra))
    _subst_cache[ck] = r
    return r

FN = {}     # builtin function constructors by name

# --------------------------------------------------------------------------- polynomials
class Mono:
    __slots__ = ("b", "f", "key", "_free", "level")
    _cache = {}
    def __new__(cls, b, f):
        key = "".join(f"S{n}<{s.key}." for n, s in b) + "*".join(f"{a.key}^{e}" if e != 1 else a.key for a, e in f)
        o = cls._cache.get(key)
        if o is None:
            o = object.__new__(cls); o.b, o.f, o.key = b, f, key
            fr = set()
            lv = 0
            for a, _ in f: fr |= a._free; lv = max(lv, a.level)
            for _, s in b: fr.update(s.names())
            fr -= {n for n, _ in b}
            o._free = frozenset(fr); o.level = lv + 1 if b else lv
            cls._cache[key] = o
        return o
    def __hash__(self): return hash(self.key)
    def __eq__(self, o): return self is o
    def __repr__(self): return self.key or "1"

UNIT = Mono((), ())

class Poly:
    __slots__ = ("d", "_key", "_free", "_level", "_h")
    def __init__(self, d):
        self.d = d; self._key = None; self._free = None; self._level = None
    # ---- construction
    @staticmethod
    def c(x):
        x = frac(x)
        return Poly({UNIT: x}) if x else P0
    @staticmethod
    def atom(a, e=1): return Poly({Mono((), ((a, e),)): Fr(1)})
    @staticmethod
    def from_ix(i):
        r = Poly.c(i.c)
        for n, k in i.t: r = r + Poly.atom(Atom("ix", "", (isym(n),))).scale(k)
        return r
    # ---- info
    @property
    def key(self):
        if self._key is None:
            self._key = " + ".join(f"{self.d[m]}·{m.key}" for m in sorted(self.d, key=lambda m: m.key)) or "0"
        return self._key
    def __repr__(self): return self.key
    def __hash__(self): return hash(self.key)
    def __eq__(self, o): return isinstance(o, Poly) and self.key == o.key
    def free(self):
        if self._free is None:
            f = set()
            for m in self.d: f |= m._free
            self._free = frozenset(f)
        return self._free
    def level(self):
        if self._level is None: self._level = max([m.level for m in self.d] + [0])
        return self._level
    def is_zero(self): return not self.d
    def is_const(self): return not self.d or (len(self.d) == 1 and UNIT in self.d)
    def const(self): return self.d.get(UNIT, Fr(0))
    def monos(self): return sorted(self.d, key=lambda m: m.key)
    def lead_coef(self): return self.d[self.monos()[0]] if self.d else Fr(0)
    def lead_abs(self): return abs(self.lead_coef())
    def atoms(self):
        s = set()
        for m in self.d:
            for a, _ in m.f: s.add(a)
        return s
    # ---- arithmetic
    def __add__(self, o):
        if not o.d: return self
        if not self.d: return o
        d = dict(self.d)
        for m, k in o.d.items():
            v = d.get(m, 0) + k
            if v: d[m] = v
            else: d.pop(m, None)
        return Poly(d)
    def scale(self, k):
        if k == 1: return self
        if k == 0: return P0
        return Poly({m: c * k for m, c in self.d.items()})
    def __neg__(self): return self.scale(Fr(-1))
    def __sub__(self, o): return self + o.scale(Fr(-1))
    def __mul__(self, o):
        if self.is_const(): return o.scale(self.const())
        if o.is_const(): return self.scale(o.const())
        acc = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                _addto(acc, mono_mul(m1, m2), c1 * c2)
        return Poly(acc)
    def pow(self, n):
        if n < 0: return self.recip().pow(-n)
        r = P1
        b = self
        while n:
            if n & 1: r = r * b
            n >>= 1
            if n: b = b * b
        return r
    def recip(self):
        if not self.d: return Poly.atom(Atom("v", "1/0"))
        if len(self.d) == 1:
            m, c = next(iter(self.d.items()))
            if not m.b and not any(a.kind == "br" for a, _ in m.f):
                r = Poly.c(1 / c)
                for a, e in m.f:
                    if a.kind == "rc" and e > 0: r = r * a.args[0].pow(e)
                    elif a.kind == "v" and a.name == "exp": r = r * FN["exp"](a.args[0].scale(-e))
                    elif a.kind == "pw" and e == 1: r = r * Poly.atom(a) * a.args[0].recip()
                    else: r = r * Poly({Mono((), ((a, -e),)): Fr(1)})
                return r
        # factor out monomial content (free atoms only)
        common = None
        for m in self.d:
            f = {a: e for a, e in m.f if a.kind not in ("br", "rc") and not (a._free & {n for n, _ in m.b})}
            if common is None: common = f
            else: common = {a: min(common.get(a, 0), f.get(a, 0)) for a in set(common) | set(f)}
        # negative exponents: missing atoms count as 0 above
        common = {a: e for a, e in common.items() if e}
        lead = self.lead_coef()
        g = self.scale(1 / lead)
        out = Poly.c(1 / lead)
        if common:
            inv = Poly({Mono((), tuple(sorted(((a, -e) for a, e in common.items()), key=lambda x: x[0].key))): Fr(1)})
            g2 = g * inv
            out = out * inv
            if len(g2.d) == 1 and not next(iter(g2.d)).b: return out * g2.recip()
            l2 = g2.lead_coef()
            out = out.scale(1 / l2); g = g2.scale(1 / l2)
        return out * Poly.atom(Atom("rc", "", (), (g,)))
    def root(self):
        """square root"""
        if not self.d: return P0
        if len(self.d) == 1:
            m, c = next(iter(self.d.items()))
            if not m.b:
                out, rest = P1, P1
                s = _fsqrt(c)
                if s is not None: out = Poly.c(s)
                else: rest = Poly.c(c)
                for a, e in m.f:
                    if a.kind == "br": out = out * Poly.atom(a); continue
                    h, odd = divmod(e, 2)
                    if h:
                        base = Poly.atom(a)
                        out = out * (FN["abs"](base).pow(h) if h % 2 else base.pow(h))
                    if odd: rest = rest * Poly.atom(a)
                if rest == P1: return out
                return out * Poly.atom(Atom("pw", "", (), (rest,)))
        return Poly.atom(Atom("pw", "", (), (self,)))
    def subst(self, m):
        if not m or not (self.free() & m.keys()): return self
        acc = {}
        for mo, c in self.d.items():
            if not (mo._free & m.keys()): _addto(acc, {mo: Fr(1)}, c); continue
            _addto(acc, mono_subst(mo, m), c)
        return Poly(acc)
    def sum_over(self, name, size):
        """SUM_{name=0}^{size-1} self   (name must be a fresh symbol)"""
        acc = {}
        for mo, c in self.d.items():
            if mo.b:
                b, f = _rename_fresh(mo)
            else: b, f = (), mo.f
            _addto(acc, mk(tuple(b) + ((name, size),), f), c)
        return Poly(acc)

def frac(x):
    if isinstance(x, Fr): return x
    if isinstance(x, int): return Fr(x)
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")): raise OverflowError("non-finite constant")
        return Fr(repr(x))
    raise TypeError(repr(x))

def _fsqrt(c):
    from math import isqrt
    if c < 0: return None
    n, d = isqrt(c.numerator), isqrt(c.denominator)
    return Fr(n, d) if n * n == c.numerator and d * d == c.denominator else None

P0 = Poly({})
P1 = Poly({UNIT: Fr(1)})

def _addto(acc, d, c):
    for m, k in d.items():
        v = acc.get(m, 0) + k * c
        if v: acc[m] = v
        else: acc.pop(m, None)

def _rename_fresh(mo):
    ren = {n: isym(fresh()) for n, _ in mo.b}
    f = []
    for a, e in mo.f:
        if a._free & ren.keys():
            p = atom_subst(a, ren)
            (m1, c1), = p.d.items()
            assert c1 == 1 and not m1.b and len(m1.f) == 1, p
            f.append((m1.f[0][0], m1.f[0][1] * e))
        else: f.append((a, e))
    return tuple((ren[n].t[0][0], s) for n, s in mo.b), tuple(f)

_mm_cache = {}
def mono_mul(m1, m2):
    """-> dict Mono->coef"""
    if m1 is UNIT: return {m2: Fr(1)}
    if m2 is UNIT: return {m1: Fr(1)}
    if m2.key < m1.key: m1, m2 = m2, m1
    k = (m1, m2)
    r = _mm_cache.get(k)
    if r is None:
        b1, f1 = _rename_fresh(m1) if m1.b else ((), m1.f)
        b2, f2 = _rename_fresh(m2) if m2.b else ((), m2.f)
        r = mk(b1 + b2, f1 + f2)
        _mm_cache[k] = r
    return r

def mono_subst(mo, m):
    b, f = _rename_fresh(mo) if mo.b else ((), mo.f)
    keep = []; polys = []
    for a, e in f:
        if a._free & m.keys():
            p = atom_subst(a, m)
            if len(p.d) == 1:
                (m1, c1), = p.d.items()
                if c1 == 1 and not m1.b:
                    keep.extend((x, y * e) for x, y in m1.f); continue
            polys.append(p.pow(e))
        else: keep.append((a, e))
    b = tuple((n, s.subst(m)) for n, s in b)
    if not polys: return mk(b, keep)
    r = Poly(_rawmk(keep))
    for p in polys: r = r * p
    acc = {}
    for mo2, c in r.d.items():
        b2, f2 = _rename_fresh(mo2) if mo2.b else ((), mo2.f)
        _addto(acc, mk(b2 + b, f2), c)
    return acc

def _rawmk(f): return mk((), f)

IMAG = None
def mk(b, f):
    """Canonical dict for  SUM_b prod f  (b: (name,size) with globally fresh names)."""
    d = {}
    exps = []; extra = None
    for a, e in f:
        if not e: continue
        if a.kind == "br": d[a] = 1; continue
        if a.kind == "v" and a.name == "exp" : exps.append((a, e)); continue
        d[a] = d.get(a, 0) + e
    if exps:
        if len(exps) == 1 and exps[0][1] == 1: d[exps[0][0]] = 1
        else:
            s = P0
            for a, e in exps: s = s + a.args[0].scale(e)
            extra = FN["exp"](s)
    for a in list(d):
        e = d.get(a)
        if e == 0: del d[a]; continue
        if a.kind == "pw" and (e > 1 or e < 0):
            h, odd = divmod(e, 2)
            del d[a]
            if odd: d[a] = 1
            x = a.args[0].pow(h)
            extra = x if extra is None else extra * x
        elif a.kind == "rc" and e < 0:
            del d[a]
            x = a.args[0].pow(-e)
            extra = x if extra is None else extra * x
        elif a is IMAG and (e > 1 or e < 0):
            r = e % 4
            del d[a]
            if r % 2: d[a] = 1
            if r >= 2: extra = (extra or P1).scale(Fr(-1))
        elif a.kind == "v" and a.name == "abs" and e % 2 == 0:
            del d[a]
            x = a.args[0].pow(e)
            extra = x if extra is None else extra * x
    # complementary integer brackets vanish
    brs = [a for a in d if a.kind == "br"]
    if len(brs) > 1:
        for i, a in enumerate(brs):
            ca = a.extra[0]
            for c2 in brs[i + 1:]:
                if cnot(ca) is c2.extra[0]: return {}
    if extra is not None:
        r = Poly(mk((), tuple(d.items()))) * extra
        acc = {}
        for mo, c in r.d.items():
            b2, f2 = _rename_fresh(mo) if mo.b else ((), mo.f)
            _addto(acc, mk(b2 + tuple(b), f2), c)
        return acc
    if not b:
        if not d: return {UNIT: Fr(1)}
        return {Mono((), tuple(sorted(d.items(), key=lambda x: x[0].key))): Fr(1)}
    # --- bound variables
    for n, s in b:
        if s.const:
            if s.c <= 0: return {}
            if s.c <= 12:
                rest = tuple(x for x in b if x[0] != n)
                acc = {}
                for v in range(s.c): _addto(acc, _mk_subst(rest, d, {n: iconst(v)}), Fr(1))
                return acc
        # unused
    used = set()
    for a in d: used |= a._free
    for n, s in b:
        if n not in used and not any(n in s2.names() for _, s2 in b):
            rest = tuple(x for x in b if x[0] != n)
            r = Poly(mk(rest, tuple(d.items())))
            return _resum_mul(r, Poly.from_ix(s))
    bn = {n: s for n, s in b}
    for a in list(d):
        if a.kind == "br" and a.extra[0].op == "eq":
            e = a.extra[0].a[0]
            for n, k in e.t:
                if n in bn and abs(k) == 1 and not any(n in s2.names() for m, s2 in b if m != n):
                    sol = (e - Ix(0, ((n, k),))).scale(-k)     # n = sol
                    rest = tuple(x for x in b if x[0] != n)
                    dd = {x: y for x, y in d.items() if x is not a}
                    extra = [ige(sol), ige(bn[n] - sol - ONE)]
                    if FALSE in extra: return {}
                    for c in extra:
                        if c is not TRUE: dd[Atom("br", "", (), (), (c,))] = 1
                    return _mk_subst(rest, dd, {n: sol})
    # canonical names
    L = 1 + max([a.level for a in d] + [0])
    names = [n for n, _ in b]
    if len(names) == 1: order = [names]
    else:
        sig = {}
        for n in names:
            m = {x: isym("~") for x in names}; m[n] = isym("!")
            sig[n] = bn[n].key + "|" + "|".join(sorted(_akey_sub(a, m) + "^" + str(e) for a, e in d.items() if n in a._free))
        groups = {}
        for n in names: groups.setdefault(sig[n], []).append(n)
        ks = sorted(groups)
        order = [sum(map(list, p), []) for p in product(*[list(permutations(groups[k])) for k in ks])]
        if len(order) > 720: order = order[:720]
    best = None
    for o in order:
        ren = {n: isym(f"@{L}.{i}") for i, n in enumerate(o)}
        ff = []
        for a, e in d.items():
            if a._free & ren.keys():
                p = atom_subst(a, ren)
                (m1, c1), = p.d.items()
                ff.append((m1.f[0][0], m1.f[0][1] * e))
            else: ff.append((a, e))
        ff = tuple(sorted(ff, key=lambda x: x[0].key))
        k = "*".join(a.key for a, _ in ff)
        if best is None or k < best[0]: best = (k, tuple((f"@{L}.{i}", bn[n].subst(ren)) for i, n in enumerate(o)), ff)
    return {Mono(best[1], best[2]): Fr(1)}

def _akey_sub(a, m):
    m = {k: v for k, v in m.items() if k in a._free}
    if a.kind == "br":
        # equality brackets orient their own sign; do not rebuild
        return a.kind + str(sorted(a.extra[0].key.replace(k, v.key) for k, v in m.items()))
    try: return atom_subst(a, m).key
    except Exception: return a.name

def _mk_subst(b, d, m):
    polys = P1; keep = []
    for a, e in d.items():
        if a._free & m.keys():
            p = atom_subst(a, m)
            if len(p.d) == 1:
                (m1, c1), = p.d.items()
                if c1 == 1 and not m1.b:
                    keep.extend((x, y * e) for x, y in m1.f); continue
            polys = polys * p.pow(e)
        else: keep.append((a, e))
    b = tuple((n, s.subst(m)) for n, s in b)
    if polys is P1: return mk(b, keep)
    acc = {}
    r = Poly(mk((), keep)) * polys
    for mo, c in r.d.items():
        b2, f2 = _rename_fresh(mo) if mo.b else ((), mo.f)
        _addto(acc, mk(b2 + b, f2), c)
    return acc

def _resum_mul(p, q):
    return (p * q).d

# --------------------------------------------------------------------------- brackets, functions
def br_atom(c): return Poly.atom(Atom("br", "", (), (), (c,)))
def bracket(c):
    if c is TRUE: return P1
    if c is FALSE: return P0
    if c.op in ("ge", "eq", "rge", "req", "opq"): return br_atom(c)
    if c.op == "not":
        return P1 - bracket(c.a[0])
    if c.op == "and":
        r = P1
        for x in c.a: r = r * bracket(x)
        return r
    if c.op == "or":
        r = P1
        for x in c.a: r = r * (P1 - bracket(x))
        return P1 - r
    raise AssertionError(c)

def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a == b: return a
    k = bracket(c)
    return k * (a - b) + b

def sym(name): return Poly.atom(Atom("v", name))
def elem(name, *idx): return Poly.atom(Atom("v", name, tuple(ix(i) for i in idx)))
def app(name, idx, args):
    if name in FN and not idx: return FN[name](*args)
    return Poly.atom(Atom("v", name, tuple(idx), tuple(args)))

def _exp(a):
    if a.is_zero(): return P1
    return Poly.atom(Atom("v", "exp", (), (a,)))
FN["exp"] = _exp
def _log(a):
    if a == P1: return P0
    return Poly.atom(Atom("v", "log", (), (a,)))
FN["log"] = _log

POSITIVE = set()     # names of symbols/arrays known to be > 0
NONNEG = set()
DIAGDOM = set()      # arrays whose random instances are diagonally dominant (instances only; proofs do not use it)
def is_pos(p):
    """syntactically positive"""
    if not p.d: return False
    return all(c > 0 for c in p.d.values()) and all(_mono_sign(m) == 2 for m in p.d)
def is_nonneg(p):
    return all(c > 0 for c in p.d.values()) and all(_mono_sign(m) >= 1 for m in p.d)
def _mono_sign(m):
    s = 2
    for a, e in m.f:
        if atom_pos(a): continue
        if e % 2 == 0 or a.kind == "br" or a.kind == "pw" or (a.kind == "v" and (a.name in NONNEG or a.name == "abs")): s = min(s, 1)
        else: return 0
    if m.b: s = min(s, 1)
    return s
def atom_pos(a):
    if a.kind == "v": return a.name in POSITIVE or a.name == "exp" or (a.name == "abs" and is_pos(a.args[0]))
    if a.kind in ("rc", "pw"): return is_pos(a.args[0])
    if a.kind == "lam": return is_pos(a.args[0])
    if a.kind == "ix": return _ix_pos(a.idx[0])
    return False
def _ix_pos(i):
    if i.const: return i.c > 0
    from .ctx import ctx
    c = ctx()
    return c is not None and c.entails(ige(i - ONE))

def _abs(a):
    if is_nonneg(a): return a
    if is_nonneg(-a): return -a
    if len(a.d) == 1:
        m, c = next(iter(a.d.items()))
        if not m.b:
            out = Poly.c(abs(c)); rest = P1
            for at, e in m.f:
                p = Poly({Mono((), ((at, e),)): Fr(1)})
                if _mono_sign(next(iter(p.d))) >= 1: out = out * p
                else: rest = rest * p
            if rest == P1: return out
            return out * Poly.atom(Atom("v", "abs", (), (rest,)))
    if a.lead_coef() < 0: a = -a
    return Poly.atom(Atom("v", "abs", (), (a,)))
FN["abs"] = _abs

PI = sym("pi"); POSITIVE.add("pi")
IMAG = next(iter(sym("I").atoms()))
I_UNIT = Poly.atom(IMAG)

def _trig(name, odd):
    def f(a):
        if a.is_zero(): return P0 if odd else P1
        if a.lead_coef() < 0:
            r = Poly.atom(Atom("v", name, (), (-a,)))
            return -r if odd else r
        return Poly.atom(Atom("v", name, (), (a,)))
    return f
FN["sin"] = _trig("sin", True)
FN["cos"] = _trig("cos", False)

def complexp(z):
    return Poly.c(z.real) + I_UNIT.scale(frac(z.imag)) if z.imag else Poly.c(z.real)

for _c in (Ix, Cond, Atom, Mono, Poly):        # immutable
    _c.__deepcopy__ = lambda self, memo: self
    _c.__copy__ = lambda self: self
