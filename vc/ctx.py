"""Path context: integer/real facts, entailment (z3), path and loop decisions."""
import z3
from .terms import *
from . import terms as T

class Unsupported(Exception):
    """construct outside the verifier's subset"""

class Infeasible(Exception):
    """the facts of this path contradict each other"""

_zi, _zr, _zb = {}, {}, {}
def zint(n):
    r = _zi.get(n)
    if r is None: r = _zi[n] = z3.Int(n)
    return r
_zix = {}
def zix(e):
    r = _zix.get(e)
    if r is None:
        r = z3.IntVal(e.c)
        for n, k in e.t: r = r + k * zint(n)
        _zix[e] = r
    return r
def guards(m):
    """conditions of a product's brackets, and the rest of the product"""
    if m.b: return (), m
    cs = [a.extra[0] for a, _ in m.f if a.kind == "br"]
    if not cs: return (), m
    return cs, Mono((), tuple((a, e) for a, e in m.f if a.kind != "br"))
def zmono(m):
    r = _zr.get(m.key)
    if r is None:
        cs, rest = guards(m)
        if cs: r = z3.If(z3.And(*[zcond(c) for c in cs]), zmono(rest) if rest.f else z3.RealVal(1), z3.RealVal(0))
        elif not m.b and len(m.f) == 1 and m.f[0][0].kind == "ix" and m.f[0][1] == 1:
            r = z3.ToReal(zix(m.f[0][0].idx[0]))
        else: r = z3.Real("m!" + m.key)
        _zr[m.key] = r
    return r
def zpoly(p):
    r = z3.RealVal(0)
    for m, c in p.d.items():
        v = z3.RealVal(f"{c.numerator}/{c.denominator}")
        r = r + (v if m is UNIT else v * zmono(m))
    return r
_zc = {}
def zcond(c):
    r = _zc.get(c)
    if r is None:
        if c is TRUE: r = z3.BoolVal(True)
        elif c is FALSE: r = z3.BoolVal(False)
        elif c.op == "ge": r = zix(c.a[0]) >= 0
        elif c.op == "eq": r = zix(c.a[0]) == 0
        elif c.op == "rge": r = zpoly(c.a[0]) >= 0
        elif c.op == "req": r = zpoly(c.a[0]) == 0
        elif c.op == "not": r = z3.Not(zcond(c.a[0]))
        elif c.op == "and": r = z3.And(*[zcond(x) for x in c.a])
        elif c.op == "or": r = z3.Or(*[zcond(x) for x in c.a])
        elif c.op == "opq": r = z3.Bool("o!" + c.a[0])
        _zc[c] = r
    return r

def _monos_of(c, out):
    if c.op in ("rge", "req"):
        for m in c.a[0].d:
            cs, rest = guards(m)
            if rest.f or rest.b: out[rest.key] = rest
            for x in cs: _monos_of(x, out)
    else:
        for x in c.a:
            if isinstance(x, Cond): _monos_of(x, out)

class Frame:
    def __init__(self, syms=()):
        self.syms = set(syms); self.facts = []; self.prefix = []; self.taken = []; self.pos = 0
    def restart(self, prefix):
        self.facts = []; self.prefix = list(prefix); self.taken = []; self.pos = 0

def next_prefix(taken):
    """DFS over decisions: flip the last True."""
    t = [b for _, b in taken]
    while t and not t[-1]: t.pop()
    if not t: return None
    t[-1] = False
    return t

RLIMIT, RLIMIT_NL = 5_000_000, 15_000_000        # z3's own step counter: the same answer on any machine
STAT = None
class Ctx:
    cur = None
    def __init__(self):
        self.frames = [Frame()]
        self.cache = {}; self.busy = set()
        self.named = {}
        self.defs = {}            # int symbol -> definition (kind, data)
        self.queries = 0; self.solver_time = 0.0; self.starved = 0
        self.readlogs = []
        self.loopbufs = []        # stack of dicts Buf -> saved state
        self.axioms = []          # facts about named integers, always available
    # ---- facts
    def facts(self):
        out = list(self.axioms)
        for f in self.frames: out += f.facts
        return out
    def assume(self, c):
        if c is FALSE: raise Infeasible()
        if c is not TRUE: self.frames[-1].facts.append(c)
    def axiom(self, c):
        if c is not TRUE and c not in self.axioms: self.axioms.append(c)
    def push(self, syms=()):
        f = Frame(syms); self.frames.append(f); return f
    def pop(self): self.frames.pop()
    # ---- entailment
    def entails(self, c, extra=()):
        if c is TRUE: return True
        if c is FALSE:
            pass
        fs = self.facts() + list(extra)
        if c in fs: return True
        if c.op == "and": return all(self.entails(x, extra) for x in c.a)
        if c.op == "rge" and is_nonneg(c.a[0]): return True
        # restrict to relevant facts (cone of influence)
        names = set(_names(c)); rel = []
        rest = [f for f in fs if f is not TRUE]
        changed = True
        while changed:
            changed = False
            for f in list(rest):
                nf = _names(f)
                if nf & names or (c is FALSE):
                    rel.append(f); rest.remove(f); names |= nf; changed = True
        key = (c.key, tuple(sorted({f.key for f in rel})))
        r = self.cache.get(key)
        if r is None:
            if key in self.busy: return False           # asked again while working on it (signs of its own terms)
            self.busy.add(key)
            try: r = self._check(rel, c)
            finally: self.busy.discard(key)
            if r or not self.busy: self.cache[key] = r
        return r
    def _check(self, rel, c):
        import time
        t0 = time.time()
        s = z3.Solver(); s.set("timeout", 20000); s.set("rlimit", RLIMIT)
        ms = {}
        for f in rel: s.add(zcond(f)); _monos_of(f, ms)
        _monos_of(c, ms)
        for m in ms.values():
            if m is UNIT: continue
            g = T._mono_sign(m)
            if g == 2: s.add(zmono(m) > 0)
            elif g == 1: s.add(zmono(m) >= 0)
        s.add(z3.Not(zcond(c)))
        r = self._run(s, t0)
        return r
    def _run(self, s, t0):
        import time
        x = s.check(); dt = time.time() - t0
        if x == z3.unknown and dt > 18: self.starved += 1          # the clock decided, not the query
        self.queries += 1; self.solver_time += dt
        if STAT is not None: STAT.append((str(x), round(dt, 2), [s.statistics().get_key_value("rlimit count")] if "rlimit count" in s.statistics().keys() else None))
        return x == z3.unsat
    def feasible(self): return not self.entails(FALSE)
    def entails_nl(self, c, extra=()):
        """nonlinear real arithmetic (products, quotients and square roots interpreted)"""
        import time
        t0 = time.time()
        rel = self.facts() + list(extra)
        s = z3.SolverFor("QF_NRA") if not any(_has_int(f) for f in rel + [c]) else z3.Solver()
        s.set("timeout", 20000); s.set("rlimit", RLIMIT_NL)
        nl = NL()
        try:
            for f in rel: s.add(nl.cond(f))
            s.add(z3.Not(nl.cond(c)))
        except Unsupported: return False
        for a in nl.side: s.add(a)
        return self._run(s, t0)
    # ---- decisions
    def decide(self, c):
        if c is TRUE: return True
        if c is FALSE: return False
        if self.entails(c): return True
        if self.entails(cnot(c)): return False
        f = self.frames[0]
        for fr in reversed(self.frames[1:]):
            if any(s in c.key for s in fr.syms): f = fr; break
        if f.pos < len(f.prefix): b = f.prefix[f.pos]
        else: b = True
        f.pos += 1
        f.taken.append((c, b))
        if len(f.taken) > 60: raise Unsupported("too many path decisions")
        f.facts.append(c if b else cnot(c))
        return b
    # ---- normal form of a polynomial under the facts: resolve determined brackets
    def resolve(self, p, extra=()):
        hit = None
        for m in p.d:
            for a, _ in m.f:
                if a.kind == "br" and not any(n.startswith("@") for n in a._free): hit = True
        if not hit: return p
        acc = {}
        for m, c in p.d.items():
            keep = []; dead = False
            for a, e in m.f:
                if a.kind == "br" and not any(n.startswith("@") for n in a._free):
                    cc = a.extra[0]
                    if self.entails(cc, extra): continue
                    if self.entails(cnot(cc), extra): dead = True; break
                keep.append((a, e))
            if dead: continue
            if len(keep) == len(m.f): T._addto(acc, {m: Fr(1)}, c)
            elif m.b: 
                b, f = T._rename_fresh(Mono(m.b, tuple(keep)))
                T._addto(acc, mk(b, f), c)
            else: T._addto(acc, mk((), keep), c)
        return Poly(acc)

def _names(c):
    """identifiers a condition talks about (ints and real monomials)"""
    out = set()
    def go(c):
        if c.op in ("ge", "eq"): out.update(c.a[0].names())
        elif c.op in ("rge", "req"):
            for m in c.a[0].d:
                cs, m = guards(m)
                for x in cs: go(x)
                if m is UNIT or not (m.f or m.b): continue
                if not m.b and len(m.f) == 1 and m.f[0][0].kind == "ix": out.update(m.f[0][0].idx[0].names())
                else: out.add(m.key)
        elif c.op == "opq": out.add(c.a[0])
        else:
            for x in c.a:
                if isinstance(x, Cond): go(x)
    r = _nc.get(c)
    if r is None:
        go(c); r = _nc[c] = frozenset(out)
    return r
_nc = {}

def ctx(): return Ctx.cur

def _has_int(c):
    if c.op in ("ge", "eq", "opq"): return True
    if c.op in ("rge", "req"): return any(a.kind == "ix" for m in c.a[0].d for a, _ in m.f)
    return any(_has_int(x) for x in c.a if isinstance(x, Cond))

class NL:
    """conditions with the factors of each term interpreted"""
    def __init__(self): self.side = []; self.m = {}
    def atom(self, a):
        r = self.m.get(a)
        if r is not None: return r
        if a.kind == "ix": r = z3.ToReal(zix(a.idx[0]))
        elif a.kind == "br":
            r = z3.If(self.cond(a.extra[0]), z3.RealVal(1), z3.RealVal(0))
        else:
            r = z3.Real("a!" + a.key)
            if a.kind == "pw": 
                x = self.poly(a.args[0])
                self.side += [r >= 0, z3.Implies(x >= 0, r * r == x)]
            elif a.kind == "rc":
                x = self.poly(a.args[0])
                self.side.append(z3.Implies(x != 0, r * x == 1))
            elif a.kind == "v" and a.name == "abs":
                x = self.poly(a.args[0])
                self.side.append(r == z3.If(x >= 0, x, -x))
            elif T.atom_pos(a): self.side.append(r > 0)
            elif a.kind == "v" and a.name in T.NONNEG: self.side.append(r >= 0)
        self.m[a] = r
        return r
    def poly(self, p):
        r = z3.RealVal(0)
        for m, c in p.d.items():
            t = z3.RealVal(f"{c.numerator}/{c.denominator}")
            if m.b: t = t * z3.Real("m!" + m.key)
            else:
                for a, e in m.f:
                    x = self.atom(a)
                    if e < 0:
                        y = z3.Real("r!" + a.key); self.side.append(z3.Implies(x != 0, y * x == 1)); x, e = y, -e
                    for _ in range(e): t = t * x
            r = r + t
        return r
    def cond(self, c):
        if c is TRUE: return z3.BoolVal(True)
        if c is FALSE: return z3.BoolVal(False)
        if c.op == "rge": return self.poly(c.a[0]) >= 0
        if c.op == "req": return self.poly(c.a[0]) == 0
        if c.op == "not": return z3.Not(self.cond(c.a[0]))
        if c.op == "and": return z3.And(*[self.cond(x) for x in c.a])
        if c.op == "or": return z3.Or(*[self.cond(x) for x in c.a])
        return zcond(c)
