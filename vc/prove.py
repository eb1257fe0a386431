"""Discharging obligations  P == 0  /  condition, by rewriting to canonical form under the path facts,
and refuting them by evaluation at a random instance."""
import itertools, math, random, hashlib, time
import numpy as _np
from .terms import *
from . import terms as T
from .ctx import ctx, Unsupported
from .values import rsubst, D

# ------------------------------------------------------------------ normal form
class Splits:
    def __init__(self): self.want = {}
    def add(self, c):
        if c is not TRUE and c is not FALSE: self.want[c.key] = c

def normalise(p, extra=(), splits=None, depth=0):
    """resolve determined brackets and narrow bound ranges"""
    c = ctx()
    acc = {}
    again = False
    for m, k in p.d.items():
        r = _norm_mono(m, extra, splits)
        if r is m: T._addto(acc, {m: Fr(1)}, k)
        elif r is None: pass
        else: again = True; T._addto(acc, r, k)
    q = Poly(acc)
    if again and depth < 12: return normalise(q, extra, splits, depth + 1)
    return q

_free_at = lambda names: any(n.startswith("@") for n in names)
def _norm_mono(m, extra, splits):
    brs = [(a, e) for a, e in m.f if a.kind == "br"]
    c = ctx()
    bfacts = []
    for n, s in m.b:
        bfacts += [ige(isym(n)), ige(s - isym(n) - ONE)]
    # empty range?
    for n, s in m.b:
        if not s.const and not c.entails(ige(s - ONE), extra):
            if c.entails(ige(-s), extra): return None
    if not brs: return m
    fx = list(extra) + bfacts
    bn = {n: s for n, s in m.b}
    others = [x for x in m.f if x[0].kind != "br"]
    for a, e in brs:
        cond = a.extra[0]
        rest = tuple(x for x in m.f if x[0] is not a)
        # use the sibling brackets as facts too
        if c.entails(cnot(cond), fx): return None
        if c.entails(cond, fx): return _rebuild(m.b, rest)
        fr = cond.free()
        bv = [n for n in fr if n in bn]
        if bv and cond.op == "ge":
            ex = cond.a[0]
            for n in bv:
                k = ex.coef(n)
                if abs(k) != 1 or any(n in s.names() for q, s in m.b): continue
                s = bn[n]
                other = ex - Ix(0, ((n, k),))
                if any(x in bn for x in other.names()): 
                    continue
                if k == -1:               # n <= other
                    new = other + ONE
                    f0 = [f for f in extra]
                    if c.entails(ige(s - new), f0):
                        if c.entails(ige(new), f0): return _rebuild(tuple((x, new if x == n else y) for x, y in m.b), rest)
                        if c.entails(ige(-new), f0): return None
                        if splits is not None: splits.add(ige(new))
                    elif c.entails(ige(new - s), f0): return _rebuild(m.b, rest)
                    elif splits is not None: splits.add(ige(s - new))
                else:                     # n >= -other
                    lo = -other
                    f0 = [f for f in extra]
                    if c.entails(ige(-lo), f0): return _rebuild(m.b, rest)
                    if c.entails(ige(lo), f0):
                        if c.entails(ige(s - lo), f0):
                            nm = fresh()
                            return _shift(m.b, rest, n, nm, lo, s - lo)
                        if c.entails(ige(lo - s), f0): return None
                        if splits is not None: splits.add(ige(s - lo))
                    elif splits is not None: splits.add(ige(lo))
        elif not bv and splits is not None and not any(x.startswith("@") for x in fr): splits.add(cond)
    # two brackets that contradict / imply one another (free or bound)
    if len(brs) > 1:
        conds = [a.extra[0] for a, _ in brs]
        for i, (a, e) in enumerate(brs):
            oth = [q for j, q in enumerate(conds) if j != i]
            if c.entails(cnot(conds[i]), fx + oth): return None
            if c.entails(conds[i], fx + oth):
                return _rebuild(m.b, tuple(x for x in m.f if x[0] is not a))
    return m
def _rebuild(b, f):
    if not b: return mk((), f)
    b2, f2 = T._rename_fresh(_RawMono(b, f))
    return mk(b2, f2)
class _RawMono:
    def __init__(self, b, f): self.b, self.f = b, f
def _shift(b, f, n, nm, lo, size):
    b2, f2 = T._rename_fresh(_RawMono(b, f))
    # position of n in b gives its fresh name
    pos = [i for i, (x, _) in enumerate(b) if x == n][0]
    fn = b2[pos][0]
    rest = tuple(x for i, x in enumerate(b2) if i != pos)
    return T._mk_subst(rest + ((nm, size),), dict(_merge(f2)), {fn: isym(nm) + lo})
def _merge(f):
    d = {}
    for a, e in f: d[a] = d.get(a, 0) + e
    return d

def lead_rule(p, limit=400):
    """lead(S)*rc(S) -> 1 - rest*rc(S)"""
    for _ in range(limit):
        hit = None
        for m, c in p.d.items():
            for a, e in m.f:
                if a.kind == "rc" and e >= 1:
                    S = a.args[0]
                    m0 = S.monos()[0]
                    if m0.b or m0 is UNIT: continue
                    d = dict(m.f)
                    if all((d.get(x, 0) >= y if y > 0 else d.get(x, 0) <= y) for x, y in m0.f):
                        hit = (m, c, a, S, m0); break
            if hit: break
        if not hit: return p
        m, c, a, S, m0 = hit
        bnd, f = T._rename_fresh(m) if m.b else ((), m.f)
        # identify a in renamed factors: rename changed bound names inside a
        if m.b:
            idx = [i for i, (x, _) in enumerate(m.f) if x is a][0]
            a = f[idx][0]; S = a.args[0]; m0 = S.monos()[0]
            if m0.b or m0 is UNIT: return p
        d = _merge(f)
        if not all((d.get(x, 0) >= y if y > 0 else d.get(x, 0) <= y) for x, y in m0.f): return p
        for x, y in m0.f:
            d[x] = d.get(x, 0) - y
        d[a] -= 1
        base = Poly(mk((), tuple((x, y) for x, y in d.items() if y)))
        c0 = S.d[m0]
        restS = S - Poly({m0: c0})
        repl = (P1 - restS * Poly.atom(a)).scale(1 / c0)
        r = base * repl
        acc = {}
        for m2, c2 in r.d.items():
            b2, f2 = T._rename_fresh(m2) if m2.b else ((), m2.f)
            T._addto(acc, mk(tuple(b2) + tuple(bnd), f2), c2)
        p = p - Poly({m: c}) + Poly(acc).scale(c)
    return p

def clear_denominators(p):
    """multiply by the free reciprocals (valid for a zero test: they do not vanish)"""
    for _ in range(30):
        R = None
        for m in p.d:
            bn = {n for n, _ in m.b}
            for a, e in m.f:
                if (a.kind == "rc" and e > 0) and not (a.free() & bn) and not any(x.startswith("@") for x in a.free()):
                    if R is None or len(a.key) > len(R.key): R = a
        if R is None: return p
        # every occurrence must be free of binders
        emax = max((dict(m.f).get(R, 0) for m in p.d), default=0)
        out = P0
        for m, c in p.d.items():
            e = dict(m.f).get(R, 0)
            if e:
                b2, f2 = T._rename_fresh(m) if m.b else ((), m.f)
                q = Poly(mk(b2, tuple(x for x in f2 if x[0] is not R)))
            else: q = Poly({m: Fr(1)})
            out = out + (q * R.args[0].pow(emax - e)).scale(c)
        p = out
    return p

# ------------------------------------------------------------------ inverse matrices
_rel_cache = {}
def relations(at, extra):
    """rewrite rules from  sum_j M[i,j] Inv[j,b] = delta_ib   -> list of (caseconds, patternMono, rhsPoly)"""
    key = (at.args[0].key, at.extra[0].key, tuple(sorted(f.key for f in ctx().facts())))
    r = _rel_cache.get(key)
    if r is not None: return r
    M = at.args[0]; n = at.extra[0]
    i, b = isym("!i"), isym("!b")
    conds = {}
    for m in M.d:
        for a, _ in m.f:
            if a.kind == "br":
                f = a.free()
                if "@r" in f and "@c" not in f and not any(x.startswith("@") and x != "@r" for x in f): conds[a.extra[0].key] = a.extra[0]
    conds = list(conds.values())[:4]
    out = []
    base = [ige(i), ige(n - i - ONE), ige(b), ige(n - b - ONE)]
    for tv in itertools.product((True, False), repeat=len(conds)):
        cs = [c.subst({"@r": i}) if t else cnot(c.subst({"@r": i})) for c, t in zip(conds, tv)]
        if FALSE in cs or ctx().entails(FALSE, base + list(extra) + cs): continue
        j = fresh()
        rel = M.subst({"@r": i, "@c": isym(j)}) * Poly.atom(Atom("inv", "", (isym(j), b), (M,), (n,)))
        rel = rel.sum_over(j, n)
        rel = normalise(rel, base + list(extra) + cs)
        dl = bracket(ieq(i - b))
        # group monomials: matrix part (with inv, pattern vars and binders) x scalar part
        groups = {}
        for m, c in rel.d.items():
            bn = {x for x, _ in m.b}
            mat, sca = [], []
            for a, e in m.f:
                fr = a.free()
                (mat if (fr & bn or "!i" in fr or "!b" in fr or a.kind in ("inv",)) else sca).append((a, e))
            bf = T._rename_fresh(_RawMono(m.b, tuple(mat))) if m.b else ((), tuple(mat))
            mp = mk(bf[0], bf[1])
            if len(mp) != 1: groups = None; break
            (pm, pc), = mp.items()
            g = groups.setdefault(pm, P0)
            groups[pm] = g + Poly(mk((), tuple(sca))).scale(c * pc)
        if not groups: continue
        cand_ = []
        for pm, S in groups.items():
            if any(a.kind == "br" for a, _ in pm.f): continue
            if sum(1 for a, _ in pm.f if a.kind == "inv") != 1: continue
            if not (is_pos(S) or is_pos(-S)): continue
            # prefer long matrix parts, simple scalars
            w = (len(pm.f) > 1, len(S.d) == 1, -len(pm.b), pm.key)
            cand_.append((w, pm, S))
        if not cand_: continue
        cand_.sort(key=lambda x: (not x[0][0], not x[0][1], len(x[1].b), x[1].key))
        _, pm, S = cand_[0]
        rest = rel - sum_poly([Poly({pm: Fr(1)}) * S])
        rhs = (dl - rest) * S.recip()
        out.append((cs, pm, rhs))
    _rel_cache[key] = out
    return out
def sum_poly(ps):
    r = P0
    for p in ps: r = r + p
    return r

def unify_ix(pat, tgt, env, pv, bound):
    """pat over pattern vars; extend env"""
    vs = [n for n in pat.names() if n in pv and n not in env]
    p = pat.subst(env)
    vs = [n for n in p.names() if n in pv and n not in env]
    if not vs: return env if p is tgt else None
    if len(vs) > 1: return None
    k = p.coef(vs[0])
    if abs(k) != 1: return None
    sol = (tgt - (p - Ix(0, ((vs[0], k),)))).scale(k)
    if vs[0].startswith("?"):
        if len(sol.t) != 1 or sol.t[0][1] != 1 or sol.c or sol.t[0][0] not in bound: return None
        if any(v is sol for n, v in env.items() if n.startswith("?")): return None
    e = dict(env); e[vs[0]] = sol
    return e

def match_mono(pm, m, extra, caseconds):
    """-> (rest binders, rest factors, env) or None"""
    ren = {n: f"?{i}" for i, (n, _) in enumerate(pm.b)}
    sub = {n: isym(v) for n, v in ren.items()}
    pf = []
    for a, e in pm.f:
        if a.free() & sub.keys():
            q = T.atom_subst(a, sub)
            (m1, c1), = q.d.items()
            a = m1.f[0][0]
        pf.append((a, e))
    psz = {ren[n]: s.subst(sub) for n, s in pm.b}
    pv = set(psz) | {"!i", "!b"}
    bound = {n: s for n, s in m.b}
    pf.sort(key=lambda x: (x[0].kind != "inv", x[0].key))
    tf = _merge(m.f)
    def go(k, env, used):
        if k == len(pf):
            for n, s in psz.items():
                v = env.get(n)
                if v is None: return None
                tn = v.t[0][0]
                if bound[tn].key != s.subst(env).key: 
                    return None
                # must not occur elsewhere
                for a, e in tf.items():
                    left = e - used.get(a, 0)
                    if left and tn in a.free(): return None
                if any(tn in s2.names() for n2, s2 in m.b if n2 != tn): return None
            if "!i" not in env or "!b" not in env: return None
            fx = list(extra)
            for n, s in m.b: fx += [ige(isym(n)), ige(s - isym(n) - ONE)]
            for cc in caseconds:
                c2 = cc.subst({"!i": env["!i"], "!b": env["!b"]})
                if not ctx().entails(c2, fx): return None
            n_ = None
            return env, used
        a, e = pf[k]
        for t, te in tf.items():
            if t.kind != a.kind or t.name != a.name or len(t.idx) != len(a.idx): continue
            av = te - used.get(t, 0)
            if (e > 0 and av < e) or (e < 0 and av > e): continue
            if len(t.args) != len(a.args): continue
            if any(x is not y and x.key != y.key for x, y in zip(t.args, a.args)):
                if a.kind == "inv": continue
                # substitute the environment in the arguments
                if any(x.subst(env).key != y.key for x, y in zip(a.args, t.args)): continue
            if a.kind == "br":
                if a.extra[0].subst(env).key != t.extra[0].key: continue
            ev = env
            for pi, ti in zip(a.idx, t.idx):
                ev = unify_ix(pi, ti, ev, pv, bound)
                if ev is None: break
            if ev is None: continue
            u = dict(used); u[t] = u.get(t, 0) + e
            r = go(k + 1, ev, u)
            if r: return r
        return None
    r = go(0, {}, {})
    if not r: return None
    env, used = r
    gone = {env[n].t[0][0] for n in psz}
    rb = tuple((n, s) for n, s in m.b if n not in gone)
    rf = tuple((a, e - used.get(a, 0)) for a, e in tf.items() if e - used.get(a, 0))
    return rb, rf, env

def inverse_rule(p, extra=(), limit=200):
    for _ in range(limit):
        hit = False
        for m, c in list(p.d.items()):
            invs = [a for a, e in m.f if a.kind == "inv" and not a.name]
            for a in invs:
                for cs, pm, rhs in relations(a, extra):
                    r = match_mono(pm, m, extra, cs)
                    if r is None: continue
                    rb, rf, env = r
                    ei, eb = env["!i"], env["!b"]
                    if rb:
                        rb2, rf2 = T._rename_fresh(_RawMono(rb, rf))
                        ren = {n: isym(n2[0]) for (n, _), n2 in zip(rb, rb2)}
                        ei, eb = ei.subst(ren), eb.subst(ren)
                    else: rb2, rf2 = rb, rf
                    rep = rhs.subst({"!i": ei, "!b": eb})
                    q = Poly(mk((), rf2)) * rep
                    acc = {}
                    for m2, c2 in q.d.items():
                        b2, f2 = T._rename_fresh(m2) if m2.b else ((), m2.f)
                        T._addto(acc, mk(tuple(b2) + tuple(rb2), f2), c2)
                    p = p - Poly({m: c}) + Poly(acc).scale(c)
                    p = normalise(p, extra)
                    hit = True; break
                if hit: break
            if hit: break
        if not hit: return p
    return p

# ------------------------------------------------------------------ telescoping normal form
def _offsets(a, n):
    """constants c of the places where the atom reads at n + c (None: read in another way)"""
    if n not in a.free(): return []
    out = []
    for i in a.idx:
        if i.coef(n) == 1: out.append(i.c)
        elif i.coef(n): return None
    if a.extra and any(n in (e.names() if isinstance(e, Ix) else e.free() if hasattr(e, "free") else ()) for e in a.extra): return None
    for q in a.args:
        for m in q.d:
            if any(n in s.names() for _, s in m.b): return None
            for b, _ in m.f:
                o = _offsets(b, n)
                if o is None: return None
                out += o
    return out
def telescope(p, extra=()):
    """sums: shift so that the smallest index offset is 0 and the length has no constant part"""
    for _ in range(200):
        hit = None
        for m, c in p.d.items():
            for n, s in m.b:
                offs = []
                for a, e in m.f:
                    o = _offsets(a, n)
                    if o is None: offs = None; break
                    offs += o
                if not offs: continue
                if s.const: continue
                if any(n in s2.names() for _, s2 in m.b): continue
                if not (ctx().entails(ige(s), extra) and ctx().entails(ige(Ix(0, s.t)), extra)): continue      # a length
                if min(offs) != 0 or s.c != 0: hit = (m, c, n, s, min(offs)); break
            if hit: break
        if not hit: return p
        m, c, n, s, o = hit
        b2, f2 = T._rename_fresh(m)
        pos = [i for i, (x, _) in enumerate(m.b) if x == n][0]
        fn = b2[pos][0]
        rest = tuple(x for i, x in enumerate(b2) if i != pos)
        def at(e):   # body with fn -> e, other binders kept
            b3, f3 = (T._rename_fresh(_RawMono(rest, tuple((a2, e2) for a2, e2 in _sub(f2, fn, e))))) if rest else ((), tuple(_sub(f2, fn, e)))
            return Poly(mk(b3, f3))
        S = Ix(0, s.t)
        # body f(k+o'), k in [0, S+c):  index range of the base function g: [o, S+c+o)
        g = lambda e: at(e - Ix(o))
        r = P0
        nm = fresh()
        full = Poly(T._mk_subst(rest + ((nm, S),), _merge(f2), {fn: isym(nm) - Ix(o)}))
        r = full
        for q in range(0, o): r = r - g(Ix(q))
        for q in range(o, 0): r = r + g(Ix(q))
        top = s.c + o
        for q in range(0, top): r = r + g(S + Ix(q))
        for q in range(top, 0): r = r - g(S + Ix(q))
        p = p - Poly({m: c}) + r.scale(c)
    return p
def _sub(f, n, e):
    out = []
    for a, x in f:
        if n in a.free():
            q = T.atom_subst(a, {n: e})
            (m1, c1), = q.d.items()
            assert c1 == 1 and not m1.b
            out += [(y, z * x) for y, z in m1.f]
        else: out.append((a, x))
    return out

# ------------------------------------------------------------------ deciding P == 0
def quick_zero(p):
    if p.is_zero(): return True
    p = lead_rule(normalise(p))
    if p.is_zero(): return True
    return clear_denominators(p).is_zero()

class Result:
    def __init__(self, status, detail="", instance=None): self.status, self.detail, self.instance = status, detail, instance
    ok = property(lambda s: s.status == "proved")

def use_facts(p, extra):
    """substitute atoms fixed by equalities in the facts"""
    for f in ctx().facts() + list(extra):
        if f.op == "req":
            q = f.a[0]
            # lead atom alone with coefficient: x = rest
            for m, c in q.d.items():
                if not m.b and len(m.f) == 1 and m.f[0][1] == 1 and m.f[0][0].kind == "v" and not m.f[0][0].args:
                    at = m.f[0][0]
                    rest = (Poly({m: c}) - q).scale(1 / c)
                    if at.key in rest.key: continue
                    p = atom_replace(p, at, rest)
                    break
    return p
def atom_replace(p, at, val):
    if at.key not in p.key: return p
    out = P0
    for m, c in p.d.items():
        d = dict(m.f)
        if at in d:
            e = d.pop(at)
            b, f = T._rename_fresh(_RawMono(m.b, tuple(d.items()))) if m.b else ((), tuple(d.items()))
            r = Poly(mk((), f)) * (val.pow(e) if e >= 0 else val.recip().pow(-e))
            acc = {}
            for m2, c2 in r.d.items():
                b2, f2 = T._rename_fresh(m2) if m2.b else ((), m2.f)
                T._addto(acc, mk(tuple(b2) + tuple(b), f2), c2)
            out = out + Poly(acc).scale(c)
        else: out = out + Poly({m: c})
    return out

def pythagoras(p):
    """sin(x)^2 = 1 - cos(x)^2"""
    while True:
        for m, c in p.d.items():
            h = [(a, e) for a, e in m.f if a.kind == "v" and a.name == "sin" and e >= 2 and not m.b]
            if h: break
        else: return p
        a, e = h[0]
        co = T.FN["cos"](a.args[0])
        rest = Poly({T.Mono(m.b, tuple((x, y if x is not a else y - 2) for x, y in m.f if x is not a or y > 2)): Fr(1)})
        p = p - Poly({m: c}) + rest.scale(c) * (P1 - co * co)

def prove_zero(p, extra=(), depth=0, budget=None, tele=False):
    c = ctx()
    if budget is None: budget = {"n": 400, "t": time.time() + 60}
    budget["n"] -= 1
    if time.time() > budget["t"]: c.starved += 1
    if budget["n"] < 0 or time.time() > budget["t"]: return Result("unknown", "budget exhausted")
    extra = list(extra)
    if c.entails(FALSE, extra): return Result("proved", "infeasible case")
    sp = Splits()
    p = use_facts(p, extra)
    p = normalise(p, extra, sp)
    if p.is_zero(): return Result("proved")
    p = lead_rule(p)
    p = normalise(p, extra, sp)
    if not sp.want or True:
        q = inverse_rule(p, extra)
        q = lead_rule(q)
        q = normalise(q, extra, sp)
        if q.is_zero(): return Result("proved")
        q2 = clear_denominators(q)
        q2 = normalise(q2, extra, sp)
        if not q2.is_zero():
            q2 = clear_denominators(lead_rule(inverse_rule(q2, extra)))
            q2 = normalise(q2, extra, sp)
        if q2.is_zero(): return Result("proved")
        if "v:sin[" in q2.key:
            q2 = pythagoras(q2)
            if q2.is_zero(): return Result("proved")
        if tele:
            q2 = normalise(telescope(q2, extra), extra, sp)
            if q2.is_zero(): return Result("proved")
    # case split
    if depth < 14:
        cs = sorted(sp.want.values(), key=lambda x: (x.is_real(), len(x.key), x.key))
        for m in q2.d:
            for a, _ in m.f:
                if a.kind == "br" and not _free_at(a.free()): 
                    if a.extra[0].key not in sp.want: cs.append(a.extra[0])
        cs = [x for x in cs if not c.entails(x, extra) and not c.entails(cnot(x), extra)]
        if not cs:
            # sums of one term at most: is there one?
            for m in q2.d:
                for _, b in m.b:
                    if not b.const and not _free_at(b.names()) and c.entails(ige(ONE - b), extra) and not c.entails(ige(-b), extra) and not c.entails(ige(b - ONE), extra): cs = [ige(b - ONE)]; break
                if cs: break
        if cs:
            x = cs[0]
            for y in (x, cnot(x)):
                e2 = extra + [y]
                r = p
                if y.op == "eq":
                    ex = y.a[0]
                    for n, k in ex.t:
                        if abs(k) == 1 and not n.startswith("@"):
                            sol = (ex - Ix(0, ((n, k),))).scale(-k)
                            if n in r.free() : r = r.subst({n: sol}); break
                res = prove_zero(r, e2, depth + 1, budget, tele)
                if not res.ok: return res
            return Result("proved")
    if not tele and normalise(telescope(q2, extra), extra, Splits()).is_zero(): return Result("proved")
    for r in implied_equalities(q2, extra):
        res = prove_zero(r, extra, depth + 1, budget, tele)
        if res.ok: return res
    # comparisons that hold both ways
    eqs = []
    for f in c.facts() + extra:
        if f.op == "rge" and 1 < len(f.a[0].d) < 8 and c.entails(rge(-f.a[0]), extra):
            g = req(f.a[0])
            if g is not TRUE and g not in extra and g not in c.facts() and g not in eqs: eqs.append(g)
    if eqs:
        res = prove_zero(q2, extra + eqs, depth + 1, budget, tele)
        if res.ok: return res
    return Result("open", q2.key[:600])

def implied_equalities(p, extra):
    """p with variables replaced wherever the facts leave them one value (always towards the same names)"""
    c = ctx(); extra = list(extra); r = p
    for _ in range(8):
        fr = r.free(); hit = False
        for f in c.facts() + extra:
            for g in (f.a if f.op == "and" else (f,)):
                if g.op not in ("ge", "eq"): continue
                ex = g.a[0]
                vs = sorted((n, k) for n, k in ex.t if abs(k) == 1 and not n.startswith("@"))
                if not vs or vs[-1][0] not in fr: continue
                if g.op == "ge" and not c.entails(ige(-ex), extra): continue
                n, k = vs[-1]
                q = r.subst({n: (ex - Ix(0, ((n, k),))).scale(-k)})
                if q.key != r.key: r, hit = q, True; fr = r.free()
        if not hit: break
    if r.key != p.key: yield r

# ------------------------------------------------------------------ evaluation at an instance
class Instance:
    """deterministic pseudo-random interpretation of every symbol"""
    def __init__(self, seed=0, ints=None):
        self.seed, self.ints = seed, dict(ints or {})
        self.memo = {}; self.invm = {}; self.over = {}
        self.pos, self.non = T.POSITIVE, T.NONNEG
        self.defs = {}
    def value(self, name, idx=(), args=()):
        k = (name, idx, args)
        r = self.over.get(k)
        if r is not None: return r
        r = self.memo.get(k)
        if r is None and name.startswith("def:"):
            _, rk, t = self.defs[name]
            e = {D[j]: idx[j] for j in range(rk)}
            if len(idx) > rk: e["%p"] = idx[rk]
            r = self.memo[k] = self.poly(t, e)
        if r is None:
            def u(*tag):
                h = hashlib.blake2b(repr((self.seed, name, tuple(int(q) for q in idx)) + tag).encode(), digest_size=6).digest()
                return int.from_bytes(h, "little") / float(1 << 48)
            if args:          # smooth function of its arguments
                x = sum((0.7 + u("w", j)) * (a.real if isinstance(a, complex) else a) for j, a in enumerate(args))
                v = 0.5 + 0.5 * math.sin(x + 6.28 * u("p")) * (0.6 + 0.4 * u("a"))
            else: v = u()
            if name in self.pos: r = 0.4 + 1.2 * v
            elif name in self.non: r = 1.5 * v
            elif name in T.DIAGDOM and len(idx) >= 2: r = 1.5 + v if idx[-1] == idx[-2] else (0.5 * v - 0.25)
            else: r = 2 * v - 1
            self.memo[k] = r
        return r
    def smooth(self, name, args):
        """a smooth function of several variables: random coefficients"""
        r = self.value(name + ":c", (0,)); n = 1
        for i in range(len(args)):
            r = r + self.value(name + ":c", (n,)) * args[i]; n += 1
            for j in range(i + 1): r = r + self.value(name + ":c", (n,)) * args[i] * args[j]; n += 1
        return r
    def ix(self, i, e):
        r = i.c
        for n, k in i.t: r += k * self.int(n, e)
        return r
    def int(self, n, e):
        if n in e: return e[n]
        if n in self.ints: return self.ints[n]
        d = self.defs.get(n)
        if d is not None:
            if d[0] == "floor": r = math.floor(self.poly(d[1], e) + 1e-12)
            elif d[0] in ("argmin", "argmax"):
                sz = self.ix(d[2], e)
                vals = [self.poly(d[1], {**e, "@l0": q}) for q in range(sz)]
                r = int(_np.argmin(vals) if d[0] == "argmin" else _np.argmax(vals))
            else: raise Unsupported(n)
            self.ints[n] = r
            return r
        raise Unsupported(f"no value for {n}")
    def cond(self, c, e):
        if c is TRUE: return True
        if c is FALSE: return False
        if c.op == "ge": return self.ix(c.a[0], e) >= 0
        if c.op == "eq": return self.ix(c.a[0], e) == 0
        if c.op == "rge": return self.poly(c.a[0], e).real >= -1e-12
        if c.op == "req": return abs(self.poly(c.a[0], e)) < 1e-12
        if c.op == "not": return not self.cond(c.a[0], e)
        if c.op == "and": return all(self.cond(x, e) for x in c.a)
        if c.op == "or": return any(self.cond(x, e) for x in c.a)
        if c.op == "opq":
            d = self.defs.get(c.a[0])
            if d and d[0] == "all":
                for t in itertools.product(*[range(self.ix(s, e)) for s in d[2]]):
                    if not self.cond(d[1], {**e, **{f"@l{k}": v for k, v in enumerate(t)}}): return False
                return True
            return self.value("opq:" + c.a[0]) >= 0
        raise Unsupported(c.op)
    def atom(self, a, e):
        k = a.kind
        if k == "v":
            if a.name == "%u": return self.u
            if a.name == "integral":
                lo, hi = self.poly(a.args[1], e), self.poly(a.args[2], e)
                keep, tot = getattr(self, "u", None), 0.0
                try:
                    for q, wt in zip(*_np.polynomial.legendre.leggauss(12)):
                        self.u = (lo + hi) / 2 + (hi - lo) / 2 * q
                        tot += wt * self.poly(a.args[0], e)
                finally: self.u = keep
                return tot * (hi - lo) / 2
            args = tuple(self.poly(x, e) for x in a.args)
            if a.name.startswith("field_"): return self.smooth(a.name, args)
            if a.name == "exp": 
                import cmath
                return math.exp(args[0]) if not isinstance(args[0], complex) else cmath.exp(args[0])
            if a.name == "abs": return abs(args[0])
            if a.name in ("sin", "cos", "tan"): return getattr(math, a.name)(args[0])
            if a.name == "arctan": return math.atan(args[0])
            if a.name == "arccos": return math.acos(max(-1, min(1, args[0])))
            if a.name == "arcsin": return math.asin(max(-1, min(1, args[0])))
            if a.name == "arctan2": return math.atan2(*args)
            if a.name == "log": return math.log(abs(args[0]))
            if a.name in ("%dft", "%idft"):
                k, m, n = (self.ix(i, e) for i in a.idx)
                ang = 2 * math.pi * ((k * m) % n) / n
                return complex(math.cos(ang), -math.sin(ang)) if a.name == "%dft" else complex(math.cos(ang), math.sin(ang)) / n
            if a.name in ("%shift", "%ishift"):
                k, m, n = (self.ix(i, e) for i in a.idx)
                return 1.0 if m == (k - n // 2) % n and a.name == "%shift" or m == (k + n // 2) % n and a.name == "%ishift" else 0.0
            if a.name == "%fftfreq":
                k, n = (self.ix(i, e) for i in a.idx)
                return (k if k < (n + 1) // 2 else k - n) / n
            if a.name == "pi": return math.pi
            if a.name == "I": return 1j
            if a.name == "1/0": return float("nan")
            return self.value(a.name, tuple(self.ix(i, e) for i in a.idx), args)
        if k == "ix": return float(self.ix(a.idx[0], e))
        if k == "br": return 1.0 if self.cond(a.extra[0], e) else 0.0
        if k == "rc": return 1.0 / self.poly(a.args[0], e)
        if k == "pw":
            v = self.poly(a.args[0], e)
            return math.sqrt(v) if not isinstance(v, complex) and v >= 0 else complex(v) ** 0.5
        if k == "inv":
            n = self.ix(a.extra[0], e)
            fr = tuple(sorted((x, e[x]) for x in a.args[0].free() if x in e and x not in T.LAMV))
            ck = (a.name, a.args[0].key, n, fr)
            M = self.invm.get(ck)
            if M is None:
                B = _np.array([[self.poly(a.args[0], {**e, "@r": r, "@c": c}) for c in range(n)] for r in range(n)])
                M = _np.linalg.inv(B) if not a.name else sorted(_np.linalg.eigvals(B), key=lambda z: (z.real, z.imag))
                self.invm[ck] = M
            if a.name: return complex(M[self.ix(a.idx[0], e)]) if abs(_np.imag(M[self.ix(a.idx[0], e)])) > 1e-12 else float(_np.real(M[self.ix(a.idx[0], e)]))
            return M[self.ix(a.idx[0], e), self.ix(a.idx[1], e)].item()
        if k == "lam":
            if a.name in ("minset", "maxset"):
                return (min if a.name == "minset" else max)(self.poly(x, e) for x in a.args)
            sz = [self.ix(s, e) for s in a.extra]
            vals = [self.poly(a.args[0], {**e, **{f"@l{q}": v for q, v in enumerate(t)}}) for t in itertools.product(*[range(s) for s in sz])]
            vals = [v.real for v in vals]
            if a.name.endswith("nz"): vals = [v for v in vals if v != 0]
            return min(vals) if a.name.startswith("min") else max(vals)
        raise Unsupported(k)
    def mono(self, m, e):
        if m.b:
            (n, s), rest = m.b[0], m.b[1:]
            r = 0.0
            for q in range(self.ix(s, e)): r += self._mb(rest, m.f, {**e, n: q})
            return r
        return self._mb((), m.f, e)
    def _mb(self, b, f, e):
        if b:
            (n, s), rest = b[0], b[1:]
            return sum(self._mb(rest, f, {**e, n: q}) for q in range(self.ix(s, e)))
        r = 1.0
        for a, x in f:
            if a.kind == "br":
                if not self.cond(a.extra[0], e): return 0.0
        for a, x in f:
            if a.kind == "br": continue
            v = self.atom(a, e)
            r *= v ** x
        return r
    def poly(self, p, e=None):
        e = e or {}
        r = 0.0
        for m, c in p.d.items(): r += float(c) * self.mono(m, e)
        return r
    def magnitude(self, p, e=None):
        return sum(abs(float(c) * self.mono(m, e or {})) for m, c in p.d.items())

def sample_ints(facts, names, rng, hi=4):
    """random small integers satisfying the integer facts"""
    import z3
    from .ctx import zcond
    s = z3.Solver(); s.set("timeout", 2000); s.set("random_seed", rng.randrange(1 << 30))
    for f in facts:
        if not f.is_real() and f.op != "opq": s.add(zcond(f))
    zs = {n: z3.Int(n) for n in names}
    out = {}
    if s.check() != z3.sat: return None
    order = list(names); rng.shuffle(order)
    for n in order:
        for _ in range(6):
            v = rng.randrange(0, hi + 1)
            s.push(); s.add(zs[n] == v)
            if s.check() == z3.sat: out[n] = v; break
            s.pop()
        else:
            s.check(); v = s.model().eval(zs[n], model_completion=True).as_long()
            s.add(zs[n] == v); out[n] = v
    return out

def all_names(p, facts):
    s = set(p.free())
    for f in facts: s |= f.free()
    return {n for n in s if not n.startswith("@") and not n.startswith("%")}

def refute(p, facts, tries=12, seed=1):
    """search an instance of the facts at which p is not zero"""
    c = ctx()
    names = sorted(all_names(p, facts) | {n for d in c.defs.values() for x in d[1:] if isinstance(x, Poly) for n in x.free() if n[0] not in "@%"})
    rng = random.Random(seed)
    good = 0
    for t in range(tries):
        ints = sample_ints(facts, [n for n in names if n not in c.defs], rng)
        if ints is None: return None, good
        inst = Instance(seed * 1000 + t, ints); inst.defs = c.defs
        apply_real_facts(inst, facts)
        try:
            if not all(inst.cond(f, {}) for f in facts): continue
            v = inst.poly(p); mag = inst.magnitude(p)
        except (Unsupported, ZeroDivisionError, OverflowError, ValueError, _np.linalg.LinAlgError): continue
        if v != v: continue
        good += 1
        if abs(v) > 1e-7 * (1 + mag): return inst, good
    return None, good

def apply_real_facts(inst, facts):
    """z3 model of the real facts for plain symbols"""
    import z3
    from .ctx import zcond, zmono
    rf = [f for f in facts if f.is_real()]
    if not rf: return
    s = z3.Solver(); s.set("timeout", 2000)
    ms = {}
    from .ctx import _monos_of
    for f in rf:
        s.add(zcond(f)); _monos_of(f, ms)
    for f in facts:
        if not f.is_real(): s.add(zcond(f))
    for n, v in inst.ints.items(): s.add(z3.Int(n) == v)
    simple = []
    for m in ms.values():
        if m is UNIT: continue
        g = T._mono_sign(m)
        if g == 2: s.add(zmono(m) > 0)
        elif g == 1: s.add(zmono(m) >= 0)
        if not m.b and len(m.f) == 1 and m.f[0][1] == 1 and m.f[0][0].kind == "v" and not m.f[0][0].args: simple.append(m)
    if s.check() != z3.sat: return
    # keep the random value where possible
    for m in simple:
        a = m.f[0][0]
        try: idx = tuple(inst.ix(i, {}) for i in a.idx)
        except Unsupported: continue
        v = inst.value(a.name, idx)
        s.push(); s.add(zmono(m) == z3.RealVal(repr(round(v, 6))))
        if s.check() == z3.sat: inst.over[(a.name, idx, ())] = round(v, 6); continue
        s.pop()
        if s.check() == z3.sat:
            x = s.model().eval(zmono(m), model_completion=True)
            try: fv = float(x.numerator_as_long()) / float(x.denominator_as_long())
            except Exception: continue
            inst.over[(a.name, idx, ())] = fv
            s.add(zmono(m) == x)
