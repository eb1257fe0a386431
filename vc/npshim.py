import time
"""numpy / scipy.linalg / builtins as seen by the code under verification."""
import types, builtins as _b, math, itertools
from .terms import *
from . import terms as T
from .ctx import ctx, Unsupported
from .values import *
from .values import real as _real
from . import values as V

def const_elems(a):
    """index tuples of an array of concrete shape"""
    return [tuple(Ix(i) for i in t) for t in itertools.product(*[range(s.c) for s in a.shape_ix])]
def from_elems(ps, shape, kind="r"):
    """array of concrete shape from its elements in C order"""
    idx = list(itertools.product(*[range(s) for s in shape]))
    r = P0
    for t, p in zip(idx, ps):
        if p.is_zero(): continue
        r = r + bracket(cand(*[ieq(DI[j] - Ix(i)) for j, i in enumerate(t)])) * p
    return Arr(Buf(tuple(Ix(s) for s in shape), r, kind))

def arr1(x): return x if isinstance(x, Arr) else as_arr(x)
def out(a):
    """0-d array -> scalar"""
    return a.scalar() if isinstance(a, Arr) and not a.shape_ix else a

# ---------------------------------------------------------------- constructors
def _shape(s):
    if isinstance(s, (int, SymInt)): return (toix(s),)
    return tuple(toix(x) for x in s)
def exact(dtype):
    """element types whose values the machinery represents (reals stand for doubles); a narrower type rounds or truncates"""
    if dtype is None or dtype in (float, complex, object, ndarray, PFLOAT, "float", "float64", "double", "d", "complex", "complex128", "D", "O", "object"): return dtype
    raise Unsupported(f"element type {getattr(dtype, '__name__', dtype)}")
def _kind(dtype):
    if dtype in (object, "O", "object"): return "fun"
    if dtype is ndarray: return "o"
    exact(dtype)
    return "r"
def zeros(shape, dtype=None, **k): return Arr(Buf(_shape(shape), P0, _kind(dtype)))
def ones(shape, dtype=None, **k): return Arr(Buf(_shape(shape), P1, _kind(dtype)))
def full(shape, v, dtype=None):
    if dtype is None and isinstance(v, (int, SymInt)): raise Unsupported("full of integers")
    return Arr(Buf(_shape(shape), topoly(v), _kind(dtype)))
def empty(shape, dtype=float, **k): return ndarray(shape, dtype)
def like(f): 
    def g(a, *r, dtype=None, **k):
        a = arr1(a)
        if dtype is None and (isinstance(a, IVec) or getattr(a, "kind", "r") == "i"): raise Unsupported("an array of integers like another")
        return f(a.shape, *r, dtype=dtype)
    return g
def eye(n, m=None, dtype=None, **k):
    exact(dtype); n = toix(n); m = n if m is None else toix(m)
    return Arr(Buf((n, m), bracket(ieq(DI[0] - DI[1]))))
def array(x, dtype=None, **k):
    if dtype not in (int, PINT, "int", "i"): exact(dtype)
    elif isinstance(x, Arr) and x.kind != "i": raise Unsupported("conversion to integers")
    if isinstance(x, Arr): return x.copy()
    if isinstance(x, IVec): return x.copy()
    if isinstance(x, (list, tuple)):
        if dtype in (int, PINT) or (x and all(isinstance(e, (int, SymInt)) and not isinstance(e, bool) for e in x) and dtype is None):
            return IVec(x)
        if not x and dtype is None: return Arr(Buf((ZERO,), P0))
        if x and any(not isinstance(e, (int, float, complex, SymReal, SymInt, SymBool, list, tuple, Arr, SymFun, Fr, bool, types.FunctionType, SymList)) for e in x):
            raise Unsupported("array of objects")
    if isinstance(x, _Gen): return x.arr()
    a = as_arr(x)
    a = a.copy() if isinstance(x, SymList) is False else a
    if a.kind == "i": a = Arr(Buf(a.shape_ix, a.tpl(), "r")) if dtype in (float, PFLOAT) else a
    return a
def asarray(x, dtype=None):
    if dtype not in (int, PINT, "int", "i"): exact(dtype)
    elif isinstance(x, Arr) and x.kind != "i": raise Unsupported("conversion to integers")
    return x if isinstance(x, (Arr, IVec)) else array(x, dtype)
class _Gen: pass
def arange(*a):
    if len(a) == 1: lo, hi, st = 0, a[0], 1
    elif len(a) == 2: lo, hi, st = a[0], a[1], 1
    else: lo, hi, st = a
    if isinstance(st, (SymReal, SymInt)) or st != 1: raise Unsupported("arange with a step")
    lo, hi = toix(lo), toix(hi)
    n = hi - lo
    if not ctx().decide(ige(n)): n = ZERO
    return Arr(Buf((n,), Poly.from_ix(DI[0] + lo), "i"))
def linspace(a, b, num=50, endpoint=True, **k):
    n = toix(num)
    den = n - ONE if endpoint else n
    a, b = arr1(a), arr1(b)
    if a.ndim or b.ndim: raise Unsupported("linspace of arrays")
    p, q = topoly(a), topoly(b)
    return Arr.new((n,), p + (q - p) * Poly.from_ix(DI[0]) * recip(Poly.from_ix(den)))

# ---------------------------------------------------------------- elementwise
def elementwise(f):
    def g(x, *a, **k):
        if isinstance(x, Arr): return unop(x, f)
        if isinstance(x, (list, tuple, SymList, IVec)): return unop(as_arr(x), f)
        if isinstance(x, SymInt) and f is FN["abs"]: return abs(x)
        return SymReal(f(topoly(x)))
    return g
def _sqrt(p): return p.root()
def _cexp(p):
    re, im = V.realpart(p), V.imagpart(p)
    if im.is_zero(): return FN["exp"](re)
    return FN["exp"](p)
def where(c, a=None, b=None):
    if a is None: return (NonZero(arr1(c)),)
    if isinstance(c, (bool, SymBool)):
        c = tocond(c)
        if not isinstance(a, (Arr,)) and not isinstance(b, (Arr,)): return SymReal(ite(c, topoly(a), topoly(b)))
        c = Arr(Buf((), bracket(c), "b"))
    t = binop(c, a, lambda k, x: k * x)
    return t + binop(c, b, lambda k, x: (P1 - k) * x)
def piecewise(*a): raise Unsupported("piecewise")
def heaviside(x, h):
    p = topoly(x)
    return SymReal(bracket(cnot(rge(-p))) + bracket(req(p)) * topoly(h))
def minimum(a, b): return binop(a, b, lambda x, y: ite(rge(y - x), x, y)) if isinstance(a, Arr) or isinstance(b, Arr) else smin(a, b)
def maximum(a, b): return binop(a, b, lambda x, y: ite(rge(x - y), x, y)) if isinstance(a, Arr) or isinstance(b, Arr) else smax(a, b)
def clip(x, lo, hi):
    x2 = x if lo is None else maximum(x, lo)
    r = x2 if hi is None else minimum(x2, hi)
    if isinstance(r, Arr) and r.ndim == 1 and len(r.tpl().key) > 300 and not any(s in r.tpl().free() for fr in ctx().frames[1:] for s in fr.syms):
        # large contents get a name; the definition is expanded only where a proof needs it
        c, t = ctx(), r.tpl()
        nm = c.named.get(t.key)
        if nm is None:
            nm = c.named[t.key] = freshsym("def:clip")
            c.defs[nm] = ("arr", 1, t)
        return Arr(Buf(r.shape_ix, Poly.atom(Atom("v", nm, DI[:1]))))
    return r
def floor(x):
    if isinstance(x, Arr): raise Unsupported("floor of an array")
    return mkint(floor_ix(topoly(x)))
def ceil(x): return -floor(-x)
def mod(a, b): return a % b
def sign(x):
    p = topoly(x)
    return SymReal(bracket(cnot(rge(-p))) - bracket(cnot(rge(p))))
def opaque_fn(name):
    def f(*a):
        if any(isinstance(x, Arr) for x in a):
            if len(a) == 1: return unop(a[0], lambda p: app(name, (), (p,)))
            raise Unsupported(name)
        return SymReal(app(name, (), tuple(topoly(x) for x in a)))
    return f

# ---------------------------------------------------------------- products
def einsum(spec, *ops):
    ops = [arr1(o) for o in ops]
    spec = spec.replace(" ", "")
    ins, o = spec.split("->") if "->" in spec else (spec, None)
    ins = ins.split(",")
    if o is None:
        letters = sorted(set("".join(ins).replace("...", "")))
        o = ("..." if "..." in spec else "") + "".join(c for c in letters if "".join(ins).count(c) == 1)
    sizes = {}; bsh = ()
    lists = []
    for s, a in zip(ins, ops):
        if "..." in s:
            pre, post = s.split("...")
            nb = a.ndim - len(pre) - len(post)
            if nb < 0: raise ValueError("einsum dimensions")
            bd = a.shape_ix[len(pre):len(pre) + nb]
            bsh = bshape(bsh, bd)
        else:
            pre, post, nb = s, "", 0
            if a.ndim != len(s): raise ValueError("einsum dimensions")
        axes = list(pre) + [None] * nb + list(post)
        lists.append((axes, nb))
        for ax, sz in zip(axes, a.shape_ix):
            if ax is None: continue
            if ax in sizes and sizes[ax] is not sz:
                if sizes[ax] is ONE: sizes[ax] = sz
                elif sz is not ONE and not same(sizes[ax], sz): raise ValueError("einsum operand sizes")
            else: sizes[ax] = sz
    nb = len(bsh)
    if "..." in o: opre, opost = o.split("..."); oaxes = list(opre) + list(range(nb)) + list(opost)
    else: oaxes = list(o)
    pos = {}; shape = []
    for j, ax in enumerate(oaxes):
        pos[ax] = DI[j]
        shape.append(bsh[ax] if isinstance(ax, int) else sizes[ax])
    summed = []
    for ax in sizes:
        if ax not in pos: n = T.fresh(); pos[ax] = isym(n); summed.append((n, sizes[ax]))
    if "..." not in o and nb:
        for j in range(nb): n = T.fresh(); pos[j] = isym(n); summed.append((n, bsh[j]))
    r = P1
    for (axes, nbk), a in zip(lists, ops):
        idx = []; b = 0
        for ax, sz in zip(axes, a.shape_ix):
            if ax is None: key = nb - nbk + b; b += 1; full_ = bsh[key]
            else: key = ax; full_ = sizes[ax]
            idx.append(ZERO if (sz is ONE and full_ is not ONE) else pos[key])
        r = r * a.elem(tuple(idx))
    for n, s in summed: r = r.sum_over(n, s)
    kind = "o" if any(a.kind == "o" for a in ops) else "r"
    return out(Arr.new(shape, r, kind))
def matmul(a, b):
    a, b = arr1(a), arr1(b)
    if a.ndim == 0 or b.ndim == 0: raise ValueError("matmul: 0-d operand")
    if a.ndim == 1 and b.ndim == 1: return einsum("i,i->", a, b)
    if a.ndim == 1: return einsum("j,...jk->...k", a, b)
    if b.ndim == 1: return einsum("...ij,j->...i", a, b)
    return einsum("...ij,...jk->...ik", a, b)
def dot(a, b):
    if not isinstance(a, (Arr, list, tuple)) or not isinstance(b, (Arr, list, tuple)): return a * b
    a, b = arr1(a), arr1(b)
    if a.ndim == 0 or b.ndim == 0: return a * b
    if a.ndim <= 2 and b.ndim <= 2: return matmul(a, b)
    if b.ndim == 1: return einsum("...ij,j->...i", a, b)
    raise Unsupported("dot of high rank arrays")
def outer(a, b): return einsum("i,j->ij", arr1(a).ravel(), arr1(b).ravel())
def cross(a, b):
    a, b = arr1(a), arr1(b)
    if a.ndim != 1 or b.ndim != 1: raise Unsupported("cross of matrices")
    x = [a.elem((Ix(k),)) for k in range(3)]; y = [b.elem((Ix(k),)) for k in range(3)]
    return from_elems([x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]], (3,))
def tensordot(a, b, axes=2): raise Unsupported("tensordot")

# ---------------------------------------------------------------- reductions
def _ax(a, axis):
    if axis is None: return list(range(a.ndim))
    if isinstance(axis, tuple): return [x % a.ndim for x in axis]
    return [axis % a.ndim]
def np_sum(a, axis=None, **k):
    if isinstance(a, (SymReal, SymInt, int, float)): return a
    if isinstance(a, (list, tuple)):
        if _b.all(isinstance(x, (int, SymInt)) for x in a):
            r = 0
            for x in a: r = r + x
            return r
    if isinstance(a, IVec): return a.sum()
    if isinstance(a, SymFun): raise Unsupported("sum of a function")
    a = arr1(a)
    if a.kind == "hid":
        j = T.fresh(); return SymReal(a.elem((isym(j),)).sum_over(j, a.shape_ix[0]))
    ax = _ax(a, axis)
    if a.kind == "o" and ax: raise Unsupported("sum of pole vectors of possibly different lengths")
    idx = []; shape = []; su = []
    for j, s in enumerate(a.shape_ix):
        if j in ax: n = T.fresh(); idx.append(isym(n)); su.append((n, s))
        else: idx.append(DI[len(shape)]); shape.append(s)
    p = a.elem(tuple(idx))
    for n, s in su: p = p.sum_over(n, s)
    if k.get("keepdims"):
        shp = [ONE if j in ax else s for j, s in enumerate(a.shape_ix)]
        sub = {}; kk = 0
        for j, s in enumerate(a.shape_ix):
            if j not in ax: sub[D[kk]] = DI[j]; kk += 1
        return Arr.new(shp, p.subst({x: isym("%q" + x[1:]) for x in sub}).subst({"%q" + x[1:]: y for x, y in sub.items()}), a.kind)
    kd = "o" if a.kind == "o" else "i" if a.kind == "i" else "r"
    r = Arr.new(shape, p, kd)
    if not shape:
        i = poly_to_ix(r.buf.tpl)
        if a.kind == "i" and i is not None: return mkint(i)
        if a.kind == "o": return r.scalar()
        return SymReal(r.buf.tpl)
    return r
def np_mean(a, axis=None):
    a = arr1(a); n = P1
    for j in _ax(a, axis): n = n * Poly.from_ix(a.shape_ix[j])
    return np_sum(a, axis) / SymReal(n)
def cumsum(a, axis=None):
    if isinstance(a, IVec) or (isinstance(a, (list, tuple)) and _b.all(isinstance(x, (int, SymInt)) for x in a)):
        o, r = [], 0
        for x in a: r = r + x; o.append(r)
        return IVec(o)
    raise Unsupported("cumsum")
LV = tuple(isym(f"@l{k}") for k in range(3))
def _strip_delta(p, names):
    """body over indices with an equality bracket between two of them: drop one index"""
    return p
def extremum(op, a, axis=None):
    if isinstance(a, (list, tuple, IVec)):
        r = list(a)
        if not r: raise ValueError("zero-size array")
        x = r[0]
        for y in r[1:]: x = smin(x, y) if op == "min" else smax(x, y)
        return x
    if isinstance(a, (SymReal, SymInt, int, float)): return a
    sel = None
    if isinstance(a, Selection): sel, a = a, a.arr
    a = arr1(a)
    if a.kind == "hid": raise Unsupported("extremum of a pole vector")
    ax = _ax(a, axis)
    if len(ax) == a.ndim:
        return SymReal(extremum_poly(op, a, sel))
    if sel is not None: raise Unsupported("axis of a selection")
    if len(ax) > 1: raise Unsupported("extremum over several axes")
    j = ax[0]; s = a.shape_ix[j]
    idx = []; shape = []; 
    for q, z in enumerate(a.shape_ix):
        if q == j: idx.append(LV[0])
        else: idx.append(DI[len(shape)]); shape.append(z)
    body = a.elem(tuple(idx))
    return Arr.new(shape, lam(op, body, (s,)))
def lam(op, body, sizes):
    if all(s.const for s in sizes):
        vals = []
        for t in itertools.product(*[range(s.c) for s in sizes]):
            vals.append(body.subst({f"@l{k}": Ix(i) for k, i in enumerate(t)}))
        u = sorted(set(vals), key=lambda p: p.key)
        if len(u) == 1: return u[0]
        if len(u) <= 4 and op in ("min", "max"):
            return Poly.atom(Atom("lam", op + "set", (), tuple(u)))
        return Poly.atom(Atom("lam", op + "set", (), tuple(u)))
    used = [k for k in range(len(sizes)) if f"@l{k}" in body.free()]
    if len(used) < len(sizes):
        body = body.subst({f"@l{k}": isym(f"@l{used.index(k)}") for k in used})
        sizes = tuple(sizes[k] for k in used)
        if not used: return body
    # constant positive factor
    if len(body.d) == 1:
        m, c = next(iter(body.d.items()))
        if not m.b:
            f = P1; rest = Poly({UNIT: Fr(1)}); 
            for at, e in m.f:
                q = Poly({Mono((), ((at, e),)): Fr(1)})
                if not (at.free() & set(T.LAMV)) and is_pos(q): f = f * q
                else: rest = rest * q
            if c < 0: op = {"min": "max", "max": "min"}[op]
            f = f.scale(c)
            if f != P1: return f * lam(op, rest, sizes)
    return Poly.atom(Atom("lam", op, (), (body,), tuple(sizes)))
def extremum_poly(op, a, sel=None):
    if a.ndim > 3: raise Unsupported("extremum of high rank")
    body = a.elem(LV[:a.ndim])
    sizes = a.shape_ix
    if sel is not None:
        cond = sel.nz.a.elem(LV[:a.ndim])
        if cond != body: raise Unsupported("general selection")
        # value family c*[@li==@lj] * positive  ->  restrict to the diagonal
        changed = True
        while changed:
            changed = False
            if len(body.d) != 1: break
            m, c = next(iter(body.d.items()))
            for at, e in m.f:
                if at.kind == "br" and at.extra[0].op == "eq":
                    ex = at.extra[0].a[0]
                    ns = ex.names()
                    if len(ns) == 2 and not ex.c and all(n in T.LAMV for n in ns):
                        i, j = sorted(ns)
                        rest = Poly({Mono((), tuple(x for x in m.f if x[0] is not at)): c}) if not m.b else None
                        if rest is None: break
                        body = rest.subst({j: isym(i)})
                        ij = int(j[2:])
                        keep = [q for q in range(len(sizes)) if q != ij]
                        body = body.subst({f"@l{q}": isym(f"%m{n}") for n, q in enumerate(keep)}).subst({f"%m{n}": LV[n] for n in range(len(keep))})
                        sizes = tuple(sizes[q] for q in keep); changed = True; break
        if not is_pos(body):
            vals = pieces_nz(body, sizes)
            if vals:
                r = vals[0]
                for x in vals[1:]: r = topoly((smin if op == "min" else smax)(SymReal(r), SymReal(x)))
                return r
            return Poly.atom(Atom("lam", op + "nz", (), (body,), tuple(sizes)))
    return lam(op, body, sizes)
def pieces_nz(body, sizes):
    """the non-zero values of a piecewise constant family (each piece has a member), or None"""
    if len(sizes) > 3: return None
    P = [isym("%%p%d" % k) for k in range(len(sizes))]
    PN = set("%%p%d" % k for k in range(len(sizes)))
    body = body.subst({LV[k].names()[0]: P[k] for k in range(len(sizes))})
    rng = [f for k, z in enumerate(sizes) for f in (ige(P[k]), ige(z - P[k] - ONE))]
    out = []
    def conds(p):
        return [a.extra[0] for m in p.d for a, e in m.f if a.kind == "br" and a.free() & PN]
    def witness(cs):
        cix = [ZERO] + [z - ONE for z in sizes]
        for c in cs:
            for x in (c.a if c.op in ("and", "or") else (c,)):
                x = x.a[0] if x.op == "not" else x
                if x.op not in ("ge", "eq"): continue
                for k in range(len(sizes)):
                    nm = "%%p%d" % k
                    q = x.a[0].coef(nm)
                    if abs(q) == 1:
                        e = (x.a[0] - Ix(0, ((nm, q),))).scale(-q)
                        cix += [e, e - ONE, e + ONE]
        cix = [e for e in dict.fromkeys(cix) if not set(e.names()) & PN]
        allc = cand(*rng, *cs)
        for e in cix:
            m = {"%p0": e}
            for k in range(1, len(sizes)): m["%%p%d" % k] = ZERO
            if ctx().entails(allc.subst(m)): return True
        return False
    def go(p, cs, depth):
        if depth > 6: return False
        q = conds(p)
        if not q:
            if p.is_zero(): return True
            if p.free() & PN or not is_pos(p) or not witness(cs): return False
            if p not in out: out.append(p)
            return True
        for c in (q[0], cnot(q[0])):
            f = rng + cs + [c]
            if ctx().entails(FALSE, f): continue
            if not go(ctx().resolve(p, f), cs + [c], depth + 1): return False
        return True
    return out if go(body, [], 0) and 0 < len(out) <= 4 else None
def argmin(a, axis=None, op="argmin"):
    a = arr1(a)
    if axis not in (None, 0, -1) or a.ndim != 1: raise Unsupported("argmin of a matrix")
    n = a.shape_ix[0]
    body = a.elem((LV[0],))
    return mkint(arg_ix(op, body, n))
def arg_ix(op, body, n):
    # order preserving transformations do not change the position: strip square roots
    for fr in ctx().frames[1:]:
        if any(s in body.free() for s in fr.syms): raise Unsupported("argmin depending on a loop index")
    if len(body.d) == 1:
        m, c = next(iter(body.d.items()))
        if not m.b and len(m.f) == 1 and m.f[0][0].kind == "pw" and m.f[0][1] == 1 and c > 0: body = m.f[0][0].args[0]
    if len(body.d) == 1:
        m, c = next(iter(body.d.items()))
        if not m.b and len(m.f) == 1 and m.f[0][0].kind == "v" and m.f[0][0].name == "abs" and c > 0:
            body = m.f[0][0].args[0] * m.f[0][0].args[0]
    nm = named_int(op, body.key + "|" + n.key, (op, body, n))
    ctx().axiom(ige(isym(nm))); ctx().axiom(ige(n - isym(nm) - ONE))
    return isym(nm)
def quant(kind, body_cond_fn, sizes, names):
    pass
def np_all(a, axis=None):
    if isinstance(a, (bool, SymBool)): return a
    a = arr1(a)
    return mkbool(forall_cond(a))
def cond_of_poly(p):
    b = poly_to_bool(p)
    return tocond(b)
def forall_cond(a):
    cs = []
    if all(s.const for s in a.shape_ix):
        for i in const_elems(a): cs.append(cond_of_poly(ctx().resolve(a.elem(i))))
        return cand(*cs)
    n = tuple(isym(freshsym("q")) for _ in a.shape_ix)
    facts = [f for i, s in zip(n, a.shape_ix) for f in (ige(i), ige(s - i - ONE))]
    p = ctx().resolve(a.elem(n), facts)
    c = cond_of_poly(p)
    if c is TRUE or ctx().entails(c, facts): return TRUE
    if not (c.free() & {i.names()[0] for i in n}) : return c
    # false as soon as it is false of one entry: those the condition itself names
    own = {i.names()[0] for i in n}
    cand_ = [isym(x) for x in sorted(c.free() - own)]
    places = [[iconst(k) for k in range(s.c)] if s.const and s.c <= 3 else cand_ for s in a.shape_ix]
    if math.prod(len(x) for x in places) <= 24:
        for at in itertools.product(*places):
            inside = [f for i, s in zip(at, a.shape_ix) for f in (ige(i), ige(s - i - ONE))]
            if all(ctx().entails(f, []) for f in inside):
                b = cond_of_poly(ctx().resolve(a.elem(at)))
                if b is FALSE or ctx().entails(cnot(b), []): return FALSE
    # canonical opaque condition
    sub = {i.names()[0]: LV[k] for k, i in enumerate(n)}
    key = "all " + c.subst(sub).key + " over " + ",".join(s.key for s in a.shape_ix)
    ctx().defs[key] = ("all", c.subst(sub), a.shape_ix)
    return opaque(key)
def exists_cond(c, names, sizes):
    facts = [f for n, s in zip(names, sizes) for f in (ige(isym(n)), ige(s - isym(n) - ONE))]
    if c is FALSE or ctx().entails(cnot(c), facts): return FALSE
    if c is TRUE or ctx().entails(c, facts):
        return cand(*[ige(s - ONE) for s in sizes])
    if not (c.free() & set(names)) and not any(n in c.key for n in names): return cand(c, *[ige(s - ONE) for s in sizes])
    sub = {n: LV[k] for k, n in enumerate(names)}
    cs = c.subst(sub)
    key = "all " + cnot(cs).key + " over " + ",".join(s.key for s in sizes)
    ctx().defs[key] = ("all", cnot(cs), tuple(sizes))
    return cnot(opaque(key))
def np_any(a, axis=None):
    if isinstance(a, (bool, SymBool)): return a
    a = arr1(a)
    if a.kind != "b": a = a != 0
    return mkbool(cnot(forall_cond(unop(a, lambda p: P1 - p, "b"))))
def isclose(a, b, rtol=1e-05, atol=1e-08):
    from .prove import quick_zero
    if isinstance(a, (SymReal, float, int)) and isinstance(b, (SymReal, float, int)):
        d = topoly(a) - topoly(b)
        if quick_zero(d): return True
        return SymReal(FN["abs"](d)) <= SymReal(Poly.c(atol) + FN["abs"](topoly(b)).scale(frac(rtol)))
    return binop(a, b, lambda x, y: bracket(rge(Poly.c(atol) + FN["abs"](y).scale(frac(rtol)) - FN["abs"](x - y))), kind="b")
def allclose(a, b, **k): return np_all(isclose(arr1(a), b, **k))
def array_equal(a, b):
    if a is b: return True
    a, b = arr1(a), arr1(b)
    if a.ndim != b.ndim: return False
    for x, y in zip(a.shape_ix, b.shape_ix):
        if not ctx().decide(ieq(x - y)): return False
    if a.kind != "fun" and b.kind != "fun" and not all(s.const for s in a.shape_ix):
        from .prove import prove_zero
        n = tuple(isym(freshsym("q")) for _ in a.shape_ix)
        facts = [f for i, s in zip(n, a.shape_ix) for f in (ige(i), ige(s - i - ONE))]
        d = a.elem(n) - b.elem(n)
        if d.is_zero() or prove_zero(d, facts, budget={"n": 60, "t": time.time() + 5}).ok: return True
    return np_all(a == b)
def nonzero(a): return NonZero(arr1(a))
def count_nonzero(a): raise Unsupported("count_nonzero")

# ---------------------------------------------------------------- structure
def append(a, b, axis=None):
    if isinstance(a, IVec) or (isinstance(a, list) and not a and isinstance(b, (int, SymInt))):
        items = list(a) + (list(b) if isinstance(b, (IVec, list, tuple)) else [b])
        return IVec(items)
    if axis is None:
        A = arr1(a).ravel() if arr1(a).ndim else arr1(a).reshape(1)
        B = arr1(b)
        B = B.reshape(1) if not B.ndim else B.ravel()
        if A.shape_ix[0] is ZERO and A.kind == "r": return B.copy()
        return concatenate([A, B], 0)
    return concatenate([a, b], axis)
def concatenate(xs, axis=0, **k):
    xs = [arr1(x) for x in xs]
    if axis is None: xs = [x.ravel() for x in xs]; axis = 0
    nd = xs[0].ndim
    if any(x.ndim != nd for x in xs): raise ValueError("concatenate dimensions")
    axis %= nd
    kind = next((x.kind for x in xs if x.shape_ix[axis] is not ZERO), xs[0].kind)
    if any(x.kind == "fun" for x in xs): kind = "fun"
    off = ZERO; r = P0
    shape = list(xs[0].shape_ix)
    for x in xs:
        for j in range(nd):
            if j != axis and not same(x.shape_ix[j], shape[j]):
                if not ctx().decide(ieq(x.shape_ix[j] - shape[j])): raise ValueError("concatenate sizes")
        n = x.shape_ix[axis]
        if n is ZERO: continue
        e = x.elem(tuple(DI[j] - off if j == axis else DI[j] for j in range(nd)))
        r = r + bracket(cand(ige(DI[axis] - off), ige(off + n - DI[axis] - ONE))) * e
        off = off + n
    shape[axis] = off
    return Arr.new(shape, r, kind)
def vstack(xs):
    xs = [arr1(x) for x in xs]
    return concatenate([x.reshape((ONE,) + x.shape_ix) if x.ndim == 1 else x for x in xs], 0)
def hstack(xs):
    xs = [arr1(x) for x in xs]
    return concatenate(xs, 0 if xs[0].ndim == 1 else 1)
def column_stack(xs):
    xs = [arr1(x) for x in xs]
    return concatenate([x.reshape(x.shape_ix + (ONE,)) if x.ndim == 1 else x for x in xs], 1)
def stack(xs, axis=0):
    xs = [arr1(x) for x in xs]
    if axis != 0: raise Unsupported("stack axis")
    return concatenate([x.reshape((ONE,) + x.shape_ix) for x in xs], 0)
def block(rows):
    if not isinstance(rows, list): return arr1(rows)
    if rows and isinstance(rows[0], list):
        rr = []
        for r in rows:
            bl = [arr1(x) for x in r]
            bl = [b if b.ndim == 2 else b.reshape((ONE,) + b.shape_ix) for b in bl]
            rr.append(bl[0] if len(bl) == 1 else concatenate(bl, 1))
        return rr[0].copy() if len(rr) == 1 else concatenate(rr, 0)
    return hstack(rows)
def block_diag(*xs):
    xs = [arr1(x) for x in xs]
    r = P0; ro, co = ZERO, ZERO; kind = "r"
    for x in xs:
        if x.ndim == 0: x = x.reshape((1, 1))
        elif x.ndim == 1: x = x.reshape((ONE,) + x.shape_ix)
        if x.kind == "o": kind = "o"
        a, b = x.shape_ix
        if not (a is ZERO or b is ZERO):
            r = r + bracket(cand(ige(DI[0] - ro), ige(ro + a - DI[0] - ONE), ige(DI[1] - co), ige(co + b - DI[1] - ONE))) * x.elem((DI[0] - ro, DI[1] - co))
        ro, co = ro + a, co + b
    return Arr.new((ro, co), r, kind)
def np_diag(a, k=0):
    a = arr1(a)
    if k: raise Unsupported("offset diagonal")
    if a.ndim == 2:
        if not same(*a.shape_ix): raise Unsupported("diagonal of a rectangular matrix")
        return Arr.new((a.shape_ix[0],), a.elem((DI[0], DI[0])), a.kind)
    return Arr.new((a.shape_ix[0],) * 2, bracket(ieq(DI[0] - DI[1])) * a.elem((DI[0],)))
def trace(a): return np_sum(np_diag(a))
def ravel(a): return arr1(a).ravel()
def reshape(a, s): return arr1(a).reshape(s)
def transpose(a, ax=None): return arr1(a).T if ax is None else arr1(a).transpose(ax)
def swapaxes(a, i, j):
    ax = list(range(a.ndim)); ax[i], ax[j] = ax[j], ax[i]
    return a.transpose(ax)
def expand_dims(a, axis):
    a = arr1(a); axis %= a.ndim + 1
    s = list(a.shape_ix); s.insert(axis, ONE)
    return a.reshape(s)
def squeeze(a): return arr1(a).squeeze()
def broadcast_to(a, s): return broadcast(arr1(a), tuple(toix(x) for x in s))
def diff(a, n=1, axis=-1):
    a = arr1(a); axis %= a.ndim
    s = [slice(None)] * a.ndim
    hi = tuple(slice(1, None) if j == axis else x for j, x in enumerate(s))
    lo = tuple(slice(None, -1) if j == axis else x for j, x in enumerate(s))
    return a[hi] - a[lo]
def copyto(a, b): a[...] = b
def np_copy(a): return arr1(a).copy()
def flip(a): raise Unsupported("flip")
def tile(*a): raise Unsupported("tile")
def repeat(*a): raise Unsupported("repeat")
def shape(a): return arr1(a).shape
def size(a): return arr1(a).size
def ndim(a): return arr1(a).ndim
def fill_diagonal(a, v):
    eqd = bracket(ieq(DI[0] - DI[1]))
    Arr._write(a, a.tpl() + eqd * (topoly(v) - a.tpl()))
def apply_along_axis(f, axis, a, *args):
    a = arr1(a)
    if a.ndim != 2: raise Unsupported("apply_along_axis")
    row = 1 - axis % 2
    n = a.shape_ix[row]
    if n.const: 
        r = [f(a[k] if row == 0 else a[:, k], *args) for k in range(n.c)]
        return as_arr(r)
    s = freshsym("r")
    def go():
        k = mkint(isym(s))
        r = f(a[k] if row == 0 else a[:, k], *args)
        return topoly(r)
    p = merge_polys(generic([(s, n)], go))
    return Arr.new((n,), p.subst({s: DI[0]}))
def _narrow(name):
    def f(*a, **k): raise Unsupported(f"element type {name}")
    f.__name__ = name
    return f
class vectorize:
    def __init__(self, f, otypes=None, **k): self.f, self.otypes = f, otypes
    def __call__(self, a, *args):
        for q in self.otypes or (): exact(q)
        f = self.f
        if isinstance(f, types.WrapperDescriptorType) or f is _FT_call:
            a = a if isinstance(a, Arr) else as_arr(a)
            if a.kind != "fun": 
                if a.size == 0: return zeros(a.shape)
                raise TypeError("vectorize over non-functions")
            t = args[0]
            if isinstance(t, Arr): raise Unsupported("vectorize over several arrays")
            return Arr.new(a.shape_ix, rsubst(a.tpl(), {TVAR: topoly(t)}))
        if not isinstance(a, Arr):
            if isinstance(a, (SymReal, SymInt, int, float, SymFun)): return f(a, *args)
            a = as_arr(a)
        if any(isinstance(x, Arr) for x in args): raise Unsupported("vectorize over several arrays")
        names = [freshsym("r") for _ in a.shape_ix]
        idx = tuple(isym(n) for n in names)
        def go():
            from .prove import normalise
            v = topoly(f(a.wrap(a.elem(idx)), *args))
            if self.otypes in ([float], (float,), "d", ["float64"], ["float"], [PFLOAT]):
                if T.IMAG.key in v.key: v = V.realpart(normalise(v))     # numpy discards the imaginary part
            return v
        p = merge_polys(generic(list(zip(names, a.shape_ix)), go))
        return Arr.new(a.shape_ix, p.subst({n: DI[j] for j, n in enumerate(names)}))
_FT_call = types.FunctionType.__call__

# ---------------------------------------------------------------- linear algebra
def inv(a):
    a = arr1(a)
    if a.ndim < 2: raise ValueError("inv of a vector")
    n = a.shape_ix[-1]
    if not same(a.shape_ix[-2], n): raise ValueError("inv of a rectangular matrix")
    k = a.ndim - 2
    body = a.elem(tuple(DI[:k]) + (isym("@r"), isym("@c")))
    return Arr.new(a.shape_ix, inv_poly(body, n, DI[k], DI[k + 1]))
def inv_poly(body, n, i, j):
    if n is ONE or (n.const and n.c == 1): return recip(body.subst({"@r": ZERO, "@c": ZERO}))
    d = bracket(ieq(isym("@r") - isym("@c")))
    if body == d: return bracket(ieq(i - j))
    # diagonal matrix: reciprocal of the diagonal
    da = next(iter(d.d)).f[0][0]
    if body.d and all(any(a is da for a, _ in m.f) and not m.b for m in body.d):
        q = Poly({Mono((), tuple(x for x in m.f if x[0] is not da)): c for m, c in body.d.items()}).subst({"@c": isym("@r")})
        return bracket(ieq(i - j)) * recip(q.subst({"@r": i}))
    # common scalar factor (positive symbols not depending on the row or column)
    common = None
    for m in body.d:
        f = {a: e for a, e in m.f if not m.b and T.atom_pos(a) and not (a.free() & {"@r", "@c"})}
        common = f if common is None else {a: min(common[a], f[a]) for a in common if a in f}
    pre = P1
    if common:
        cm = Poly({Mono((), tuple(sorted(((a, e) for a, e in common.items()), key=lambda x: x[0].key))): Fr(1)})
        pre = cm.recip(); body = body * pre
    return pre * Poly.atom(Atom("inv", "", (i, j), (body,), (n,)))
def solve(a, b):
    a, b = arr1(a), arr1(b)
    return matmul(inv(a), b)
def norm(x, ord=None, axis=None, **k):
    if ord not in (None, 2): raise Unsupported("norm order")
    if isinstance(x, (list, tuple, IVec)): x = as_arr(x)
    if not isinstance(x, Arr): return abs(x)
    if axis is None:
        return SymReal(quick_simplify(topoly(np_sum(x * x))).root())
    r = np_sum(x * x, axis, **k)
    return unop(r, lambda p: quick_simplify(p).root())
def quick_simplify(p):
    from .prove import lead_rule
    return lead_rule(p)
def eigvals(a):
    a = arr1(a)
    if a.ndim != 2: raise Unsupported("eigvals")
    body = a.elem((isym("@r"), isym("@c")))
    n = a.shape_ix[0]
    if n.const and n.c == 1: return Arr.new((n,), a.elem((ZERO, ZERO)))
    return Arr.new((n,), Poly.atom(Atom("inv", "eig", (DI[0],), (body,), (n,))))
def det(a): raise Unsupported("det")

# ---------------------------------------------------------------- scalar min / max
def smin(a, b):
    if isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)):
        return a if ctx().decide(tocond(a <= b)) else b
    if not isinstance(a, SymReal) and not isinstance(b, SymReal) and not isinstance(a, SymInt) and not isinstance(b, SymInt): return _b.min(a, b)
    p, q = topoly(a), topoly(b)
    c = rge(q - p)
    if c is TRUE or ctx().entails(c): return a
    if ctx().entails(rge(p - q)): return b
    return SymReal(ite(c, p, q))
def smax(a, b):
    if isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)):
        return a if ctx().decide(tocond(a >= b)) else b
    if not isinstance(a, SymReal) and not isinstance(b, SymReal) and not isinstance(a, SymInt) and not isinstance(b, SymInt): return _b.max(a, b)
    p, q = topoly(a), topoly(b)
    c = rge(p - q)
    if c is TRUE or ctx().entails(c): return a
    if ctx().entails(rge(q - p)): return b
    return SymReal(ite(c, p, q))

# ---------------------------------------------------------------- discrete Fourier transform (trusted: a fixed linear map)
def _linear(name):
    def f(x, axes=None, n=None, axis=-1, norm=None):
        if axes not in (None, 0, -1) or n is not None or axis != -1 or norm is not None: raise Unsupported(f"options of {name}")
        x = arr1(x)
        if x.ndim != 1: raise Unsupported(f"{name} of an array of {x.ndim} dimensions")
        N = x.shape_ix[0]; m = T.fresh()
        p = (x.elem((isym(m),)) * T.elem(name, DI[0], isym(m), N)).sum_over(m, N)
        return Arr(Buf((N,), p))
    return f
def _fftfreq(n, d=1.0):
    N = toix(n)
    return Arr(Buf((N,), T.elem("%fftfreq", DI[0], N) * recip(topoly(d))))
FFT = dict(fft=_linear("%dft"), ifft=_linear("%idft"), fftshift=_linear("%shift"), ifftshift=_linear("%ishift"), fftfreq=_fftfreq)

# ---------------------------------------------------------------- the module object
class Missing:
    def __init__(self, n): self.n = n
    def __call__(self, *a, **k): raise Unsupported(f"numpy.{self.n}")
    def __getattr__(self, k): return Missing(self.n + "." + k)
class Module(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        return Missing(n)
def make_numpy():
    np = Module("numpy")
    la = Module("numpy.linalg")
    for n, f in dict(inv=inv, solve=solve, norm=norm, eigvals=eigvals, det=det).items(): setattr(la, n, f)
    d = dict(linalg=la, ndarray=ndarray, float64=PFLOAT, double=PFLOAT, float32=_narrow("float32"), float16=_narrow("float16"), int64=PINT, int32=PINT, intp=PINT, complex64=_narrow("complex64"), generic=object, complex128=complex, newaxis=None,
             pi=SymReal(T.PI), e=math.e, inf=math.inf, bool_=bool, object_=object,
             zeros=zeros, ones=ones, full=full, empty=empty, zeros_like=like(zeros), ones_like=like(ones), empty_like=like(zeros),
             eye=eye, identity=eye, array=array, asarray=asarray, ascontiguousarray=asarray, arange=arange, linspace=linspace,
             abs=elementwise(FN["abs"]), absolute=elementwise(FN["abs"]), fabs=elementwise(FN["abs"]), sqrt=elementwise(_sqrt), exp=elementwise(_cexp),
             sin=elementwise(FN["sin"]), cos=elementwise(FN["cos"]), square=elementwise(lambda p: p * p), negative=elementwise(lambda p: -p),
             reciprocal=elementwise(recip), real=elementwise(V.realpart), imag=elementwise(V.imagpart), conj=elementwise(V.conj), conjugate=elementwise(V.conj),
             add=lambda a, b: arr1(a) + b if not isinstance(a, (SymReal, SymInt)) else a + b, subtract=lambda a, b: a - b, multiply=lambda a, b: a * b, divide=lambda a, b: a / b, true_divide=lambda a, b: a / b,
             power=lambda a, b: a ** b, where=where, heaviside=heaviside, minimum=minimum, maximum=maximum, clip=clip, floor=floor, ceil=ceil, mod=mod, remainder=mod, sign=sign,
             einsum=einsum, matmul=matmul, dot=dot, vdot=dot, inner=dot, outer=outer, cross=cross, sum=np_sum, mean=np_mean, cumsum=cumsum,
             min=lambda a, axis=None: extremum("min", a, axis), max=lambda a, axis=None: extremum("max", a, axis),
             amin=lambda a, axis=None: extremum("min", a, axis), amax=lambda a, axis=None: extremum("max", a, axis),
             argmin=argmin, argmax=lambda a, axis=None: argmin(a, axis, "argmax"), all=np_all, any=np_any, isclose=isclose, allclose=allclose, array_equal=array_equal,
             nonzero=nonzero, append=append, concatenate=concatenate, vstack=vstack, hstack=hstack, column_stack=column_stack, stack=stack, block=block, diag=np_diag,
             diagonal=np_diag, trace=trace, ravel=ravel, reshape=reshape, transpose=transpose, swapaxes=swapaxes, expand_dims=expand_dims, squeeze=squeeze,
             broadcast_to=broadcast_to, diff=diff, copyto=copyto, copy=np_copy, shape=shape, size=size, ndim=ndim, fill_diagonal=fill_diagonal,
             apply_along_axis=apply_along_axis, vectorize=vectorize,
             logical_and=lambda a, b: a & b, logical_or=lambda a, b: a | b, logical_not=lambda a: ~a,
             tan=opaque_fn("tan"), arctan=opaque_fn("arctan"), arccos=opaque_fn("arccos"), arctan2=opaque_fn("arctan2"), arcsin=opaque_fn("arcsin"), log=opaque_fn("log"))
    for n, f in d.items(): setattr(np, n, f)
    npt = Module("numpy.typing")
    class NDArray:
        def __class_getitem__(cls, k): return cls
    npt.NDArray = NDArray
    np.typing = npt
    np.__path__ = []
    return np, npt, la
def make_scipy_linalg():
    m = Module("scipy.linalg")
    for n, f in dict(inv=inv, solve=solve, norm=norm, eigvals=eigvals, block_diag=block_diag, det=det).items(): setattr(m, n, f)
    return m

class _TypeProxy(type):
    def __instancecheck__(cls, x): return visinstance(x, cls._t)
    def __subclasscheck__(cls, x): return issubclass(x, cls._t)
    def __eq__(cls, o): return o is cls or o is cls._t
    def __ne__(cls, o): return not (o is cls or o is cls._t)
    def __hash__(cls): return hash(cls._t)
    def __call__(cls, *a, **k): return cls._f(*a, **k)
    def __getitem__(cls, k): return cls
def _proxy(t, f):
    class P(metaclass=_TypeProxy):
        _t = t; _f = staticmethod(f)
    P.__name__ = t.__name__
    return P
PLIST = _proxy(list, lambda *a: vlist(*a)); PINT = _proxy(int, lambda *a: vint(*a)); PFLOAT = _proxy(float, lambda *a: vfloat(*a)); PBOOL = _proxy(bool, lambda *a: vbool(*a))
_PX = {list: PLIST, int: PINT, float: PFLOAT, bool: PBOOL}
# ---------------------------------------------------------------- builtins
_SYMTYPES = ((SymReal, float), (SymInt, int), (SymBool, bool), (SymList, list), (SymFun, types.FunctionType))
def vtype(x, *a):
    if a: return type(x, *a)
    if isinstance(x, (Arr, IVec)): return ndarray
    for k, t in _SYMTYPES:
        if isinstance(x, k): return _PX.get(t, t)
    return _PX.get(type(x), type(x))
def visinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    ts = tuple(getattr(q, "_t", q) if isinstance(q, _TypeProxy) else q for q in ts)
    ts = tuple(q for q in ts if isinstance(q, type))
    if isinstance(x, (Arr, IVec)): return any(issubclass(ndarray, q) or q is ndarray for q in ts)
    for k, r in _SYMTYPES:
        if isinstance(x, k): return any(issubclass(r, q) for q in ts)
    return isinstance(x, ts)
def vlen(x):
    if isinstance(x, Arr):
        if not x.shape_ix: raise TypeError("len() of unsized object")
        return mkint(x.shape_ix[0])
    if isinstance(x, SymList): return mkint(x.n)
    if isinstance(x, SymRange): return mkint(x.length)
    if hasattr(x, "__vlen__"): return x.__vlen__()
    return len(x)
class _Range:
    def __call__(self, *a):
        if all(isinstance(x, int) and not isinstance(x, bool) for x in a): return range(*a)
        if len(a) == 1: lo, hi, st = 0, a[0], 1
        elif len(a) == 2: lo, hi, st = a[0], a[1], 1
        else: lo, hi, st = a
        lo, hi = toix(lo), toix(hi)
        if isinstance(st, SymInt) or st not in (1, -1): raise Unsupported("range step")
        if st == -1:
            return SymRange(ZERO, lo - hi, lambda k: mkint(lo - k))
        if (hi - lo).const: return _ConstRange(lo, (hi - lo).c)
        return SymRange(lo, hi)
class _ConstRange:
    def __init__(self, lo, n): self.lo, self.n = lo, max(n, 0)
    def __iter__(self): return (mkint(self.lo + Ix(j)) for j in range(self.n))
    def __len__(self): return self.n
    def __getitem__(self, k):
        if isinstance(k, slice): return [mkint(self.lo + Ix(j)) for j in range(self.n)][k]
        if not -self.n <= k < self.n: raise IndexError("range object index out of range")
        return mkint(self.lo + Ix(k % self.n if k < 0 else k))
def vmin(*a, **k):
    if k: raise Unsupported("min with options")
    if len(a) == 1:
        a = a[0]
        if isinstance(a, Arr): return extremum("min", a)
        a = list(a)
    a = list(a)
    if not any(isinstance(x, (SymReal, SymInt, Arr)) for x in a): return min(a)
    r = a[0]
    for x in a[1:]: r = smin(r, x)
    return r
def vmax(*a, **k):
    if k: raise Unsupported("max with options")
    if len(a) == 1:
        a = a[0]
        if isinstance(a, Arr): return extremum("max", a)
        a = list(a)
    a = list(a)
    if not any(isinstance(x, (SymReal, SymInt, Arr)) for x in a): return max(a)
    r = a[0]
    for x in a[1:]: r = smax(r, x)
    return r
def vsum(x, start=0):
    if isinstance(x, IVec): return x.sum() + start
    if isinstance(x, Arr):
        if x.ndim == 1: return np_sum(x) + start
    if isinstance(x, SymList): return np_sum(x.as_array()) + start
    r = start
    it = list(x) if isinstance(x, (list, tuple)) else None
    if it is None:
        g = collect(x)
        if g is not None: 
            n, lo, hi, cases = g
            cases = [(c, P0 if v is V.SKIP else topoly(v)) for c, v in cases]
            p = merge_polys(cases)
            j = T.fresh()
            return SymReal(p.subst({n: isym(j) + lo}).sum_over(j, hi - lo)) + start
        it = LASTLIST.pop()
    for y in it: r = r + y
    return r
LASTLIST = []
class GenCollect:
    """set while a builtin consumes a generator expression over a symbolic range"""
    cur = None
def collect(gen):
    """consume a generator; if it runs over one symbolic range, return (sym, lo, hi, [(cond,value)]), else None
    with the plain list in LASTLIST"""
    rec = []
    V.COLLECT.append(rec)
    items = []
    try:
        for v in gen:
            if rec and rec[-1][0] == "open": rec[-1][4].append(v)
            items.append(v)
    finally: V.COLLECT.pop()
    if not rec: LASTLIST.append(items); return None
    if len(rec) != 1: raise Unsupported("nested symbolic generator")
    _, n, lo, hi, vals, conds = rec[0]
    return n, lo, hi, list(zip(conds, vals))
def vany(x):
    if isinstance(x, Arr): return np_any(x)
    if isinstance(x, (list, tuple)): it = x
    else:
        g = collect(x)
        if g is None: it = LASTLIST.pop()
        else:
            n, lo, hi, cases = g
            c = cor(*[cand(cd, tocond(v)) for cd, v in cases if v is not V.SKIP])
            c = c.subst({n: isym(n) + lo})
            return mkbool(exists_cond(c, [n], [hi - lo]))
    r = FALSE
    for y in it:
        r = cor(r, tocond(y))
        if r is TRUE: return True
    return mkbool(r)
def vall(x):
    if isinstance(x, Arr): return np_all(x)
    if isinstance(x, (list, tuple)): it = x
    else:
        g = collect(x)
        if g is None: it = LASTLIST.pop()
        else:
            n, lo, hi, cases = g
            c = cor(*[cand(cd, cnot(tocond(v))) for cd, v in cases if v is not V.SKIP])
            c = c.subst({n: isym(n) + lo})
            return mkbool(cnot(exists_cond(c, [n], [hi - lo])))
    r = TRUE
    for y in it:
        r = cand(r, tocond(y))
        if r is FALSE: return False
    return mkbool(r)
def symlen(x):
    if isinstance(x, Arr) and x.ndim and not x.shape_ix[0].const: return x.shape_ix[0]
    if isinstance(x, SymList) and not x.n.const: return x.n
    if isinstance(x, SymRange) and not x.length.const: return x.length
    return None
def item_of(x, k):
    if isinstance(x, Arr): return x[mkint(k)]
    if isinstance(x, SymList): return x[mkint(k)]
    if isinstance(x, SymRange): return x._at(x.lo + k)
    if isinstance(x, SymZip): return x.at(k)
    raise Unsupported("zip of mixed iterables")
class SymZip:
    def __init__(self, n, at): self.n, self.at = n, at
    def __iter__(self): return V.loop_iter(ZERO, self.n, self.at)
    def __vlen__(self): return mkint(self.n)
class _Zip:
    def __call__(self, *xs, **k):
        ls = [symlen(x) for x in xs]
        if all(l is None for l in ls): return zip(*xs)
        if any(l is None for l in ls): raise Unsupported("zip of a symbolic and a concrete iterable")
        n = ls[0]
        for l in ls[1:]:
            if not same(n, l): n = minix(n, l)
        return SymZip(n, lambda k: tuple(item_of(x, k) for x in xs))
def venumerate(x, start=0):
    n = symlen(x) if not isinstance(x, SymZip) else x.n
    if n is None: return enumerate(x, start)
    return SymZip(n, lambda k: (mkint(k + toix(start)), item_of(x, k)))
def vlist(*a):
    if not a: return []
    x = a[0]
    if isinstance(x, Arr) and symlen(x) is not None: return SymList.of_array(x)
    if isinstance(x, SymList): return x.copy()
    if isinstance(x, (SymRange, SymZip)): raise Unsupported("list of a symbolic range")
    return list(x)
def vabs(x): return abs(x)
def vint(x=0, *a):
    if isinstance(x, SymInt): return x
    if isinstance(x, SymReal):
        r = poly_to_ix(x.p)
        if r is not None: return mkint(r)
        f = floor_ix(x.p)
        if ctx().entails(ige(f)): return mkint(f)
        raise Unsupported("int() of a symbolic real")
    if isinstance(x, SymBool): return SymReal(bracket(x.c))
    return int(x, *a)
def vfloat(x=0.0):
    if isinstance(x, SymReal): return x
    if isinstance(x, SymInt): return SymReal(Poly.from_ix(x.i))
    if isinstance(x, Arr): return SymReal(topoly(x))
    return float(x)
def vround(x, *a):
    if isinstance(x, (SymReal, SymInt)): raise Unsupported("round")
    return round(x, *a)
def vbool(x=False):
    return mkbool(tocond(x)) if isinstance(x, (SymBool, SymReal, SymInt, Arr)) else bool(x)
def make_builtins():
    d = dict(vars(_b))
    d.update(type=vtype_obj, isinstance=visinstance, len=vlen, range=_Range(), min=vmin, max=vmax, sum=vsum, any=vany, all=vall,
             zip=_Zip(), enumerate=venumerate, abs=vabs, round=vround, list=PLIST, int=PINT, float=PFLOAT, bool=PBOOL, print=lambda *a, **k: None)
    return d
class _VType(type):
    def __call__(cls, *a): return vtype(*a)
    def __instancecheck__(cls, x): return isinstance(x, type)
class vtype_obj(metaclass=_VType): pass
