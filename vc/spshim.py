"""The part of sympy the code under verification uses, over the verifier's terms."""
from .terms import *
from . import terms as T
from .values import *
from .ctx import ctx, Unsupported
from . import npshim, values as V

class SExpr:
    """expression in named symbols; ev(env) gives its term, env maps symbol names to terms"""
    __array_priority__ = 2000
    def __init__(self, ev): self.ev = ev
    def subs(self, *a, **k):
        if len(a) == 1:
            its = a[0].items() if isinstance(a[0], dict) else a[0]
            r = self
            for s, v in its: r = r.subs(s, v)
            return r
        s, v = a
        n = s.name; val = sexpr(v)
        return SExpr(lambda env: self.ev({**env, n: val.ev(env)}))
    def _b(self, o, f):
        try: o = sexpr(o)
        except Unsupported: return NotImplemented
        return SExpr(lambda env: f(self.ev(env), o.ev(env)))
    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: b - a)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._b(o, lambda a, b: a * recip(b))
    def __rtruediv__(self, o): return self._b(o, lambda a, b: b * recip(a))
    def __neg__(self): return SExpr(lambda env: -self.ev(env))
    def __pow__(self, o):
        if isinstance(o, SExpr): raise Unsupported("symbolic exponent")
        return SExpr(lambda env: topoly(SymReal(self.ev(env)) ** o))
    def _c(self, o, f):
        o = sexpr(o)
        return SCond(lambda env: f(self.ev(env), o.ev(env)))
    def __le__(self, o): return self._c(o, lambda a, b: rge(b - a))
    def __lt__(self, o): return self._c(o, lambda a, b: cnot(rge(a - b)))
    def __ge__(self, o): return self._c(o, lambda a, b: rge(a - b))
    def __gt__(self, o): return self._c(o, lambda a, b: cnot(rge(b - a)))
    def diff(self, *a): raise Unsupported("sympy.diff")
    def evalf(self, *a): return self
    def doit(self): return self
    def simplify(self): return self
class SCond:
    def __init__(self, ev): self.ev = ev
    def __and__(self, o): o = scond(o); return SCond(lambda env: cand(self.ev(env), o.ev(env)))
    __rand__ = __and__
    def __or__(self, o): o = scond(o); return SCond(lambda env: cor(self.ev(env), o.ev(env)))
    __ror__ = __or__
    def __invert__(self): return SCond(lambda env: cnot(self.ev(env)))
    def __bool__(self): raise TypeError("cannot determine truth value of Relational")
def scond(x):
    if isinstance(x, SCond): return x
    c = tocond(x)
    return SCond(lambda env: c)
def sexpr(x):
    if isinstance(x, SExpr): return x
    if isinstance(x, (SCond,)): raise Unsupported("condition as expression")
    p = topoly(x)
    return SExpr(lambda env: p)
class Symbol(SExpr):
    def __init__(self, name, **k):
        self.name = name
        super().__init__(lambda env: env.get(name, T.sym("sp_" + name)))
    def __eq__(self, o): return isinstance(o, Symbol) and o.name == self.name
    def __hash__(self): return hash(self.name)
def symbols(s, **k):
    n = s.replace(",", " ").split()
    r = tuple(Symbol(x) for x in n)
    return r[0] if len(r) == 1 else r
def Piecewise(*args):
    cs = [(sexpr(e), scond(c)) for e, c in args]
    def ev(env):
        # first condition that holds; undefined outside
        r = T.sym("undefined")
        for e, c in reversed(cs): r = ite(c.ev(env), e.ev(env), r)
        return r
    return SExpr(ev)
def Mod(a, b):
    a, b = sexpr(a), sexpr(b)
    return SExpr(lambda env: V.realmod(a.ev(env), b.ev(env)))
def Integral(body, lim):
    s, lo, hi = lim
    body, lo, hi = sexpr(body), sexpr(lo), sexpr(hi)
    n = s.name
    def ev(env):
        b = body.ev({**{k: v for k, v in env.items() if k != n}, n: T.sym("%u")})
        if "%u" not in b.key: return b * (hi.ev(env) - lo.ev(env))
        return integral(b, lo.ev(env), hi.ev(env))
    return SExpr(ev)
def integral(b, lo, hi):
    """integral of b(%u) from lo to hi; linear, constant factors pulled out"""
    out = P0
    for m, c in b.d.items():
        if m.b: return Poly.atom(Atom("v", "integral", (), (b, lo, hi)))
        pre, ins = P1, P1
        for a, e in m.f:
            q = Poly({Mono((), ((a, e),)): Fr(1)})
            if "%u" in a.key: ins = ins * q
            else: pre = pre * q
        if ins == P1: out = out + pre.scale(c) * (hi - lo)
        else: out = out + pre.scale(c) * Poly.atom(Atom("v", "integral", (), (ins, lo, hi)))
    return out
def lambdify(args, expr, *r, **k):
    if isinstance(args, (list, tuple)):
        if len(args) != 1: raise Unsupported("lambdify of several arguments")
        args = args[0]
    e = sexpr(expr)
    return SymFun(e.ev({args.name: TPOLY}))
def _f(name):
    def g(x):
        x = sexpr(x)
        return SExpr(lambda env: FN[name](x.ev(env)))
    return g
class Function(SExpr):
    def __init__(self, name): self.fname = name
    def __call__(self, *a):
        xs = [sexpr(x) for x in a]
        return SExpr(lambda env: app(self.fname, (), tuple(x.ev(env) for x in xs)))
def make_sympy():
    m = npshim.Module("sympy")
    for n, f in dict(Symbol=Symbol, symbols=symbols, Piecewise=Piecewise, Mod=Mod, Integral=Integral, integrate=Integral, lambdify=lambdify, exp=_f("exp"), sin=_f("sin"), cos=_f("cos"),
                     Abs=_f("abs"), sqrt=lambda x: SExpr(lambda env: sexpr(x).ev(env).root()), Function=Function, pi=SExpr(lambda env: T.PI), Expr=SExpr, Integer=lambda x: sexpr(x), Float=lambda x: sexpr(x),
                     And=lambda *a: SCond(lambda env: cand(*[scond(x).ev(env) for x in a])), Or=lambda *a: SCond(lambda env: cor(*[scond(x).ev(env) for x in a])), Not=lambda a: SCond(lambda env: cnot(scond(a).ev(env)))).items(): setattr(m, n, f)
    return m
