"""Loads the sources of /repo/python/src for symbolic execution.

The text that is executed is /repo's, parsed on every run.  What the loader changes: imports of numpy,
numpy.typing, scipy.linalg, multipledispatch, sympy resolve to the verifier's models of them; builtins that
look at types or lengths (type, isinstance, len, range, zip, enumerate, any, all, sum, min, max, list) are the
verifier's; every 'for' statement reports its loop-carried local variables, comprehensions and in-place
updates of Python lists/dicts go through helpers, attribute assignments are logged.  Nothing is dropped."""
import ast, os, sys, types, builtins, importlib
from . import values as V
from .values import *
from .ctx import Ctx, ctx, Unsupported
from . import npshim, spshim

SRC = os.environ.get("VC_SRC", "/repo/python/src")

# ---------------------------------------------------------------- loop protocol
_UNSET = object()
def _setattr(self, name, value):
    if AttrLog.active:
        key = (id(self), name)
        for d in AttrLog.active:
            if key not in d:
                had = name in self.__dict__
                d[key] = (self, had, self.__dict__.get(name))
    object.__setattr__(self, name, value)

class Loop:
    """carries the local variables of one execution of a for statement"""
    __setattr__ = _setattr
    def __init__(self, it, **live):
        d = self.__dict__
        d["_it"] = it; d["_sym"] = d["_ran"] = False
        d["_maybe"] = maybe = live.pop("_maybe__", ())
        for n, f in live.items():
            try: v = f()
            except NameError: continue
            # a name that some iterations set and none reads before: followed when it is a flag
            if n not in maybe or isinstance(v, (bool, V.SymBool)): d[n] = v
    def __iter__(self):
        sym = isinstance(self._it, (SymRange, npshim.SymZip, SymList)) or npshim.symlen(self._it) is not None
        self.__dict__["_sym"] = sym
        return iter(self._it)
    def _inn__(self, name, cur):
        if not self._sym: return cur()
        try: return self.__dict__[name]
        except KeyError: return cur() if name in self._maybe else V.Poison("value of an earlier iteration")
    def _out__(self, name, cur):
        if not self._sym: return
        self.__dict__["_ran"] = True
        try: v = cur()
        except NameError: return
        if name in self.__dict__ and self.__dict__[name] is v: return
        setattr(self, name, v)
    def _brk__(self):
        if self._sym and ctx().loopbufs: raise Unsupported("a loop over a symbolic range is left early")
        if self._sym and V.COLLECT: raise Unsupported("a loop over a symbolic range is left early")
    def _fin__(self, name, cur):
        if not self._sym: return cur()
        if name not in self.__dict__ and not self._ran: return cur()
        return self.__dict__.get(name, V.Poison("value after a loop"))

FUNCS = set()        # functions of the code executed symbolically in this process
def in_symbolic_loop(): return bool(ctx() is not None and ctx().loopbufs)
_local_ids = []      # containers created in the current symbolic iteration: kept alive, with loop depth
def _mk(x):
    if in_symbolic_loop():
        if len(_local_ids) > 5000: del _local_ids[:2500]
        _local_ids.append((len(ctx().loopbufs), id(ctx().loopbufs[-1]), x))
    return x
def _guard(x):
    if in_symbolic_loop() and isinstance(x, (list, dict, set)):
        c = ctx()
        for depth, lid, y in reversed(_local_ids):
            if y is x and depth == len(c.loopbufs) and lid == id(c.loopbufs[-1]): return
        raise Unsupported("a Python container is updated inside a loop over a symbolic range")
def _method(obj, name):
    if in_symbolic_loop() and type(obj) in (list, dict, set) and name in ("append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "add", "sort", "reverse", "popitem"): _guard(obj)
    return getattr(obj, name)
def _store(obj, key, val):
    if type(obj) in (list, dict): _guard(obj)
    obj[key] = val
def _listcomp(gen):
    g = npshim.collect(gen)
    if g is None: return _mk(npshim.LASTLIST.pop())
    n, lo, hi, cases = g
    if any(v is V.SKIP for _, v in cases): raise Unsupported("filtered comprehension over a symbolic range")
    vals = [v for _, v in cases]
    sub = {n: isym(SymList.LV) + lo}
    if all(isinstance(v, Arr) for v in vals):
        sh, kd = vals[0].shape_ix, vals[0].kind
        for v in vals[1:]:
            if tuple(v.shape_ix) != tuple(sh): raise Unsupported("comprehension with varying shapes")
        if any(n in s.names() for s in sh): raise Unsupported("comprehension with varying shapes")
        p = V.merge_polys([(c, v.tpl()) for c, v in cases])
        return SymList(hi - lo, [(ZERO, hi - lo, sh, p.subst(sub), kd)])
    if all(isinstance(v, (SymReal, SymInt, int, float, SymBool)) for v in vals):
        p = V.merge_polys([(c, topoly(v)) for c, v in cases])
        return SymList(hi - lo, [(ZERO, hi - lo, None, p.subst(sub), "r")])
    raise Unsupported("comprehension of objects over a symbolic range")
def _nosym(gen):
    g = npshim.collect(gen)
    if g is None: return npshim.LASTLIST.pop()
    raise Unsupported("set or dict comprehension over a symbolic range")
def _chain(*conds):
    raise AssertionError
def _in(a, b):
    """membership tests on tuples/lists of strings etc. stay Python's"""
    return a in b

class Rewrite(ast.NodeTransformer):
    def __init__(self, mod=""): self.n = 0; self.scopes = []; self.path = [mod]
    # ---- scopes
    def _fn(self, node):
        a = node.args
        names = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        if a.vararg: names.add(a.vararg.arg)
        if a.kwarg: names.add(a.kwarg.arg)
        self.scopes.append(names)
        # pre-order: assigned names are added statement by statement
        self.path.append(node.name)
        node.body = self.block(node.body)
        doc = 1 if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) and isinstance(node.body[0].value.value, str) else 0
        node.body.insert(doc, ast.Expr(ast.Call(ast.Name("__fn__", ast.Load()), [ast.Constant(".".join(self.path))], [])))
        self.path.pop()
        self.scopes.pop()
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.generic_visit(node.args)
        return node
    visit_FunctionDef = _fn
    def visit_Lambda(self, node):
        self.scopes.append(set()); r = self.generic_visit(node); self.scopes.pop(); return r
    def visit_ClassDef(self, node):
        self.scopes.append(None); self.path.append(node.name); node.body = self.block(node.body); self.path.pop(); self.scopes.pop(); return node
    def visit_Module(self, node):
        self.scopes.append(None); node.body = self.block(node.body); self.scopes.pop(); return node
    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list): out += r
            elif r is not None: out.append(r)
            if self.scopes[-1] is not None: self.scopes[-1] |= assigned([s])
        return out
    def _sub(self, node, fields):
        for f in fields:
            v = getattr(node, f, None)
            if isinstance(v, list): setattr(node, f, self.block(v))
        return node
    def visit_If(self, node):
        node.test = self.visit(node.test)
        return self._sub(node, ("body", "orelse"))
    def visit_While(self, node):
        node.test = self.visit(node.test)
        return self._sub(node, ("body", "orelse"))
    def visit_With(self, node):
        node.items = [self.generic_visit(i) for i in node.items]
        return self._sub(node, ("body",))
    def visit_Try(self, node):
        node = self._sub(node, ("body", "orelse", "finalbody"))
        for h in node.handlers:
            h.body = self.block(h.body)
            # the verifier's own signals pass through "except:" clauses
        pas = ast.parse("try: pass\nexcept (__Unsupported__, __Infeasible__): raise").body[0].handlers[0]
        if node.handlers: node.handlers.insert(0, pas)
        return node
    # ---- loops
    def visit_For(self, node):
        node.iter = self.visit(node.iter)
        sc = self.scopes[-1]
        if sc is None:
            return self._sub(node, ("body", "orelse"))
        before = set(sc)
        tnames = assigned([ast.Assign(targets=[node.target], value=ast.Constant(0))])
        live = sorted((assigned(node.body) - tnames))
        k = self.n; self.n += 1
        L = f"L__{k}__"
        rf = {n: read_first(node.body, n) for n in live}
        fresh = {n for n in live if rf[n] == (False, True)}        # set anew by every iteration
        maybe = [n for n in live if rf[n] == (False, False) and n in before]
        self.scopes[-1] = set(before) | tnames | set(live)
        body = self.block(node.body)
        orelse = self.block(node.orelse)
        body = LoopExits(L, live).run(body)
        kw = [ast.keyword(arg=n, value=_lam(n)) for n in live if n in before and n not in fresh]
        if maybe: kw.append(ast.keyword(arg="_maybe__", value=ast.Tuple([ast.Constant(n) for n in maybe], ast.Load())))
        enter = ast.Assign(targets=[ast.Name(L, ast.Store())], value=ast.Call(ast.Name("__Loop__", ast.Load()), [node.iter], kw))
        pre = [_tryname(_call_assign(n, L, "_inn__")) for n in live if n in before and n not in fresh]
        post = [_call_stmt(n, L, "_out__") for n in live]
        node.iter = ast.Name(L, ast.Load())
        node.body = pre + body + post
        node.orelse = orelse
        fin = [_call_assign(n, L, "_fin__") for n in live]
        # variables first bound in the loop stay unbound if it did not run
        fins = [_tryname(f) for f in fin]
        return [enter, node] + fins
    # ---- comprehensions
    def visit_ListComp(self, node):
        node = self.generic_visit(node)
        return ast.Call(ast.Name("__listcomp__", ast.Load()), [ast.GeneratorExp(node.elt, node.generators)], [])
    def visit_SetComp(self, node):
        node = self.generic_visit(node)
        return ast.Call(ast.Name("set", ast.Load()), [ast.Call(ast.Name("__nosym__", ast.Load()), [ast.GeneratorExp(node.elt, node.generators)], [])], [])
    def visit_DictComp(self, node):
        node = self.generic_visit(node)
        return ast.Call(ast.Name("dict", ast.Load()), [ast.Call(ast.Name("__nosym__", ast.Load()), [ast.GeneratorExp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)], [])], [])
    # ---- containers
    def visit_List(self, node):
        node = self.generic_visit(node)
        if isinstance(node.ctx, ast.Load): return ast.Call(ast.Name("__mk__", ast.Load()), [node], [])
        return node
    def visit_Dict(self, node):
        return ast.Call(ast.Name("__mk__", ast.Load()), [self.generic_visit(node)], [])
    def visit_Call(self, node):
        node = self.generic_visit(node)
        if isinstance(node.func, ast.Attribute) and node.func.attr in ("append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "add", "sort", "reverse"):
            node.func = ast.Call(ast.Name("__method__", ast.Load()), [node.func.value, ast.Constant(node.func.attr)], [])
        return node
    def visit_Assign(self, node):
        node = self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            return ast.Expr(ast.Call(ast.Name("__store__", ast.Load()), [t.value, _slice(t.slice), node.value], []))
        return node
def _tryname(f):
    return ast.Try(body=[f], handlers=[ast.ExceptHandler(type=ast.Name("NameError", ast.Load()), name=None, body=[ast.Pass()])], orelse=[], finalbody=[])
def _slice(s):
    if isinstance(s, ast.Slice):
        return ast.Call(ast.Name("slice", ast.Load()), [x or ast.Constant(None) for x in (s.lower, s.upper, s.step)], [])
    if isinstance(s, ast.Tuple): return ast.Tuple([_slice(e) for e in s.elts], ast.Load())
    return s
def _lam(n):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=ast.Name(n, ast.Load()))
def _call(n, L, m):
    return ast.Call(ast.Attribute(ast.Name(L, ast.Load()), m, ast.Load()), [ast.Constant(n), _lam(n)], [])
def _call_assign(n, L, m): return ast.Assign(targets=[ast.Name(n, ast.Store())], value=_call(n, L, m))
def _call_stmt(n, L, m): return ast.Expr(_call(n, L, m))

class LoopExits(ast.NodeTransformer):
    """continue / break / return of this loop's own body"""
    def __init__(self, L, live): self.L, self.live, self.depth = L, live, 0
    def run(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            out += r if isinstance(r, list) else [r]
        return out
    def visit_FunctionDef(self, n): return n
    def visit_Lambda(self, n): return n
    def visit_For(self, n):
        self.depth += 1; r = self.generic_visit(n); self.depth -= 1; return r
    visit_While = visit_For
    def visit_Continue(self, n):
        if self.depth: return n
        return [_call_stmt(v, self.L, "_out__") for v in self.live] + [n]
    def _b(self): return ast.Expr(ast.Call(ast.Attribute(ast.Name(self.L, ast.Load()), "_brk__", ast.Load()), [], []))
    def visit_Break(self, n): return n if self.depth else [self._b(), n]
    def visit_Return(self, n): return [self._b(), n]

def read_first(stmts, name):
    """(may these statements read the name before they set it, do they surely set it)"""
    def loads(n): return n is not None and any(isinstance(x, ast.Name) and x.id == name and not isinstance(x.ctx, ast.Store) for x in ast.walk(n))
    def stores(n): return n is not None and any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store) for x in ast.walk(n))
    for s in stmts:
        if isinstance(s, ast.If):
            if loads(s.test): return True, False
            a, b = read_first(s.body, name), read_first(s.orelse, name)
            if a[0] or b[0]: return True, False
            if a[1] and b[1]: return False, True
        elif isinstance(s, ast.For):
            if loads(s.iter): return True, False
            if not stores(s.target) and read_first(s.body, name)[0] or read_first(s.orelse, name)[0]: return True, False
        elif isinstance(s, (ast.Assign, ast.AnnAssign)):
            if loads(s.value): return True, False
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            if any(loads(t) for t in ts): return True, False
            if any(stores(t) for t in ts): return False, True
        elif isinstance(s, ast.AugAssign):
            if loads(s) or stores(s.target): return True, False
        elif isinstance(s, ast.With):
            if any(loads(i.context_expr) for i in s.items): return True, False
            a = read_first(s.body, name)
            if a[0] or a[1]: return a
        elif loads(s): return True, False
    return False, False

def assigned(stmts):
    out = set()
    class A(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Store): out.add(n.id)
        def visit_FunctionDef(self, n): out.add(n.name)
        def visit_ClassDef(self, n): out.add(n.name)
        def visit_Lambda(self, n): pass
        def visit_ListComp(self, n): pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
        def visit_Import(self, n):
            for a in n.names: out.add((a.asname or a.name).split(".")[0])
        visit_ImportFrom = visit_Import
    for s in stmts: A().visit(s)
    return out

# ---------------------------------------------------------------- multipledispatch
class Dispatched:
    def __init__(self): self.fns = []
    def __get__(self, obj, cls=None):
        if obj is None: return self
        def call(*a, **k): return self.pick(a)(obj, *a, **k)
        return call
    def pick(self, a):
        for ts, f in self.fns:
            if len(ts) == len(a) and all(npshim.visinstance(x, t) or (getattr(t, "_t", t) is float and isinstance(x, (SymInt, SymReal))) for x, t in zip(a, ts)): return f
        raise NotImplementedError(f"could not find signature for {[type(x).__name__ for x in a]}")
    def __call__(self, *a): return self.pick(a)(*a)
def dispatch(*ts, **kw):
    ns = sys._getframe(1).f_locals
    def deco(f):
        d = ns.get(f.__name__)
        if not isinstance(d, Dispatched): d = Dispatched()
        d.fns = [x for x in d.fns if len(x[0]) != len(ts) or any(a is not b for a, b in zip(x[0], ts))] + [(ts, f)]
        return d
    return deco

# ---------------------------------------------------------------- loading
class Package:
    def __init__(self, root=SRC):
        self.root = root
        self.mods = {}
        self.texts = {}
        self.np, self.npt, self.la = npshim.make_numpy()
        self.npt.__name__ = "numpy.typing"
        self.scla = npshim.make_scipy_linalg()
        scipy = npshim.Module("scipy"); scipy.linalg = self.scla; scipy.__path__ = []
        md = types.ModuleType("multipledispatch"); md.dispatch = dispatch
        self.sp = spshim.make_sympy()
        fft = npshim.Module("numpy.fft"); 
        for n, f in npshim.FFT.items(): setattr(fft, n, f)
        self.fftmod = fft; self.np.fft = fft
        rnd = npshim.Module("numpy.random"); rnd.default_rng = npshim.Missing("random.default_rng"); self.np.random = rnd
        skrf = npshim.Module("skrf"); skrf.Frequency = npshim.Missing("skrf.Frequency"); skrf.Network = npshim.Missing("skrf.Network")
        self.ext = {"numpy": self.np, "numpy.typing": self.npt, "numpy.linalg": self.la, "numpy.fft": fft, "numpy.random": rnd, "scipy": scipy, "scipy.linalg": self.scla,
                    "multipledispatch": md, "sympy": self.sp, "skrf": skrf}
        self.builtins = npshim.make_builtins()
        bc = builtins.__build_class__
        def build_class(f, name, *bases, **kw):
            cls = bc(f, name, *bases, **kw)
            if "__setattr__" not in cls.__dict__ and not issubclass(cls, (BaseException, tuple, dict, list)):
                try: cls.__setattr__ = _setattr
                except Exception: pass
            return cls
        self.builtins.update(__build_class__=build_class, __import__=self._import)
    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pk = globals["__package__"].split(".")
            base = ".".join(pk[:len(pk) - (level - 1)])
            name = base + ("." + name if name else "")
        if name == "src" or name.startswith("src."):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f):
                        try: setattr(m, f, self.load(name + "." + f))
                        except FileNotFoundError: pass
                return m
            return self.load(name.split(".")[0])
        if name in self.ext:
            return self.ext[name] if fromlist else self.ext[name.split(".")[0]]
        if name.split(".")[0] in ("numpy", "scipy", "sympy", "skrf"):
            raise Unsupported(f"import of {name}")
        return builtins.__import__(name, globals, locals, fromlist, level)
    def load(self, name):
        m = self.mods.get(name)
        if m is not None: return m
        rel = name.split(".")[1:]
        p = os.path.join(self.root, *rel)
        if os.path.isdir(p): path, ispkg = os.path.join(p, "__init__.py"), True
        else: path, ispkg = p + ".py", False
        if not os.path.exists(path):
            if ispkg: text = ""
            else: raise FileNotFoundError(path)
        else: text = open(path, encoding="utf-8").read()
        self.texts[path] = text
        m = types.ModuleType(name)
        m.__package__ = name if ispkg else name.rsplit(".", 1)[0]
        m.__file__ = path
        if ispkg: m.__path__ = [p]
        self.mods[name] = m
        if "." in name:
            par, leaf = name.rsplit(".", 1)
            setattr(self.load(par), leaf, m)
        tree = ast.parse(text, path)
        tree = Rewrite(name.split(".", 1)[-1]).visit(tree)
        ast.fix_missing_locations(tree)
        m.__dict__.update(__builtins__=self.builtins, __Loop__=Loop, __listcomp__=_listcomp, __nosym__=_nosym, __mk__=_mk, __method__=_method, __store__=_store, __fn__=FUNCS.add,
                          __Unsupported__=Unsupported, __Infeasible__=Infeasible)
        exec(compile(tree, path, "exec"), m.__dict__)
        return m
