from .common import *

def tfun(f):
    """the code under test wants functions of a variable named t"""
    return lambda t: f(t)

@contract("P16", "a voltage source: its conductor, its node")
def source(w):
    n, nx = w.int("n", 1), w.int("nx", 1)
    m, L = geometry(w, n, nx)
    m.v_sources[:, :] = w.funarr("vs", (n, nx + 1))
    before = w.copy(m.v_sources)
    st = snap(w, m, ("v", "i", "l", "c", "r", "g", "e_L", "e_T", "u", "du", "zs", "zl"))
    a = w.int("a", 0); w.assume(a < n)
    f = w.fun("f"); t = w.real("t")
    pos = w.arr("pos", (3,))
    m.add_voltage_source(pos, a, f)
    j = w.nearest(m.u, pos)
    w.forall([("x", 0, n), ("k", 0, nx + 1)], lambda x, k: w.eq("the source drives its node only", w.val(m.v_sources[x, k], t), w.val(f, t) if w.land(x == a, k == j) else w.val(before[x, k], t)))
    unchanged(w, m, st)

@contract("P16", "sum and multiple of functions of time")
def algebra(w):
    ut = w.mod("utils")
    f, g = w.fun("f"), w.fun("g"); t, k = w.real("t"), w.real("k")
    for nm, r in (("two functions", ut.add_t_functions(tfun(f), tfun(g))), ("nothing and a function", ut.add_t_functions(0, tfun(g))),
                  ("a function and nothing", ut.add_t_functions(tfun(f), 0)), ("a multiple", ut.multiply(tfun(f), k))):
        if not callable(r): return w.check(f"{nm}: the result is a function of time", False)
    w.eq("the sum of two functions", ut.add_t_functions(tfun(f), tfun(g))(t), w.val(f, t) + w.val(g, t))
    w.eq("a multiple of a function", ut.multiply(tfun(f), k)(t), k * w.val(f, t))
    w.eq("nothing plus a function", ut.add_t_functions(0, tfun(g))(t), w.val(g, t))
    w.eq("a function plus nothing", ut.add_t_functions(tfun(f), 0)(t), w.val(f, t))
    w.eq("nothing plus nothing", ut.add_t_functions(0, 0), 0)
    both = ut.add_t_functions(ut.multiply(tfun(f), k), ut.add_t_functions(tfun(g), tfun(f)))
    w.eq("sums and multiples of each other", both(t), (1 + k) * w.val(f, t) + w.val(g, t))

@contract("P16", "instants of the excitations", cases=[(o, h) for o in ("line", "bundle") for h in ("own clock", "given")])
def instants(w, case):
    what, how = case
    n, nx = w.int("n", 1), w.int("nx", 1)
    if what == "line": o, n, nx, L = any_line(w, nxmin=1, disp=False)
    else: o, n, nx, L = any_bundle(w, nxmin=1, disp=False)
    t, dt = w.num(w.real("t")), w.num(w.real("dt", pos=True))
    o.update_sources(w.num(w.real("another time")), w.num(w.real("another step", pos=True)))
    if how == "own clock": o.time, o.dt = t, dt; o.update_sources()
    else: o.update_sources(t, dt)
    tabs = [("e_T", "transverse excitation", 0, nx + 1), ("e_L", "longitudinal excitation", dt / 2, nx)] + ([("v_sources", "source", 0, nx + 1)] if what == "line" else [])
    for nm, lab, ahead, N in tabs:
        f, now, prev = getattr(o, nm), getattr(o, nm + "_now"), getattr(o, nm + "_prev")
        w.forall([("a", 0, n), ("k", 0, N)], lambda a, k: w.eq(f"{lab} now", now[a, k], w.val(f[a, k], t + ahead), tol=1e-11))
        w.forall([("a", 0, n), ("k", 0, N)], lambda a, k: w.eq(f"{lab} before", prev[a, k], w.val(f[a, k], t + ahead - dt), tol=1e-11))

@contract("P16", "instants of the sources and fields of a network")
def network_instants(w):
    from .p03 import net
    n = w.int("n", 1); ns = w.int("ns", 0)
    nw, *_ = net(w, n, ns, False)
    t, dt = w.real("t"), w.real("dt", pos=True)
    nw.update_sources(w.real("another time"), w.real("another step", pos=True))
    nw.update_sources(t, dt)
    for f, got, when, lab in ((nw.v_sources, nw.v_sources_now, t, "source now"), (nw.v_sources, nw.v_sources_prev, t - dt, "source a step before"), (nw.v_sources, nw.v_sources_prev2, t - 2 * dt, "source two steps before"),
                              (nw.e_T, nw.e_T_now, t, "transverse field now"), (nw.e_T, nw.e_T_prev, t - dt, "transverse field a step before")):
        w.forall([("a", 0, n)], lambda a: w.eq(lab, got[a], w.val(f[a], when), tol=1e-11))

@contract("P16", "a step of a network samples its bundles and its networks at the current time", conc=False)
def manager_instants(w):
    from .p08 import fleet
    N, bs, nets, probes, dts, T = fleet(w)
    t = w.real("time"); N.time = t
    dt = w.real("dt", pos=True); N.dt = dt
    m = len(T.items)
    N.step()
    got = {}
    for e in T.items[m:]:
        if e[0] in ("sources", "nsources"):
            got[e[0], e[1]] = got.get((e[0], e[1]), 0) + 1
            w.eq("the current time", e[2], t); w.eq("the time step in force", e[3], dt)
    w.check("once for every bundle and network", got == {("sources", "A"): 1, ("sources", "B"): 1, ("nsources", "X"): 1, ("nsources", "Y"): 1})

def place(w, o, nx, pos):
    """number of cells, and fraction of a cell, from the near end to the point of the line nearest to the position"""
    np = w.np
    d = pos - o.u[:-1]
    s = np.clip(np.sum(d * o.du, axis=1) / np.sum(o.du ** 2, axis=1), 0.0, 1.0)
    far = d - s[:, np.newaxis] * o.du
    k = np.argmin(far[:, 0] * far[:, 0] + far[:, 1] * far[:, 1] + far[:, 2] * far[:, 2])
    return k + s[k]

def on_line(w, m, nx, name):
    """a position along the line: at a node or inside a cell -> (position, number of cells from the near end)"""
    x = (w.inst.value(name) + 1) / 2 * nx
    s = w.inst.value(name + "s")
    x = min(max(x if s < 0 else round(x) if s < 0.7 else round(x) + 10 * (s - 0.85) ** 3, 0), nx)             # anywhere, at a node, close to a node
    k = min(int(x), nx - 1)
    return (m.u[k] + (x - k) * m.du[k] if x > int(x) else w.np.array(m.u[int(x)])), x

@contract("P16", "a localised drive: the covered part of each cell of its conductor", cases=("Planewave", "Lumped"), sym=False, seeds=400)
def localised(w, kind):
    n, nx = w.int("n", 1), w.int("nx", 1)
    mtl = w.mod("mtl")
    m, L = geometry(w, n, nx)
    b = mtl.MTLD({0: [m]}, name="b")
    b.e_L[:, :] = w.funarr("eL", (n, nx)); b.e_T[:, :] = w.funarr("eT", (n, nx + 1))
    before, st = w.copy(b.e_L), snap(w, b, ("v", "i", "l", "c", "r", "g", "e_T", "u", "du"))
    a = w.int("a", 0); w.assume(a < n)
    f = w.fun("f"); t = w.real("t")
    (p0, s0), (p1, s1) = sorted((on_line(w, b, nx, q) for q in ("from", "to")), key=lambda q: q[1])
    w.assume(s1 - s0 > 1e-6)
    b.add_localized_longitudinal_field(p0, p1, a, tfun(f), kind)
    def at(x, k):
        part = min(s1, k + 1) - max(s0, k)
        if x == a and part > 1e-12: w.eq("in proportion to the part covered, on top of what was there", w.val(b.e_L[x, k], t), w.val(before[x, k], t) + w.val(f, t) * (part / (s1 - s0) if kind == "Planewave" else part))
        else: w.eq("other cells and conductors are left as they were", w.val(b.e_L[x, k], t), w.val(before[x, k], t))
    w.forall([("x", 0, n), ("k", 0, nx)], at)
    unchanged(w, b, st)
    off = b.u[0] - 0.5 * b.du[0]
    for p, q in ((off, p1), (p0, b.u[-1] + 0.5 * b.du[-1])):
        w.raises("a position off the line is refused", lambda: b.add_localized_longitudinal_field(p, q, a, tfun(f), kind), ValueError)

def place(w, o, nx, pos):
    """number of cells, and fraction of a cell, from the near end to the point of the line nearest to the position"""
    np = w.np
    d = pos - o.u[:-1]
    s = np.clip(np.sum(d * o.du, axis=1) / np.sum(o.du ** 2, axis=1), 0.0, 1.0)
    far = d - s[:, np.newaxis] * o.du
    k = np.argmin(far[:, 0] * far[:, 0] + far[:, 1] * far[:, 1] + far[:, 2] * far[:, 2])
    return k + s[k]

@contract("P16", "a localised drive: the covered part of each cell of its conductor (proof)", cases=("Planewave", "Lumped"), conc=False)
def localised_all(w, kind):
    n, nx = w.int("n", 1), w.int("nx", 1)
    mtl = w.mod("mtl")
    m, L = geometry(w, n, nx)
    m.du = m.u[1:] - m.u[:-1]              # class invariant (P10)
    b = mtl.MTLD({0: [m]}, name="b")
    b.e_L[:, :] = w.funarr("eL", (n, nx)); b.e_T[:, :] = w.funarr("eT", (n, nx + 1))
    before, st = w.copy(b.e_L), snap(w, b, ("v", "i", "l", "c", "r", "g", "e_T", "u", "du"))
    a = w.int("a", 0); w.assume(a < n)
    f = w.fun("f"); t = w.real("t")
    p0, p1 = w.arr("p0", (3,)), w.arr("p1", (3,))
    inl = w.mod("utils").point_in_line
    for p in (p0, p1): w.assume(w.exists(nx, lambda q: inl(p, b.u[q], b.u[q + 1])))
    s0, s1 = place(w, b, nx, p0), place(w, b, nx, p1)
    w.assume(s0 < s1)
    b.add_localized_longitudinal_field(p0, p1, a, tfun(f), kind)
    def at(x, k):
        part = (s1 if s1 < k + 1 else w.num(k + 1)) - (s0 if s0 > k else w.num(k))
        if w.land(x == a, part > 0): w.eq("in proportion to the part covered, on top of what was there", w.val(b.e_L[x, k], t), w.val(before[x, k], t) + w.val(f, t) * (part / (s1 - s0) if kind == "Planewave" else part), stay=True)
        else: w.eq("other cells and conductors are left as they were", w.val(b.e_L[x, k], t), w.val(before[x, k], t), stay=True)
    w.forall([("x", 0, n), ("k", 0, nx)], at)
    unchanged(w, b, st)

@contract("P16", "two drives and two sources on the same place", sym=False)
def accumulate(w):
    n, nx = w.int("n", 1), w.int("nx", 1)
    mtl = w.mod("mtl")
    m, L = geometry(w, n, nx)
    b = mtl.MTLD({0: [m]}, name="b")
    f, g = w.fun("f"), w.fun("g"); t = w.real("t")
    a = w.int("a", 0); w.assume(a < n)
    full = w.np.array(b.u[0]), w.np.array(b.u[-1])
    b.add_localized_longitudinal_field(*full, a, tfun(f), "Lumped")
    b.add_localized_longitudinal_field(*full, a, tfun(g), "Planewave")
    for x in range(n):
        for k in range(nx): w.eq("drives add up", w.val(b.e_L[x, k], t), w.val(f, t) + w.val(g, t) / nx if x == a else 0.0)
    m.add_voltage_source(m.u[0], a, tfun(f))
    for x in range(n):
        for k in range(nx + 1): w.eq("a source at an end", w.val(m.v_sources[x, k], t), w.val(f, t) if (x, k) == (a, 0) else 0.0)
