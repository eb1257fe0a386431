from .common import *

def norm2(w, d): return d[0] * d[0] + d[1] * d[1] + d[2] * d[2]

def check_line(w, m, n, nx, l, c, r, g, zs, zl):
    w.eq("number of conductors", m.number_of_conductors, n)
    for nm, a, per in (("L", m.l, nx), ("C", m.c, nx + 1), ("R", m.r, nx), ("G", m.g, nx + 1)): w.shape(f"{nm} per node or cell", a, (per, n, n))
    dim = lambda M: len(getattr(M, "shape", ()))
    at = lambda M, a, b: M[a, b] if dim(M) == 2 else M
    for nm, a, M, per in (("L", m.l, l, nx), ("C", m.c, c, nx + 1), ("R", m.r, r, nx), ("G", m.g, g, nx + 1)):
        w.forall([("k", 0, per), ("a", 0, n), ("b", 0, n)], lambda k, x, y: w.eq(f"{nm} as given, everywhere", a[k, x, y], at(M, x, y)))
    for nm, a, M in (("near", m.zs, zs), ("far", m.zl, zl)):
        w.shape(f"{nm} end impedance", a, (n, n))
        w.forall([("a", 0, n), ("b", 0, n)], lambda x, y: w.eq(f"{nm} end impedance", a[x, y], (M[x] if dim(M) else M) * w.delta(x, y)))
    w.shape("voltages", m.v, (n, nx + 1)); w.shape("currents", m.i, (n, nx))
    w.same("zero voltages", m.v, 0); w.same("zero currents", m.i, 0); w.eq("the clock starts at zero", m.time, 0)
    t = w.real("t")
    w.shape("transverse excitations", m.e_T, (n, nx + 1)); w.shape("longitudinal excitations", m.e_L, (n, nx)); w.shape("sources", m.v_sources, (n, nx + 1))
    w.forall([("a", 0, n), ("k", 0, nx + 1)], lambda a, k: w.eq("null transverse excitation", w.val(m.e_T[a, k], t), 0))
    w.forall([("a", 0, n), ("k", 0, nx + 1)], lambda a, k: w.eq("null source", w.val(m.v_sources[a, k], t), 0))
    w.forall([("a", 0, n), ("k", 0, nx)], lambda a, k: w.eq("null longitudinal excitation", w.val(m.e_L[a, k], t), 0))
    w.check("no probes", len(m.probes) == 0)

def check_nodes(w, m, n, p, nds, nx):
    w.shape("node positions", m.u, (nx + 1, 3)); w.shape("cell vectors", m.du, (nx, 3)); w.shape("cell lengths", m.du_norm, (nx, n, n))
    first = 0
    for i, nd in enumerate(nds):
        w.forall([("k", 0, nd), ("j", 0, 3)], lambda k, j: w.eq("nodes are evenly spaced within the segment", m.u[first + k, j], p[i, j] + (p[i + 1, j] - p[i, j]) * k / nd))
        d = [p[i + 1, j] - p[i, j] for j in range(3)]
        w.forall([("k", 0, nd)], lambda k: w.eq("cell length", m.du_norm[first + k, 0, 0] * m.du_norm[first + k, 0, 0] * nd * nd, norm2(w, d)))
        w.forall([("k", 0, nd)], lambda k: w.check("cell length is not negative", m.du_norm[first + k, 0, 0] >= 0))
        w.forall([("k", 0, nd), ("j", 0, 3)], lambda k, j: w.eq("cell vector joins consecutive nodes", m.du[first + k, j], m.u[first + k + 1, j] - m.u[first + k, j]))
        first = first + nd
    for j in range(3): w.eq("last node", m.u[nx, j], p[len(nds), j])
    w.forall([("k", 0, nx), ("a", 0, n), ("b", 0, n)], lambda k, a, b: w.eq("the same length for every conductor", m.du_norm[k, a, b], w.delta(a, b) * m.du_norm[k, 0, 0]))

@contract("P10", "line of straight segments", cases=(1, 2, 3), secs=150)
def segments(w, s):
    mtl = w.mod("mtl")
    n = w.int("n", 1)
    nds = [w.int(f"d{k}", 1) for k in range(s)]
    nx = 0
    for d in nds: nx = nx + d
    p = w.arr("p", (s + 1, 3))
    l, c, r, g = (w.arr(x, (n, n), dd=True) for x in "lcrg")
    zs, zl = w.arr("zs", (n,)), w.arr("zl", (n,))
    m = mtl.MTL(l=l, c=c, r=r, g=g, node_positions=p, ndiv=nds, Zs=zs, Zl=zl, name="abc")
    check_nodes(w, m, n, p, nds, nx)
    check_line(w, m, n, nx, l, c, r, g, zs, zl)
    w.check("its name", m.name == "abc")

@contract("P10", "line of a given length, one conductor")
def single(w):
    mtl = w.mod("mtl")
    nx = w.int("d", 1)
    length = w.real("length", pos=True)
    l, c, r, g, zs, zl = (w.real(x, pos=True) for x in ("l", "c", "r", "g", "zs", "zl"))
    m = mtl.MTL(l=l, c=c, r=r, g=g, length=length, ndiv=[nx], Zs=zs, Zl=zl)
    check_line(w, m, 1, nx, l, c, r, g, zs, zl)
    w.forall([("k", 0, nx + 1)], lambda k: w.eq("nodes along z", m.u[k, 2], length * k / nx))
    w.forall([("k", 0, nx + 1)], lambda k: w.eq("nodes on the axis: x", m.u[k, 0], 0))
    w.forall([("k", 0, nx + 1)], lambda k: w.eq("nodes on the axis: y", m.u[k, 1], 0))
    w.forall([("k", 0, nx)], lambda k: w.eq("cell length", m.du_norm[k, 0, 0], length / nx))

@contract("P10", "lossless line with a row or column of end impedances", cases=("row", "column", "scalar"))
def ends(w, how):
    mtl = w.mod("mtl")
    n = w.int("n", 1); nx = w.int("d", 1)
    l, c = (w.arr(x, (n, n), dd=True) for x in "lc")
    zs, zl = w.arr("zs", (n,)), w.arr("zl", (n,))
    if how == "scalar":
        zs, zl = w.real("zsr", pos=True), w.real("zlr", pos=True)
        a, b = zs, zl
    else:
        sh = (1, n) if how == "row" else (n, 1)
        a, b = zs.reshape(*sh), zl.reshape(*sh)
    m = mtl.MTL(l=l, c=c, length=2.0, ndiv=[nx], Zs=a, Zl=b)
    check_line(w, m, n, nx, l, c, 0, 0, zs, zl)

@contract("P10", "the default line", sym=False)
def default(w):
    mtl = w.mod("mtl")
    l, c = w.real("l", pos=True), w.real("c", pos=True)
    m = mtl.MTL(l=l, c=c)
    check_line(w, m, 1, 100, l, c, 0, 0, 0, 0)
    w.forall([("k", 0, 101)], lambda k: w.eq("nodes along z", m.u[k, 2], 0.01 * k))
    d = mtl.MTL(l=l, c=c, ndiv=7)
    w.shape("division count as a number", d.u, (8, 3))

@contract("P10", "inconsistent inputs are refused")
def refused(w):
    mtl = w.mod("mtl")
    n = w.int("n", 2); k = w.int("k", 2)
    w.assume(w.lnot(n == k))
    A = lambda a, b, s="A": w.arr(s, (a, b), dd=True)
    I = w.eye(n)
    l, c = w.real("l", pos=True), w.real("c", pos=True)
    P = w.arr("p", (3, 3))
    for label, kw in (("L and C of different sizes", dict(l=1.0 * I, c=1.0 * w.eye(k))), ("L not square", dict(l=A(n, k), c=A(n, k))), ("number and matrix", dict(l=l, c=1.0 * I)), ("matrix and number", dict(l=1.0 * I, c=c)),
                      ("R of another size", dict(l=1.0 * I, c=1.0 * I, r=1.0 * w.eye(k))), ("G of another size", dict(l=1.0 * I, c=1.0 * I, g=1.0 * w.eye(k))),
                      ("R not square", dict(l=1.0 * I, c=1.0 * I, r=A(n, k))), ("G not square", dict(l=1.0 * I, c=1.0 * I, g=A(n, k))),
                      ("R a number for several conductors", dict(l=1.0 * I, c=1.0 * I, r=w.real("r", pos=True))), ("G a number for several conductors", dict(l=1.0 * I, c=1.0 * I, g=w.real("g", pos=True))),
                      ("number of segments", dict(l=l, c=c, node_positions=P, ndiv=[3])), ("number of segments, more", dict(l=l, c=c, node_positions=P, ndiv=[3, 2, 4])),
                      ("one end impedance a number, the other a vector", dict(l=1.0 * I, c=1.0 * I, Zs=w.arr("z", (n,)), Zl=1.0)), ("impedances of another size", dict(l=1.0 * I, c=1.0 * I, Zs=w.arr("z2", (k,)), Zl=w.arr("z3", (k,)))),
                      ("impedances of different sizes", dict(l=1.0 * I, c=1.0 * I, Zs=w.arr("z", (n,)), Zl=w.arr("z3", (k,)))), ("L is text", dict(l="a", c=c))):
        kw = {"ndiv": [3], **kw}
        w.raises(f"refused: {label}", lambda: mtl.MTL(**kw))
