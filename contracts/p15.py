from .common import *

def owner(w, what, n, nx):
    """a line or a bundle with any matrices and any cells"""
    mtl = w.mod("mtl")
    m, L = geometry(w, n, nx)
    if w.sym:
        m.du_norm = w.np.linalg.norm(m.du, axis=1).reshape(nx, 1, 1) * w.eye(n)      # class invariant (P10)
    o = m if what == "line" else mtl.MTLD({0: [m]}, name="b")
    matrices(w, o, n, nx)
    return o

def cell_length(w, o, k):
    d = o.du[k]
    return w.sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2])

def region(w, o, where):
    """two positions, or one: numbers along the z axis, or points (in order of their first coordinate)"""
    if where == "points":
        p0 = [w.real(f"p0{c}") for c in "xyz"]; p1 = [w.real(f"p1{c}") for c in "xyz"]
        if not w.sym:            # near nodes of the line
            j = [int((w.inst.value(q) + 1) / 2 * o.u.shape[0] * 0.999) for q in ("j0", "j1")]
            p0, p1 = [[float(o.u[k, c] + 0.05 * q[c]) for c in range(3)] for k, q in zip(sorted(j), (p0, p1))]
        w.assume(p0[0] < p1[0])
        return p0, p1, p0, p1
    if where == "one point":
        p0 = [w.real(f"p0{c}") for c in "xyz"]
        return p0, p0, p0, p0
    z0 = w.real("z0")
    if where == "point": return z0, z0, [0.0, 0.0, z0], [0.0, 0.0, z0]
    z1 = z0 + w.real("dz", nonneg=True)
    return z0, z1, [0.0, 0.0, z0], [0.0, 0.0, z1]

KEEP = ("u", "du", "du_norm", "l", "c", "v", "i", "e_L", "e_T")

@contract("P15", "a series resistance", cases=[(o, x) for o in ("line", "bundle") for x in ("region", "points", "point", "one point")])
def series(w, case):
    what, where = case
    n, nx = w.int("n", 1), w.int("nx", 1)
    o = owner(w, what, n, nx)
    a = w.int("a", 0); w.assume(a < n)
    R = w.real("R")
    z0, z1, p0, p1 = region(w, o, where)
    k0 = w.nearest(o.u, w.np.array(p0)); k1 = w.nearest(o.u, w.np.array(p1))
    w.assume(k0 <= k1)
    r0 = w.copy(o.r); st = snap(w, o, KEEP + ("g",))
    if "point" in where and where != "points" and what == "line": o.set_resistance_at_point(z0, a, R)
    else: o.set_resistance_in_region(z0, z1, a, R)
    at_point = k0 == k1
    if at_point:
        k0 = w.ite_int(k0 == nx, nx - 1, k0)
        k1 = k0 + 1
    w.eq("the cells of the region add up to the requested resistance", w.sum(k1, lambda k: o.r[k, a, a] * cell_length(w, o, k), lo=k0), R)
    def at(k, x, y):
        if w.land(x == a, y == a, k >= k0, k < k1): w.eq("uniform per unit length", o.r[k, x, y], o.r[k0, a, a])
        else: w.eq("other cells and conductors are left as they were", o.r[k, x, y], r0[k, x, y])
    w.forall([("k", 0, nx), ("x", 0, n), ("y", 0, n)], at)
    unchanged(w, o, st)

def node_length(w, o, k, nx):
    return 0.5 * (w.ite(k > 0, cell_length(w, o, w.ite_int(k > 0, k - 1, 0)), 0.0) + w.ite(k < nx, cell_length(w, o, w.ite_int(k < nx, k, nx - 1)), 0.0))

@contract("P15", "a shunt conductance", cases=[(o, x) for o in ("line", "bundle") for x in ("region", "points", "point", "one point")])
def shunt(w, case):
    what, where = case
    n, nx = w.int("n", 1), w.int("nx", 1)
    o = owner(w, what, n, nx)
    a = w.int("a", 0); w.assume(a < n)
    G = w.real("G")
    z0, z1, p0, p1 = region(w, o, where)
    k0 = w.nearest(o.u, w.np.array(p0)); k1 = w.nearest(o.u, w.np.array(p1))
    w.assume(k0 <= k1)
    g0 = w.copy(o.g); st = snap(w, o, KEEP + ("r",))
    if "point" in where and where != "points" and what == "line": o.add_conductance_at_point(z0, a, G)
    else: o.add_conductance_in_region(z0, z1, a, G)
    w.eq("the nodes of the region add up to the requested conductance", w.sum(k1 + 1, lambda k: o.g[k, a, a] * node_length(w, o, k, nx), lo=k0), G)
    def at(k, x, y):
        if w.land(x == a, y == a, k >= k0, k <= k1): w.eq("uniform per unit length", o.g[k, x, y], o.g[k0, a, a])
        else: w.eq("other nodes and conductors are left as they were", o.g[k, x, y], g0[k, x, y])
    w.forall([("k", 0, nx + 1), ("x", 0, n), ("y", 0, n)], at)
    unchanged(w, o, st)

@contract("P15", "positions in the wrong order are refused", cases=("line", "bundle"))
def order(w, what):
    n, nx = w.int("n", 1), w.int("nx", 1)
    o = owner(w, what, n, nx)
    r0, g0 = w.copy(o.r), w.copy(o.g)
    z0 = w.real("z0"); z1 = z0 + w.real("dz", pos=True)
    w.raises("refused: series", lambda: o.set_resistance_in_region(z1, z0, 0, 1.0))
    w.raises("refused: shunt", lambda: o.add_conductance_in_region(z1, z0, 0, 1.0))
    w.same("nothing is changed by a refusal: series", o.r, r0); w.same("nothing is changed by a refusal: shunt", o.g, g0)

@contract("P15", "black box: losses placed on a line at rest or between two steps", cases=("line", "bundle"), sym=False, seeds=80)
def in_run(w, what):
    np = w.np; mtl, mtln = w.mod("mtl"), w.mod("mtln")
    n, nseg = w.int("n", 1, 3), w.int("nseg", 1, 3)
    nds = [w.int(f"d{k}", 1, 3) for k in range(nseg)]; nx = sum(nds)
    axis = w.int("axis", 0, 2)
    pts = np.cumsum(np.vstack([np.zeros(3), 0.2 * w.arr("step", (nseg, 3)) + 1.5 * np.eye(3)[axis]]), axis=0)
    if w.int("straight", 0, 1): pts *= np.eye(3)[axis]
    l, c = np.eye(n) + 0.1, np.eye(n) + 0.1
    o = m = mtl.MTL(l=l, c=c, node_positions=pts, ndiv=nds, Zs=0.5, Zl=2.0)
    if what == "bundle":
        o = mtl.MTLD({0: [m]}, name="b"); run = mtln.MTLN(); run.add_bundle(o)
    else: run = o
    o.v[:, :] = w.arr("v", (n, nx + 1)); o.i[:, :] = w.arr("i", (n, nx))
    between = w.int("between steps", 0, 1)
    dt = run.dt
    if between: run.run_until(1.5 * dt)
    Rtot, Gtot = np.zeros((n, n, nx)), np.zeros((n, n, nx + 1))
    lens = np.linalg.norm(o.u[1:] - o.u[:-1], axis=1); nl = 0.5 * (np.append(lens, 0) + np.append(0, lens))
    for q in range(w.int("how many", 1, 2)):
        a = w.int(f"a{q}", 0, n - 1); k0 = w.int(f"k{q}", 0, nx); k1 = w.int(f"m{q}", k0, nx)
        p0, p1 = list(o.u[k0]), list(o.u[k1])
        if not np.any(pts[:, :2]) and w.int(f"number{q}", 0, 1): p0, p1 = float(p0[2]), float(p1[2])
        elif p1 < p0: return
        R, G = abs(w.real(f"R{q}")), abs(w.real(f"G{q}"))
        if k0 == k1 and what == "line" and w.int(f"at{q}", 0, 1): o.set_resistance_at_point(p0, a, R); o.add_conductance_at_point(p0, a, G)
        else: o.set_resistance_in_region(p0, p1, a, R); o.add_conductance_in_region(p0, p1, a, G)
        c0, c1 = (min(k0, nx - 1), min(k0, nx - 1) + 1) if k0 == k1 else (k0, k1)
        Rtot[a, a, c0:c1] = R * lens[c0:c1] / lens[c0:c1].sum(); Gtot[a, a, k0:k1 + 1] = G * nl[k0:k1 + 1] / nl[k0:k1 + 1].sum()
    v, i = o.v.copy(), o.i.copy()
    if between: run.step()
    else: run.run_until(1.5 * dt)
    for k in range(nx): w.same("voltage balance with the new losses", lens[k] * (l @ (o.i[:, k] - i[:, k])) / dt + Rtot[:, :, k] @ (o.i[:, k] + i[:, k]) / 2 + o.v[:, k + 1] - o.v[:, k], np.zeros(n))
    for k in range(1, nx): w.same("charge balance with the new losses", nl[k] * (c @ (o.v[:, k] - v[:, k])) / dt + Gtot[:, :, k] @ (o.v[:, k] + v[:, k]) / 2 + i[:, k] - i[:, k - 1], np.zeros(n))
    if what == "line" and not between:
        # the half cells at the ends: a lumped conductance at an end node counts once
        w.same("near end with the new losses", v[:, 0] + o.v[:, 0] + 2 * 0.5 * (lens[0] / 2 * c @ (o.v[:, 0] - v[:, 0]) / dt + Gtot[:, :, 0] @ (o.v[:, 0] + v[:, 0]) / 2 + i[:, 0]), np.zeros(n))
        w.same("far end with the new losses", v[:, -1] + o.v[:, -1] + 2 * 2.0 * (lens[-1] / 2 * c @ (o.v[:, -1] - v[:, -1]) / dt + Gtot[:, :, -1] @ (o.v[:, -1] + v[:, -1]) / 2 - i[:, -1]), np.zeros(n))
