from .common import *

def line_or_bundle(w, what, uniform=False):
    if what == "line": o, n, nx, L = any_line(w, nxmin=1, disp=False)
    else: o, n, nx, L = any_bundle(w, nxmin=1, disp=False)
    if w.sym:
        o.du = o.u[1:] - o.u[:-1]                    # class invariants (P10)
    if uniform:
        l, c = w.arr("l1", (n, n), dd=True), w.arr("c1", (n, n), dd=True)
        if not w.sym: l, c = (l + l.T) / 2, (c + c.T) / 2
        o.l[:, :, :] = l; o.c[:, :, :] = c
    return o, n, nx, L

def offsets(w, n, nx, axis, sign):
    """from the reference to each conductor at each node, along one axis"""
    D = w.arr("D", (n, nx + 1), pos=True)
    d = w.np.zeros((n, nx + 1, 3))
    d[:, :, axis] = sign * D
    return d

XYZ = ("x", "y", "z")
def excited(w, o, n, nx, d, axis, E, first, last, t, before):
    """E(component, x, y, z, t, k): the field; cells first..last-1 and their nodes are excited"""
    beT, beL = before
    def cell(a, k):
        if w.land(k >= first, k < last):
            dx = [o.u[k + 1, j] - o.u[k, j] for j in range(3)]
            mid = [o.u[k, j] + dx[j] / 2 for j in range(3)]
            norm = w.sqrt(dx[0] * dx[0] + dx[1] * dx[1] + dx[2] * dx[2])
            along = lambda p: sum(E(j, *p, t, k) * dx[j] for j in range(3)) / norm
            w.eq("longitudinal excitation: conductor minus reference at the cell centre", w.val(o.e_L[a, k], t), along([mid[j] + d[a, k, j] for j in range(3)]) - along(mid))
        else: w.eq("cells out of the stretch are left as they were", w.val(o.e_L[a, k], t), w.val(beL[a, k], t))
    w.forall([("a", 0, n), ("k", 0, nx)], cell)
    def node(a, k):
        if w.land(k >= first, k <= last):
            p = [o.u[k, j] for j in range(3)]
            at = lambda q: E(axis, *[q if j == axis else p[j] for j in range(3)], t, w.ite_int(k == last, k - 1, k))
            w.eq("transverse excitation: integral from the reference to the conductor", w.val(o.e_T[a, k], t), w.integral(at, p[axis], p[axis] + d[a, k, axis]))
        else: w.eq("nodes out of the stretch are left as they were", w.val(o.e_T[a, k], t), w.val(beT[a, k], t))
    w.forall([("a", 0, n), ("k", 0, nx + 1)], node)

@contract("P17", "incident field along the whole line", cases=[(q, a, s) for q in ("line", "bundle") for a in (0, 1, 2) for s in (1, -1)], seeds=6)
def whole(w, case):
    what, axis, sign = case
    o, n, nx, L = line_or_bundle(w, what)
    st = snap(w, o, ("v", "i", "l", "c", "r", "g", "u", "du"))
    d = offsets(w, n, nx, axis, sign)
    f = w.mod("mtl").Field(*[w.field(q, "x", "y", "z", "t") for q in XYZ])
    t = w.real("t")
    before = w.copy(o.e_T), w.copy(o.e_L)
    o.add_external_field(f, d)
    excited(w, o, n, nx, d, axis, lambda j, x, y, z, t, k: w.fieldval(XYZ[j], x, y, z, t), 0, nx, t, before)
    unchanged(w, o, st)

@contract("P17", "incident field restricted to a stretch", cases=[(q, a, s) for q in ("line", "bundle") for a, s in ((0, 1), (1, -1), (2, 1))], seeds=12)
def stretch(w, case):
    what, axis, sign = case
    o, n, nx, L = line_or_bundle(w, what)
    st = snap(w, o, ("v", "i", "l", "c", "r", "g", "u", "du"))
    d = offsets(w, n, nx, axis, sign)
    f = w.mod("mtl").Field(*[w.field(q, "x", "y", "z", "t") for q in XYZ])
    t = w.real("t")
    begin, end = w.arr("begin", (3,)), w.arr("end", (3,))
    if not w.sym:                                     # near a node each
        a, b = (int((w.inst.value(q) + 1) / 2 * (nx + 1)) % (nx + 1) for q in ("beginat", "endat"))
        begin, end = o.u[a] + 0.1 * begin * L.min(), o.u[b] + 0.1 * end * L.min()
    first, last = w.nearest(o.u, begin), w.nearest(o.u, end)
    w.assume(last > first)
    before = w.copy(o.e_T), w.copy(o.e_L)
    o.add_external_field(f, d, [begin, end])
    excited(w, o, n, nx, d, axis, lambda j, x, y, z, t, k: w.fieldval(XYZ[j], x, y, z, t), first, last, t, before)
    unchanged(w, o, st)

@contract("P17", "incident field that depends on the velocity of the fastest mode", cases=[(q, a, s) for q in ("line", "bundle") for a, s in ((0, 1), (1, -1))], seeds=6)
def velocity(w, case):
    what, axis, sign = case
    o, n, nx, L = line_or_bundle(w, what, uniform=True)
    d = offsets(w, n, nx, axis, sign)
    f = w.mod("mtl").Field(*[w.field(q, "x", "y", "z", "t", "v") for q in XYZ])
    t = w.real("t")
    before = w.copy(o.e_T), w.copy(o.e_L)
    v = w.vmax(1 / w.np.sqrt(w.eigs(o.l[0].dot(o.c[0]))))
    o.add_external_field(f, d)
    excited(w, o, n, nx, d, axis, lambda j, x, y, z, t, k: w.fieldval(XYZ[j], x, y, z, t, v), 0, nx, t, before)

@contract("P17", "plane wave: directions")
def directions(w):
    p, a, q = w.real("polar"), w.real("azimuth"), w.real("polarisation")
    if w.sym: p, a, q = (w.num(x) for x in (p, a, q))
    pw = w.mod("mtl").PlaneWave(None, p, a, q)
    cos = lambda x: w.np.cos(x)
    sin = lambda x: w.np.sin(x)
    k = cos(p), sin(p) * cos(a), sin(p) * sin(a)
    e = pw.ex, pw.ey, pw.ez
    w.eq("unit electric vector", sum(x * x for x in e), 1)
    w.eq("orthogonal to the direction of propagation", sum(x * y for x, y in zip(e, k)), 0)
    v = w.real("v", pos=True)
    w.assume(w.land(*[w.lnot(x == 0) for x in k]))
    pw.compute_velocities(v)
    for s, x, y in zip((pw.vx, pw.vy, pw.vz), k, XYZ): w.eq(f"phase velocity along {y}", s * x, -v)

@contract("P17", "plane wave along a line", cases=[(q, a, s) for q in ("line", "bundle") for a, s in ((0, 1), (1, -1), (2, 1))], seeds=8)
def planewave(w, case):
    what, axis, sign = case
    o, n, nx, L = line_or_bundle(w, what, uniform=True)
    d = offsets(w, n, nx, axis, sign)
    p, a, q = w.real("polar"), w.real("azimuth"), w.real("polarisation")
    if w.sym: p, a, q = (w.num(x) for x in (p, a, q))
    cos = lambda x: w.np.cos(x)
    sin = lambda x: w.np.sin(x)
    k = cos(p), sin(p) * cos(a), sin(p) * sin(a)
    w.assume(w.land(*[w.lnot(x == 0) for x in k]))
    pw = w.mod("mtl").PlaneWave(w.symfun("pulse"), p, a, q)
    t = w.real("t")
    before = w.copy(o.e_T), w.copy(o.e_L)
    v = w.vmax(1 / w.np.sqrt(w.eigs(o.l[0].dot(o.c[0]))))
    pw.compute_velocities(w.num(w.real("speed of another line", pos=True)))         # used on another line before
    o.add_planewave(pw, d)
    e = pw.ex, pw.ey, pw.ez
    excited(w, o, n, nx, d, axis, lambda j, x, y, z, t, c: e[j] * w.fieldval("pulse", t + (k[0] * x + k[1] * y + k[2] * z) / v), 0, nx, t, before)

@contract("P17", "every bundle of a network, the outermost conductors only", cases=("field", "plane wave", "stretch"), sym=False, seeds=12)
def network(w, what):
    np = w.np
    mtl, mtln = w.mod("mtl"), w.mod("mtln")
    n0 = w.int("n0", 1, 2); nx = w.int("nx", 1, 4)
    nw = mtln.MTLN(); bs = []
    for i in range(2):
        L = w.arr(f"len{i}", (nx,), pos=True); U = positions(w, nx, L, str(i))
        ns = [n0] + [w.int(f"n{i}{j}", 1, 2) for j in range(2)]
        one = lambda n: w.eye(n)
        lines = [mtl.MTL(l=2.0 * one(n), c=3.0 * one(n), node_positions=U, ndiv=[1] * nx, name=f"{9 - i}{9 - j}") for j, n in enumerate(ns)]
        b = mtl.MTLD({0: [lines[0]], 1: lines[1:]}, name=f"b{9 - i}")
        nw.add_bundle(b); bs.append((b, sum(ns)))
    D = w.arr("D", (n0, nx + 1), pos=True)
    d = np.zeros((n0, nx + 1, 3)); d[:, :, 0] = D
    t = w.real("t")
    p, a, q = w.real("polar"), w.real("azimuth"), w.real("polarisation")
    k = np.cos(p), np.sin(p) * np.cos(a), np.sin(p) * np.sin(a)
    w.assume(min(abs(x) for x in k) > 1e-3)
    F = lambda: mtl.Field(*[w.field(q, "x", "y", "z", "t") for q in XYZ])
    if what == "field": nw.add_external_field(F(), d)
    elif what == "stretch": nw.add_localized_external_field("b8", F(), d, [np.array(bs[1][0].u[0]), np.array(bs[1][0].u[nx])])
    else:
        pw = mtl.PlaneWave(w.symfun("pulse"), p, a, q); nw.add_planewave(pw, d)
        e = pw.ex, pw.ey, pw.ez; v = 1 / np.sqrt(6.0)
    for i, (b, n) in enumerate(bs):
        before = [np.array([[(lambda t: 0.0)] * N] * n) for N in (nx + 1, nx)]
        if what == "plane wave": E = lambda j, x, y, z, t, c: e[j] * w.fieldval("pulse", t + (k[0] * x + k[1] * y + k[2] * z) / v)
        elif what == "field" or i == 1: E = lambda j, x, y, z, t, c: w.fieldval(XYZ[j], x, y, z, t)
        else: E = lambda j, x, y, z, t, c: 0.0
        excited(w, b, n0, nx, d, 0, E, 0, nx, t, before)
        for x in range(n0, n):
            for c in range(nx): w.eq("inner conductors are not excited", w.val(b.e_L[x, c], t), 0)
            for c in range(nx + 1): w.eq("inner conductors are not excited", w.val(b.e_T[x, c], t), 0)

def nested(w, tag, n, nx):
    """a bundle of an outer line of n conductors and two inner lines; any positions and matrices uniform along it"""
    mtl = w.mod("mtl")
    u = w.arr("u" + tag, (nx + 1, 3)); du = u[1:] - u[:-1]; L = w.arr("len" + tag, (nx,), pos=True)
    ns = [n, w.int("ni" + tag, 1), w.int("nj" + tag, 1)]
    lines = []
    for j, q in enumerate(ns):
        one = w.eye(q)
        m = mtl.MTL(l=1.0 * one, c=1.0 * one, ndiv=[nx], name=f"{tag}{9 - j}")
        m.u, m.du, m.du_norm = u, du, L.reshape(nx, 1, 1) * one
        m.connectors.u = u
        lines.append(m)
    b = mtl.MTLD({0: lines[:1], 1: lines[1:]}, name="b" + tag)
    N = ns[0] + ns[1] + ns[2]
    b.l[:, :, :] = w.arr("l" + tag, (N, N), dd=True); b.c[:, :, :] = w.arr("c" + tag, (N, N), dd=True)
    b.e_T[:, :] = w.funarr("eT" + tag, (N, nx + 1)); b.e_L[:, :] = w.funarr("eL" + tag, (N, nx))
    return b, N

@contract("P17", "fields on every bundle of a network, the outermost conductors only, any sizes", cases=("field", "plane wave", "stretch"), conc=False, secs=150)
def network_any(w, what):
    mtl, mtln = w.mod("mtl"), w.mod("mtln")
    n, nx = w.int("n", 1), w.int("nx", 1)
    bs = [nested(w, q, n, nx) for q in ("A", "B")]
    nw = mtln.MTLN()
    for b, _ in bs: nw.add_bundle(b)
    before = [(w.copy(b.e_T), w.copy(b.e_L)) for b, _ in bs]
    d = offsets(w, n, nx, 0, 1); t = w.real("t")
    F = mtl.Field(*[w.field(q, "x", "y", "z", "t") for q in XYZ])
    p, a, q = (w.num(w.real(x)) for x in ("polar", "azimuth", "polarisation"))
    cos, sin = (lambda x: w.np.cos(x)), (lambda x: w.np.sin(x))
    k = cos(p), sin(p) * cos(a), sin(p) * sin(a)
    if what == "field": nw.add_external_field(F, d)
    elif what == "stretch":
        begin, end = w.arr("begin", (3,)), w.arr("end", (3,))
        first, last = w.nearest(bs[1][0].u, begin), w.nearest(bs[1][0].u, end)
        w.assume(last > first)
        nw.add_localized_external_field("bB", F, d, [begin, end])
    else:
        w.assume(w.land(*[w.lnot(x == 0) for x in k]))
        pw = mtl.PlaneWave(w.symfun("pulse"), p, a, q); nw.add_planewave(pw, d)
        e = pw.ex, pw.ey, pw.ez
    for i, (b, N) in enumerate(bs):
        if what == "plane wave":
            v = w.vmax(1 / w.np.sqrt(w.eigs(b.l[0].dot(b.c[0]))))
            E = lambda j, x, y, z, t, c: e[j] * w.fieldval("pulse", t + (k[0] * x + k[1] * y + k[2] * z) / v)
        else: E = lambda j, x, y, z, t, c: w.fieldval(XYZ[j], x, y, z, t)
        if what != "stretch": excited(w, b, n, nx, d, 0, E, 0, nx, t, before[i])
        elif i: excited(w, b, n, nx, d, 0, E, first, last, t, before[i])
        else: w.same("other bundles are left as they were", b.e_T, before[0][0]); w.same("other bundles are left as they were", b.e_L, before[0][1])
        w.forall([("a", n, N), ("c", 0, nx)], lambda a, c: w.eq("inner conductors are not excited", w.val(b.e_L[a, c], t), w.val(before[i][1][a, c], t)))
        w.forall([("a", n, N), ("c", 0, nx + 1)], lambda a, c: w.eq("inner conductors are not excited", w.val(b.e_T[a, c], t), w.val(before[i][0][a, c], t)))
