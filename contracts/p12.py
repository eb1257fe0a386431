from .common import *

SHAPES = ((("s",),), ((3,), ("s",)), (("s",), ("s", 2, "s")), (("s",), ("s",), ("s", "s")), ((1,), (2, 1), (1, 2)))

def lines_of(w, sizes, own_state=True):
    """lines of any matrices, with lumped dispersive elements, on shared nodes -> ({level: [line]}, [(line, offset, size)], nx, lengths)"""
    mtl = w.mod("mtl")
    nx = w.int("nx", 1)
    L = w.arr("len", (nx,), pos=True)
    levels, flat, off = {}, [], 0
    dt = w.real("dt", pos=True); w.assume(dt < 1e9)
    u = w.arr("u", (nx + 1, 3)) if w.sym else positions(w, nx, L)
    du = w.arr("du", (nx, 3)) if w.sym else None
    for lv, row in enumerate(sizes):
        levels[lv] = []
        for j, s in enumerate(row):
            tag = f"{lv}{j}"
            n = w.int("n" + tag, 1) if s == "s" else s
            one = w.eye(n)
            if w.sym:
                m = mtl.MTL(l=1.0 * one, c=1.0 * one, ndiv=[nx], name=f"{'rqpzyxw'[j]} line" + tag)
                m.u, m.du, m.du_norm = u, du, L.reshape(nx, 1, 1) * one
                m.connectors.u = m.u
            else: m = mtl.MTL(l=1.0 * one, c=1.0 * one, node_positions=u, ndiv=[1] * nx, name=f"{'rqpzyxw'[j]} line" + tag)
            matrices(w, m, n, nx, tag)
            dispersion(w, m.connectors, n, nx, tag)
            m.v[:, :] = w.arr("v" + tag, (n, nx + 1)); m.i[:, :] = w.arr("i" + tag, (n, nx))
            m.dt = dt
            levels[lv].append(m); flat.append((m, off, n)); off = off + n
    return levels, flat, nx, L, off

PER_NODE, PER_CELL = ("c", "g"), ("l", "r")
DISP = ("d", "e", "q1", "q2", "q3")

def blocks(w, b, flat, nx):
    for A, oa, na in flat:
        for B, ob, nb in flat:
            for nm in PER_NODE + PER_CELL:
                per = nx + 1 if nm in PER_NODE else nx
                M, S = getattr(b, nm), getattr(A, nm)
                w.forall([("k", 0, per), ("a", 0, na), ("b", 0, nb)], lambda k, x, y: w.eq(f"{nm}: " + ("the line's own block" if A is B else "no coupling between lines"), M[k, oa + x, ob + y], S[k, x, y] if A is B else 0))
            for nm in DISP:
                M, S = getattr(b.transfer_impedance, nm), getattr(A.connectors, nm)
                if nm in ("d", "e"):
                    w.forall([("k", 0, nx), ("a", 0, na), ("b", 0, nb)], lambda k, x, y: w.eq(f"{nm}: " + ("the line's own block" if A is B else "no coupling between lines"), M[k, oa + x, ob + y], S[k, x, y] if A is B else 0))
                else:
                    w.forall([("k", 0, nx), ("a", 0, na), ("b", 0, nb)], lambda k, x, y: w.eq(f"{nm}: pole by pole", w.pole(M[k, oa + x, ob + y], w.sel()), w.pole(S[k, x, y], w.sel()) if A is B else 0))
            for nm in ("q1", "q2"):
                M, S = getattr(b.transfer_impedance, nm + "sum"), getattr(A.connectors, nm)
                w.forall([("k", 0, nx), ("a", 0, na), ("b", 0, nb)], lambda k, x, y: w.eq(f"sum of the pole terms of {nm}", M[k, oa + x, ob + y], w.psum(lambda p: w.pole(S[k, x, y], p)) if A is B else 0))

@contract("P12", "a bundle of lines", cases=SHAPES, secs=150)
def union(w, sizes):
    mtl = w.mod("mtl")
    levels, flat, nx, L, tot = lines_of(w, sizes)
    b = mtl.MTLD(levels, name="b")
    w.eq("number of conductors", b.number_of_conductors, tot)
    w.shape("one entry per level", b.conductors_in_level, (len(sizes),))
    for lv in range(len(sizes)):
        s = 0
        for m in levels[lv]: s = s + m.number_of_conductors
        w.eq("conductors in a level", b.conductors_in_level[lv], s)
    for nm, per in (("l", nx), ("r", nx), ("c", nx + 1), ("g", nx + 1)): w.shape(f"{nm} per node or cell", getattr(b, nm), (per, tot, tot))
    blocks(w, b, flat, nx)
    w.same("nodes of the lines", b.u, levels[0][0].u); w.same("cells of the lines", b.du, levels[0][0].du)
    w.shape("spacing", b.du_norm, (nx, tot, tot))
    w.forall([("k", 0, nx), ("a", 0, tot), ("b", 0, tot)], lambda k, x, y: w.eq("spacing of the lines", b.du_norm[k, x, y], w.delta(x, y) * L[k]))
    w.shape("voltages", b.v, (tot, nx + 1)); w.shape("currents", b.i, (tot, nx))
    w.same("zero voltages", b.v, 0); w.same("zero currents", b.i, 0); w.eq("the clock starts at zero", b.time, 0)
    w.forall([("k", 0, nx), ("a", 0, tot)], lambda k, x: w.eq("zero convolution state", w.psum(lambda p: w.pole(b.transfer_impedance.phi[k, x, x], p)), 0))
    t = w.real("t")
    w.shape("transverse excitations", b.e_T, (tot, nx + 1)); w.shape("longitudinal excitations", b.e_L, (tot, nx))
    w.forall([("a", 0, tot), ("k", 0, nx + 1)], lambda a, k: w.eq("null transverse excitation", w.val(b.e_T[a, k], t), 0))
    w.forall([("a", 0, tot), ("k", 0, nx)], lambda a, k: w.eq("null longitudinal excitation", w.val(b.e_L[a, k], t), 0))
    w.check("its name, its lines", b.name == "b" and all(list(b.levels[k]) == list(levels[k]) for k in levels))
    w.check("no probes", len(b.probes) == 0)

@contract("P12", "levels given in any order", cases=(((2,), (1, 2)), ((1,), (2,), ("s",))))
def order(w, sizes):
    mtl = w.mod("mtl")
    levels, flat, nx, L, tot = lines_of(w, sizes)
    b = mtl.MTLD({k: levels[k] for k in reversed(list(levels))}, name="b")
    for lv in range(len(sizes)):
        s = 0
        for m in levels[lv]: s = s + m.number_of_conductors
        w.eq("conductors in a level", b.conductors_in_level[lv], s)
    blocks(w, b, flat, nx)

@contract("P12", "lines that do not share the bundle's nodes are refused", seeds=60)
def refused(w):
    mtl = w.mod("mtl")
    nx, n2 = w.int("nx", 1), w.int("n2", 1)
    mk = lambda nx, L, n=1: mtl.MTL(l=1.0 * w.eye(n), c=1.0 * w.eye(n), length=L, ndiv=[nx])
    a = mk(nx, 1.0); k = w.int("k", 1); c = w.int("c", 1)
    w.raises("refused: other number of nodes, second level", lambda: mtl.MTLD({0: [mk(nx, 1.0)], 1: [mk(nx + k, 1.0)]}))
    w.raises("refused: other number of nodes, second line of a level", lambda: mtl.MTLD({0: [mk(nx, 1.0)], 1: [mk(nx, 1.0, c), mk(nx + k, 1.0)]}))
    w.raises("refused: several lines in the outer level", lambda: mtl.MTLD({0: [mk(nx, 1.0), mk(nx, 1.0)]}))
    w.raises("refused: not lines", lambda: mtl.MTLD({0: [mk(nx, 1.0)], 1: ["x"]}))

@contract("P12", "lines that do not share the bundle's nodes are refused: node positions", sym=False, seeds=60)
def elsewhere(w):
    np, mtl = w.np, w.mod("mtl")
    nx = w.int("nx", 2, 5)
    u = np.cumsum(np.vstack([np.zeros(3), w.arr("s", (nx, 3)) + np.array([0, 0, 1.5])]), axis=0)
    mk = lambda u: mtl.MTL(l=1.0 * np.eye(1), c=1.0 * np.eye(1), node_positions=u, ndiv=[1] * nx)
    x = u.copy(); x[w.int("k", 0, nx), w.int("j", 0, 2)] += 1e-3
    w.raises("refused: one node elsewhere", lambda: mtl.MTLD({0: [mk(u)], 1: [mk(x)]}))
    w.raises("refused: one node elsewhere in a later line", lambda: mtl.MTLD({0: [mk(u)], 1: [mk(u), mk(u), mk(x)]}))
    w.raises("refused: one node elsewhere in a later level", lambda: mtl.MTLD({0: [mk(u)], 1: [mk(u)], 2: [mk(x)]}))
    w.check("the same nodes are accepted", mtl.MTLD({0: [mk(u)], 1: [mk(u), mk(u)]}).number_of_conductors == 3)

@contract("P12", "lines that do not share the bundle's nodes are refused: node positions, any sizes", cases=("second level", "same level", "third level"), conc=False)
def elsewhere_any(w, where):
    mtl = w.mod("mtl")
    nx = w.int("nx", 1); k = w.int("k", 0); w.assume(k <= nx); d = w.real("away", pos=True)
    ls = [geometry(w, 1, nx, tag=t, name=t)[0] for t in "abc"]
    for j in range(3):
        for l in ls[1:]: l.u = w.copy(ls[0].u)
        x = w.copy(ls[0].u); x[k, j] += d; ls[2].u = x
        levels = {"second level": {0: [ls[0]], 1: [ls[2]]}, "same level": {0: [ls[0]], 1: [ls[1], ls[2]]}, "third level": {0: [ls[0]], 1: [ls[1]], 2: [ls[2]]}}[where]
        w.raises("refused: one node elsewhere", lambda: mtl.MTLD(levels))
