from .common import *

def spd(w, name, n):
    """a symmetric positive definite matrix"""
    if w.sym: return w.arr(name, (n, n), dd=True)
    A = w.arr(name, (n, n), dd=True); A = (A + A.T) / 2
    return A

def modes_of(w, A):
    lam = w.eigs(A)
    return lam if w.sym else w.np.sort(lam)

@contract("P09", "line: default time step", seeds=60)
def line(w):
    n = w.int("n", 1); nx = w.int("nx", 1)
    mtl = w.mod("mtl")
    l, c = spd(w, "l", n), spd(w, "c", n)
    m, L = geometry(w, n, nx)
    m.l[:, :, :] = l; m.c[:, :, :] = c
    lam = modes_of(w, l.dot(c))
    w.eq("shortest cell over largest velocity", m.get_max_timestep() * w.vmax(1 / w.np.sqrt(lam)), w.vmin(L))
    vel = m.get_phase_velocities()
    if not w.sym: vel = -w.np.sort(-vel, axis=1)
    w.shape("one velocity per cell and mode", vel, (nx, n))
    w.forall([("k", 0, nx), ("a", 0, n)], lambda k, a: w.eq("modal velocities", vel[k, a] * vel[k, a] * lam[a], 1))

@contract("P09", "line: inductance that changes along the line")
def varying(w):
    n = w.int("n", 1); nx = w.int("nx", 1)
    m, L = geometry(w, n, nx)
    c = spd(w, "c", n)
    if w.sym: m.l[:, :, :] = w.arr("l", (nx, n, n), dd=True)
    else:
        for k in range(nx): m.l[k] = spd(w, f"l{k}", n)
    m.c[:, :, :] = c
    vel = m.get_phase_velocities()
    if not w.sym: vel = -w.np.sort(-vel, axis=1)
    def modes(k):
        lam = modes_of(w, m.l[k].dot(c))
        w.forall([("a", 0, n)], lambda a: w.eq("modal velocities of the cell", vel[k, a] * vel[k, a] * lam[a], 1))
    w.forall([("k", 0, nx)], modes)
    w.eq("shortest cell over largest velocity", m.get_max_timestep() * w.vmax(vel), w.vmin(L))

@contract("P09", "line: default time step at construction (one segment)", seeds=40)
def built(w):
    mtl = w.mod("mtl")
    n = w.int("n", 1); d1 = w.int("d1", 1)
    l, c = spd(w, "l", n), spd(w, "c", n)
    a = w.real("a", pos=True)
    x = w.arr("p", (3,))
    p = w.np.array([[x[0], x[1], x[2]], [x[0] + 2 * a, x[1] - 3 * a, x[2] + 6 * a]])
    m = mtl.MTL(l=l, c=c, node_positions=p, ndiv=[d1])
    w.eq("shortest cell over largest velocity", m.dt * w.vmax(1 / w.np.sqrt(modes_of(w, l.dot(c)))), 7 * a / d1)
    w.eq("connectors use it", m.connectors.dt, m.dt)

@contract("P09", "line: default time step at construction (several segments)", seeds=60, sym=False)
def built_many(w):
    mtl = w.mod("mtl")
    n = w.int("n", 1); s = w.int("segments", 1, 4)
    nd = [w.int(f"d{k}", 1) for k in range(s)]
    l, c = spd(w, "l", n), spd(w, "c", n)
    L = [abs(w.real(f"len{k}")) + 0.1 for k in range(s)]
    p = positions(w, s, L)
    m = mtl.MTL(l=l, c=c, node_positions=p, ndiv=nd)
    w.eq("shortest cell over largest velocity", m.dt * w.vmax(1 / w.np.sqrt(modes_of(w, l.dot(c)))), min(a / b for a, b in zip(L, nd)))

@contract("P09", "single conductor: default time step")
def single(w):
    mtl = w.mod("mtl")
    nd = w.int("nd", 1)
    l, c, length = w.real("l", pos=True), w.real("c", pos=True), w.real("length", pos=True)
    m = mtl.MTL(l=l, c=c, length=length, ndiv=[nd])
    w.eq("squared", m.dt * m.dt, (length / nd) * (length / nd) * l * c)
    w.check("positive", m.dt > 0)

@contract("P09", "bundle and network: the smallest of the members")
def bundle(w):
    mtl, mtln = w.mod("mtl"), w.mod("mtln")
    nx = w.int("nx", 2)
    lines = []
    for j in range(3):
        n = w.int(f"n{j}", 1) if j != 1 else 2
        if w.sym:
            m = mtl.MTL(l=1.0 * w.eye(n), c=1.0 * w.eye(n), ndiv=[nx], name=f"l{j}")
            if j: m.u, m.du, m.du_norm = lines[0].u, lines[0].du, lines[0].du_norm[:, 0, 0].reshape(nx, 1, 1) * w.eye(n)
        else: m = mtl.MTL(l=1.0 * w.eye(n), c=1.0 * w.eye(n), ndiv=[nx], name=f"l{j}")
        m.dt = w.real(f"dt{j}", pos=True); w.assume(m.dt < 1e9)
        lines.append(m)
    b = mtl.MTLD({0: [lines[0]], 1: lines[1:]}, name="b")
    for m in lines: w.check("not above any line's", b.dt <= m.dt)
    w.check("one of the lines'", w.lor(*[b.dt == m.dt for m in lines]))
    b2 = mtl.MTLD({0: [lines[0]]}, name="b2")
    w.eq("a bundle of one line", b2.dt, lines[0].dt)
    N = mtln.MTLN(); N.add_bundle(b2); N.add_bundle(b)
    w.eq("a network takes the smallest of its bundles", N.dt, b.dt)
    for order in ([b, b2], [b2, b]):
        N = mtln.MTLN(list(order)); w.eq("whatever their order, at construction", N.dt, b.dt)
        N = mtln.MTLN()
        for x in order: N.add_bundle(x)
        w.eq("whatever their order, one by one", N.dt, b.dt)
    w.eq("coefficients of the transfer impedance use it", b.transfer_impedance.dt, b.dt)

@contract("P09", "line: default time step at construction, segments of different cells", cases=(2, 3), secs=100)
def built_segments(w, s):
    """axes of the segments: along (2,-3,6)/7, (3,6,2)/7, (6,-2,3)/7 times any length"""
    mtl = w.mod("mtl")
    n = w.int("n", 1)
    nd = [w.int(f"d{k}", 1) for k in range(s)]
    l, c = spd(w, "l", n), spd(w, "c", n)
    a = [w.real(f"len{k}", pos=True) for k in range(s)]
    x = w.arr("p", (3,))
    at = [x[0], x[1], x[2]]; P = [list(at)]
    for k, e in zip(range(s), ((2, -3, 6), (3, 6, 2), (6, -2, 3))):
        at = [q + r * a[k] for q, r in zip(at, e)]; P.append(list(at))
    m = mtl.MTL(l=l, c=c, node_positions=w.np.array(P), ndiv=nd)
    least = 7 * a[0] / nd[0]
    for k in range(1, s):
        b = 7 * a[k] / nd[k]
        least = w.ite(b < least, b, least)
    w.eq("shortest cell over largest velocity", m.dt * w.vmax(1 / w.np.sqrt(modes_of(w, l.dot(c)))), least)
