from .common import *
from .p02 import end_residual

def sym_line(w, homogeneous=False, tag="", dt=None):
    n = w.int("n", 1); nx = w.int("nx", 2)
    m, L = geometry(w, n, nx, tag)
    def S(name, k):
        A = w.arr(name, (k, n, n), dd=True)
        return A + A.transpose(0, 2, 1)
    m.l[:, :, :] = S("l", nx); m.c[:, :, :] = S("c", nx + 1)
    m.r[:, :, :] = w.arr("r", (nx, n, n), dd=True); m.g[:, :, :] = w.arr("g", (nx + 1, n, n), dd=True)
    m.zs = w.arr("zs", (n, n), dd=True); m.zl = w.arr("zl", (n, n), dd=True)
    m.v[:, :] = w.arr("v", (n, nx + 1)); m.i[:, :] = w.arr("i", (n, nx))
    w.opaque(m.v, "v"); w.opaque(m.i, "i")
    return m, n, nx, L

def sym_bundle(w):
    n = w.int("n", 1); nx = w.int("nx", 2)
    line, L = geometry(w, n, nx, name="line")
    b = w.mod("mtl").MTLD({0: [line]}, name="b")
    def S(name, k):
        A = w.arr(name, (k, n, n), dd=True)
        return A + A.transpose(0, 2, 1)
    b.l[:, :, :] = S("l", nx); b.c[:, :, :] = S("c", nx + 1)
    b.r[:, :, :] = w.arr("r", (nx, n, n), dd=True); b.g[:, :, :] = w.arr("g", (nx + 1, n, n), dd=True)
    b.v[:, :] = w.arr("v", (n, nx + 1)); b.i[:, :] = w.arr("i", (n, nx))
    w.opaque(b.v, "v"); w.opaque(b.i, "i")
    return b, n, nx, L

def energy(w, m, n, nx, L, dt, v, i):
    q = lambda M, k, x, y, kx, ky: w.sum(n, lambda a: w.sum(n, lambda b: M[k, a, b] * x[a, kx] * y[b, ky]))
    e = w.sum(nx, lambda k: 0.5 * (L[k] / 2) * (q(m.c, k, v, v, k, k) + q(m.c, k + 1, v, v, k + 1, k + 1)))
    e = e + w.sum(nx, lambda k: 0.5 * L[k] * q(m.l, k, i, i, k, k))
    return e + w.sum(nx, lambda k: w.sum(n, lambda a: dt / 2 * i[a, k] * (v[a, k + 1] - v[a, k])))

@contract("P07", "energy balance over a step", secs=300)
def balance(w):
    m, n, nx, L = sym_line(w)
    dt = w.real("dt", pos=True); t = w.real("time")
    earlier(w, m, dt)
    m.time = t; m.set_time_step(1, dt)
    v0, i0 = w.copy(m.v), w.copy(m.i)
    m.run_until(dt)
    v1, i1 = m.v, m.i
    vm = lambda a, k: 0.5 * (v1[a, k] + v0[a, k])
    im = lambda a, k: 0.5 * (i1[a, k] + i0[a, k])
    # local balances (the same residuals as P01 and P02): each is discharged here from the code
    def node(k, a):
        D = 0.5 * (L[k - 1] + L[k])
        return w.sum(n, lambda b: D * (m.c[k, a, b] / dt * (v1[b, k] - v0[b, k]) + m.g[k, a, b] * vm(b, k))) + i0[a, k] - i0[a, k - 1]
    def cell(k, a):
        return L[k] * w.sum(n, lambda b: m.l[k, a, b] / dt * (i1[b, k] - i0[b, k]) + m.r[k, a, b] * im(b, k)) + v1[a, k + 1] - v1[a, k]
    w.forall([("k", 1, nx), ("a", 0, n)], lambda k, a: w.eq("charge balance", node(k, a), 0))
    w.forall([("k", 0, nx), ("a", 0, n)], lambda k, a: w.eq("voltage balance", cell(k, a), 0))
    for e in (0, -1):
        w.forall([("a", 0, n)], lambda a: w.eq("end balance", end_residual(w, m, n, L, dt, t, v0, v1, i0, e, a), 0))
    # lemma: the energy changes by what is dissipated, given those balances
    def J(e, b):
        h = L[0] if e == 0 else L[-1]
        return h / 2 * w.sum(n, lambda c: m.c[e, b, c] / dt * (v1[c, e] - v0[c, e]) + m.g[e, b, c] * vm(c, e)) + (i0[b, 0] if e == 0 else -1 * i0[b, nx - 1])
    E0, E1 = energy(w, m, n, nx, L, dt, v0, i0), energy(w, m, n, nx, L, dt, v1, i1)
    quad = lambda M, k, x: w.sum(n, lambda a: w.sum(n, lambda b: M[k, a, b] * x(a, k) * x(b, k)))
    dissG = w.sum(nx, lambda k: (L[k] / 2) * (quad(m.g, k, vm) + quad(m.g, k + 1, vm)))
    dissR = w.sum(nx, lambda k: L[k] * quad(m.r, k, im))
    dissZ = 0
    for e, z in ((0, m.zs), (-1, m.zl)):
        dissZ = dissZ + w.sum(n, lambda a: w.sum(n, lambda b: z[a, b] * J(e, a) * J(e, b)))
    rest = w.sum(nx, lambda k: w.sum(n, lambda a: vm(a, k) * node(k, a)), lo=1) + w.sum(nx, lambda k: w.sum(n, lambda a: im(a, k) * cell(k, a)))
    for e in (0, -1):
        z = m.zs if e == 0 else m.zl
        rest = rest + w.sum(n, lambda a: J(e, a) * (vm(a, e) + w.sum(n, lambda b: z[a, b] * J(e, b))))
    w.eq("energy after = energy before - dissipated - residuals", E1 - E0 + dt * (dissG + dissR + dissZ) - dt * rest, 0, tele=True, secs=200, stay=True)
    if not w.sym: w.eq("energy after = energy before - dissipated", E1, E0 - dt * (dissG + dissR + dissZ))

@contract("P07", "a bundle in a network: energy balance over a step, whatever the networks do at its ends", secs=300)
def bundle_balance(w):
    b, n, nx, L = sym_bundle(w)
    dt = w.real("dt", pos=True)
    class Ends:
        """stands for any networks: sets the end voltages"""
        def update_index_numbers(s, bundles): pass
        def update_external_field(s, bundles): pass
        def compute_v_terms(s, dt): pass
        def update_sources(s, t, dt): pass
        def advance_voltage(s, dt): pass
        def update_currents(s, bundles): pass
        def update_voltages(s, bundles):
            bundles["b"].v[:, 0] = w.arr("end0", (n,)); bundles["b"].v[:, -1] = w.arr("end1", (n,))
    N = w.mod("mtln").MTLN(); N.add_bundle(b); N.add_network(Ends())
    earlier(w, b, dt)
    v0, i0 = w.copy(b.v), w.copy(b.i)
    N.run_until(dt, dt)
    v1, i1 = b.v, b.i
    vm = lambda a, k: 0.5 * (v1[a, k] + v0[a, k])
    im = lambda a, k: 0.5 * (i1[a, k] + i0[a, k])
    def node(k, a):
        D = 0.5 * (L[k - 1] + L[k])
        return w.sum(n, lambda q: D * (b.c[k, a, q] / dt * (v1[q, k] - v0[q, k]) + b.g[k, a, q] * vm(q, k))) + i0[a, k] - i0[a, k - 1]
    def cell(k, a):
        return L[k] * w.sum(n, lambda q: b.l[k, a, q] / dt * (i1[q, k] - i0[q, k]) + b.r[k, a, q] * im(q, k)) + v1[a, k + 1] - v1[a, k]
    w.forall([("k", 1, nx), ("a", 0, n)], lambda k, a: w.eq("charge balance", node(k, a), 0))
    w.forall([("k", 0, nx), ("a", 0, n)], lambda k, a: w.eq("voltage balance", cell(k, a), 0))
    def J(e, q):
        h = L[0] if e == 0 else L[-1]
        return h / 2 * w.sum(n, lambda c: b.c[e, q, c] / dt * (v1[c, e] - v0[c, e]) + b.g[e, q, c] * vm(c, e)) + (i0[q, 0] if e == 0 else -1 * i0[q, nx - 1])
    E0, E1 = energy(w, b, n, nx, L, dt, v0, i0), energy(w, b, n, nx, L, dt, v1, i1)
    quad = lambda M, k, x: w.sum(n, lambda a: w.sum(n, lambda q: M[k, a, q] * x(a, k) * x(q, k)))
    dissG = w.sum(nx, lambda k: (L[k] / 2) * (quad(b.g, k, vm) + quad(b.g, k + 1, vm)))
    dissR = w.sum(nx, lambda k: L[k] * quad(b.r, k, im))
    rest = w.sum(nx, lambda k: w.sum(n, lambda a: vm(a, k) * node(k, a)), lo=1) + w.sum(nx, lambda k: w.sum(n, lambda a: im(a, k) * cell(k, a)))
    given = w.sum(n, lambda a: J(0, a) * vm(a, 0)) + w.sum(n, lambda a: J(-1, a) * vm(a, -1))
    w.eq("energy after = energy before - dissipated + given by the networks - residuals", E1 - E0 + dt * (dissG + dissR) - dt * given - dt * rest, 0, tele=True, secs=200, stay=True)
    if not w.sym: w.eq("energy after = energy before - dissipated + given by the networks", E1, E0 - dt * (dissG + dissR) + dt * given)

@contract("P07", "lines joined and ended by resistors: the energy of the network never grows", sym=False, seeds=40)
def network_energy(w):
    from .p03 import R_
    np = w.np; networks, mtln = w.mod("networks"), w.mod("mtln")
    bs = []
    for tag in "AB":
        n = w.int("n" + tag, 1, 2); nx = w.int("nx" + tag, 2, 4)
        line, L = geometry(w, n, nx, tag, name="line" + tag)
        S = lambda nm: (lambda A: (A + A.T) / 2)(w.arr(nm + tag, (n, n), dd=True))
        line.l[:], line.c[:] = S("l"), S("c")
        line.r[:], line.g[:] = 0.2 * abs(w.real("r" + tag)) * np.eye(n), 0.2 * abs(w.real("g" + tag)) * np.eye(n)
        b = w.mod("mtl").MTLD({0: [line]}, name="b" + tag)
        b.v[:, :] = w.arr("v" + tag, (n, nx + 1)); b.i[:, :] = 0.3 * w.arr("i" + tag, (n, nx))
        for end in (0, -1): b.v[:, end] = 0.0          # the networks start at rest
        b.dt = 0.9 * np.min(L) / np.max(b.get_phase_velocities())
        bs.append((b, line, n, nx, L))
    N = mtln.MTLN([x[0] for x in bs])
    (bA, lA, nA, _, _), (bB, lB, nB, _, _) = bs
    node = lambda k, a: 10 * k + a + 1
    con = lambda k, n: [[node(k, a), a, R_] for a in range(n)]
    ends = [networks.Network({lA: dict(connections=con(0, nA), side="S", bundle=bA)}),
            networks.Network({lA: dict(connections=con(1, nA), side="L", bundle=bA), lB: dict(connections=con(2, nB), side="S", bundle=bB)}),
            networks.Network({lB: dict(connections=con(3, nB), side="L", bundle=bB)})]
    Rv = iter([w.real(f"R{q}", pos=True) for q in range(12)])
    els = []                                            # (node, node or None, R)
    for a in range(nA): els.append((0, node(0, a), None, next(Rv)))
    for a in range(nB): els.append((2, node(3, a), None, next(Rv)))
    els.append((1, node(1, 0), node(2, 0), next(Rv)))
    if nA > 1: els.append((1, node(1, 1), node(2, nB - 1), next(Rv)) if w.int("x", 0, 1) else (1, node(1, 1), None, next(Rv)))
    if nB > 1: els.append((1, node(2, 1), None, next(Rv)))
    for k, p, q, R in els: ends[k].connect_to_ground_R(p, R) if q is None else ends[k].connect_nodes(p, q, R)
    for e in ends: N.add_network(networks.NetworkD({0: e}))
    place = {node(k, a): (b, a, e) for k, b, n, e in ((0, bA, nA, 0), (1, bA, nA, -1), (2, bB, nB, 0), (3, bB, nB, -1)) for a in range(n)}
    E = lambda dt: sum(energy(w, b, n, nx, L, dt, b.v, b.i) for b, _, n, nx, L in bs)
    dt = N.dt
    N.run_until(dt * 1.5)                               # the networks read the currents of the lines
    for _ in range(6):
        E0 = E(dt); v0 = {id(x[0]): (x[0].v.copy(), x[0].i.copy()) for x in bs}
        N.step()
        E1 = E(dt)
        vm = lambda b, a, k: 0.5 * (b.v[a, k] + v0[id(b)][0][a, k])
        lost = 0.0
        for k, p, q, R in els:
            u = vm(*place[p]) - (vm(*place[q]) if q is not None else 0.0)
            lost = lost + u * u / R
        for b, _, n, nx, L in bs:
            im = lambda a, k: 0.5 * (b.i[a, k] + v0[id(b)][1][a, k])
            lost = lost + sum(L[k] * b.r[k, a, a] * im(a, k) ** 2 for k in range(nx) for a in range(n))
            lost = lost + sum(L[k] / 2 * (b.g[k, a, a] * vm(b, a, k) ** 2 + b.g[k + 1, a, a] * vm(b, a, k + 1) ** 2) for k in range(nx) for a in range(n))
        w.eq("energy after = energy before - dissipated in the lines and the resistors", E1, E0 - dt * lost)
        w.check("the energy does not grow", E1 <= E0 + 1e-9 * (1 + abs(E0)))

@contract("P07", "the energy is not negative under the default time step", sym=False, seeds=60)
def nonneg(w):
    """lines uniform along their length but for the spacing; the discrete energy bounds v and i"""
    mtl = w.mod("mtl"); np = w.np
    n = w.int("n", 1); nx = w.int("nx", 1)
    def S(name):
        A = w.arr(name, (n, n), dd=True)
        return (A + A.T) / 2
    l, c = S("l"), S("c")
    L = w.arr("len", (nx,), pos=True)
    m = mtl.MTL(l=l, c=c, node_positions=positions(w, nx, L), ndiv=[1] * nx)
    m.v[:, :] = w.arr("v", (n, nx + 1)); m.i[:, :] = w.arr("i", (n, nx))
    if w.real("mode") > 0:                     # the fastest mode, alternating: the state that comes closest
        lam, X = np.linalg.eig(np.linalg.inv(l @ c))
        x = np.real(X[:, np.argmax(np.real(lam))])
        for k in range(nx + 1): m.v[:, k] = (-1) ** k * (np.linalg.inv(c) @ x)
        for k in range(nx): m.i[:, k] = (-1) ** k * x * np.sqrt(np.max(np.real(lam)))
    E = energy(w, m, n, nx, L, m.dt, m.v, m.i)
    scale = energy(w, m, n, nx, L, 0.0, m.v, m.i)
    w.check("energy >= 0", E >= -1e-9 * (1 + scale))
    v0 = np.max(np.abs(m.v))
    m.zs = 0 * m.zs; m.zl = 0 * m.zl
    m.run_until(40.5 * m.dt)
    # zero impedances hold the ends at zero from the first step on: the energy left there is dropped
    E1 = energy(w, m, n, nx, L, m.dt, m.v, m.i)
    w.check("energy does not grow", -1e-9 * (1 + scale) <= E1 <= scale * (1 + 1e-6) + scale)

@contract("P07", "every cell of a homogeneous line holds a non-negative energy under the default time step", seeds=60,
          notes=("P07 (mathematics, not code): Rayleigh's bound y' inv(L) y <= max(1/eig(L C)) y' C y for symmetric positive definite L, C, and positive definiteness itself, are given to the prover as facts",))
def cell_energy(w):
    """the energy of a line is the sum of these over its cells; the code provides dt"""
    n = w.int("n", 1); nx = w.int("nx", 1)
    m, L = geometry(w, n, nx)
    def S(name):
        A = w.arr(name, (n, n), dd=True)
        return A + A.transpose()
    l, c = S("l"), S("c")
    m.l[:, :, :] = l; m.c[:, :, :] = c
    dt = m.get_max_timestep()
    top = w.vmax(1 / w.np.sqrt(w.eigs(l.dot(c))))          # the velocity of the fastest mode
    w.eq("default time step", dt * top, w.vmin(L))
    k = w.int("k", 0, None if w.sym else nx - 1); w.assume(k < nx)
    h = L[k]
    w.assume(w.vmin(L) <= h)                               # what a minimum is
    w.check("the fastest mode does not cross a cell in one step", dt * top <= h * (1 if w.sym else 1 + 1e-9))
    # a cell in any state: current i, end voltages a and b = a + l g (every b is of this form, l being invertible)
    i, a, g = w.arr("i", (n,)), w.arr("va", (n,)), w.arr("g", (n,))
    y = l.dot(g); b = a + y; T = w.real("T", pos=True) if w.sym else dt
    quad = lambda M, x: w.sum(n, lambda p: w.sum(n, lambda q: M[p, q] * x(p) * x(q)))
    E = h / 4 * (quad(c, lambda p: a[p]) + quad(c, lambda p: b[p])) + h / 2 * quad(l, lambda p: i[p]) + T / 2 * w.sum(n, lambda p: i[p] * y[p])
    Q = [quad(l, lambda p: i[p] + T / (2 * h) * g[p]), quad(c, lambda p: a[p] + b[p]), quad(c, lambda p: y[p]), w.sum(n, lambda p: g[p] * y[p])]
    of = lambda Q, h, T: h / 2 * Q[0] + h / 8 * Q[1] + h / 8 * Q[2] - T * T / (8 * h) * Q[3]
    w.eq("energy of a cell in squares", E, of(Q, h, T))
    if not w.sym:
        w.check("Rayleigh", Q[3] <= top * top * Q[2] * (1 + 1e-9) + 1e-9)
        w.check("energy of a cell", E >= -1e-9 * (1 + abs(Q[0])))
        return
    # arithmetic of those squares: none is negative, and Q3 = y' inv(l) y is bounded by Rayleigh
    q = [w.real(f"Q{j}", nonneg=True) for j in range(4)]; H, V = w.real("H", pos=True), w.real("V", pos=True)
    w.assume(q[3] <= V * V * q[2]); w.assume(T * V <= H)
    w.check("from squares to sign", 8 * H * of(q, H, T) >= 0)
