from .common import *

def net(w, n, ns, later):
    """a network of n nodes and ns state variables in an arbitrary state (before the first step: vectors, later: columns)"""
    networks = w.mod("networks")
    nw = networks.Network({})
    nw.number_of_nodes, nw.number_of_state_vars = n, ns
    nw.c = w.arr("c", (n, n), dd=True); nw.g = w.arr("g", (n, n), dd=True)
    dx = w.arr("dx", (n,), pos=True); nw.dx = dx.reshape(n, 1) * w.eye(n)
    for k, r, s in (("P1", n, n), ("Ps", n, n), ("Q1", n, n), ("Qs", n, n), ("M", ns, ns), ("N1", ns, n), ("Ns", ns, n), ("O", n, ns)):
        setattr(nw, k, w.arr(k, (r, s)))
    v, vp, X = w.arr("v", (n,)), w.arr("vprev", (n,)), w.arr("X", (ns,))
    nw.nw_i = w.arr("i", (n,))
    nw.v_sources = w.funarr("vs", (n,)); nw.e_T = w.funarr("eT", (n,))
    put(w, nw, v, vp, X, later)
    return nw, dx, v, vp, X

def put(w, nw, v, vp, X, later):
    n, ns = v.shape[0], X.shape[0]
    if later:
        nw.nw_v, nw.nw_v_prev, nw.X = v.reshape(n, 1), vp.reshape(n, 1), X.reshape(ns, 1)
        H = w.np.block([[v.reshape(n, 1)], [X.reshape(ns, 1)]])
    else:
        nw.nw_v, nw.nw_v_prev, nw.X = v, vp, X
        H = w.np.block([[v.reshape(n, 1)], [X.reshape(ns, 1)]]).reshape(n + ns)
    nw.H = H

def flat(x, k): return x[k, 0] if len(x.shape) == 2 else x[k]

@contract("P03", "one network step: node balance and state equations", cases=("first", "later"), secs=150)
def step(w, when):
    n = w.int("n", 1); ns = w.int("ns", 0)
    nw, dx, v0, vp, X0 = net(w, n, ns, when == "later")
    dt = w.real("dt", pos=True); t = w.real("time")
    nw.compute_v_terms(w.real("dt of an earlier run", pos=True))
    nw.update_sources(w.real("some time"), w.real("dt of an earlier run", pos=True))
    keep = {k: w.copy(getattr(nw, k)) for k in ("c", "g", "P1", "Q1", "M", "O")}
    for k, x in keep.items(): setattr(nw, k, 2.0 * x)
    nw.compute_v_terms(dt)                              # earlier coefficients: the same step, other elements
    for k, x in keep.items(): setattr(nw, k, x)
    nw.compute_v_terms(dt)
    nw.update_sources(t, dt)
    nw.advance_voltage(dt)
    v1 = lambda a: flat(nw.nw_v, a)
    X1 = lambda a: flat(nw.X, a)
    vs = lambda b, tt: w.val(nw.v_sources[b], tt)
    eT = lambda b, tt: w.val(nw.e_T[b], tt)
    t1, t2 = t - dt, t - 2 * dt
    def node(a):
        half = lambda b: dx[a] / 2 * (nw.c[a, b] / dt * (v1(b) - v0[b] + eT(b, t) - eT(b, t1)) + nw.g[a, b] / 2 * (v1(b) + v0[b]))
        el = lambda b: (nw.P1[a, b] * (v1(b) + v0[b]) + nw.Ps[a, b] * (vs(b, t) + vs(b, t1))
                        + nw.Q1[a, b] / dt * (v1(b) - vp[b]) + nw.Qs[a, b] / dt * (vs(b, t) - vs(b, t2))) / 2
        w.eq("current balance at a node", w.sum(n, half) + nw.nw_i[a] - w.sum(n, el) - w.sum(ns, lambda s: nw.O[a, s] * (X1(s) + X0[s]) / 2), 0)
    w.forall([("a", 0, n)], node)
    def stv(s):
        w.eq("state equation", X1(s) - X0[s] - dt * (w.sum(ns, lambda r: nw.M[s, r] * X1(r)) + w.sum(n, lambda b: nw.N1[s, b] * v1(b) + nw.Ns[s, b] * vs(b, t))), 0)
    w.forall([("s", 0, ns)], stv)
    w.forall([("a", 0, n)], lambda a: w.eq("the previous voltage is remembered", flat(nw.nw_v_prev, a), v0[a]))

R_ = {"connectorType": "Conn_R", "resistance": 0}
C_ = {"connectorType": "Conn_C"}
LC_ = {"connectorType": "Conn_LCpRs"}

def run_net(w, n1, n2, conn1, conn2, wire):
    """two bundles meeting in a network at (end of the first, start of the second); wire(network) adds the elements"""
    networks, mtln = w.mod("networks"), w.mod("mtln")
    bs = []
    for j, n in ((1, n1), (2, n2)):
        nx = w.int(f"nx{j}", 2)
        line, L = geometry(w, n, nx, f"_{j}", name=f"line{j}")
        matrices(w, line, n, nx, f"_{j}")
        b = w.mod("mtl").MTLD({0: [line]}, name=f"bundle{j}")
        b.v[:, :] = w.arr(f"v{j}", (n, nx + 1)); b.i[:, :] = w.arr(f"i{j}", (n, nx))
        b.e_T[:, :] = w.funarr(f"eT{j}", (n, nx + 1)); b.e_L[:, :] = w.funarr(f"eL{j}", (n, nx))
        bs.append((b, line, L, nx))
    d = {bs[0][1]: {"connections": conn1, "side": "L", "bundle": bs[0][0]}}
    if conn2: d[bs[1][1]] = {"connections": conn2, "side": "S", "bundle": bs[1][0]}
    nw = networks.Network(d)
    wire(nw)
    N = mtln.MTLN()
    for b in bs: N.add_bundle(b[0])
    N.add_network(networks.NetworkD({0: nw}))
    return N, nw, bs

def half_cell(w, b, line, L, n, e, dt, t, v0, v1, i1, a):
    """charge, leakage and transverse field of the half cell plus the current that enters the line there"""
    h = (L[0] if e == 0 else L[-1]) / 2
    eT = lambda c, tt: w.val(b.e_T[c, e], tt)
    s = 0
    for c in range(n):
        s = s + line.c[e, a, c] / dt * (v1[c, e] - v0[c, e] + eT(c, t) - eT(c, t - dt)) + line.g[e, a, c] / 2 * (v1[c, e] + v0[c, e])
    return h * s + (i1[a, e] if e == 0 else -1 * i1[a, e])

def any_state(w, N, nw, nodes, extra=None):
    """the network in the state of the line ends it holds: {node: voltage}"""
    n = len(nodes)
    vals = [None] * n
    for nd, v in nodes.items(): vals[nw.connections[nd]["index"]] = v
    nw.nw_v = w.np.array(vals); nw.nw_v_prev = w.arr("earlier", (n,))
    nw.X = w.arr("X", (nw.number_of_state_vars,))
    nw.H = w.np.block([[nw.nw_v.reshape(n, 1)], [nw.X.reshape(nw.number_of_state_vars, 1)]]).reshape(n + nw.number_of_state_vars)
    N.update_networks_current()

@contract("P03", "junction of two lines, from any state: resistors and a source", sym=False, seeds=60)
def junction_any(w):
    r1, r2, r3 = w.real("R1", pos=True), w.real("R2", pos=True), w.real("R3", pos=True)
    vs = w.fun("vsrc")
    def wire(nw):
        nw.connect_nodes(7, 2, r1)
        nw.connect_to_ground_R(3, r2, vs)
        nw.connect_to_ground_R(2, r3)
    N, nw, bs = run_net(w, 2, 1, [[7, 0, R_], [3, 1, R_]], [[2, 0, R_]], wire)
    dt = w.real("dt", pos=True); t = w.real("time")
    (b1, l1, L1, _), (b2, l2, L2, _) = bs
    any_state(w, N, nw, {7: b1.v[0, -1], 3: b1.v[1, -1], 2: b2.v[0, 0]})
    va = (w.copy(b1.v), w.copy(b2.v)); ia = (w.copy(b1.i), w.copy(b2.i))
    N.time = t
    N.run_until(dt, dt)
    v1, v2 = b1.v, b2.v
    m = lambda x, y: 0.5 * (x + y)
    u7, u3, u2 = m(v1[0, -1], va[0][0, -1]), m(v1[1, -1], va[0][1, -1]), m(v2[0, 0], va[1][0, 0])
    src = m(w.val(vs, t), w.val(vs, t - dt))
    w.eq("node joined to the other line", half_cell(w, b1, l1, L1, 2, -1, dt, t, va[0], v1, ia[0], 0) + (u7 - u2) / r1, 0)
    w.eq("node with a sourced resistor", half_cell(w, b1, l1, L1, 2, -1, dt, t, va[0], v1, ia[0], 1) + (u3 - src) / r2, 0)
    w.eq("node with two resistors", half_cell(w, b2, l2, L2, 1, 0, dt, t, va[1], v2, ia[1], 0) + (u2 - u7) / r1 + u2 / r3, 0)

@contract("P03", "junction of two lines in a run: resistors", sym=False, seeds=60)
def junction_R(w):
    r1, r2, r3 = w.real("R1", pos=True), w.real("R2", pos=True), w.real("R3", pos=True)
    vs = w.fun("vsrc")
    def wire(nw):
        nw.connect_nodes(7, 2, r1)
        nw.connect_to_ground_R(3, r2, vs)
        nw.connect_to_ground_R(2, r3)
    N, nw, bs = run_net(w, 2, 1, [[7, 0, R_], [3, 1, R_]], [[2, 0, R_]], wire)
    dt = w.real("dt", pos=True); t = w.real("time")
    (b1, l1, L1, _), (b2, l2, L2, _) = bs
    N.time = t
    N.run_until(dt, dt)                       # puts the network and the lines in step
    va = (w.copy(b1.v), w.copy(b2.v)); ia = (w.copy(b1.i), w.copy(b2.i))
    N.step()
    v1, v2 = b1.v, b2.v
    t = t + dt
    m = lambda x, y: 0.5 * (x + y)
    u7, u3, u2 = m(v1[0, -1], va[0][0, -1]), m(v1[1, -1], va[0][1, -1]), m(v2[0, 0], va[1][0, 0])
    src = m(w.val(vs, t), w.val(vs, t - dt))
    w.eq("node joined to the other line", half_cell(w, b1, l1, L1, 2, -1, dt, t, va[0], v1, ia[0], 0) + (u7 - u2) / r1, 0)
    w.eq("node with a sourced resistor", half_cell(w, b1, l1, L1, 2, -1, dt, t, va[0], v1, ia[0], 1) + (u3 - src) / r2, 0)
    w.eq("node with two resistors", half_cell(w, b2, l2, L2, 1, 0, dt, t, va[1], v2, ia[1], 0) + (u2 - u7) / r1 + u2 / r3, 0)

@contract("P03", "terminations in a run: capacitor, series R with parallel LC, short", sym=False, seeds=60)
def termination_LC(w):
    r, l, c, c2 = (w.real(k, pos=True) for k in ("R", "Lx", "Cx", "C2"))
    vs = w.fun("vsrc"); vc = w.fun("vsrc2")
    def wire(nw):
        nw.connect_to_ground_LCpRs(4, r, l, c, vs)
        nw.connect_to_ground_C(1, c2, vc)
        nw.short_to_ground(0)
    N, nw, bs = run_net(w, 3, 1, [[4, 0, LC_], [1, 2, C_], [0, 1, R_]], [], wire)
    dt = w.real("dt", pos=True); t0 = w.real("time")
    (b, line, L, _), _b2 = bs
    b.v[:, -1] = 0.0; b.i[:, -1] = 0.0        # the network starts at rest
    N.time = t0
    g = lambda f, tt: w.val(f, tt)
    vC = iL = 0.0                             # capacitor voltage and inductor current of the element, advanced by their own equations
    before = w.copy(b.v)
    N.run_until(dt, dt)
    for k in range(4):
        t = t0 + (k + 1) * dt
        vnow = g(vs, t - dt)
        a = b.v[0, -1]                        # (vC' - vC) C = dt ((V - Vs - vC')/R - iL'),  (iL' - iL) L = dt vC'
        vC1 = (vC * c / dt - iL + (a - vnow) / r) / (c / dt + 1 / r + dt / l)
        iL1 = iL + dt / l * vC1
        w0, v0, i0, vC, iL = before, w.copy(b.v), w.copy(b.i), vC1, iL1
        N.step()
        hc = [half_cell(w, b, line, L, 3, -1, dt, t, v0, b.v, i0, q) for q in range(3)]
        x = b.v[0, -1]
        vC2 = (vC * c / dt - iL + (x - g(vs, t)) / r) / (c / dt + 1 / r + dt / l)
        w.eq("node with a series resistor and parallel LC", hc[0] + 0.5 * ((x - g(vs, t) - vC2) / r + (a - vnow - vC) / r), 0)
        w.eq("node with a capacitor", hc[2] + 0.5 * c2 / dt * (b.v[2, -1] - w0[2, -1] - g(vc, t) + g(vc, t - 2 * dt)), 0)
        w.eq("shorted node", b.v[1, -1] + v0[1, -1], 0)
        before = v0
