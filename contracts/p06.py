from .common import *
from .p03 import net, put as put_net, flat, run_net, R_, C_, LC_

@contract("P06", "line: rest stays at rest")
def rest(w):
    m, n, nx, L = any_line(w, fields=False, sources=False)
    w.zero_state(m.connectors.phi)
    m.v[:, :] = 0.0; m.i[:, :] = 0.0
    dt = w.real("dt", pos=True); m.time = w.real("time")
    m.set_time_step(1, dt)
    m.run_until(dt)
    w.same("voltages stay zero", m.v, 0)
    w.same("currents stay zero", m.i, 0)
    w.same("dispersive state stays zero", m.connectors.phi, 0)

@contract("P06", "bundle: rest stays at rest")
def rest_bundle(w):
    b, n, nx, L = any_bundle(w, fields=False)
    w.zero_state(b.transfer_impedance.phi)
    b.v[:, :] = 0.0; b.i[:, :] = 0.0
    N = w.mod("mtln").MTLN(); N.add_bundle(b)
    dt = w.real("dt", pos=True); N.time = w.real("time")
    N.run_until(dt, dt)
    w.same("voltages stay zero", b.v, 0)
    w.same("currents stay zero", b.i, 0)
    w.same("dispersive state stays zero", b.transfer_impedance.phi, 0)

def state(w, m, n, nx, tag):
    return dict(v=w.arr("v" + tag, (n, nx + 1)), i=w.arr("i" + tag, (n, nx)), eT=w.funarr("eT" + tag, (n, nx + 1)), eL=w.funarr("eL" + tag, (n, nx)),
                vs=w.funarr("vs" + tag, (n, nx + 1)), phi=w.poles("phi" + tag, (nx, n, n)))
def put(m, s):
    m.v[:, :] = s["v"]; m.i[:, :] = s["i"]; m.e_T[:, :] = s["eT"]; m.e_L[:, :] = s["eL"]; m.v_sources[:, :] = s["vs"]; m.connectors.phi[:, :, :] = s["phi"]
def combine(w, a, A, b, B):
    r = {k: a * A[k] + b * B[k] for k in ("v", "i", "phi")}
    r.update({k: w.funcomb(a, A[k], b, B[k]) for k in ("eT", "eL", "vs")})
    return r

@contract("P06", "line: the response is linear in state and excitations", secs=200)
def linear(w):
    m, n, nx, L = any_line(w, fields=False, sources=False, state=False)
    dt = w.real("dt", pos=True); t = w.real("time")
    a, b = w.real("alpha"), w.real("beta")
    A, B = state(w, m, n, nx, "A"), state(w, m, n, nx, "B")
    out = []
    for s in (A, B, combine(w, a, A, b, B)):
        put(m, s)
        m.time = t; m.set_time_step(1, dt)
        m.run_until(dt)
        out.append((w.copy(m.v), w.copy(m.i), w.copy(m.connectors.phi)))
    w.forall([("a", 0, n), ("k", 0, nx + 1)], lambda c, k: w.eq("voltage is linear", out[2][0][c, k], a * out[0][0][c, k] + b * out[1][0][c, k]))
    w.forall([("a", 0, n), ("k", 0, nx)], lambda c, k: w.eq("current is linear", out[2][1][c, k], a * out[0][1][c, k] + b * out[1][1][c, k]))
    w.same("dispersive state is linear", out[2][2], a * out[0][2] + b * out[1][2])

@contract("P06", "line: influence travels one cell per step", cases=("v", "i"), secs=200)
def local(w, which):
    m, n, nx, L = any_line(w, state=False)
    dt = w.real("dt", pos=True); t = w.real("time")
    v, i, phi = w.arr("v", (n, nx + 1)), w.arr("i", (n, nx)), w.copy(m.connectors.phi)
    c0 = w.int("c0", 0); k0 = w.int("k0", 0)
    w.assume(c0 < n); w.assume(k0 < (nx + 1 if which == "v" else nx))
    out = []
    for kick in (False, True):
        m.v[:, :] = v; m.i[:, :] = i; m.connectors.phi[:, :, :] = phi
        if kick:
            x = m.v if which == "v" else m.i
            x[c0, k0] = x[c0, k0] + w.real("delta")
        m.time = t; m.set_time_step(1, dt)
        m.run_until(dt)
        out.append((w.copy(m.v), w.copy(m.i)))
    (v1, i1), (v2, i2) = out
    def node(a, k):
        far = w.lnot(k == k0) if which == "v" else w.lnot(w.lor(k == k0, k == k0 + 1))
        w.eq("nodes away from the change are not affected", w.ind(far) * (v2[a, k] - v1[a, k]), 0)
    w.forall([("a", 0, n), ("k", 0, nx + 1)], node)
    def cell(a, k):
        far = w.lnot(w.lor(k == k0, k == k0 - 1)) if which == "v" else w.lnot(w.land(k >= k0 - 1, k <= k0 + 1))
        w.eq("cells away from the change are not affected", w.ind(far) * (i2[a, k] - i1[a, k]), 0)
    w.forall([("a", 0, n), ("k", 0, nx)], cell)

@contract("P06", "bundle: the response is linear in state and excitations", secs=200)
def linear_bundle(w):
    b, n, nx, L = any_bundle(w, fields=False, state=False)
    N = w.mod("mtln").MTLN(); N.add_bundle(b)
    dt = w.real("dt", pos=True); t = w.real("time")
    al, be = w.real("alpha"), w.real("beta")
    A, B = state(w, b, n, nx, "A"), state(w, b, n, nx, "B")
    out = []
    for s in (A, B, combine(w, al, A, be, B)):
        b.v[:, :] = s["v"]; b.i[:, :] = s["i"]; b.e_T[:, :] = s["eT"]; b.e_L[:, :] = s["eL"]; b.transfer_impedance.phi[:, :, :] = s["phi"]
        N.time = t
        N.run_until(dt, dt)
        out.append((w.copy(b.v), w.copy(b.i), w.copy(b.transfer_impedance.phi)))
    w.forall([("a", 0, n), ("k", 0, nx + 1)], lambda c, k: w.eq("voltage is linear", out[2][0][c, k], al * out[0][0][c, k] + be * out[1][0][c, k]))
    w.forall([("a", 0, n), ("k", 0, nx)], lambda c, k: w.eq("current is linear", out[2][1][c, k], al * out[0][1][c, k] + be * out[1][1][c, k]))
    w.same("dispersive state is linear", out[2][2], al * out[0][2] + be * out[1][2])

@contract("P06", "bundle: influence travels one cell per step", cases=("v", "i"), secs=200)
def local_bundle(w, which):
    b, n, nx, L = any_bundle(w, state=False)
    N = w.mod("mtln").MTLN(); N.add_bundle(b)
    dt = w.real("dt", pos=True); t = w.real("time")
    v, i, phi = w.arr("v", (n, nx + 1)), w.arr("i", (n, nx)), w.copy(b.transfer_impedance.phi)
    c0 = w.int("c0", 0); k0 = w.int("k0", 0)
    w.assume(c0 < n); w.assume(k0 < (nx + 1 if which == "v" else nx))
    out = []
    for kick in (False, True):
        b.v[:, :] = v; b.i[:, :] = i; b.transfer_impedance.phi[:, :, :] = phi
        if kick:
            x = b.v if which == "v" else b.i
            x[c0, k0] = x[c0, k0] + w.real("delta")
        N.time = t
        N.run_until(dt, dt)
        out.append((w.copy(b.v), w.copy(b.i)))
    (v1, i1), (v2, i2) = out
    def node(a, k):
        far = w.lnot(k == k0) if which == "v" else w.lnot(w.lor(k == k0, k == k0 + 1))
        w.eq("nodes away from the change are not affected", w.ind(far) * (v2[a, k] - v1[a, k]), 0)
    w.forall([("a", 0, n), ("k", 0, nx + 1)], node)
    def cell(a, k):
        far = w.lnot(w.lor(k == k0, k == k0 - 1)) if which == "v" else w.lnot(w.land(k >= k0 - 1, k <= k0 + 1))
        w.eq("cells away from the change are not affected", w.ind(far) * (i2[a, k] - i1[a, k]), 0)
    w.forall([("a", 0, n), ("k", 0, nx)], cell)

# ---- networks ----
def net_step(w, nw, s, later, dt, t):
    """one step of the network from state s -> (v, X)"""
    nw.nw_i = s["i"]
    nw.v_sources, nw.e_T = s["vs"], s["eT"]
    put_net(w, nw, s["v"], s["vp"], s["X"], later)
    nw.compute_v_terms(dt)
    nw.update_sources(t, dt)
    nw.advance_voltage(dt)
    n, ns = s["v"].shape[0], s["X"].shape[0]
    v, X = w.copy(nw.nw_v), w.copy(nw.X)
    return (lambda a: flat(v, a)), (lambda a: flat(X, a))

def net_state(w, n, ns, tag):
    return dict(v=w.arr("v" + tag, (n,)), vp=w.arr("vp" + tag, (n,)), X=w.arr("X" + tag, (ns,)), i=w.arr("i" + tag, (n,)),
                vs=w.funarr("vs" + tag, (n,)), eT=w.funarr("eT" + tag, (n,)))

@contract("P06", "network: the step is linear in state, currents and excitations", cases=("first", "later"), secs=200)
def net_linear(w, when):
    n = w.int("n", 1); ns = w.int("ns", 0)
    nw, *_ = net(w, n, ns, when == "later")
    dt = w.real("dt", pos=True); t = w.real("time")
    a, b = w.real("alpha"), w.real("beta")
    A, B = net_state(w, n, ns, "A"), net_state(w, n, ns, "B")
    C = {k: a * A[k] + b * B[k] for k in ("v", "vp", "X", "i")}
    C.update({k: w.funcomb(a, A[k], b, B[k]) for k in ("vs", "eT")})
    (vA, XA), (vB, XB), (vC, XC) = [net_step(w, nw, s, when == "later", dt, t) for s in (A, B, C)]
    w.forall([("a", 0, n)], lambda k: w.eq("node voltage is linear", vC(k), a * vA(k) + b * vB(k)))
    w.forall([("s", 0, ns)], lambda k: w.eq("state variable is linear", XC(k), a * XA(k) + b * XB(k)))

@contract("P06", "network: rest stays at rest", cases=("first", "later"))
def net_rest(w, when):
    n = w.int("n", 1); ns = w.int("ns", 0)
    nw, *_ = net(w, n, ns, when == "later")
    dt = w.real("dt", pos=True); t = w.real("time")
    f = w.funarr("f", (n,)); none = w.funcomb(0, f, 0, f)
    zn = lambda k: 0 * w.arr("any", (k,))
    nw.nw_i = zn(n); nw.v_sources = none; nw.e_T = none
    put_net(w, nw, zn(n), zn(n), zn(ns), when == "later")
    nw.compute_v_terms(dt); nw.update_sources(t, dt); nw.advance_voltage(dt)
    v, X = nw.nw_v, nw.X
    w.forall([("a", 0, n)], lambda k: w.eq("node voltages stay zero", flat(v, k), 0))
    w.forall([("s", 0, ns)], lambda k: w.eq("state variables stay zero", flat(X, k), 0))

@contract("P06", "lines joined and ended by networks: linear response, rest stays at rest", sym=False, seeds=40)
def net_run(w):
    a, b = w.real("alpha"), w.real("beta")
    r = [w.real(f"R{k}", pos=True) for k in range(5)]
    dt = w.real("dt", pos=True); t = w.real("time")
    out = []
    for which in ("A", "B", "C", "0"):
        ca, cb = dict(A=(1, 0), B=(0, 1), C=(a, b)).get(which, (0, 0))
        def src(k):
            f, g = w.fun(f"vsA{k}"), w.fun(f"vsB{k}")
            return lambda t: ca * f(t) + cb * g(t)
        def wire(nw):
            nw.connect_nodes(7, 2, r[0], src(0))
            nw.connect_to_ground_R(3, r[1], src(1)); nw.connect_to_ground_C(5, r[2], src(2))
            nw.connect_to_ground_LCpRs(4, r[3], r[4], r[0], src(3))
        N, nw, bs = run_net(w, 3, 2, [[7, 0, R_], [3, 1, R_], [5, 2, C_]], [[2, 0, R_], [4, 1, LC_]], wire)
        for j, (bd, _, L, nx) in enumerate(bs):
            n = (3, 2)[j]
            sh = dict(v=(n, nx + 1), i=(n, nx))
            bd.v[:, :] = ca * w.arr(f"v{j}A", sh["v"]) + cb * w.arr(f"v{j}B", sh["v"])
            bd.i[:, :] = ca * w.arr(f"i{j}A", sh["i"]) + cb * w.arr(f"i{j}B", sh["i"])
            bd.e_T[:, :] = w.funcomb(ca, w.funarr(f"eT{j}A", sh["v"]), cb, w.funarr(f"eT{j}B", sh["v"]))
            bd.e_L[:, :] = w.funcomb(ca, w.funarr(f"eL{j}A", sh["i"]), cb, w.funarr(f"eL{j}B", sh["i"]))
        N.time = t
        N.run_until(dt, dt)
        for _ in range(4): N.step()
        out.append([x.copy() for bd, *_ in bs for x in (bd.v, bd.i)])
    A, B, C, Z = out
    scale = [1 + abs(a) * abs(x).max() + abs(b) * abs(y).max() for x, y in zip(A, B)]
    for q, name in enumerate(("voltage of line 1", "current of line 1", "voltage of line 2", "current of line 2")):
        w.same(f"{name} is linear", C[q] / scale[q], (a * A[q] + b * B[q]) / scale[q])
        w.same(f"{name} stays zero", Z[q], 0)

@contract("P06", "bundle: the responses to two drives add up", sym=False, seeds=30)
def two_drives(w):
    np = w.np
    n, nx = w.int("n", 1, 3), w.int("nx", 2, 4)
    l, c = w.arr("l", (n, n), dd=True), w.arr("c", (n, n), dd=True)
    L = w.arr("len", (nx,), pos=True); U = positions(w, nx, L)
    a, z = w.int("a", 0, n - 1), w.int("b", 0, n - 1)
    i, j = w.int("i", 0, nx - 1), w.int("j", 0, nx - 1)
    f, g = w.fun("f"), w.fun("g"); al = w.real("alpha")
    kind = ("Lumped", "Planewave")[w.int("kind", 0, 1)]
    dt = w.real("dt", pos=True); t = w.real("time")
    def run(ca, cb):
        b = w.mod("mtl").MTLD({0: [w.mod("mtl").MTL(l=(l + l.T) / 2, c=(c + c.T) / 2, node_positions=U, ndiv=[1] * nx)]}, name="b")
        if ca: b.add_localized_longitudinal_field(U[i], U[nx], a, lambda t: ca * f(t), kind)
        if cb: b.add_localized_longitudinal_field(U[0], U[j + 1], z, lambda t: cb * g(t), kind)
        N = w.mod("mtln").MTLN([b]); N.time = t
        N.run_until(3.5 * dt, dt)
        return b.v.copy(), b.i.copy()
    A, B, C = run(1.0, 0.0), run(0.0, 1.0), run(al, 1.0)
    for q, nm in enumerate(("voltage", "current")):
        s = 1 + abs(A[q]).max() + abs(B[q]).max()
        w.same(f"{nm}: the response to both is the sum", C[q] / s, (al * A[q] + B[q]) / s)

# ---- the same response at every magnitude (thresholds, saturation, rounding to a grid would show here) ----
MAGNITUDES = (1e-12, 1e-7, 1e-3, 1e4, 1e9)
def same_shape(w, run):
    """run(s) gives the results of the experiment with every state value and excitation scaled by s"""
    ref = run(1.0)
    for s in MAGNITUDES:
        out = run(s)
        for k in ref:
            top = 1 + abs(ref[k]).max()
            w.same(f"{k} scales with the excitation", out[k] / s / top, ref[k] / top)

@contract("P06", "line with terminations: the response scales with the excitation at every magnitude", sym=False, seeds=15)
def scale_line(w):
    def run(s):
        m, n, nx, L = any_line(w, fields=False, sources=False, state=False)
        m.v[:, :] = s * w.arr("v", (n, nx + 1)); m.i[:, :] = s * w.arr("i", (n, nx))
        for name, shape in (("e_T", (n, nx + 1)), ("e_L", (n, nx)), ("v_sources", (n, nx + 1))):
            f = w.funarr(name, shape); getattr(m, name)[:, :] = w.funcomb(s, f, 0, f)
        w.zero_state(m.connectors.phi)
        dt = w.real("dt", pos=True); m.time = w.real("time")
        m.set_time_step(1, dt)
        m.run_until(dt)
        for _ in range(4): m.step()
        return {"voltage": m.v.copy(), "current": m.i.copy()}
    same_shape(w, run)

@contract("P06", "lines and networks: the response scales with the excitation at every magnitude", sym=False, seeds=15)
def scale_net(w):
    r = [w.real(f"R{k}", pos=True) for k in range(5)]
    dt = w.real("dt", pos=True); t0 = w.real("time")
    def run(s):
        def src(k):
            f = w.fun(f"vs{k}")
            return lambda t: s * f(t)
        def wire(nw):
            nw.connect_nodes(7, 2, r[0], src(0))
            nw.connect_to_ground_R(3, r[1], src(1)); nw.connect_to_ground_C(5, r[2], src(2))
            nw.connect_to_ground_LCpRs(4, r[3], r[4], r[0], src(3))
        N, nw, bs = run_net(w, 3, 2, [[7, 0, R_], [3, 1, R_], [5, 2, C_]], [[2, 0, R_], [4, 1, LC_]], wire)
        for j, (bd, _, L, nx) in enumerate(bs):
            n = (3, 2)[j]
            bd.v[:, :] = s * w.arr(f"v{j}A", (n, nx + 1)); bd.i[:, :] = s * w.arr(f"i{j}A", (n, nx))
            for name, shape in (("e_T", (n, nx + 1)), ("e_L", (n, nx))):
                f = w.funarr(f"{name}{j}", shape); getattr(bd, name)[:, :] = w.funcomb(s, f, 0, f)
        N.time = t0
        N.run_until(dt, dt)
        for _ in range(4): N.step()
        return {f"{x} of line {j + 1}": getattr(bd, y).copy() for j, (bd, *_) in enumerate(bs) for x, y in (("voltage", "v"), ("current", "i"))}
    same_shape(w, run)
