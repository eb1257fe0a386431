from .common import *

def end_residual(w, m, n, L, dt, t, v0, v1, i0, node, a):
    """V + Z (I + half-cell charging and leakage) - Vs at one end, for conductor a (I entering the termination side)"""
    z = m.zs if node == 0 else m.zl
    h = L[0] if node == 0 else L[-1]
    eT = lambda b, tt: w.val(m.e_T[b, node], tt)
    def J(b):
        ch = w.sum(n, lambda c: m.c[node, b, c] / dt * (v1[c, node] - v0[c, node] + eT(c, t) - eT(c, t - dt)) + m.g[node, b, c] / 2 * (v1[c, node] + v0[c, node]))
        return h / 2 * ch + (i0[b, 0] if node == 0 else -1 * i0[b, -1])
    return 0.5 * (v1[a, node] + v0[a, node]) + w.sum(n, lambda b: z[a, b] * J(b)) - 0.5 * (w.val(m.v_sources[a, node], t) + w.val(m.v_sources[a, node], t - dt))

@contract("P02", "Thevenin balance at both ends after a step", secs=120)
def ends(w):
    m, n, nx, L = any_line(w)
    dt = w.real("dt", pos=True); t = w.real("time")
    m.time = t
    m.set_time_step(1, dt)
    v0, i0 = w.copy(m.v), w.copy(m.i)
    m.run_until(dt)
    w.forall([("a", 0, n)], lambda a: w.eq("balance at the near end", end_residual(w, m, n, L, dt, t, v0, m.v, i0, 0, a), 0))
    w.forall([("a", 0, n)], lambda a: w.eq("balance at the far end", end_residual(w, m, n, L, dt, t, v0, m.v, i0, -1, a), 0))

@contract("P02", "zero impedance: the end follows its source", cases=("both ends", "near end", "far end"))
def short(w, where):
    m, n, nx, L = any_line(w)
    dt = w.real("dt", pos=True); t = w.real("time")
    m.time = t
    if where != "far end": m.zs = 0.0 * w.eye(n)
    if where != "near end": m.zl = 0.0 * w.eye(n)
    m.set_time_step(1, dt)
    v0, i0 = w.copy(m.v), w.copy(m.i)
    m.run_until(dt)
    for e, name in ((0, "near end"), (-1, "far end")):
        if where in (name, "both ends"):
            w.forall([("a", 0, n)], lambda a: w.eq("mean end voltage is the mean of the source", m.v[a, e] + v0[a, e], w.val(m.v_sources[a, e], t) + w.val(m.v_sources[a, e], t - dt)))
        else: w.forall([("a", 0, n)], lambda a: w.eq("balance at the other end", end_residual(w, m, n, L, dt, t, v0, m.v, i0, e, a), 0))

@contract("P02", "some conductors shorted, others not, and extreme impedances", sym=False, seeds=60)
def mixed(w):
    np = w.np
    m, n, nx, L = any_line(w)
    dt = w.real("dt", pos=True); t = w.real("time")
    m.time = t
    def Z(tag): return np.diag([(0.0, 1e-9, 1.0, 50.0, 1e6)[w.int(f"{tag}{a}", 0, 4)] for a in range(n)])
    m.zs, m.zl = Z("s"), Z("l")
    m.set_time_step(1, dt)
    v0, i0 = w.copy(m.v), w.copy(m.i)
    m.run_until(dt)
    for e, name, z in ((0, "near end", m.zs), (-1, "far end", m.zl)):
        for a in range(n): w.eq(f"balance at the {name}", end_residual(w, m, n, L, dt, t, v0, m.v, i0, e, a) / (1 + z[a, a]), 0)

@contract("P02", "two runs with different parameters: each uses those in force", secs=200)
def fresh_terms(w):
    m, n, nx, L = any_line(w, disp=False, sources=True, fields=False)
    dt1 = w.real("dt1", pos=True); dt = w.real("dt", pos=True)
    m.set_time_step(1, dt1)
    m.run_until(dt1)
    # between runs the line is altered
    matrices(w, m, n, nx, "B")
    m.zs = w.arr("zsB", (n, n), dd=True); m.zl = w.arr("zlB", (n, n), dd=True)
    m.v[:, :] = w.arr("vB", (n, nx + 1)); m.i[:, :] = w.arr("iB", (n, nx))
    t = w.real("timeB"); m.time = t
    m.set_time_step(1, dt)
    v0, i0 = w.copy(m.v), w.copy(m.i)
    m.run_until(dt)
    w.forall([("a", 0, n)], lambda a: w.eq("balance at the near end", end_residual(w, m, n, L, dt, t, v0, m.v, i0, 0, a), 0))
    w.forall([("a", 0, n)], lambda a: w.eq("balance at the far end", end_residual(w, m, n, L, dt, t, v0, m.v, i0, -1, a), 0))
    def node(k, a):
        D = 0.5 * (L[k - 1] + L[k])
        w.eq("charge balance at an interior node", w.sum(n, lambda b: D * (m.c[k, a, b] / dt * (m.v[b, k] - v0[b, k]) + m.g[k, a, b] / 2 * (m.v[b, k] + v0[b, k]))) + i0[a, k] - i0[a, k - 1], 0)
    w.forall([("k", 1, nx), ("a", 0, n)], node)
    def cell(k, a):
        w.eq("voltage balance in a cell", L[k] * w.sum(n, lambda b: m.l[k, a, b] / dt * (m.i[b, k] - i0[b, k]) + m.r[k, a, b] / 2 * (m.i[b, k] + i0[b, k])) + m.v[a, k + 1] - m.v[a, k], 0)
    w.forall([("k", 0, nx), ("a", 0, n)], cell)
