from .common import *

def balances(w, m, z, n, nx, L, dt, t, s0):
    """residuals of the two balances, for the state before (s0) and after a step"""
    v0, i0, v1, i1 = s0["v"], s0["i"], m.v, m.i
    eT = lambda b, k, tt: w.val(m.e_T[b, k], tt)
    eL = lambda b, k, tt: w.val(m.e_L[b, k], tt)
    def node(k, a):
        D = 0.5 * (L[k - 1] + L[k])
        w.eq("charge balance at an interior node",
             w.sum(n, lambda b: D * (m.c[k, a, b] / dt * (v1[b, k] - v0[b, k] + eT(b, k, t) - eT(b, k, t - dt))
                                     + m.g[k, a, b] / 2 * (v1[b, k] + v0[b, k] + eT(b, k, t) - eT(b, k, t - dt)))) + i0[a, k] - i0[a, k - 1], 0)
    w.forall([("k", 1, nx), ("a", 0, n)], node)
    q1, q2, q3, phi = s0["q1"], s0["q2"], s0["q3"], s0["phi"]
    def cell(k, a):
        disp = w.sum(n, lambda b: w.psum(lambda p: w.pole(q1[k, a, b], p)) * i1[b, k] + w.psum(lambda p: w.pole(q2[k, a, b], p)) * i0[b, k]
                     + w.psum(lambda p: w.pole(q3[k, a, b], p) * w.pole(phi[k, a, b], p)))
        reg = w.sum(n, lambda b: (m.l[k, a, b] + z.e[k, a, b]) / dt * (i1[b, k] - i0[b, k]) + (m.r[k, a, b] + z.d[k, a, b]) / 2 * (i1[b, k] + i0[b, k]))
        w.eq("voltage balance in a cell",
             L[k] * (reg + disp) + v1[a, k + 1] - v1[a, k] + eT(a, k + 1, t) - eT(a, k, t)
             - L[k] * 0.5 * (eL(a, k, t + dt / 2) + eL(a, k, t - dt / 2)), 0)
    w.forall([("k", 0, nx), ("a", 0, n)], cell)

DISP = ("q1", "q2", "q3", "phi", "d", "e")
STATIC = ("u", "du", "du_norm", "l", "c", "r", "g", "e_T", "e_L")

@contract("P01", "MTL: one step satisfies the balances", ["MTL.run_until", "MTL.step", "MTL.update_lr_terms", "MTL.update_cg_terms", "MTL.advance_voltage", "MTL.advance_current", "MTL.update_sources", "Dispersive.update_q3_phi_term", "Dispersive.v_sum"])
def mtl_step(w):
    m, n, nx, L = any_line(w)
    dt = w.real("dt", pos=True); t = w.real("time")
    m.time = t
    earlier(w, m, dt)
    m.set_time_step(1, dt)
    s0 = snap(w, m, ("v", "i")); s0.update(snap(w, m.connectors, DISP))
    st = snap(w, m, STATIC + ("zs", "zl", "v_sources"))
    m.run_until(dt)
    balances(w, m, m.connectors, n, nx, L, dt, t, s0)
    w.eq("the clock moves one step", m.time, t + dt)
    unchanged(w, m, st)
    unchanged(w, m.connectors, {k: s0[k] for k in ("d", "e", "q1", "q2", "q3")})

@contract("P01", "MTLD: one step satisfies the balances", ["MTLN.run_until", "MTLN.step", "MTLD.update_lr_terms", "MTLD.update_cg_terms", "MTLD.advance_voltage", "MTLD.advance_current", "MTLD.update_sources"])
def mtld_step(w):
    b, n, nx, L = any_bundle(w)
    dt = w.real("dt", pos=True); t = w.real("time")
    N = w.mod("mtln").MTLN()
    N.add_bundle(b)
    N.time = t
    earlier(w, b, dt)
    s0 = snap(w, b, ("v", "i")); s0.update(snap(w, b.transfer_impedance, DISP))
    st = snap(w, b, STATIC)
    N.run_until(dt, dt)
    balances(w, b, b.transfer_impedance, n, nx, L, dt, t, s0)
    w.eq("the clock moves one step", N.time, t + dt)
    w.forall([("a", 0, n)], lambda a: w.eq("end voltages are left to the networks", b.v[a, 0], s0["v"][a, 0]))
    w.forall([("a", 0, n)], lambda a: w.eq("end voltages are left to the networks", b.v[a, nx], s0["v"][a, nx]))
    unchanged(w, b, st)
    unchanged(w, b.transfer_impedance, {k: s0[k] for k in ("d", "e", "q1", "q2", "q3")})
