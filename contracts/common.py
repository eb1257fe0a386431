"""Builders shared by the contracts: lines and bundles in an arbitrary state."""
from vc.world import contract, Skip

def positions(w, nx, L, tag=""):
    """concrete node positions with cell lengths L along a random polyline"""
    import numpy as np
    main = int(abs(w.inst.value("axis" + tag)) * 2.9999)                      # mostly along x, y or z
    d = np.array([[w.inst.value("dir" + tag, (k, j)) for j in range(3)] for k in range(nx)]) + 1.5 * np.eye(3)[main]
    if w.inst.value("straight" + tag) > 0.3: d[:] = d[0]                         # cells of any lengths on one straight line
    d = d / np.linalg.norm(d, axis=1)[:, None] * np.asarray(L)[:, None]
    org = np.array([w.inst.value("origin" + tag, (j,)) for j in range(3)])
    if w.inst.value("origin" + tag) > 0: org = 0 * org
    return org + np.vstack([np.zeros(3), np.cumsum(d, axis=0)])

def geometry(w, n, nx, tag="", name=""):
    """a line of n conductors with nx cells of arbitrary lengths -> (line, lengths)"""
    mtl = w.mod("mtl")
    L = w.arr("len" + tag, (nx,), pos=True)
    one = w.eye(n)
    if w.sym:
        # class invariant: du_norm[k] = len_k I; positions are not constrained
        m = mtl.MTL(l=1.0 * one, c=1.0 * one, ndiv=[nx], name=name)
        m.u = w.arr("u" + tag, (nx + 1, 3)); m.du = w.arr("du" + tag, (nx, 3))
        m.du_norm = L.reshape(nx, 1, 1) * one
        m.connectors.u = m.u
    else:
        m = mtl.MTL(l=1.0 * one, c=1.0 * one, node_positions=positions(w, nx, L, tag), ndiv=[1] * nx, name=name)
    return m, L

def matrices(w, m, n, nx, tag="", losses=True):
    m.l[:, :, :] = w.arr("l" + tag, (nx, n, n), dd=True)
    m.c[:, :, :] = w.arr("c" + tag, (nx + 1, n, n), dd=True)
    if losses:
        m.r[:, :, :] = w.arr("r" + tag, (nx, n, n), dd=True)
        m.g[:, :, :] = w.arr("g" + tag, (nx + 1, n, n), dd=True)

def dispersion(w, z, n, nx, tag=""):
    """arbitrary dispersive coefficients and convolution state"""
    z.d[:, :, :] = w.arr("zd" + tag, (nx, n, n))
    z.e[:, :, :] = w.arr("ze" + tag, (nx, n, n), dd=True)
    z.q1[:, :, :] = w.poles("q1" + tag, (nx, n, n))
    z.q2[:, :, :] = w.poles("q2" + tag, (nx, n, n))
    z.q3[:, :, :] = w.poles("q3" + tag, (nx, n, n))
    z.phi[:, :, :] = w.poles("phi" + tag, (nx, n, n))
    z.q1sum = z.v_sum(z.q1)
    z.q2sum = z.v_sum(z.q2)

def any_line(w, nmin=1, nxmin=2, disp=True, fields=True, sources=True, losses=True, state=True, tag=""):
    n = w.int("n" + tag, nmin); nx = w.int("nx" + tag, nxmin)
    m, L = geometry(w, n, nx, tag)
    matrices(w, m, n, nx, tag, losses)
    if state:
        m.v[:, :] = w.arr("v" + tag, (n, nx + 1))
        m.i[:, :] = w.arr("i" + tag, (n, nx))
        w.opaque(m.v, "v" + tag); w.opaque(m.i, "i" + tag)
    if disp: dispersion(w, m.connectors, n, nx, tag)
    if fields:
        m.e_T[:, :] = w.funarr("eT" + tag, (n, nx + 1))
        m.e_L[:, :] = w.funarr("eL" + tag, (n, nx))
    if sources: m.v_sources[:, :] = w.funarr("vs" + tag, (n, nx + 1))
    m.zs = w.arr("zs" + tag, (n, n), dd=True)
    m.zl = w.arr("zl" + tag, (n, n), dd=True)
    return m, n, nx, L

def any_bundle(w, nmin=1, nxmin=2, disp=True, fields=True, losses=True, state=True, tag="", name="b"):
    """a bundle of one level of n conductors in an arbitrary state (matrices with coupling between any conductors)"""
    mtl = w.mod("mtl")
    n = w.int("n" + tag, nmin); nx = w.int("nx" + tag, nxmin)
    line, L = geometry(w, n, nx, tag, name="line" + tag)
    b = mtl.MTLD({0: [line]}, name=name)
    matrices(w, b, n, nx, tag, losses)
    if state:
        b.v[:, :] = w.arr("v" + tag, (n, nx + 1))
        b.i[:, :] = w.arr("i" + tag, (n, nx))
        w.opaque(b.v, "v" + tag); w.opaque(b.i, "i" + tag)
    if disp: dispersion(w, b.transfer_impedance, n, nx, tag)
    if fields:
        b.e_T[:, :] = w.funarr("eT" + tag, (n, nx + 1))
        b.e_L[:, :] = w.funarr("eL" + tag, (n, nx))
    return b, n, nx, L

def snap(w, obj, names):
    return {k: w.copy(getattr(obj, k)) for k in names}
def unchanged(w, obj, before):
    for k, a in before.items(): w.same(f"{k} is left as it was", getattr(obj, k), a)

def earlier(w, m, dt=None):
    """coefficients of earlier runs: of another time step, and of other matrices under the same step"""
    def terms():
        m.update_lr_terms(); m.update_cg_terms()
        if hasattr(m, "compute_terminal_terms"): m.compute_terminal_terms()
    if dt is not None:
        terms()
        m.dt = dt
    keep = {k: w.copy(getattr(m, k)) for k in ("l", "c", "r", "g", "zs", "zl") if hasattr(m, k)}
    for k, x in keep.items(): getattr(m, k)[...] = 2.0 * x
    terms()
    for k, x in keep.items(): getattr(m, k)[...] = x
