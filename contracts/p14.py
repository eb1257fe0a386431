from .common import *

DISP = ("d", "e", "q1", "q2", "q3")

def model(w, n, tag="", nonzero=False, real=False):
    """any impedance d + s e + sum r/(s-p) with n poles -> (description, d, e, [(p.re, p.im)], [(r.re, r.im)])"""
    cte, prop = w.real("cte" + tag, pos=nonzero), w.real("prop" + tag, pos=nonzero)
    if not nonzero and not w.sym:                      # each of the two is absent at times
        z = w.int("absent" + tag, 0, 3)
        cte, prop = cte * (z not in (1, 3)), prop * (z not in (2, 3))
    P = [(-w.real(f"pr{k}" + tag, pos=True), 0.0 if real else w.real(f"pi{k}" + tag)) for k in range(n)]
    R = [(w.real(f"rr{k}" + tag), 0.0 if real else w.real(f"ri{k}" + tag)) for k in range(n)]
    md = {"cte": cte, "prop": prop, "poles": {"real": [p[0] for p in P], "imag": [p[1] for p in P]}, "residues": {"real": [r[0] for r in R], "imag": [r[1] for r in R]}}
    return md, cte, prop, P, R

def coefs(w, p, r, dt):
    """coefficients of the exact convolution of r e^{pt} with a current that is linear over each step:
    J = q3 J + (weight of the new value) i1 + (weight of the old value) i0"""
    P, R = w.cplx(*p), w.cplx(*r)
    E = w.cexp(P * dt)
    new = R * (E - 1 - P * dt) / (P * P * dt)
    old = R * (1 - E + P * dt * E) / (P * P * dt)
    return new, old, E

def pole_terms(w, lab, z, k, i, j, dt, poles, res, on, sums=True):
    s1 = s2 = 0
    for q in range(3):
        if on and q < len(poles): new, old, E = coefs(w, poles[q], res[q], dt)
        else: new = old = E = 0
        s1, s2 = s1 + new, s2 + old
        w.eq(f"pole terms, new current: {lab}", w.pole(z.q1[k, i, j], w.pix(q)), new)
        w.eq(f"pole terms, old current: {lab}", w.pole(z.q2[k, i, j], w.pix(q)), old)
        w.eq(f"pole terms, decay: {lab}", w.pole(z.q3[k, i, j], w.pix(q)), E)
    if sums:
        w.eq(f"sum of the new-current terms: {lab}", z.q1sum[k, i, j], w.re(s1))
        w.eq(f"sum of the old-current terms: {lab}", z.q2sum[k, i, j], w.re(s2))

def on_line(w, u, nx, pos):
    """some segment contains the position (point_in_line is under contract in P11)"""
    inl = w.mod("utils").point_in_line
    return w.exists(nx, lambda q: inl(pos, u[q], u[q + 1]))

@contract("P14", "a connector: its conductor, its cell, its total impedance", cases=[(np_, at) for np_ in (0, 1, 2) for at in ("anywhere", "far end")], secs=100)
def placed(w, case):
    np_, at = case
    np = w.np
    n, nx = w.int("n", 1), w.int("nx", 1)
    m, L = geometry(w, n, nx)
    z = m.connectors
    dt = w.real("dt", pos=True); m.set_time_step(1, dt)
    d0, e0 = w.copy(z.d), w.copy(z.e)
    a = w.int("a", 0); w.assume(a < n)
    k = w.int("k", 0); w.assume(k < nx)
    pos = m.u[nx] if at == "far end" else m.u[k] + (w.real("s") + 1) / 2 * (m.u[k + 1] - m.u[k])
    md, cte, prop, P, R = model(w, np_)
    w.assume(on_line(w, m.u, nx, pos))
    m.add_dispersive_connector(pos, a, md)
    j = w.nearest(m.u, pos)
    j = w.ite_int(j == nx, nx - 1, j)
    e = m.u[j + 1] - m.u[j]
    du = w.sqrt(e[0] * e[0] + e[1] * e[1] + e[2] * e[2])
    def at_(q, x, y):
        on = bool(w.land(q == j, x == a, y == a))
        lab = "its conductor and cell" if on else "everything else is left as it was"
        w.eq(f"constant term: {lab}", z.d[q, x, y], cte / du if on else 0)
        w.eq(f"proportional term: {lab}", z.e[q, x, y], prop / du if on else 0)
        pole_terms(w, lab, z, q, x, y, dt, P, [(r / du, i / du) for r, i in R], on)
    w.forall([("q", 0, nx), ("x", 0, n), ("y", 0, n)], at_)

@contract("P14", "the position decides", cases=("off the line", "on the line"))
def position(w, how):
    n, nx = w.int("n", 1), w.int("nx", 1)
    m, L = geometry(w, n, nx)
    z = m.connectors
    d0, e0 = w.copy(z.d), w.copy(z.e)
    md, *_ = model(w, 1, nonzero=True)
    k = w.int("k", 0); w.assume(k < nx)
    s = (w.real("s") + 1) / 2
    pos = m.u[k] + s * (m.u[k + 1] - m.u[k])
    if how == "off the line":
        pos = pos + w.arr("away", (3,))
        w.assume(w.lnot(on_line(w, m.u, nx, pos)))
        w.raises("refused: off the line", lambda: m.add_dispersive_connector(pos, 0, md), ValueError)
        w.same("nothing is changed by a refusal: constant term", z.d, d0); w.same("nothing is changed by a refusal: proportional term", z.e, e0)
        return
    w.assume(on_line(w, m.u, nx, pos))
    m.add_dispersive_connector(pos, 0, md)
    d1, e1 = w.copy(z.d), w.copy(z.e)
    w.raises("refused: a second connector in the same place", lambda: m.add_dispersive_connector(pos, 0, md))
    w.same("nothing is changed by a refusal: constant term", z.d, d1); w.same("nothing is changed by a refusal: proportional term", z.e, e1)
    w.forall([("q", 0, nx), ("x", 0, n), ("y", 0, n)], lambda q, x, y: pole_terms(w, "after a refusal", z, q, x, y, z.dt, md_poles(md), md_res(w, m, md, pos, nx), bool(w.land(q == cell_of(w, m, pos, nx), x == 0, y == 0))))

def md_poles(md): return list(zip(md["poles"]["real"], md["poles"]["imag"]))
def cell_of(w, m, pos, nx):
    j = w.nearest(m.u, pos)
    return w.ite_int(j == nx, nx - 1, j)
def md_res(w, m, md, pos, nx):
    j = cell_of(w, m, pos, nx)
    e = m.u[j + 1] - m.u[j]
    du = w.sqrt(e[0] * e[0] + e[1] * e[1] + e[2] * e[2])
    return [(a / du, b / du) for a, b in zip(md["residues"]["real"], md["residues"]["imag"])]

@contract("P14", "inconsistent lists are refused")
def lists(w):
    n, nx = w.int("n", 1), w.int("nx", 1)
    m, L = geometry(w, n, nx)
    z = m.connectors
    d0, e0 = w.copy(z.d), w.copy(z.e)
    w.assume(on_line(w, m.u, nx, m.u[0]))
    md, *_ = model(w, 1, nonzero=True)
    for k in ("poles", "residues"):
        for bad in ({"real": [-1.0], "imag": [1.0, 2.0]}, {"real": [-1.0, -2.0], "imag": [0.0, 0.0]}, {"real": [], "imag": []}):
            w.raises("refused: inconsistent lists", lambda: m.add_dispersive_connector(m.u[0], 0, {**md, k: bad}))
    w.same("nothing is changed by a refusal: constant term", z.d, d0); w.same("nothing is changed by a refusal: proportional term", z.e, e0)

@contract("P14", "a step of the convolution, every pair and cell on its own", cases=("line", "bundle"))
def one_step(w, what):
    n, nx = w.int("n", 1), w.int("nx", 1)
    mtl = w.mod("mtl")
    m, L = geometry(w, n, nx)
    z = m.connectors
    if what == "bundle": z = mtl.MTLD({0: [m]}, name="b").transfer_impedance
    dispersion(w, z, n, nx)
    q1, q2, q3, phi = (w.copy(getattr(z, x)) for x in ("q1", "q2", "q3", "phi"))
    i0, i1 = w.arr("i0", (n, nx)), w.arr("i1", (n, nx))
    z.update_q3_phi_term()
    w.forall([("k", 0, nx), ("a", 0, n)], lambda k, a: w.eq("memory seen by a conductor: all its pairs, all their poles", z.q3_phi_term[k, a],
        w.sum(n, lambda b: w.psum(lambda p: w.pole(q3[k, a, b], p) * w.pole(phi[k, a, b], p)))))
    w.same("reading the memory does not change it", z.phi, phi)
    z.update_phi(i0, i1)
    p = w.sel()
    w.forall([("k", 0, nx), ("a", 0, n), ("b", 0, n)], lambda k, a, b: w.eq("memory of a pair", w.pole(z.phi[k, a, b], p),
        w.pole(q3[k, a, b], p) * w.pole(phi[k, a, b], p) + w.pole(q1[k, a, b], p) * i1[b, k] + w.pole(q2[k, a, b], p) * i0[b, k]))
    for nm, was in (("q1", q1), ("q2", q2), ("q3", q3)): w.same(f"coefficients are constant: {nm}", getattr(z, nm), was)

@contract("P14", "lemma: the coefficients are those of the exact convolution")
def exact(w):
    """F(s) = int_0^s r e^{p(s-x)} i(x) dx for i linear over the step solves F' = p F + r i, F(0) = 0; E = e^{ps}, E' = p E"""
    p, r = w.cplx(-w.real("a", pos=True), w.real("b")), w.cplx(w.real("c"), w.real("d"))
    i0, i1, dt, s = w.real("i0"), w.real("i1"), w.real("dt", pos=True), w.real("s", pos=True)
    g = (i1 - i0) / dt
    def F(E, s): return r * ((E - 1) / p * i0 + (E - 1 - p * s) / (p * p) * g)
    def dF(E): return r * (E * i0 + (E - 1) / p * g)               # derivative of F with E' = p E
    E = w.cexp(p * s)
    w.eq("the closed form solves the convolution's equation", dF(E), p * F(E, s) + r * (i0 + g * s))
    w.eq("and starts from zero", F(1, 0), 0)
    new, old, D = coefs(w, (w.re(p), w.im(p)), (w.re(r), w.im(r)), dt)
    w.eq("over one step it is the two weights", F(w.cexp(p * dt), dt), new * i1 + old * i0)
    w.eq("the past decays by e^{p dt}", D, w.cexp(p * dt))

def impedance(w, rng_tag, k, npoles):
    import numpy as np
    v = lambda nm: w.inst.value(nm + rng_tag, (k,))
    P, R = [], []
    for q in range(npoles):
        if q + 1 < npoles and v(f"cc{q}") > 0 and len(P) == q:
            P += [complex(-0.5 - abs(v(f"a{q}")), v(f"b{q}"))]; P += [P[-1].conjugate()]
            R += [complex(v(f"c{q}"), v(f"e{q}"))]; R += [R[-1].conjugate()]
        elif len(P) <= q:
            P.append(-0.5 - abs(v(f"a{q}")) + 0j); R.append(v(f"c{q}") + 0j)
    z = (1, 1, 0, 1, 0)[int(abs(v("absent")) * 1e6) % 5] or not npoles
    md = {"cte": z * abs(v("cte")), "prop": z * abs(v("prop")), "poles": {"real": [x.real for x in P], "imag": [x.imag for x in P]}, "residues": {"real": [x.real for x in R], "imag": [x.imag for x in R]}}
    return md, np.array(P), np.array(R)

class Conv:
    """reference: drop of d + s e + sum r/(s-p) under a piecewise-linear current"""
    def __init__(s, md, P, R, dt): s.d, s.e, s.P, s.R, s.dt, s.J = md["cte"], md["prop"], P, R, dt, 0 * P
    def drop(s, i0, i1):
        import numpy as np
        E = np.exp(s.P * s.dt); g = (i1 - i0) / s.dt
        s.J = E * s.J + s.R * ((E - 1) / s.P * i0 + (E - 1 - s.P * s.dt) / s.P ** 2 * g)
        return s.d * (i0 + i1) / 2 + s.e * (i1 - i0) / s.dt + s.J.sum().real

def record(w, o, steps):
    """probes at every node and cell of a run -> (initial v, i), [v, i after each step]"""
    import numpy as np
    nx = o.u.shape[0] - 1
    v0, i0 = o.v.copy(), o.i.copy()
    pv = [o.add_probe(o.u[k], "voltage") for k in range(nx + 1)]; pi = [o.add_probe(o.u[k], "current") for k in range(nx)]
    run = o
    if not hasattr(o, "run_until"):
        run = w.mod("mtln").MTLN(); run.add_bundle(o)
    run.run_until(o.dt * (steps + 0.5))
    return v0, i0, [np.array([p.val[s] for p in pv]).T for s in range(steps)], [np.array([p.val[s] for p in pi]).T for s in range(steps)]

@contract("P14", "black box: connectors in a running line", sym=False, seeds=60)
def run_line(w):
    np = w.np; mtl = w.mod("mtl")
    n, nx, steps = w.int("n", 1, 3), w.int("nx", 1, 4), w.int("steps", 1, 5)
    l, c = np.eye(n) + 0.1, np.eye(n) + 0.1
    pts = np.cumsum(np.vstack([np.zeros(3), 0.2 * w.arr("step", (nx, 3)) + np.array([0.0, 0.0, 1.0])]), axis=0)
    m = mtl.MTL(l=l, c=c, node_positions=pts, ndiv=[1] * nx, Zs=0.7, Zl=1.3)
    m.set_time_step(10, 3 * m.dt)
    m.v[:, :] = w.arr("v", (n, nx + 1)); m.i[:, :] = w.arr("i", (n, nx))
    where = {}
    for q in range(w.int("how many", 1, 3)):
        a = w.int(f"cond{q}", 0, n - 1); k = w.int(f"at{q}", 0, nx)
        cell = min(k, nx - 1)
        if (a, cell) in where: continue
        md, P, R = impedance(w, "z", q, w.int(f"np{q}", 0, 3))
        where[a, cell] = Conv(md, P, R, m.dt)
        m.add_dispersive_connector(m.u[k], a, md)
    v, i, V, I = record(w, m, steps)
    for s in range(steps):
        for k in range(nx):
            du = np.linalg.norm(m.u[k + 1] - m.u[k])
            for a in range(n):
                drop = where[a, k].drop(i[a, k], I[s][a, k]) if (a, k) in where else 0.0
                w.eq("voltage balance of a cell with its connector", du * (l[a] @ (I[s][:, k] - i[:, k])) / m.dt + drop + V[s][a, k + 1] - V[s][a, k], 0)
        v, i = V[s], I[s]

@contract("P14", "black box: transfer impedances and connectors in a running bundle", sym=False, seeds=60)
def run_bundle(w):
    np = w.np; mtl = w.mod("mtl")
    nx, steps = w.int("nx", 1, 4), w.int("steps", 1, 5)
    sizes = [1, w.int("n1", 1, 2)]; tot = sum(sizes)
    lines = [mtl.MTL(l=np.eye(k) + 0.1, c=np.eye(k) + 0.1, length=1.0 * nx, ndiv=nx, name=f"l{j}") for j, k in enumerate(sizes)]
    dt = 0.3 * lines[0].dt
    for m in lines: m.set_time_step(1, dt)
    Z = {}
    if w.int("connector", 0, 1):
        md, P, R = impedance(w, "c", 0, w.int("npc", 0, 2)); at = w.int("at", 0, nx - 1)
        lines[1].add_dispersive_connector(lines[1].u[at], sizes[1] - 1, md)
        Z[tot - 1, tot - 1, at] = [Conv(md, P, R, dt)]
    b = mtl.MTLD({0: [lines[0]], 1: [lines[1]]}, name="b")
    md, P, R = impedance(w, "t", 0, w.int("npt", 1, 3)); md["direction"] = ("in", "out", "both")[w.int("dir", 0, 2)]
    md2 = {**md, "cte": -md["cte"], "prop": -md["prop"]}
    col = 1 + w.int("which", 0, sizes[1] - 1)
    shielded = w.int("shielded", 0, 3) > 0
    if shielded: b.add_transfer_impedance(0, [0], 1, [col - 1], md)
    for k in range(nx if shielded else 0):
        if md["direction"] != "out": Z[col, 0, k] = [Conv(md2, P, -R, dt)]
        if md["direction"] != "in": Z[0, col, k] = [Conv(md2, P, -R, dt)]
    b.v[:, :] = w.arr("v", (tot, nx + 1)); b.i[:, :] = 0.1 * w.arr("i", (tot, nx))
    v, i, V, I = record(w, b, steps)
    for s in range(steps):
        for k in range(nx):
            for a in range(tot):
                drop = sum(z.drop(i[y, k], I[s][y, k]) for (x, y, q), zs in Z.items() if (x, q) == (a, k) for z in zs)
                # connectors and transfer impedances of this unit-spaced bundle are both per unit length
                w.eq("voltage balance of a cell with its impedances", b.l[k][a] @ (I[s][:, k] - i[:, k]) / dt + drop + V[s][a, k + 1] - V[s][a, k], 0)
        v, i = V[s], I[s]
