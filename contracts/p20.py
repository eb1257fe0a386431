from .common import *

def recorded(w, tag, nt, n, u, kind):
    """a probe that has recorded nt frames of n conductors"""
    p = w.mod("probes").Probe(u[0], kind, w.real("dtp", pos=True), u)
    p.t, p.val = w.arr("t_" + tag, (nt,)), w.arr("x_" + tag, (nt, n))
    return p

def port(w, tag, nt, n, end):
    """a port with arbitrary records -> (port, end voltages, inner voltages, currents, impedances)"""
    u = w.arr("u", (3, 3))
    v0, v1, i0 = (recorded(w, q + tag, nt, n, u, k) for q, k in (("v0", "voltage"), ("v1", "voltage"), ("i0", "current")))
    z = w.arr("z" + tag, (n, n), pos=True)
    p = w.mod("probes").Port(v0, v1, i0, z, end)
    return p, v0, v1, i0, z

def oracle(w, v0, v1, i0, nt, n, c, end):
    """spectra of the voltage averaged over the cell and of the current averaged in time, counted into the line"""
    np = w.np
    V = w.spectrum((v0.val[:, c] + v1.val[:, c]) / 2)
    prev = np.append(i0.val[0:1, c], i0.val[0:nt - 1, c])
    I = w.spectrum((prev + i0.val[:, c]) / 2)
    return V, (I if end == "S" else -1 * I)

@contract("P20", "incident and reflected waves of a port", cases=("S", "L"), seeds=30)
def waves(w, end):
    n, nt = w.int("n", 1), w.int("nt", 2)
    p, v0, v1, i0, z = port(w, "", nt, n, end)
    c = w.int("c", 0); w.assume(c < n)
    w.assume(w.lnot(v1.t[1] == v0.t[0]))
    f, a, b = p.get_incident_and_reflected_power_wave(c)
    V, I = oracle(w, v0, v1, i0, nt, n, c, end)
    zc = z[c, c]
    w.shape("one value per frequency", a, (nt,)); w.shape("one value per frequency (reflected)", b, (nt,)); w.shape("frequencies", f, (nt,))
    def at(k):
        w.eq("incident wave", a[k] * 2 * w.sqrt(zc), V[k] + zc * I[k])
        w.eq("reflected wave", b[k] * 2 * w.sqrt(zc), V[k] - zc * I[k])
        w.eq("voltage from the waves", w.sqrt(zc) * (a[k] + b[k]), V[k])
        w.eq("current from the waves", (a[k] - b[k]) / w.sqrt(zc), I[k])
    w.forall([("k", 0, nt)], at)
    ff = w.np.fft.fftshift(w.np.fft.fftfreq(nt, v1.t[1] - v0.t[0]))
    w.same("frequencies of the records", f, ff)
    w.eq("the terminal", p.getTerminal(), end)

@contract("P20", "a port without impedance is refused", seeds=5)
def no_z(w):
    n, nt = w.int("n", 1), w.int("nt", 2)
    p, *_ = port(w, "", nt, n, "S")
    p.z0 = 0 * w.arr("any", (n,))
    w.raises("refused", lambda: p.get_incident_and_reflected_power_wave(0))

@contract("P20", "scattering parameters are ratios of waves", cases=[(a, b) for a in "SL" for b in "SL"], seeds=20)
def ratios(w, ends):
    n, nt = w.int("n", 1), w.int("nt", 2)
    P1, P2 = port(w, "1", nt, n, ends[0])[0], port(w, "2", nt, n, ends[1])[0]
    c1, c2 = w.int("c1", 0), w.int("c2", 0)
    w.assume(c1 < n); w.assume(c2 < n)
    f, a1, b1 = P1.get_incident_and_reflected_power_wave(c1)
    _, a2, b2 = P2.get_incident_and_reflected_power_wave(c2)
    g, s = w.mod("networkExtraction").extract_s_reciprocal((P1, c1), (P2, c2))
    w.same("frequencies", g, f); w.shape("a two-port", s, (nt, 2, 2))
    def at(k):
        w.eq("reflection at the first port", s[k, 0, 0], b1[k] / a1[k])
        w.eq("transmission to the second port", s[k, 1, 0], b2[k] / a1[k])
        w.eq("transmission to the first port", s[k, 0, 1], b1[k] / a2[k])
        w.eq("reflection at the second port", s[k, 1, 1], b2[k] / a2[k])
    w.forall([("k", 0, nt)], at)

@contract("P20", "the frames of a port: its own end, impedance and sign, wherever the line lies", sym=False, seeds=60)
def placed(w):
    m, n, nx, L = any_line(w, disp=False)
    ps, pl = m.add_port_probes()
    v, i = w.arr("va", (n, nx + 1)), w.arr("ia", (n, nx))
    for p in (ps, pl):
        for q in (p.v0, p.v1, p.i0): q.update(0.0, v, i)
    w.same("outer and inner voltage at the near end", ps.v0.val[0] + ps.v1.val[0], v[:, 0] + v[:, 1])
    w.same("outer and inner voltage at the far end", pl.v0.val[0] + pl.v1.val[0], v[:, nx] + v[:, nx - 1])
    w.same("current of the first cell", ps.i0.val[0], i[:, 0])
    w.same("current of the last cell", pl.i0.val[0], i[:, nx - 1])
    w.same("impedance at the near end", ps.z0, w.np.diag(m.zs)); w.same("impedance at the far end", pl.z0, w.np.diag(m.zl))
    w.eq("terminal", ps.getTerminal(), "S"); w.eq("terminal", pl.getTerminal(), "L")
    w.check("the line keeps its ports", m.port_probes[-2] is ps and m.port_probes[-1] is pl)

def everything(m):
    return {k: getattr(m, k).copy() for k in ("v", "i", "l", "c", "r", "g", "u", "zs", "zl")}

@contract("P20", "a clean copy starts at rest and shares nothing with the line", sym=False, seeds=40)
def clean(w):
    m, n, nx, L = any_line(w)
    dt = w.real("dt", pos=True); m.time = w.real("time"); m.set_time_step(1, dt)
    pr = m.add_probe(m.u[1], "voltage")
    m.run_until(dt)
    before = everything(m); phi = m.connectors.phi.copy(); t = m.time; frames = (pr.t.copy(), pr.val.copy())
    r = m.create_clean_copy()
    w.same("voltages at rest", r.v, 0); w.same("currents at rest", r.i, 0); w.same("dispersive state at rest", r.connectors.phi, 0)
    w.eq("time starts at zero", r.time, 0)
    for k in ("l", "c", "r", "g", "u", "zs", "zl"): w.same(f"{k} is copied", getattr(r, k), before[k])
    if hasattr(m, "du_norm"): w.same("spacings are copied", r.du_norm, m.du_norm)
    nsrc = m.v_sources.copy()
    r.add_voltage_source(position=r.u[0], conductor=0, magnitude=w.fun("src"))
    r.set_time_step(1, dt)
    r.run_until(3 * dt)
    r.l[:] = 2 * r.l; r.c[:] = 2 * r.c
    for k, x in before.items(): w.same(f"{k} of the line is left as it was", getattr(m, k), x)
    w.same("dispersive state of the line is left as it was", m.connectors.phi, phi)
    w.eq("time of the line is left as it was", m.time, t)
    w.same("records of the line are left as they were", pr.val, frames[1]); w.same("records of the line are left as they were (times)", pr.t, frames[0])
    w.check("sources of the line are left as they were", all(a is b for a, b in zip(nsrc.ravel(), m.v_sources.ravel())))

def driven(w, line, end, c, src, T, ports):
    """run of a fresh copy with the source at one end -> waves at the ports, from the states themselves"""
    np = w.np
    m = line.create_clean_copy()
    m.add_voltage_source(position=m.u[0 if end == "S" else -1], conductor=c, magnitude=src)
    steps = len(m.get_time_range(T)); dt = m.dt
    m.probes = []
    m.update_lr_terms(); m.update_cg_terms(); m.compute_terminal_terms()
    V, I = [], []
    for _ in range(steps):
        m.step(); V.append(m.v.copy()); I.append(m.i.copy())
    V, I = np.array(V), np.array(I)
    out = []
    for e, k in ports:
        z = (m.zs if e == "S" else m.zl)[k, k]
        v = (V[:, k, 0] + V[:, k, 1]) / 2 if e == "S" else (V[:, k, -1] + V[:, k, -2]) / 2
        i = I[:, k, 0] if e == "S" else -I[:, k, -1]
        i = (np.concatenate([i[:1], i[:-1]]) + i) / 2
        v, i = w.spectrum(v), w.spectrum(i)
        out.append(((v + z * i) / 2 / np.sqrt(z), (v - z * i) / 2 / np.sqrt(z)))
    return np.fft.fftshift(np.fft.fftfreq(steps, dt)), out

@contract("P20", "two-port extraction", sym=False, seeds=12)
def extraction(w):
    np = w.np
    m, n, nx, L = any_line(w, nxmin=2, disp=False, fields=False, sources=False)
    m.zs = np.diag(1.0 + abs(np.diag(m.zs))); m.zl = np.diag(1.0 + abs(np.diag(m.zl)))
    m.dt = 0.2 * min(L) / m.get_max_phase_velocity() if hasattr(m, "get_max_phase_velocity") else 0.1 * m.dt
    m.x = m.u                                        # KF1: the extraction reads an attribute that lines do not have
    ports = [(e, k) for e in "SL" for k in range(n)]
    q = int(abs(w.inst.value("pair")) * 1e6)
    p1 = ports[q % len(ports)]; p2 = [p for p in ports if p != p1][q // 7 % (len(ports) - 1)]
    steps = 60
    T = (steps + 0.5) * m.dt
    f = np.fft.fftshift(np.fft.fftfreq(steps, m.dt))
    fMax = f[-4]; fMin = f[steps // 2 + 3]
    before = everything(m)
    nets = w.mod("networkExtraction").extract_2p_network(m, fMin, fMax, T, *(() if (p1, p2) == (("S", 0), ("L", 0)) else (p1, p2)))
    for k, x in before.items(): w.same(f"{k} of the line is left as it was", getattr(m, k), x)
    w.eq("the line keeps its probes", len(m.probes) + len(m.port_probes), 0)
    spread = 1 / fMax / 2
    src = lambda t: np.exp(-(t - 8 * spread) ** 2 / (2 * spread ** 2))
    g, ((a1, b1), (_, b2)) = driven(w, m, p1[0], p1[1], src, T, (p1, p2))
    _, ((_, c1), (a2, c2)) = driven(w, m, p2[0], p2[1], src, T, (p1, p2))
    sel = (g >= fMin) & (g < fMax)
    w.eq("frequencies of the band", len(nets.f), int(sel.sum()))
    w.same("frequencies of the band", nets.f / fMax, g[sel] / fMax)
    for r, k, x in ((0, 0, b1 / a1), (1, 0, b2 / a1), (0, 1, c1 / a2), (1, 1, c2 / a2)):
        w.same(f"S{r + 1}{k + 1} is the ratio of waves of the run that drives port {k + 1}", nets.s[:, r, k], x[sel])

@contract("P20", "a clean copy is independent of the line, whatever the copy does", seeds=20)
def independent(w):
    m, n, nx, L = any_line(w)
    m.time = w.real("time")
    dt = w.real("dt", pos=True); m.set_time_step(1, dt)
    names = ("v", "i", "l", "c", "r", "g", "u", "du", "zs", "zl", "e_T", "e_L", "v_sources")
    before = snap(w, m, names)
    z = m.connectors; zn = ("phi", "q1", "q2", "q3", "d", "e")
    zb = snap(w, z, zn)
    r = m.create_clean_copy()
    w.same("voltages at rest", r.v, 0); w.same("currents at rest", r.i, 0); w.eq("the clock starts at zero", r.time, 0)
    for k in ("l", "c", "r", "g", "u", "du", "zs", "zl", "e_T", "e_L", "v_sources"): w.same(f"{k} is copied", getattr(r, k), before[k])
    for k in zn[1:]: w.same(f"{k} of the connectors is copied", getattr(r.connectors, k), zb[k])
    w.eq("time step", r.dt, m.dt); w.eq("time step of the connectors", r.connectors.dt, m.connectors.dt)
    for k in ("v", "i", "l", "c", "r", "g"):
        a = getattr(r, k); a[...] = 3.0 * before[k] + 1.0
    r.run_until(dt)
    unchanged(w, m, before); unchanged(w, z, zb)
    w.eq("clock of the line", m.time, w.real("time"))

@contract("P20", "a port reads the nodes of the cell at its end and the current of that cell", seeds=20)
def ends_of(w):
    m, n, nx, L = any_line(w, disp=False, fields=False)
    inl = w.mod("utils").point_in_line
    for k in (0, nx - 1):
        d = [m.u[k + 1, j] - m.u[k, j] for j in range(3)]
        w.assume(d[0] * d[0] + d[1] * d[1] + d[2] * d[2] > 0)
    for q, k in ((0, 0), (1, 0), (nx - 1, nx - 1), (nx, nx - 1)):
        w.check("an end of a cell is on that cell", inl(m.u[q], m.u[k], m.u[k + 1]))
        w.assume(w.exists(nx, lambda k: inl(m.u[q], m.u[k], m.u[k + 1])))          # by the line above
    ps, pl = m.add_port_probes()
    near = lambda k: w.nearest(m.u, m.u[k])
    for p, a, b, z, t in ((ps, 0, 1, m.zs, "S"), (pl, nx - 1, nx, m.zl, "L")):
        w.eq("outer node", p.v0.index, near(a)); w.eq("inner node", p.v1.index, near(b)); w.eq("cell", p.i0.index, near(a))
        w.eq("kinds", (p.v0.type, p.v1.type, p.i0.type), ("voltage", "voltage", "current"))
        w.forall([("c", 0, n)], lambda c: w.eq("its own impedance", p.z0[c], z[c, c]))
        w.eq("terminal", p.getTerminal(), t)
        for q in (p.v0, p.v1, p.i0): w.eq("time step", q.dt, m.dt)
