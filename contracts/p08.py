from .common import *
from .p03 import run_net, R_

# ---------------------------------------------------------------- the manager, against any bundles, networks and probes
class Bundle:
    """stands for any bundle: records what it is asked to do"""
    def __init__(self, T, name, dt, probes, n=1):
        self.T, self.name, self.dt, self.probes, self.number_of_conductors = T, name, dt, probes, n
        self.du = "du" + name; self.v, self.i = "v" + name, "i" + name; self.e_T = {}
    def update_lr_terms(self): self.T.add("lr", self.name, self.dt)
    def update_cg_terms(self): self.T.add("cg", self.name, self.dt)
    def update_sources(self, t, dt): self.T.add("sources", self.name, t, dt)
    def advance_voltage(self): self.T.add("voltage", self.name)
    def advance_current(self): self.T.add("current", self.name)
class Net:
    def __init__(self, T, name): self.T, self.name = T, name
    def update_index_numbers(self, bundles): self.T.add("index", self.name)
    def update_external_field(self, bundles): self.T.add("field", self.name)
    def compute_v_terms(self, dt): self.T.add("terms", self.name, dt)
    def update_sources(self, t, dt): self.T.add("nsources", self.name, t, dt)
    def advance_voltage(self, dt): self.T.add("nvoltage", self.name, dt)
    def update_voltages(self, bundles): self.T.add("nwrite", self.name)
    def update_currents(self, bundles): self.T.add("nread", self.name)
class Prb:
    def __init__(self, T, name): self.T, self.name, self.dt = T, name, None
    def resize_frames(self, n, nc): self.T.add("frames", self.name, n, nc)
    def update(self, t, v, i): self.T.add("probe", self.name, t, v, i, self.dt)

def fleet(w):
    T = w.trace()
    probes = [Prb(T, "p0"), Prb(T, "p1"), Prb(T, "p2")]
    dts = [w.real("dtA", pos=True), w.real("dtB", pos=True)]
    for d in dts: w.assume(d < 1e9)
    bs = [Bundle(T, "A", dts[0], probes[:2], 3), Bundle(T, "B", dts[1], probes[2:], 2)]
    nets = [Net(T, "X"), Net(T, "Y")]
    N = w.mod("mtln").MTLN()
    for b in bs: N.add_bundle(b)
    N.add_network(nets[0]); N.add_networks([nets[1]])
    return N, bs, nets, probes, dts, T

def one_step(w, ev, t, dt):
    """the events of one step, with its instants and its order"""
    pos = {}
    for j, e in enumerate(ev):
        w.check("an action happens once in a step", (e[0], e[1]) not in pos); pos[e[0], e[1]] = j
    need = [(k, b) for b in "AB" for k in ("sources", "voltage", "current")] + [(k, x) for x in "XY" for k in ("nsources", "nvoltage", "nwrite", "nread")] + [("probe", p) for p in ("p0", "p1", "p2")]
    w.check("a step does every action for every member", set(pos) == set(need))
    before = lambda a, b: w.check("order of a step", pos[a] < pos[b])
    for b in "AB":
        before(("sources", b), ("voltage", b)); before(("voltage", b), ("current", b))
        for x in "XY":
            before(("nwrite", x), ("current", b)); before(("current", b), ("nread", x))
        for p in ("p0", "p1", "p2"): before(("current", b), ("probe", p))
    for x in "XY":
        before(("nsources", x), ("nvoltage", x)); before(("nvoltage", x), ("nwrite", x))
        for p in ("p0", "p1", "p2"): before(("nwrite", x), ("probe", p))
    for e in ev:
        if e[0] in ("sources", "nsources"):
            w.eq("sources are taken at the current time", e[2], t); w.eq("with the time step in force", e[3], dt)
        if e[0] == "nvoltage": w.eq("networks advance by the time step", e[2], dt)
        if e[0] == "probe":
            own = "A" if e[1] in ("p0", "p1") else "B"
            w.eq("probes are stamped with the time reached", e[2], t + dt)
            w.check("probes record their own bundle", e[3] == "v" + own and e[4] == "i" + own)
            w.eq("probes use the time step in force", e[5], dt)

@contract("P08", "network manager: one step", conc=False)
def step(w):
    N, bs, nets, probes, dts, T = fleet(w)
    t = w.real("time"); N.time = t
    dt = w.real("dt", pos=True); N.dt = dt
    for p in probes: p.dt = dt
    m = len(T.items)
    N.step()
    one_step(w, T.items[m:], t, dt)
    w.eq("the clock moves one step", N.time, t + dt)

@contract("P08", "network manager: a run", cases=("forced", "default"), conc=False)
def run(w, how):
    from vc.values import SymInt, isym
    N, bs, nets, probes, dts, T = fleet(w)
    t = w.real("time"); N.time = t; final = w.real("final", nonneg=True)
    if how == "forced": dt = w.real("dt", pos=True)
    else:
        dt = N.dt
        for d in dts: w.check("the default time step is not above any member's", dt <= d)
        w.check("the default time step is a member's", w.lor(*[dt == d for d in dts]))
    m = len(T.items)
    if how == "forced": N.run_until(final, dt)
    else: N.run_until(final)
    n = w.floor(final / dt)
    ev = T.items[m:]
    w.eq("time step of the network", N.dt, dt)
    for b in bs: w.eq("time step of a bundle", b.dt, dt)
    for p in probes: w.eq("time step of a probe", p.dt, dt)
    loops = [e for e in ev if e[0] == "loop"]
    pre = ev[:ev.index(loops[0])] if loops else ev
    done = {}
    for e in pre:
        done[e[0], e[1]] = done.get((e[0], e[1]), 0) + 1
        if e[0] in ("lr", "cg"): w.eq("coefficients are computed for the time step in force", e[2], dt)
        if e[0] == "terms": w.eq("network coefficients are computed for the time step in force", e[2], dt)
        if e[0] == "frames":
            w.eq("a frame is reserved per step", e[2], n); w.eq("frames of the bundle", e[3], 3 if e[1] in ("p0", "p1") else 2)
    for k in [("lr", b) for b in "AB"] + [("cg", b) for b in "AB"] + [("terms", x) for x in "XY"] + [("field", x) for x in "XY"] + [("frames", p) for p in ("p0", "p1", "p2")]:
        w.check(f"{k[0]} before the first step", done.get(k, 0) >= 1)
    if loops:
        w.check("one loop over the steps, nothing after it", len(loops) == 1 and ev[-1] is loops[0])
        _, k, lo, hi, cond, body = loops[0]
        w.check("every step is taken", cond.op == "true" or repr(cond) == "True" or not cond.a)
        K = SymInt(isym(k)) - SymInt(lo) if not lo.const else SymInt(isym(k) - lo)
        w.eq("number of steps", SymInt(hi - lo) if not (hi - lo).const else (hi - lo).c, n)
        one_step(w, body, t + K * dt, dt)
        w.eq("the clock at the end", N.time, t + n * dt)
    else:
        w.check("no step when the final time is below one time step", n <= 0)
        w.eq("the clock at the end", N.time, t)

# ---------------------------------------------------------------- black box: real bundles, networks, lines, probes
def logged(f, log):
    def g(t):
        log.add(round(float(t), 9)); return f(t)
    return g

def every_probe(w, b, n, nx):
    P = w.mod("probes").Probe
    pv = [P(b.u[k], "voltage", b.dt, b.u) for k in range(nx + 1)]
    pi = [P(b.u[k], "current", b.dt, b.u) for k in range(nx)]
    b.probes += pv + pi
    return pv, pi

def instants(w, log, t0, dt, n, back):
    want = {round(t0 + (k - s) * dt, 6) for k in range(n) for s in back}
    got = {round(x, 6) for x in log}
    near = lambda x, S: any(abs(x - y) < 2e-6 * (1 + abs(x)) for y in S)
    for x in got: w.check(f"instant {x} at which a function is evaluated", near(x, want))
    for x in want: w.check(f"function is evaluated at {x}", near(x, got))

def history(w, b, c, g, l, r, L, pv, pi, v0, i0, t0, dt, n, nx, nc):
    """every recorded frame satisfies the balances of one step, and its time stamp"""
    v, i = [v0], [i0]
    for p in pv: w.check("one frame per step", len(p.t) == n and p.val.shape == (n, nc))
    for p in pi: w.check("one frame per step", len(p.t) == n and p.val.shape == (n, nc))
    for k in range(n):
        for p in pv: w.eq("time stamp of a voltage frame", p.t[k], t0 + (k + 1) * dt)
        for p in pi: w.eq("time stamp of a current frame", p.t[k], t0 + (k + 1.5) * dt)
        v.append(w.np.array([p.val[k] for p in pv]).T); i.append(w.np.array([p.val[k] for p in pi]).T)
        t = t0 + k * dt
        V0, V1, I0, I1 = v[k], v[k + 1], i[k], i[k + 1]
        eT = lambda q, tt: w.np.array([w.val(b.e_T[a, q], tt) for a in range(nc)])
        eL = lambda q, tt: w.np.array([w.val(b.e_L[a, q], tt) for a in range(nc)])
        for q in range(1, nx):
            d = eT(q, t) - eT(q, t - dt)
            res = 0.5 * (L[q - 1] + L[q]) * (c[q] @ (V1[:, q] - V0[:, q] + d) / dt + g[q] @ (V1[:, q] + V0[:, q] + d) / 2) + I0[:, q] - I0[:, q - 1]
            for a in range(nc): w.eq("charge balance at every step", res[a], 0, tol=1e-5)
        for q in range(nx):
            res = (L[q] * (l[q] @ (I1[:, q] - I0[:, q]) / dt + r[q] @ (I1[:, q] + I0[:, q]) / 2) + V1[:, q + 1] - V1[:, q] + eT(q + 1, t) - eT(q, t)
                   - L[q] / 2 * (eL(q, t + dt / 2) + eL(q, t - dt / 2)))
            for a in range(nc): w.eq("voltage balance at every step", res[a], 0, tol=1e-5)
    return v, i

@contract("P08", "a whole run of lines and networks", cases=("forced", "default", "restarted"), sym=False, seeds=30)
def whole(w, how):
    r1 = w.real("R1", pos=True); vs = w.fun("vsrc"); log = set()
    def wire(nw):
        nw.connect_nodes(7, 2, r1)
        nw.connect_to_ground_R(3, r1, logged(vs, log))
    N, nw, bs = run_net(w, 2, 1, [[7, 0, R_], [3, 1, R_]], [[2, 0, R_]], wire)
    t0 = w.real("time")
    n = 1 + int(4 * w.real("steps") ** 2) % 6
    seen = []
    for b, line, L, nx in bs:
        b.v[:, :] = 0.0; b.i[:, :] = 0.0         # the networks start at rest
        logs = (set(), set()); seen.append(logs)
        for a in range(b.number_of_conductors):
            for k in range(nx + 1): b.e_T[a, k] = logged(b.e_T[a, k], logs[0])
            for k in range(nx): b.e_L[a, k] = logged(b.e_L[a, k], logs[1])
    pr = [every_probe(w, b, b.number_of_conductors, nx) for b, line, L, nx in bs]
    N.time = t0
    small = min(b.dt for b, *_ in bs)
    w.eq("the network starts with the smallest of the time steps", N.dt, small)
    dt = small if how == "default" else w.real("dt", pos=True)
    if how == "restarted":
        other = w.real("dt2", pos=True)
        N.run_until(1.5 * other, other)
        for b, *_ in bs: b.v[:, :] = 0.0; b.i[:, :] = 0.0
        N.time = t0; log.clear()
        for a, b in seen: a.clear(); b.clear()
    start = [(w.copy(b.v), w.copy(b.i)) for b, *_ in bs]
    if how == "default": N.run_until((n + 0.5) * dt)
    else: N.run_until((n + 0.5) * dt, dt)
    for b, *_ in bs: w.eq("one time step for every bundle", b.dt, dt)
    w.eq("one time step for the network", N.dt, dt)
    w.eq("the clock", N.time, t0 + n * dt)
    for x in seen: instants(w, x[0], t0, dt, n, (0, 1)); instants(w, x[1], t0, dt, n, (-0.5, 0.5))
    for j, (b, line, L, nx) in enumerate(bs):
        nc = b.number_of_conductors
        log0 = set(seen[j][0]); v, i = history(w, b, b.c, b.g, b.l, b.r, L, *pr[j], *start[j], t0, dt, n, nx, nc)
        if j == 0: first = (v, i)
    if how == "restarted": return
    # the junction balances at every step too
    from .p03 import half_cell
    (b1, l1, L1, _), (b2, l2, L2, _) = bs
    m = lambda x, y: 0.5 * (x + y)
    for k in range(n):
        t = t0 + k * dt
        A0, A1, AI = first[0][k], first[0][k + 1], first[1][k]; B0, B1, BI = v[k], v[k + 1], i[k]
        w.eq("junction balance at every step", half_cell(w, b1, l1, L1, 2, -1, dt, t, A0, A1, AI, 0) + (m(A0[0, -1], A1[0, -1]) - m(B0[0, 0], B1[0, 0])) / r1, 0, tol=1e-5)
        w.eq("junction balance at every step", half_cell(w, b1, l1, L1, 2, -1, dt, t, A0, A1, AI, 1) + (m(A0[1, -1], A1[1, -1]) - m(w.val(vs, t), w.val(vs, t - dt))) / r1, 0, tol=1e-5)
        w.eq("junction balance at every step", half_cell(w, b2, l2, L2, 1, 0, dt, t, B0, B1, BI, 0) + (m(B0[0, 0], B1[0, 0]) - m(A0[0, -1], A1[0, -1])) / r1, 0, tol=1e-5)

@contract("P08", "a whole run of one line", cases=("set", "default"), sym=False, seeds=30)
def whole_line(w, how):
    from .p02 import end_residual
    m, n, nx, L = any_line(w, disp=False)
    t0 = w.real("time"); m.time = t0
    steps = 1 + int(4 * w.real("steps") ** 2) % 6
    logs = (set(), set(), set())
    for a in range(n):
        for k in range(nx + 1): m.e_T[a, k] = logged(m.e_T[a, k], logs[0]); m.v_sources[a, k] = logged(m.v_sources[a, k], logs[2])
        for k in range(nx): m.e_L[a, k] = logged(m.e_L[a, k], logs[1])
    pv, pi = every_probe(w, m, n, nx)
    if how == "set":
        dt = w.real("dt", pos=True); m.set_time_step(3, 3 * dt)
    else: dt = m.dt
    v0, i0 = w.copy(m.v), w.copy(m.i)
    m.run_until((steps + 0.5) * dt)
    w.eq("the clock", m.time, t0 + steps * dt); w.eq("the time step", m.dt, dt)
    instants(w, logs[0], t0, dt, steps, (0, 1)); instants(w, logs[1], t0, dt, steps, (-0.5, 0.5)); instants(w, logs[2], t0, dt, steps, (0, 1))
    v, i = history(w, m, m.c, m.g, m.l, m.r, L, pv, pi, v0, i0, t0, dt, steps, nx, n)
    for k in range(steps):
        for e in (0, -1):
            for a in range(n): w.eq("end balance at every step", end_residual(w, m, n, L, dt, t0 + k * dt, v[k], v[k + 1], i[k], e, a), 0, tol=1e-5)

class Stepper: pass
@contract("P08", "a line: number of steps of a run", conc=False)
def line_run(w):
    m, n, nx, L = any_line(w, disp=False, fields=False, sources=False)
    T = w.trace()
    p = Prb(T, "p0"); m.probes = [p]
    dt = w.real("dt", pos=True); m.set_time_step(1, dt); final = w.real("final", nonneg=True)
    m.step = lambda: T.add("step", "m", m.dt)
    m.run_until(final)
    steps = w.floor(final / dt)
    w.eq("probes use the time step in force", p.dt, dt)
    w.check("frames are reserved first", len(T.items) >= 1 and T.items[0][0] == "frames")
    w.eq("a frame is reserved per step", T.items[0][2], steps); w.eq("frames of the line", T.items[0][3], n)
    if len(T.items) == 1: w.check("no step when the final time is below one time step", steps <= 0)
    else:
        e = T.items[1]
        w.check("one loop over the steps", len(T.items) == 2 and e[0] == "loop" and len(e[5]) == 1 and e[5][0][0] == "step")
        from vc.values import mkint
        w.eq("number of steps", mkint(e[3] - e[2]), steps)

@contract("P08", "a line: one step moves the clock and tells the probes", conc=False)
def line_step(w):
    m, n, nx, L = any_line(w)
    T = w.trace()
    p = Prb(T, "p0"); m.probes = [p]
    dt = w.real("dt", pos=True); m.set_time_step(1, dt); t = w.real("time"); m.time = t
    m.update_lr_terms(); m.update_cg_terms(); m.compute_terminal_terms()
    m.step()
    w.eq("the clock moves one step", m.time, t + dt)
    w.check("each probe is updated once", len(T.items) == 1)
    w.eq("with the time reached", T.items[0][2], t + dt)
    w.same("with the new voltages", T.items[0][3], m.v); w.same("with the new currents", T.items[0][4], m.i)

@contract("P08", "time steps that do not divide the run", sym=False, seeds=60)
def counts(w):
    m, n, nx, L = any_line(w, disp=False, fields=False, sources=False)
    k = w.int("k", 0, 8)
    dt = w.real("dt", pos=True); f = 0.05 + 0.9 * abs(w.real("f")) % 0.9
    f = min(max(f, 0.05), 0.95)
    pv, pi = every_probe(w, m, n, nx)
    m.set_time_step(4, 4 * dt)
    m.run_until((k + f) * dt)
    w.check("number of frames", len(pv[0].t) == k and len(pi[0].t) == k)
    w.eq("clock", m.time, k * dt)

@contract("P08", "the clock at every scale of time", sym=False, seeds=40)
def scales(w):
    """lines of any physical size (dt from about 1e-17 s to 1e-3 s): relative accuracy of every instant"""
    r, np = w.rng, w.np
    m_ = w.mod("mtl")
    N = w.mod("mtln").MTLN(); size = 10.0 ** r.uniform(-7, 5); bs, logs = [], []
    nx = r.randint(2, 5)
    for j in range(2):
        k = size * r.uniform(1, 2) if j else size
        b = m_.MTL(l=2e-7, c=1e-10, name=f"line {j}", node_positions=np.array([[0, 0, 0], [k, 0, 0]]), ndiv=[nx])
        bs.append(b); N.add_bundle(b)
    small = min(b.dt for b in bs); dt = small * r.uniform(0.3, 1)
    steps = r.randint(1, 7)
    rel = lambda what, got, want, n: (w.eq(what + ": how many", len(got), n), [w.check(what, abs(float(a) - b) <= 1e-7 * dt * steps) for a, b in zip(got, want)])
    def timed():
        l = []
        def f(t): l.append(float(t)); return 0.0 * t
        return l, f
    single = bs[0] if r.random() < 0.5 else None
    own = []
    for b in bs:
        l, f = timed(); l2, f2 = timed(); l3, f3 = timed()
        b.e_T[0, 1] = f; b.e_L[0, 1] = f2; b.v_sources[0, 0] = f3
        own.append((l, l2, l3, [b.add_probe(b.u[1], "voltage"), b.add_probe(b.u[0], "current")]))
    if single is not None:
        single.set_time_step(2, 2 * dt); single.run_until((steps + 0.5) * dt); clock = single.time; seen = [(single, own[0])]
    else:
        N.run_until((steps + 0.5) * dt, dt); clock = N.time; seen = list(zip(bs, own))
    w.check("the clock", abs(clock - steps * dt) <= 1e-7 * dt * steps)
    for b, (l, l2, l3, (pv, pi)) in seen:
        w.check("the time step", abs(b.dt - dt) <= 1e-12 * dt)
        rel("time stamps of voltages", pv.t, [(k + 1) * dt for k in range(steps)], steps)
        rel("time stamps of currents", pi.t, [(k + 1.5) * dt for k in range(steps)], steps)
        for lst, back in ((l, (0, 1)), (l2, (-0.5, 0.5))) + (((l3, (0, 1)),) if single is not None else ()):
            want = {k - s for k in range(steps) for s in back}
            for x in lst: w.check("instants of evaluation", any(abs(x - y * dt) <= 1e-6 * dt for y in want))
            for y in want: w.check("every instant is evaluated", any(abs(x - y * dt) <= 1e-6 * dt for x in lst))
