from .common import *

def moved(w, m, nx, tag=""):
    """a line whose nodes lie anywhere"""
    m.u = w.arr("u" + tag, (nx + 1, 3))
    return m.u

def probe_at(w, u, kind, dt, pos):
    return w.mod("probes").Probe(pos, kind, dt, u)

def frame(w, kind, u, pos, nx, v, i, t, dt):
    """what a probe must record -> (time stamp, value of conductor a)"""
    k = w.nearest(u, pos)
    if kind == "voltage": return t, lambda a: v[a, k]
    return t + dt / 2, lambda a: w.ite(k == nx, i[a, nx - 1], i[a, w.ite_int(k == nx, nx - 1, k)])

@contract("P11", "one more frame, whatever has been recorded", cases=("voltage", "current"))
def one_update(w, kind):
    n, nx = w.int("n", 1), w.int("nx", 1)
    u = w.arr("u", (nx + 1, 3)); pos = w.arr("pos", (3,))
    dt = w.real("dt", pos=True); t = w.real("t")
    p = probe_at(w, u, kind, dt, pos)
    N = w.int("N", 0); f = w.int("f", 0)
    p.resize_frames(N, n)
    ts, vals = w.arr("ts", (N,)), w.arr("vals", (N, n))
    w.shape("frames are reserved as announced: times", p.t, (N,)); w.shape("frames are reserved as announced: values", p.val, (N, n))
    p.t[:] = ts; p.val[:, :] = vals
    w.assume(f <= N)
    p.current_frame = f
    v, i = w.arr("v", (n, nx + 1)), w.arr("i", (n, nx))
    v0, i0 = w.copy(v), w.copy(i)
    st, val = frame(w, kind, u, pos, nx, v, i, t, dt)
    p.update(t, v, i)
    w.same("the voltages are only read", v, v0); w.same("the currents are only read", i, i0)
    w.shape("no frame is lost", p.t, (N + w.ite_int(f == N, 1, 0),)); w.shape("no frame is lost (values)", p.val, (N + w.ite_int(f == N, 1, 0), n))
    w.eq("time stamp", p.t[f], st)
    w.forall([("a", 0, n)], lambda a: w.eq("the values of all conductors at that place", p.val[f, a], val(a)))
    def others(j):
        if j == f: return
        w.eq("other time stamps are kept", p.t[j], ts[j])
        w.forall([("a", 0, n)], lambda a: w.eq("other frames are kept", p.val[j, a], vals[j, a]))
    w.forall([("j", 0, N)], others)
    w.eq("the next frame comes after", p.current_frame, f + 1)

@contract("P11", "a record from the first frame on", cases=[(k, N, M) for k in ("voltage", "current") for N, M in ((0, 2), (1, 3), (2, 2), (3, 2), (None, 1), (None, 3))])
def history(w, case):
    kind, N, M = case
    n, nx = w.int("n", 1), w.int("nx", 1)
    u = w.arr("u", (nx + 1, 3)); pos = w.arr("pos", (3,))
    dt = w.real("dt", pos=True)
    p = probe_at(w, u, kind, dt, pos)
    if N is not None: p.resize_frames(N, n)
    v, i = w.arr("v", (n, nx + 1)), w.arr("i", (n, nx))
    want = []
    for j in range(M):
        v[:, :] = w.arr(f"v{j}", (n, nx + 1)); i[:, :] = w.arr(f"i{j}", (n, nx))      # the state advances in place
        t = w.real(f"t{j}")
        want.append(frame(w, kind, u, pos, nx, w.copy(v), w.copy(i), t, dt))
        p.update(t, v, i)
    size = max(N or 0, M)
    w.shape("one time stamp per frame", p.t, (size,)); w.shape("one row of values per frame", p.val, (size, n))
    for j, (st, val) in enumerate(want):
        w.eq("time stamps in order", p.t[j], st)
        w.forall([("a", 0, n)], lambda a: w.eq("values in order", p.val[j, a], val(a)))

@contract("P11", "unknown kinds of probe are refused")
def unknown(w):
    n, nx = w.int("n", 1), w.int("nx", 1)
    u = w.arr("u", (nx + 1, 3))
    def use():
        p = probe_at(w, u, "power", 0.1, w.arr("pos", (3,)))
        p.resize_frames(2, n)
        p.update(0.0, w.arr("v", (n, nx + 1)), w.arr("i", (n, nx)))
    w.raises("an unknown kind is refused", use, ValueError)

@contract("P11", "a point of a segment, or not")
def on_segment(w):
    inl = w.mod("utils").point_in_line
    a, e = w.arr("a", (3,)), w.arr("e", (3,))
    s = 2 * w.real("s")
    w.assume(e[0] * e[0] + e[1] * e[1] + e[2] * e[2] > 0)
    b, p = a + e, a + s * e
    r = inl(p, a, b)
    if w.sym and 0 <= s <= 1 or not w.sym and 1e-9 < s < 1 - 1e-9: w.check("points of the segment are on it", r)
    elif s < -1e-6 or s > 1 + 1e-6: w.check("points beyond its ends are not", w.lnot(r))

@contract("P11", "a point off the line of a segment")
def off_segment(w):
    inl = w.mod("utils").point_in_line
    a, e, f = w.arr("a", (3,)), w.arr("e", (3,)), w.arr("f", (3,))
    b, p = a + e, a + f
    c = [e[1] * f[2] - e[2] * f[1], e[2] * f[0] - e[0] * f[2], e[0] * f[1] - e[1] * f[0]]
    c2 = c[0] * c[0] + c[1] * c[1] + c[2] * c[2]
    e2 = e[0] * e[0] + e[1] * e[1] + e[2] * e[2]
    w.assume(e2 > 0)
    length = w.sqrt(e2)
    w.assume(w.sqrt(c2) > 3e-6 * length * length)     # more than 3e-6 of the length aside, whatever the length
    w.check("points aside of the segment are not on it", w.lnot(inl(p, a, b)))

def straight(w, n, nx, L):
    """line along z with nx cells of length L"""
    mtl = w.mod("mtl")
    one = w.eye(n)
    return mtl.MTL(l=1.0 * one, c=1.0 * one, length=L, ndiv=[nx])

@contract("P11", "probes of a line and of a bundle: placed, refused, fed at every step", cases=[(o, k) for o in ("line", "bundle") for k in ("voltage", "current")], sym=False, seeds=60)
def placed(w, case):
    what, kind = case
    np = w.np; mtl = w.mod("mtl")
    n, nseg = w.int("n", 1, 3), w.int("nseg", 1, 3)
    nds = [w.int(f"d{k}", 1, 4) for k in range(nseg)]; nx = sum(nds)
    pts = np.cumsum(np.vstack([np.zeros(3), w.arr("step", (nseg, 3)) + np.array([0.0, 0.0, 1.5])]), axis=0)
    one = np.eye(n)
    m = mtl.MTL(l=1.0 * one, c=1.0 * one, node_positions=pts, ndiv=nds, name="l")
    o = m if what == "line" else mtl.MTLD({0: [m]}, name="b")
    k = w.int("cell", 0, nx - 1); s = (w.real("s") + 1) / 2
    pos = o.u[k] + s * (o.u[k + 1] - o.u[k])
    probes = [o.add_probe(x, kind) for x in (pos, o.u[0], o.u[nx], o.u[k])]
    w.check("the line keeps its probes in order", list(o.probes) == probes)
    v, i = w.arr("v", (n, nx + 1)), w.arr("i", (n, nx))
    t = w.real("t")
    for p in probes: p.resize_frames(1, n); p.update(t, v, i)
    at = lambda q: v[:, q] if kind == "voltage" else i[:, min(q, nx - 1)]
    for p, q in zip(probes, (w.nearest(o.u, pos), 0, nx, k)):
        w.same("values at the nearest node or the cell from it", p.val[0], at(q))
        w.eq("time stamp", p.t[0], t if kind == "voltage" else t + o.dt / 2)
    d = o.u[k + 1] - o.u[k]; side = np.cross(d, np.array([0.3, 1.0, 0.2])); side = side / np.linalg.norm(side)
    for label, bad in (("aside of the line", pos + side * (0.05 + abs(w.real("away")))), ("beyond the far end", o.u[nx] + 0.05 * (o.u[nx] - o.u[nx - 1])), ("before the near end", o.u[0] - 0.05 * (o.u[1] - o.u[0]))):
        others = any(np.linalg.norm(np.cross(o.u[q + 1] - o.u[q], bad - o.u[q])) < 1e-3 for q in range(nx)) and label == "aside of the line"
        if not others: w.raises(f"refused: {label}", lambda: o.add_probe(bad, kind))
    w.check("refused probes are not kept", list(o.probes) == probes)
    z = mtl.MTL(l=1.0 * one, c=1.0 * one, length=2.0, ndiv=4)
    zb = z if what == "line" else mtl.MTLD({0: [z]})
    w.eq("a number is a position along z", zb.add_probe(1.1, kind).index, 2)
    for bad in (-0.1, 2.1): w.raises("a number beyond the ends is refused", lambda: zb.add_probe(bad, kind))

@contract("P11", "a line in a run feeds its probes at every step", sym=False, seeds=40)
def in_run(w):
    np = w.np; mtl, mtln = w.mod("mtl"), w.mod("mtln")
    n, nx = w.int("n", 1, 2), w.int("nx", 2, 4)
    steps = w.int("steps", 0, 4)
    m = mtl.MTL(l=1.0 * np.eye(n), c=1.0 * np.eye(n), length=1.0, ndiv=nx, Zs=1.0, Zl=2.0)
    b = mtl.MTLD({0: [mtl.MTL(l=1.0 * np.eye(n), c=1.0 * np.eye(n), length=1.0, ndiv=nx)]}, name="b")
    for o in (m, b):
        o.v[:, :] = w.arr("v", (n, nx + 1)); o.i[:, :] = w.arr("i", (n, nx))
        N = mtln.MTLN()
        if o is b: N.add_bundle(b)
        run = m if o is m else N
        k = w.int("k", 0, nx)
        pv, pi = o.add_probe(o.u[k], "voltage"), o.add_probe(o.u[k], "current")
        log = []
        orig = pv.update
        def spy(t, v, i): log.append((t, v.copy(), i.copy())); return orig(t, v, i)
        pv.update = spy
        dt = run.dt
        run.run_until(dt * (steps + 0.5))
        w.eq("one frame per step", len(pv.t), steps); w.eq("one frame per step (current)", len(pi.t), steps)
        for j, (t, v, i) in enumerate(log[:steps]):
            w.eq("voltage stamp", pv.t[j], (j + 1) * dt); w.eq("current stamp", pi.t[j], (j + 1.5) * dt)
            w.same("voltages", pv.val[j], v[:, k]); w.same("currents", pi.val[j], i[:, min(k, nx - 1)])
        run.run_until(dt * (steps + 0.5))                  # again: as many steps, new records
        w.eq("one frame per step of the second run", len(pv.t), steps); w.eq("one frame per step of the second run (current)", len(pi.t), steps)
        for j, (t, v, i) in enumerate(log[steps:]):
            w.eq("voltage stamp of the second run", pv.t[j], (steps + j + 1) * dt); w.eq("current stamp of the second run", pi.t[j], (steps + j + 1.5) * dt)
            w.same("voltages of the second run", pv.val[j], v[:, k]); w.same("currents of the second run", pi.val[j], i[:, min(k, nx - 1)])
        if steps:
            w.same("the last frame is the final state", pv.val[-1], o.v[:, k]); w.same("the last current frame is the final state", pi.val[-1], o.i[:, min(k, nx - 1)])

@contract("P11", "add_probe: on some cell of the line or bundle, else refused", cases=[(o, k) for o in ("line", "bundle") for k in ("voltage", "current")], seeds=30)
def accepted(w, case):
    what, kind = case
    m, n, nx, L = (any_line if what == "line" else any_bundle)(w, disp=False)
    inl = w.mod("utils").point_in_line
    pos = w.arr("pos", (3,))
    if not w.sym and w.real("on") > 0:
        k = w.int("cell", 0, nx - 1)
        pos = m.u[k] + abs(w.real("s")) % 1.0 * (m.u[k + 1] - m.u[k])
    before = len(m.probes)
    if w.exists(nx, lambda k: inl(pos, m.u[k], m.u[k + 1])):
        p = m.add_probe(pos, kind)
        w.check("the probe is kept", len(m.probes) == before + 1 and m.probes[-1] is p)
        w.eq("at the nearest node", p.index, w.nearest(m.u, pos))
        w.eq("kind", p.type, kind); w.eq("time step", p.dt, m.dt); w.same("position", p.position, pos)
    else:
        w.raises("refused", lambda: m.add_probe(pos, kind))
        w.check("not kept", len(m.probes) == before)

@contract("P11", "network run: every probe is resized, fed and stamped with the step in force", cases=("forced", "default"), conc=False)
def network_run(w, how):
    """any bundles, networks and number of steps (recorders in their place)"""
    from .p08 import fleet
    from vc.values import SymInt, isym
    N, bs, nets, probes, dts, T = fleet(w)
    t = w.real("time"); N.time = t; final = w.real("final", nonneg=True)
    dt = w.real("dt", pos=True) if how == "forced" else N.dt
    m = len(T.items)
    if how == "forced": N.run_until(final, dt)
    else: N.run_until(final)
    ev = T.items[m:]
    n = w.floor(final / dt)
    for p in probes: w.eq("half a step later: of the step in force", p.dt, dt)
    loops = [e for e in ev if e[0] == "loop"]
    pre = ev[:ev.index(loops[0])] if loops else ev
    sized = {e[1]: e for e in pre if e[0] == "frames"}
    w.check("the frames of every probe are announced", set(sized) == {"p0", "p1", "p2"})
    for e in sized.values():
        w.eq("a frame is reserved per step", e[2], n); w.eq("one column per conductor of the probe's bundle", e[3], 3 if e[1] in ("p0", "p1") else 2)
    w.check("no frame is recorded before the first step", not [e for e in pre if e[0] == "probe"])
    if loops:
        _, k, lo, hi, cond, body = loops[0]
        w.check("every step is taken", cond.op == "true" or repr(cond) == "True" or not cond.a)
        K = SymInt(isym(k)) - SymInt(lo) if not lo.const else SymInt(isym(k) - lo)
        w.eq("number of steps", SymInt(hi - lo) if not (hi - lo).const else (hi - lo).c, n)
        fed = [e for e in body if e[0] == "probe"]
        w.check("every probe is fed once in a step", sorted(e[1] for e in fed) == ["p0", "p1", "p2"])
        for e in fed:
            own = "A" if e[1] in ("p0", "p1") else "B"
            w.eq("with the time reached", e[2], t + K * dt + dt)
            w.check("with the state of its own bundle", e[3] == "v" + own and e[4] == "i" + own)
            w.eq("with the step in force", e[5], dt)
            for x in body[body.index(e):]: w.check("after the step is complete", x[0] == "probe")
    else: w.check("no step when the final time is below one time step", n <= 0)

@contract("P11", "probes on bundles of a network with different default steps", cases=("forced", "default"), sym=False, seeds=30)
def fleet_run(w, how):
    np = w.np; mtl, mtln = w.mod("mtl"), w.mod("mtln")
    bs, ps = [], []
    for name in "AB":
        n, nx = w.int("n" + name, 1, 2), w.int("nx" + name, 2, 6)
        b = mtl.MTLD({0: [mtl.MTL(l=1.0 * np.eye(n), c=1.0 * np.eye(n), length=w.real("len" + name, pos=True), ndiv=nx)]}, name=name)
        b.i[:, :] = w.arr("i" + name, (n, nx))
        bs.append(b)
    N = mtln.MTLN(bs if w.int("order", 0, 1) else bs[::-1])
    for b in bs: ps.append([b.add_probe(b.u[1], k) for k in ("voltage", "current")])
    dt = N.dt
    if how == "forced": dt = dt * w.real("q", pos=True)
    steps = w.int("steps", 0, 4)
    if how == "forced": N.run_until(dt * (steps + 0.5), dt)
    else: N.run_until(dt * (steps + 0.5))
    for pv, pi in ps:
        w.eq("one frame per step", len(pv.t), steps); w.eq("one frame per step (current)", len(pi.t), steps)
        for j in range(steps): w.eq("voltage stamp", pv.t[j], (j + 1) * dt); w.eq("current stamp", pi.t[j], (j + 1.5) * dt)
    for b, (pv, pi) in zip(bs, ps):
        if steps: w.same("the last frame is the final state", pv.val[-1], b.v[:, 1]); w.same("the last current frame", pi.val[-1], b.i[:, 1])
