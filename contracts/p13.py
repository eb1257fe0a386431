from .common import *
from .p14 import pole_terms, model, DISP

def bundle(w, sizes):
    """a bundle with the given conductors per level, any constant and proportional terms"""
    mtl = w.mod("mtl")
    nx = w.int("nx", 1)
    levels = {}
    one_dt = w.real("dt", pos=True); w.assume(one_dt < 1e9)
    for lv, n in enumerate(sizes):
        levels[lv] = [mtl.MTL(l=1.0 * w.eye(n), c=1.0 * w.eye(n), length=1.0, ndiv=[nx], name=f"l{lv}")]
        levels[lv][0].dt = one_dt
    b = mtl.MTLD(levels, name="b")
    tot = sum(sizes)
    z = b.transfer_impedance
    z.d[:, :, :] = w.arr("d", (nx, tot, tot)); z.e[:, :, :] = w.arr("e", (nx, tot, tot))
    return b, z, nx, tot, [sum(sizes[:k]) for k in range(len(sizes))]

CASES = []
for dirn in ("in", "out", "both"):
    CASES += [((1, 2), 0, [0], 1, [0, 1], dirn, 1, False), ((1, 2, 3), 1, [1], 2, [2, 0], dirn, 2, True)]
CASES += [((2, 2, 2), 0, [0, 1], 1, [1], "both", 0, True), ((1, 2, 3), 2, [1], 1, [0], "in", 1, False), ((1, 3, 1), 1, [2, 0], 2, [0], "out", 0, False), ((2, 1), 0, [1], 1, [0], "both", 3, True)]

def pairs(offs, ol, oc, il, ic, dirn):
    out = [offs[ol] + c for c in oc]; inn = [offs[il] + c for c in ic]
    s = set()
    if dirn in ("in", "both"): s |= {(j, i) for i in out for j in inn}        # row: driven conductor, column: current
    if dirn in ("out", "both"): s |= {(i, j) for i in out for j in inn}
    return s

@contract("P13", "along the whole bundle", cases=CASES, secs=100)
def everywhere(w, case):
    sizes, ol, oc, il, ic, dirn, np_, fac = case
    b, z, nx, tot, offs = bundle(w, sizes)
    md, cte, prop, poles, res = model(w, np_, nonzero=np_ == 0)
    md["direction"] = dirn
    f = 1.0
    if fac: f = w.real("factor", pos=True); md["factor"] = f
    d0, e0 = w.copy(z.d), w.copy(z.e)
    b.add_transfer_impedance(ol, oc, il, ic, md)
    hit = pairs(offs, ol, oc, il, ic, dirn)
    for i in range(tot):
        for j in range(tot):
            on = (i, j) in hit
            lab = "declared pair" if on else "other pairs are left as they were"
            def at(k):
                w.eq(f"constant term: {lab}", z.d[k, i, j], d0[k, i, j] - (cte / f if on else 0))
                w.eq(f"proportional term: {lab}", z.e[k, i, j], e0[k, i, j] - (prop / f if on else 0))
                pole_terms(w, lab, z, k, i, j, z.dt, poles, [(-a / f, -c / f) for a, c in res], on)
            w.forall([("k", 0, nx)], at)

@contract("P13", "at one end", cases=[(s,) + c for s in ("initial", "end") for c in CASES], secs=100)
def one_end(w, case):
    side, sizes, ol, oc, il, ic, dirn, np_, fac = case
    b, z, nx, tot, offs = bundle(w, sizes)
    md, cte, prop, poles, res = model(w, np_, nonzero=np_ == 0)
    md["direction"] = dirn
    f = 1.0
    if fac: f = w.real("factor", pos=True); md["factor"] = f
    d0, e0 = w.copy(z.d), w.copy(z.e)
    b.set_connector_transfer_impedance(side, ol, oc, il, ic, md)
    hit = pairs(offs, ol, oc, il, ic, dirn)
    here = 0 if side == "initial" else nx - 1
    for i in range(tot):
        for j in range(tot):
            def at(k):
                on = (i, j) in hit and bool(k == here)
                lab = "declared pair, at its own end" if on else "other pairs and cells are left as they were"
                w.eq(f"constant term: {lab}", z.d[k, i, j], -cte / f if on else d0[k, i, j])
                w.eq(f"proportional term: {lab}", z.e[k, i, j], -prop / f if on else e0[k, i, j])
                pole_terms(w, lab, z, k, i, j, z.dt, poles, [(-a / f, -c / f) for a, c in res], on)
            w.forall([("k", 0, nx)], at)

@contract("P13", "a connector replaces the bundle's at its own end", cases=("initial", "end"))
def replaces(w, side):
    b, z, nx, tot, offs = bundle(w, (1, 1))
    whole, cte, prop, poles, res = model(w, 1, nonzero=False); whole["direction"] = "in"
    conn, cte2, prop2, poles2, res2 = model(w, 1, "c", nonzero=False); conn["direction"] = "in"
    d0, e0 = w.copy(z.d), w.copy(z.e)
    b.add_transfer_impedance(0, [0], 1, [0], whole)
    b.set_connector_transfer_impedance(side, 0, [0], 1, [0], conn)
    here = 0 if side == "initial" else nx - 1
    def at(k):
        on = bool(k == here)
        w.eq("constant term", z.d[k, 1, 0], -cte2 if on else d0[k, 1, 0] - cte)
        w.eq("proportional term", z.e[k, 1, 0], -prop2 if on else e0[k, 1, 0] - prop)
        pole_terms(w, "poles", z, k, 1, 0, z.dt, poles2 if on else poles, [(-a, -c) for a, c in (res2 if on else res)], True)
    w.forall([("k", 0, nx)], at)

@contract("P13", "a connector without poles replaces them too", cases=[(s, d) for s in ("initial", "end") for d in ("in", "out", "both")])
def replaces_poles(w, case):
    side, dirn = case
    b, z, nx, tot, offs = bundle(w, (1, 1))
    whole, cte, prop, poles, res = model(w, 2, nonzero=True); whole["direction"] = "both"
    conn, cte2, prop2, *_ = model(w, 0, "c", nonzero=True); conn["direction"] = dirn
    d0 = w.copy(z.d)
    b.add_transfer_impedance(0, [0], 1, [0], whole)
    b.set_connector_transfer_impedance(side, 0, [0], 1, [0], conn)
    here = 0 if side == "initial" else nx - 1
    for i, j in ((1, 0), (0, 1)):
        def at(k):
            on = bool(k == here) and dirn in ("both", "in" if i == 1 else "out")
            w.eq("constant term", z.d[k, i, j], -cte2 if on else d0[k, i, j] - cte)
            pole_terms(w, "poles are the connector's own", z, k, i, j, z.dt, [] if on else poles, [(-a, -c) for a, c in res], True)
        w.forall([("k", 0, nx)], at)

@contract("P13", "a later impedance adds to the earlier ones and leaves their poles as they were", cases=[(a, d) for a in ("other pair", "same pair", "reverse pair", "connector elsewhere") for d in ("in", "out")])
def later_one(w, case):
    where, dirn = case
    b, z, nx, tot, offs = bundle(w, (1, 2, 1))
    one, cte, prop, poles, res = model(w, 1, nonzero=True); one["direction"] = dirn
    n2 = 0 if where == "same pair" else 1
    two, cte2, prop2, poles2, res2 = model(w, n2, "c", nonzero=True)
    two["direction"] = dirn if where != "reverse pair" else ("out" if dirn == "in" else "in")
    d0, e0 = w.copy(z.d), w.copy(z.e)
    b.add_transfer_impedance(0, [0], 1, [1], one)
    first = {(2, 0)} if dirn == "in" else {(0, 2)}
    if where == "other pair": b.add_transfer_impedance(1, [1], 2, [0], two); second = {(3, 2)} if dirn == "in" else {(2, 3)}
    elif where == "connector elsewhere": b.set_connector_transfer_impedance("end", 1, [1], 2, [0], two); second = {(3, 2)} if dirn == "in" else {(2, 3)}
    else: b.add_transfer_impedance(0, [0], 1, [1], two); second = first if where == "same pair" else {(j, i) for i, j in first}
    for i in range(tot):
        for j in range(tot):
            def at(k):
                p1, p2 = (i, j) in first, (i, j) in second
                if where == "connector elsewhere" and p2: return                     # (its own cell: the contracts above)
                w.eq("constant terms add up", z.d[k, i, j], d0[k, i, j] - (cte if p1 else 0) - (cte2 if p2 else 0))
                w.eq("proportional terms add up", z.e[k, i, j], e0[k, i, j] - (prop if p1 else 0) - (prop2 if p2 else 0))
                own = (poles, res) if p1 or not p2 else (poles2, res2)
                pole_terms(w, "poles of each pair", z, k, i, j, z.dt, own[0], [(-a, -c) for a, c in own[1]], p1 or p2 and n2 > 0)
            w.forall([("k", 0, nx)], at)

@contract("P13", "levels that are not adjacent are refused")
def refused(w):
    b, z, nx, tot, offs = bundle(w, (1, 2, 1))
    md, *_ = model(w, 1, nonzero=True); md["direction"] = "both"
    d0, e0 = w.copy(z.d), w.copy(z.e)
    for o, i in ((0, 2), (2, 0), (1, 1), (0, 0)):
        w.raises("refused: levels that are not adjacent", lambda: b.add_transfer_impedance(o, [0], i, [0], md))
        for s in ("initial", "end"): w.raises("refused: levels that are not adjacent (connector)", lambda: b.set_connector_transfer_impedance(s, o, [0], i, [0], md))
    w.raises("refused: unknown side", lambda: b.set_connector_transfer_impedance("middle", 0, [0], 1, [0], md))
    for k in ("poles", "residues"):
        bad = {**md, k: {"real": [1.0], "imag": [1.0, 2.0]}}
        w.raises("refused: inconsistent lists", lambda: b.add_transfer_impedance(0, [0], 1, [0], bad))
        w.raises("refused: inconsistent lists (connector)", lambda: b.set_connector_transfer_impedance("end", 0, [0], 1, [0], bad))
        bad2 = {**md, k: {"real": [1.0, 2.0], "imag": [0.0, 0.0]}}
        w.raises("refused: as many poles as residues", lambda: b.add_transfer_impedance(0, [0], 1, [0], bad2))
        w.raises("refused: as many poles as residues (connector)", lambda: b.set_connector_transfer_impedance("initial", 0, [0], 1, [0], bad2))
    w.same("nothing is changed by a refusal: constant term", z.d, d0); w.same("nothing is changed by a refusal: proportional term", z.e, e0)

def finding_kf5():
    """two pole lists on one pair: is the decay of a term still a sum of two decays?"""
    import numpy as np
    import src.mtl as mtl
    b = mtl.MTLD({k: [mtl.MTL(l=1.0, c=1.0, length=1.0, ndiv=[2], name=f"l{k}")] for k in (0, 1)}, name="b")
    one = dict(cte=0.0, prop=0.0, direction="in", poles=dict(real=[-1.0], imag=[0.0]), residues=dict(real=[1.0], imag=[0.0]))
    for _ in range(2): b.add_transfer_impedance(0, [0], 1, [0], one)
    q3 = np.ravel(b.transfer_impedance.q3[0, 1, 0])
    return any(abs(x - np.exp(-b.transfer_impedance.dt)) > 1e-9 and abs(x) > 1e-9 for x in q3)
