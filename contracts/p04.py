from .common import *
from .p03 import net

MATS = ("P1", "Ps", "Q1", "Qs", "M", "N1", "Ns", "O")

def setting(w):
    """an arbitrary network whose nodes 5 and 9 sit at arbitrary distinct places; two consecutive state variables at node 5"""
    n = w.int("n", 2); ns = w.int("ns", 2)
    nw, dx, v0, vp, X0 = net(w, n, ns, True)
    i1 = w.int("at5", 0); i2 = w.int("at9", 0); s0 = w.int("st5", 0)
    w.assume(i1 < n); w.assume(i2 < n); w.assume(s0 + 1 < ns); w.assume(w.lnot(i1 == i2))
    nw.connections = {5: {"index": i1, "state_index": [s0, s0 + 1], "side": 0, "line_index": 0, "conductor": 0, "line_name": "a", "bundle_name": "a"},
                      9: {"index": i2, "state_index": [], "side": 0, "line_index": 1, "conductor": 1, "line_name": "a", "bundle_name": "a"}}
    null = lambda t: 0
    for k in (i1, i2):          # no source at these nodes yet
        nw.v_sources[k] = null
        nw.Ps[k, :] = 0.0; nw.Qs[k, :] = 0.0; nw.Ps[:, k] = 0.0; nw.Qs[:, k] = 0.0; nw.Ns[:, k] = 0.0
    # the two state variables are free (no equation yet)
    for s in (s0, s0 + 1): nw.M[s, :] = 0.0; nw.N1[s, :] = 0.0; nw.Ns[s, :] = 0.0; nw.O[:, s] = 0.0; nw.M[:, s] = 0.0
    return nw, n, ns, i1, i2, s0

def probe(w, n, ns):
    """arbitrary node voltages and slopes, state variables, instant and step"""
    return dict(v=w.arr("tv", (n,)), dv=w.arr("tdv", (n,)), X=w.arr("tX", (ns,)), t=w.real("t"), dt=w.real("dt", pos=True))

def inflow(w, nw, n, ns, p, a):
    """current that the elements deliver into node a (the right-hand side of the node equation)"""
    vs = lambda b: w.val(nw.v_sources[b], p["t"])
    dvs = lambda b: (w.val(nw.v_sources[b], p["t"]) - w.val(nw.v_sources[b], p["t"] - p["dt"])) / p["dt"]
    return (w.sum(n, lambda b: nw.P1[a, b] * p["v"][b] + nw.Ps[a, b] * vs(b) + nw.Q1[a, b] * p["dv"][b] + nw.Qs[a, b] * dvs(b))
            + w.sum(ns, lambda s: nw.O[a, s] * p["X"][s]))
def slope(w, nw, n, ns, p, s):
    """time derivative of a state variable"""
    vs = lambda b: w.val(nw.v_sources[b], p["t"])
    return w.sum(ns, lambda r: nw.M[s, r] * p["X"][r]) + w.sum(n, lambda b: nw.N1[s, b] * p["v"][b] + nw.Ns[s, b] * vs(b))

class Old: pass
def before(w, nw):
    o = Old()
    for k in MATS + ("v_sources",): setattr(o, k, w.copy(getattr(nw, k)))
    return o

def relation(w, nw, old, n, ns, extra, sext=None, label="the node equations change by the element current only"):
    """extra(p, a): current of the new element into node a; sext(p, s): new state equations"""
    p = probe(w, n, ns)
    w.forall([("a", 0, n)], lambda a: w.eq(label, inflow(w, nw, n, ns, p, a) - inflow(w, old, n, ns, p, a), extra(p, a)))
    w.forall([("s", 0, ns)], lambda s: w.eq("state equations", slope(w, nw, n, ns, p, s) - slope(w, old, n, ns, p, s), sext(p, s) if sext else 0))

@contract("P04", "resistor to ground", seeds=120, cases=("R", "R and source", "plain", "plain and source"))
def ground_R(w, how):
    nw, n, ns, i1, i2, s0 = setting(w)
    R = w.real("R", pos=True); vs = w.fun("src"); old = before(w, nw)
    f = nw.connect_to_ground_R if how.startswith("R") else nw.connect_to_ground
    E = lambda t: w.val(vs, t) if how.endswith("source") else 0
    f(5, R, vs) if how.endswith("source") else f(5, R)
    relation(w, nw, old, n, ns, lambda p, a: -1 * w.delta(a, i1) * (p["v"][i1] - E(p["t"])) / R)

@contract("P04", "capacitor to ground", cases=("C", "C and source"))
def ground_C(w, how):
    nw, n, ns, i1, i2, s0 = setting(w)
    C = w.real("C", pos=True); vs = w.fun("src"); old = before(w, nw)
    nw.connect_to_ground_C(5, C, vs) if how.endswith("source") else nw.connect_to_ground_C(5, C)
    dE = lambda p: (w.val(vs, p["t"]) - w.val(vs, p["t"] - p["dt"])) / p["dt"] if how.endswith("source") else 0
    relation(w, nw, old, n, ns, lambda p, a: -1 * w.delta(a, i1) * C * (p["dv"][i1] - dE(p)))

@contract("P04", "series resistor with parallel LC to ground", cases=("plain", "source"))
def ground_LC(w, how):
    nw, n, ns, i1, i2, s0 = setting(w)
    R, L, C = (w.real(k, pos=True) for k in ("R", "Lx", "Cx")); vs = w.fun("src"); old = before(w, nw)
    w.assume(C < 1e22)
    nw.connect_to_ground_LCpRs(5, R, L, C, vs) if how == "source" else nw.connect_to_ground_LCpRs(5, R, L, C)
    E = lambda t: w.val(vs, t) if how == "source" else 0
    I = lambda p: (p["v"][i1] - E(p["t"]) - p["X"][s0]) / R           # current out of the node
    relation(w, nw, old, n, ns, lambda p, a: -1 * w.delta(a, i1) * I(p),
             lambda p, s: w.delta(s, s0) * (I(p) - p["X"][s0 + 1]) / C + w.delta(s, s0 + 1) * p["X"][s0] / L)

@contract("P04", "resistor between two nodes", cases=("plain", "source"))
def between(w, how):
    nw, n, ns, i1, i2, s0 = setting(w)
    R = w.real("R", pos=True); vs = w.fun("src"); old = before(w, nw)
    nw.connect_nodes(5, 9, R, vs) if how == "source" else nw.connect_nodes(5, 9, R)
    E = lambda t: w.val(vs, t) if how == "source" else 0
    I = lambda p: (p["v"][i1] - p["v"][i2] - E(p["t"])) / R           # from the first node to the second
    relation(w, nw, old, n, ns, lambda p, a: (w.delta(a, i2) - w.delta(a, i1)) * I(p))

@contract("P04", "shorts")
def shorts(w):
    nw, n, ns, i1, i2, s0 = setting(w)
    for first in (True, False):
        old = before(w, nw)
        p = probe(w, n, ns)
        if first: nw.short_nodes(5, 9)
        else: nw.short_to_ground(9)
        d = lambda a: inflow(w, nw, n, ns, p, a) - inflow(w, old, n, ns, p, a)
        # a very large conductance between the two nodes (or from the node to ground)
        G = old.P1[i2, i2] - nw.P1[i2, i2]
        w.check("a short conducts at least 1e6 S", G >= 1e6 - 1)
        x = (p["v"][i1] - p["v"][i2]) if first else -1 * p["v"][i2]
        w.forall([("a", 0, n)], lambda a: w.eq("the node equations change by the current of the short only", d(a) / G, (w.delta(a, i2) - (w.delta(a, i1) if first else 0)) * x, tol=1e-4))
        w.forall([("s", 0, ns)], lambda s: w.eq("state equations", slope(w, nw, n, ns, p, s), slope(w, old, n, ns, p, s)))

@contract("P04", "elements at one node add up in any order", cases=((0, 1, 2), (2, 1, 0), (1, 2, 0)))
def several(w, order):
    nw, n, ns, i1, i2, s0 = setting(w)
    R, R2, C, R3 = (w.real(k, pos=True) for k in ("R", "R2", "C", "R3")); vs = w.fun("src"); old = before(w, nw)
    acts = [lambda: nw.connect_to_ground_R(5, R), lambda: nw.connect_nodes(9, 5, R2), lambda: nw.connect_to_ground_C(5, C, vs)]
    for k in order: acts[k]()
    nw.connect_to_ground_R(5, R3)
    dE = lambda p: (w.val(vs, p["t"]) - w.val(vs, p["t"] - p["dt"])) / p["dt"]
    def extra(p, a):
        v5, v9 = p["v"][i1], p["v"][i2]
        return -1 * w.delta(a, i1) * (v5 / R + v5 / R3 + C * (p["dv"][i1] - dE(p)) + (v5 - v9) / R2) - w.delta(a, i2) * (v9 - v5) / R2
    relation(w, nw, old, n, ns, extra)

@contract("P04", "unknown nodes are refused")
def unknown(w):
    nw, n, ns, i1, i2, s0 = setting(w)
    R = w.real("R", pos=True)
    for k, f in (("ground", lambda: nw.connect_to_ground(3, R)), ("ground R", lambda: nw.connect_to_ground_R(3, R)), ("C", lambda: nw.connect_to_ground_C(3, R)),
                 ("LCpRs", lambda: nw.connect_to_ground_LCpRs(3, R, R, R)), ("short", lambda: nw.short_to_ground(3)), ("nodes", lambda: nw.connect_nodes(5, 3, R)),
                 ("nodes, first", lambda: nw.connect_nodes(3, 5, R)), ("short nodes", lambda: nw.short_nodes(3, 9)), ("short nodes, second", lambda: nw.short_nodes(9, 3)), ("zero resistance", lambda: nw.connect_nodes(5, 9, 0))):
        w.raises(f"refused: {k}", f)
