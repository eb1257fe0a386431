"""A description is generated as a structure (bundles of nested cables, ends, elements, sources, probes), written as a
file, and the model the parser builds from it is compared with the one built directly from the structure."""
import json as _json, os as _os, random as _random, tempfile as _tempfile
from .common import *
from .p04 import inflow, slope, probe as anyhow

OPEN, BIG = 0.0, 1e22

class Gen:
    """a random description; `feat` are the features it must show"""
    def __init__(s, rng, real, feat=(), ndiv=None, sizes=(1, 2, 2, 3)):
        s.r, s.real, s.feat, s.cells, s.sizes = rng, real, set(feat), ndiv, sizes
        s.bundles, s.cables, s.conns, s.wires = [], {}, {}, {}
        s.juncs, s.terms, s.sources, s.probes, s.ends, s.lumped = [], [], [], [], [], []
        s.ids = dict(mat=rng.randint(1, 50), el=rng.randint(1, 50), co=rng.randint(1, 50))
        s.points, s.lines, s.nodes, s.shared = [], [], [], {}
        s.make()
    def new(s, kind):
        s.ids[kind] += s.r.choice((1, 1, 2, 7))
        return s.ids[kind]
    def has(s, f, p=0.5): return f in s.feat or (not s.feat and s.r.random() < p)
    # ---- cables
    def cable(s, level, n, pts, ndiv):
        name = s.r.choice((f"cable_{len(s.cables)}_{level}", f"{len(s.cables)}", f"a{'b' * len(s.cables)}", f"line {len(s.cables)}"))
        els, ids = [], []
        for _ in range(n):
            co = [s.point(p) for p in pts]
            el = s.new("el"); els.append(el); ids.append(co); s.lines.append((el, co))
        m = s.new("mat")
        vec = n > 1 or s.r.random() < 0.3
        if vec:
            l = [[2e-7 * (1 + s.real("L", 0, 1)) if i == j else 0 for j in range(n)] for i in range(n)]
            c = [[6e-11 * (1 + s.real("C", 0, 1)) if i == j else 0 for j in range(n)] for i in range(n)]
            for i in range(n):
                for j in range(i):
                    l[i][j] = l[j][i] = 2e-8 * s.real("Lm", 0.1, 1); c[i][j] = c[j][i] = -6e-12 * s.real("Cm", 0.1, 1)
            r = [s.real("R", 0.5, 9) for _ in range(n)]
            wire = dict(materialType="Multiwire", inductanceMatrix=l, capacitanceMatrix=c, resistanceVector=r)
            if s.r.random() < 0.3: r = [0.0] * n; del wire["resistanceVector"]            # nothing said: lossless
        else:
            l, c, r = 2e-7 * (1 + s.real("L", 0, 1)), 6e-11 * (1 + s.real("C", 0, 1)), s.real("R", 0.5, 9)
            wire = dict(materialType="Wire", inductance=l, capacitance=c, resistance=r)
        wire.update(materialId=m, name=f"wire{m}"); s.wires[m] = wire
        cab = dict(name=name, level=level, n=n, els=els, ids=ids, mat=m, l=l, c=c, r=r, vec=vec, pts=pts, ndiv=ndiv, conn={}, kids={i: [] for i in range(n)}, zt={})
        s.cables[name] = cab
        return cab
    def point(s, p):
        k = s.new("co"); s.points.append((k, p)); return k
    def impedance(s, direction=True):
        k = s.r.choice((0, 0, 1, 2))
        z = dict(cte=s.real("zc", 0.1, 3), prop=s.real("zp", 0.1, 3) * 1e-9,
                 poles=dict(real=[-1e8 * s.real("p", 1, 5) for _ in range(k)], imag=[0.0] * k),
                 residues=dict(real=[1e7 * s.real("q", 1, 5) for _ in range(k)], imag=[0.0] * k))
        if direction: z["direction"] = s.r.choice(("in", "out", "both"))
        if direction and s.r.random() < 0.4: z["factor"] = s.r.choice((2, 3, 4))
        return z
    def bundle(s, depth, k):
        segs = 1 if s.cells is not None else s.r.choice((1, 1, 2, 3)); o = [s.r.uniform(-1, 1) for _ in range(3)]; pts = [o]
        if s.bundles and s.r.random() < 0.5:                                              # a bundle may begin next to the end of another one, apart from it
            near = s.r.choice(s.bundles)["pts"][s.r.choice((0, -1))]; o[:] = [x + s.r.choice((-1, 1)) * 10 ** s.r.uniform(-4, -1) for x in near]
        axis = s.r.randrange(3)
        for _ in range(segs):
            d = [s.r.uniform(-0.3, 0.3) for _ in range(3)]; d[axis] += s.r.uniform(0.5, 1.0)
            pts.append([round(a + b, 6) for a, b in zip(pts[-1], d)])
        pts[0] = [round(x, 6) for x in pts[0]]
        ndiv = [s.r.randint(2, 4) for _ in range(segs)]
        if s.cells is not None: ndiv = s.cells
        elif segs == 1 and s.r.random() < 0.5: ndiv = ndiv[0]
        b = dict(name=f"bundle_{k}", pts=pts, ndiv=ndiv, roots=[])
        def grow(level, deeper):
            cab = s.cable(level, s.r.choice((1, 1, 2)), pts, ndiv); cab["bundle"] = b["name"]
            if deeper:
                kids = [i for i in range(cab["n"]) if s.r.random() < 0.7] or [s.r.randrange(cab["n"])]
                for i in kids:
                    for _ in range(s.r.choice((1, 1, 2))): cab["kids"][i].append(grow(level + 1, deeper - 1))
                s.wires[cab["mat"]]["transferImpedance"] = s.impedance()
            return cab
        b["roots"].append(grow(0, depth))
        b["levels"] = {}
        def walk(c):
            b["levels"].setdefault(c["level"], []).append(c)
            for i in range(c["n"]):
                for x in c["kids"][i]: walk(x)
        for c in b["roots"]: walk(c)
        s.bundles.append(b)
    # ---- ends
    def connector(s, n, kinds):
        """-> (material id, element of every conductor)"""
        old = s.shared.get((n, kinds))
        if old and s.r.random() < 0.25: return s.r.choice(old)
        s.shared.setdefault((n, kinds), []).append(s.connector_of(n, kinds))
        return s.shared[n, kinds][-1]
    def connector_of(s, n, kinds):
        m = s.new("mat"); d = dict(materialId=m, materialType="Connector", name=f"conn{m}")
        one = s.r.choice(kinds)
        def el(k):
            if k in ("R", "sRLC"): return ("R", s.real("Rt", 20, 90)) if s.r.random() < 0.85 else ("R", 0.0)
            if k == "C": return ("C", s.real("Ct", 1, 9) * 1e-12)
            if k == "LCpRs": return ("LC", s.real("Rt", 20, 90), s.real("Lt", 1, 9) * 1e-8, s.real("Ct", 1, 9) * 1e-11)
            return ("short",)
        if n == 1 and s.r.random() < 0.6 or s.r.random() < 0.25:
            e = el(one); d["connectorType"] = "Conn_" + one
            d.update(resistance=0.0, inductance=0.0, capacitance=BIG)
            if e[0] == "R": d["resistance"] = e[1]
            if e[0] == "C": d["capacitance"] = e[1]
            if e[0] == "LC": d["resistance"], d["inductance"], d["capacitance"] = e[1:]
            els = [e] * n
        else:
            ks = [s.r.choice(kinds) for _ in range(n)]; els = [el(k) for k in ks]
            d.update(connectorType="MultiwireConnector", connections=["Conn_" + k for k in ks],
                     resistanceVector=[e[1] if e[0] in ("R", "LC") else 0.0 for e in els],
                     inductanceVector=[e[2] if e[0] == "LC" else 0.0 for e in els],
                     capacitanceVector=[e[3] if e[0] == "LC" else e[1] if e[0] == "C" else BIG for e in els])
            if not any(e[0] == "LC" for e in els):                                        # a vector nobody needs may be absent
                if s.r.random() < 0.5: del d["inductanceVector"]
                if s.r.random() < 0.5 and not any(e[0] == "C" for e in els): del d["capacitanceVector"]
                if s.r.random() < 0.5 and not any(e[0] == "R" for e in els): del d["resistanceVector"]
        s.conns[m] = d
        return m, els
    def source(s):
        k = s.r.choice(("gaussian_2", "gaussian", "sin") if "bare" in s.feat else ("trapezoidal", "ramp", "gaussian_2", "gaussian", "sin_sq", "sin", "exp"))
        d = dict(type=k); A = lambda: s.r.uniform(1, 9)
        if k == "trapezoidal": d.update(amplitude=A(), rise_time=s.r.uniform(.5, 2) * 1e-9, fall_time=s.r.uniform(.5, 2) * 1e-9, f0=1e8, D=0.4)
        if k == "ramp": d.update(amplitude=A(), t0=s.r.uniform(1, 3) * 1e-9)
        if k == "gaussian_2": d.update(amplitude=A(), x0=2e-9 * A(), s0=1e-8)
        if k == "gaussian": d.update(x0=2e-9 * A(), s0=1e-8)
        if k in ("sin_sq", "sin"): d.update(amplitude=A(), frequency=s.r.uniform(1, 3) * 1e8)
        if k == "exp": d.update(amplitude=A(), t0=1e-8)
        return d
    def drive(s, x):
        """one or two sources at a cable end"""
        for _ in range(s.r.choice((1, 1, 1, 2))):
            x["src"].append(s.source())
            s.sources.append(dict(sourceType="TerminalSource", type="voltage", elemIds=[s.node(x["co"])], magnitude=x["src"][-1]))
    def node(s, co):
        e = s.new("el"); s.nodes.append((e, co)); return e
    def co_pos(s, k): return dict(s.points)[k]
    def end_ids(s, c, side): return [ids[0] if side == "S" else ids[-1] for ids in c["ids"]]
    def make(s):
        r = s.r
        for k in range(r.choice(s.sizes)): s.bundle(r.choice((0, 0, 1, 2)), k)
        free = [(c, side) for c in s.cables.values() for side in "SL"]
        r.shuffle(free)
        # junctions: ends of cables of one level of different bundles
        while s.has("junction", 0.7) and len(s.juncs) < 3:
            lv = r.choice(free)[0]["level"] if free else 0
            mixed = s.has("mixed", 0.35)                  # any levels, also of one bundle
            cand = [(c, d) for c, d in free if mixed or c["level"] == lv]
            pick, seen = [], set()
            for c, d in cand:
                if (c["bundle"] not in seen or mixed and not any(x is c for x, _ in pick)) and len(pick) < r.choice((2, 2, 3)): pick.append((c, d)); seen.add(c["bundle"])
            if len(pick) < 2: break
            for x in pick: free.remove(x)
            nodes = []
            for c, d in pick:
                m, els = s.connector(c["n"], ("R", "sRLC", "short", "short")); c["conn"][d] = m
                nodes.append([dict(co=k, cab=c, side=d, cond=i, el=els[i], src=[]) for i, k in enumerate(s.end_ids(c, d))])
            pairs = []
            for a in nodes[0]: pairs.append((a, r.choice(nodes[1])))
            for grp in nodes[1:]:
                for a in grp:
                    if not any(a is y for p in pairs for y in p): pairs.append((a, r.choice(nodes[0])))
            pairs = [p[::-1] if r.random() < 0.5 else p for p in pairs]; r.shuffle(pairs)
            touched = set()
            for p in pairs:
                if any(x["co"] in touched for x in p): continue
                own = [x for x in p if sum(x is y for q in pairs for y in q) == 1]
                if own and s.has("jsource", 0.4):
                    touched |= {x["co"] for x in p}
                    for x in own if r.random() < 0.4 else [r.choice(own)]: s.drive(x)
            s.juncs.append(dict(level=lv, pairs=pairs))
        # terminations: every other end, alone or with other cables of its level at the same end of its bundle
        while free:
            c, d = free.pop(); grp = [(c, d)]
            for x in list(free):
                if x[0]["level"] == c["level"] and x[1] == d and x[0]["bundle"] == c["bundle"] and r.random() < 0.4: grp.append(x); free.remove(x)
            lists = []
            for c, d in grp:
                m, els = s.connector(c["n"], ("R", "sRLC", "C", "LCpRs", "short")); c["conn"][d] = m
                l = [dict(co=k, cab=c, side=d, cond=i, el=els[i], src=[]) for i, k in enumerate(s.end_ids(c, d))]
                for x in l:
                    if s.has("tsource", 0.4): s.drive(x)
                if r.random() < 0.5 and len(l) > 1: lists += [[x] for x in l]
                else: r.shuffle(l); lists.append(l)
            s.terms.append(dict(level=grp[0][0]["level"], lists=lists))
        # connectors of the shields, lumped elements, distributed sources, probes
        for c in s.cables.values():
            for i in range(c["n"]):
                for d in "SL":
                    if s.has("end", 0.3):
                        m = s.new("mat"); e = dict(cab=c, cond=i, side=d, R=s.real("Rc", 0.1, 5), zt=s.impedance())
                        s.conns[m] = dict(materialId=m, materialType="Connector", name=f"end{m}", connectorType="Conn_R", resistance=e["R"], transferImpedance=e["zt"])
                        e["json"] = dict(name=f"end{m}", materialId=m, coordIds=[s.end_ids(c, d)[i]]); s.ends.append(e)
            if s.has("lumped", 0.3):
                # one element, or several of one cable: on different conductors, or at the two ends of one conductor
                where = [(s.along(c), r.randrange(c["n"]))]
                if "bare" not in s.feat and r.random() < 0.5:
                    i = r.randrange(c["n"]); where = [(c["pts"][0], i), (c["pts"][-1], i)]
                    where += [(s.along(c), k) for k in range(c["n"]) if k != i][:1]; r.shuffle(where)
                for pos, i in where:
                    m = s.new("mat"); z = s.impedance(False)
                    s.conns[m] = dict(materialId=m, materialType="Connector", name=f"lump{m}", connectorType="Conn_model", model=z)
                    s.lumped.append(dict(cab=c, cond=i, pos=pos, z=z, json=dict(cable=c["name"], conductor=i, materialId=m, coordIds=[s.point(pos)])))
        for b in s.bundles:
            for c in [x for lv in b["levels"].values() for x in lv]:
                if s.has("distributed", 0.3):
                    a, z = sorted(r.sample(range(len(b["pts"])), 2)) if len(b["pts"]) > 2 else (0, 1)
                    p, q = b["pts"][a], b["pts"][z]
                    if r.random() < 0.4: p = [round(x + (y - x) * 0.25, 9) for x, y in zip(b["pts"][a], b["pts"][a + 1])]
                    k = r.choice(("localized efield drive", "Planewave")); mg = s.source()
                    j = dict(sourceType="DistributedSource", type=k, cable=c["name"], elemIds=[s.node(s.point(p)), s.node(s.point(q))], magnitude=mg)
                    i = r.randrange(c["n"])
                    if i or r.random() < 0.5: j["conductor"] = i
                    s.sources.append(j); c.setdefault("drives", []).append((p, q, i, mg, k))
            for _ in range(0 if "bare" in s.feat else r.choice((1, 2))):
                c = r.choice([x for lv in b["levels"].values() for x in lv]); kind = r.choice(("voltage", "current"))
                if r.random() < 0.5:
                    pos = s.along(c); j = dict(type=kind, elemIds=[s.node(s.point(pos))], cable=c["name"])
                else:
                    k = r.choice(c["ids"][r.randrange(c["n"])]); pos = s.co_pos(k); j = dict(type=kind, elemIds=[s.node(k)])
                    if r.random() < 0.5: j["cable"] = c["name"]
                j["name"] = f"probe_{len(s.probes)}"; s.probes.append(dict(json=j, bundle=b["name"], pos=pos, kind=kind))
    def along(s, c):
        k = s.r.randrange(len(c["pts"]) - 1); a, b = c["pts"][k], c["pts"][k + 1]; t = s.r.choice((0, 0.25, 0.5, 1))
        return [x + (y - x) * t for x, y in zip(a, b)]
    # ---- the file
    def json(s, shuffle=None):
        mix = (lambda l: list(l)) if shuffle is None else (lambda l: shuffle.sample(list(l), len(l)))
        sp = lambda: " " if shuffle is None else shuffle.choice((" ", "  ", "\t"))
        def nest(cabs):
            flat = all(not c["kids"][i] for c in cabs for i in range(c["n"]))
            if flat: return " ".join(str(e) for c in cabs for e in c["els"])
            return {str(e): nest(c["kids"][i]) if c["kids"][i] else "" for c in cabs for i, e in enumerate(c["els"])}
        cables = [dict(name=c["name"], materialId=c["mat"], initialConnectorId=c["conn"]["S"], endConnectorId=c["conn"]["L"], elemIds=c["els"], ndiv=c["ndiv"]) for c in s.cables.values()]
        els = dict(line=[], polyline=[])
        for e, co in mix(s.lines): els["line" if len(co) == 2 else "polyline"].append(" ".join(str(x) for x in [e, s.r.randint(0, 60), s.r.randint(0, 60)] + co))
        els["node"] = [" ".join(str(x) for x in [e, s.r.randint(0, 60), s.r.randint(0, 60), co]) for e, co in mix(s.nodes)]
        if shuffle is not None: els = dict(mix(els.items()))
        els = {k: v for k, v in els.items() if v or k == "line"}
        m = dict(materials=mix(list(s.wires.values()) + list(s.conns.values())), coordinates=[f"{k}{sp()}{p[0]!r} {p[1]!r}{sp()}{p[2]!r}" for k, p in mix(s.points)],
                 elements=els, cables=mix(cables), bundles=mix([dict(name=b["name"], nestedElemIds=nest(b["roots"])) for b in s.bundles]),
                 junctions=mix([dict(name=f"j{i}", unitedCoordIds=[[a["co"], b["co"]] for a, b in j["pairs"]]) for i, j in enumerate(s.juncs)]),
                 terminations=mix([dict(name=f"t{i}", coordIds=[[x["co"] for x in l] for l in t["lists"]]) for i, t in enumerate(s.terms)]),
                 sources=mix(s.sources), probes=mix([p["json"] for p in s.probes]), cableEnds=mix([e["json"] for e in s.ends]), lumpedElements=mix([e["json"] for e in s.lumped]))
        if shuffle is not None: m = dict(mix(m.items()))
        return dict(model={k: v for k, v in m.items() if v or k in ("elements", "materials", "coordinates", "cables", "bundles")})

def wave(w, d):
    wf = w.mod("waveforms")
    k = d["type"]
    if k == "trapezoidal": return lambda t: wf.trapezoidal_wave(t, A=d["amplitude"], rise_time=d["rise_time"], fall_time=d["fall_time"], f0=d["f0"], D=d["D"])
    if k == "ramp": return lambda t: wf.ramp_pulse(t, A=d["amplitude"], x0=d["t0"])
    if k == "gaussian_2": return lambda t: wf.gaussian_2(t, A=d["amplitude"], x0=d["x0"], s0=d["s0"])
    if k == "gaussian": return lambda t: wf.gaussian(t, x0=d["x0"], s0=d["s0"])
    if k == "sin_sq": return lambda t: wf.sin_sq_pulse(t, A=d["amplitude"], w=d["frequency"])
    if k == "sin": return lambda t: wf.sin_pulse(t, A=d["amplitude"], w=d["frequency"])
    return lambda t: wf.exp(t, A=d["amplitude"], x0=d["t0"])

def drives(w, ds):
    """the sum of the waveforms of the sources at one place, 0 if there are none"""
    fs = [wave(w, d) for d in ds]
    return (lambda t: sum(f(t) for f in fs)) if fs else 0

def direct(w, g):
    """the model of a generated description, built from its parts -> (bundles by name, networks, probes by name)"""
    np, mtl, nw = w.np, w.mod("mtl"), w.mod("networks")
    bundles, probes, lines, nets = {}, {}, {}, []
    for b in g.bundles:
        levels = {}
        for lv in sorted(b["levels"]):
            levels[lv] = []
            for c in b["levels"][lv]:
                if c["vec"]:
                    n = c["n"]; r = np.zeros([n, n])
                    for i in range(n): r[i, i] = c["r"][i]
                    l, cc = np.array(c["l"]), np.array(c["c"])
                else: l, cc, r = c["l"], c["c"], c["r"]
                m = mtl.MTL(l=l, c=cc, r=r, node_positions=np.array(c["pts"]), ndiv=c["ndiv"], name=c["name"])
                for e in g.ends:
                    if e["cab"] is c:
                        m.set_resistance_in_region(c["pts"][0 if e["side"] == "S" else -1], c["pts"][0 if e["side"] == "S" else -1], e["cond"], e["R"])
                for e in g.lumped:
                    if e["cab"] is c: m.add_dispersive_connector(np.array([e["pos"]]), e["cond"], e["z"])
                levels[lv].append(m); lines[c["name"]] = m
        d = bundles[b["name"]] = mtl.MTLD(levels, name=b["name"])
        off = {}
        for lv in b["levels"]:
            k = 0
            for c in b["levels"][lv]: off[c["name"]] = k; k += c["n"]
        before = {}
        k = 0
        for lv in sorted(b["levels"]):
            for c in b["levels"][lv]: before[c["name"]] = k; k += c["n"]
        inner = lambda c, i: [off[x["name"]] + q for x in c["kids"][i] for q in range(x["n"])]
        for lv in sorted(b["levels"]):
            for c in b["levels"][lv]:
                for i in range(c["n"]):
                    if c["kids"][i]: d.add_transfer_impedance(lv, [off[c["name"]] + i], lv + 1, inner(c, i), g.wires[c["mat"]]["transferImpedance"])
        for e in g.ends:
            c = e["cab"]
            if c["bundle"] == b["name"] and c["kids"][e["cond"]]:
                d.set_connector_transfer_impedance("initial" if e["side"] == "S" else "end", c["level"], [off[c["name"]] + e["cond"]], c["level"] + 1, inner(c, e["cond"]), e["zt"])
        for lv in b["levels"]:
            for c in b["levels"][lv]:
                for p, q, i, mg, k in c.get("drives", []):
                    d.add_localized_longitudinal_field(p, q, before[c["name"]] + i, wave(w, mg), k)
        for p in g.probes:
            if p["bundle"] == b["name"]: probes[p["json"]["name"]] = d.add_probe(p["pos"], p["kind"])
    conn = lambda x: {"connectorType": {"R": "Conn_R", "C": "Conn_C", "LC": "Conn_LCpRs", "short": "Conn_short"}[x["el"][0]]}
    def network(level, nodes):
        desc = {}
        for x in nodes:
            e = desc.setdefault(lines[x["cab"]["name"]], {"side": x["side"], "bundle": bundles[x["cab"]["bundle"]], "connections": []})
            if not any(x["co"] == y[0] for y in e["connections"]): e["connections"].append([x["co"], x["cond"], conn(x)])
        return nw.Network(desc)
    for j in g.juncs:
        n = network(j["level"], [dict(x, el=("short",)) for p in j["pairs"] for x in p])
        for a, b in j["pairs"]:
            R, s = sum(x["el"][1] for x in (a, b) if x["el"][0] == "R"), drives(w, a["src"] + b["src"])
            if R == 0 and s == 0: n.short_nodes(a["co"], b["co"])
            else: n.connect_nodes(a["co"], b["co"], R or 1e-10, Vt=s)
        nets.append(nw.NetworkD({j["level"]: n}))
    for t in g.terms:
        n = network(t["level"], [x for l in t["lists"] for x in l])
        for x in [x for l in t["lists"] for x in l]:
            e = x["el"]; s = drives(w, x["src"])
            if (e[0] == "short" or e == ("R", 0)) and s == 0: n.short_to_ground(x["co"])
            elif e[0] in ("R", "short"): n.connect_to_ground_R(x["co"], e[1:] and e[1] or 1e-10, s)
            elif e[0] == "C": n.connect_to_ground_C(x["co"], e[1], s)
            else: n.connect_to_ground_LCpRs(x["co"], e[1], e[2], e[3], s)
        nets.append(nw.NetworkD({t["level"]: n}))
    return bundles, nets, probes

def parse(w, desc):
    f = _tempfile.NamedTemporaryFile("w", suffix=".json", delete=False)
    try:
        _json.dump(desc, f); f.close()
        return w.mod("jsonParser").Parser(f.name)
    finally: _os.unlink(f.name)

def generated(w, *feat):
    rng = _random.Random(w.inst.seed * 7919 + 13)
    return Gen(rng, lambda name, a, b: rng.uniform(a, b), feat), rng

def poles(z, k): return sum(z.v_sum(x) for x in (z.q1[k], z.q2[k], z.q3[k]))

@contract("P19", "cables and bundles", sym=False, seeds=60)
def cables(w):
    g, rng = generated(w)
    p = parse(w, g.json(rng)); want, _, _ = direct(w, g)
    got = {b.name: b for b in p.bundles}
    w.eq("the bundles", sorted(got) == sorted(want) and len(p.bundles) == len(want), True)
    for n, b in want.items():
        a = got[n]
        w.eq("the cables of every level, in order", [[l.name for l in a.levels[k]] for k in sorted(a.levels)] == [[l.name for l in b.levels[k]] for k in sorted(b.levels)], True)
        for q, what in (("u", "node positions"), ("du", "cells"), ("l", "inductance"), ("c", "capacitance"), ("r", "resistance, with the connectors at the ends of the cables"), ("g", "conductance")):
            w.same(what + " of the bundle", getattr(a, q), getattr(b, q))
        for k in b.levels:
            for x, y in zip(a.levels[k], b.levels[k]):
                for q, what in (("u", "node positions"), ("l", "inductance"), ("c", "capacitance"), ("r", "resistance")): w.same(what + " of the cable", getattr(x, q), getattr(y, q))
        z, y = a.transfer_impedance, b.transfer_impedance
        w.same("impedances, constant part", z.d, y.d); w.same("impedances, proportional part", z.e, y.e)
        w.same("impedances, poles", z.q1sum, y.q1sum); w.same("impedances, poles (previous current)", z.q2sum, y.q2sum)

def compare(w, g, p, steps=14, field=None):
    np = w.np
    bundles, nets, probes = direct(w, g)
    m = w.mod("mtln").MTLN(list(bundles.values()), nets)
    r = np.random.RandomState(g.r.randrange(2 ** 31))
    for b in p.bundles:
        o = bundles[b.name]
        o.v[:, :] = b.v[:, :] = r.uniform(-1, 1, o.v.shape); o.i[:, :] = b.i[:, :] = r.uniform(-.01, .01, o.i.shape)
    dt = m.dt * r.uniform(0.5, 1)
    if field is None and r.uniform() < 0.3: dt = 0
    T = (steps + 0.5) * (dt or m.dt)
    if field is None: p.run(T, dt)
    else:
        import sympy as sp
        x, y, z, t = sp.symbols("x y z t")
        E = lambda: w.mod("mtl").Field(30 + 9 * x - 7 * y + 5 * z + 1e9 * t, 8 - 3 * x + 2 * z + 2e9 * t, 12 + 4 * y - 1e9 * t)
        name = g.r.choice(sorted(bundles)); b = bundles[name]; k = b.levels[0][0].number_of_conductors
        far = np.zeros([k, len(b.u), 3])
        for q in range(k): far[q, :, r.randint(3)] = 0.002 * (q + 1)
        if len(bundles) == 1:
            p.runWithExternalField(T, dt, E(), far); m.add_external_field(E(), far)
        else:
            part = sorted(r.choice(len(b.u), 2, replace=False)); part = [b.u[part[0]], b.u[part[1]]]
            p.runWithLocalizedExternalField(T, dt, name, E(), far, part); m.add_localized_external_field(name, E(), far, part)
    m.run_until(T, dt)
    def near(what, a, b):
        a, b = np.asarray(a, float), np.asarray(b, float)
        w.eq(what + ": same extent", a.shape, b.shape)
        w.eq(what, bool(np.all(np.abs(a - b) <= 1e-5 * max(np.max(np.abs(b), initial=0), 1e-12))), True)
    for b in p.bundles:
        near("voltages after a run", b.v, bundles[b.name].v); near("currents after a run", b.i, bundles[b.name].i)
    w.eq("the probes", sorted(p.probes) == sorted(probes), True)
    for n in probes:
        w.eq("type of a probe", p.probes[n].type, probes[n].type)
        near("times recorded by a probe", p.probes[n].t, probes[n].t); near("values recorded by a probe", p.probes[n].val, probes[n].val)

@contract("P19", "a run of the described network", sym=False, seeds=120)
def whole(w):
    g, rng = generated(w)
    compare(w, g, parse(w, g.json(rng)))

@contract("P19", "a run of the described network in an incident field", sym=False, seeds=12)
def lit(w):
    g, rng = generated(w)
    compare(w, g, parse(w, g.json(rng)), steps=3, field=True)

for _f in ("junction", "tsource", "distributed", "lumped", "end", "mixed"):
    def _one(w, f=_f):
        g, rng = generated(w, *(("junction", f) if f == "mixed" else (f,)))
        compare(w, g, parse(w, g.json()))
    contract("P19", f"a run with {_f} entries only", sym=False, seeds=25)(_one)

# ---- the same for every value of the elements: the structure, positions and divisions are fixed, every electrical
# parameter of the file is arbitrary; the file is read through the real json module, numbers standing for "$k"
class _Json:
    def __init__(s, table): s.table = table
    def _fill(s, x):
        if isinstance(x, dict): return {k: s._fill(v) for k, v in x.items()}
        if isinstance(x, list): return [s._fill(v) for v in x]
        return s.table[x] if isinstance(x, str) and x in s.table else x
    def load(s, f): return s._fill(_json.load(f))
    def loads(s, t): return s._fill(_json.loads(t))

def symbolic(w, case, *feat, sizes=(1,)):
    rng = _random.Random(case * 7919 + 5)
    k = [0]
    def real(name, a, b):
        k[0] += 1
        v = w.real(f"{name}{k[0]}", pos=True)
        w.assume(v < 1e20)
        return v
    g = Gen(rng, real, feat, ndiv=w.int("cells", 2), sizes=sizes)
    table = {}
    def mark(x):
        if isinstance(x, dict): return {a: mark(b) for a, b in x.items()}
        if isinstance(x, (list, tuple)): return [mark(b) for b in x]
        if x is None or type(x) in (int, float, str, bool): return x
        key = f"$value {len(table)}"; table[key] = x
        return key
    f = _tempfile.NamedTemporaryFile("w", suffix=".json", delete=False)
    try:
        _json.dump(mark(g.json(rng)), f); f.close()
        jp = w.mod("jsonParser"); jp.json = _Json(table)
        return g, jp.Parser(f.name)
    finally: _os.unlink(f.name)

@contract("P19", "cables and bundles, any values", cases=(1, 2, 3), seeds=2, secs=200)
def cables_sym(w, case):
    g, p = symbolic(w, case, "bare")
    want, _, _ = direct(w, g)
    got = {b.name: b for b in p.bundles}
    w.eq("the bundles", sorted(got) == sorted(want) and len(p.bundles) == len(want), True)
    for n, b in want.items():
        a = got[n]
        for q, what in (("u", "node positions"), ("du", "cells"), ("l", "inductance"), ("c", "capacitance"), ("r", "resistance, with the connectors at the ends of the cables"), ("g", "conductance")):
            w.same(what + " of the bundle", getattr(a, q), getattr(b, q))
        z, y = a.transfer_impedance, b.transfer_impedance
        w.same("impedances, constant part", z.d, y.d); w.same("impedances, proportional part", z.e, y.e)

@contract("P19", "elements and sources at the ends of the cables, any values", cases=[(k, f) for f in ("plain", "sources", "junctions", "mixed levels") for k in (1, 2)], seeds=2, secs=250)
def ends_sym(w, case):
    k, f = case
    g, p = symbolic(w, k, "bare", *dict(plain=(), sources=("tsource",), junctions=("junction", "jsource"), **{"mixed levels": ("junction", "mixed")})[f], sizes=(1,) if f in ("plain", "sources") else (2,))
    nets = [nw for d in p.networks for nw in d.levels.values()]
    def at(nodes):
        """the one network of these cable ends"""
        here = [nw for nw in nets if any(x["co"] in nw.connections for x in nodes)]
        w.eq("one network for the ends joined", len(here), 1)
        nw = here[0]
        w.eq("the ends of a network", sorted(nw.connections) == sorted({x["co"] for x in nodes}), True)
        for x in nodes:
            c = nw.connections[x["co"]]
            w.eq("cable, conductor, bundle and end of a node", (c["line_name"], c["conductor"], c["bundle_name"], c["side"] == 0) == (x["cab"]["name"], x["cond"], x["cab"]["bundle"], x["side"] == "S"), True)
        n, ns = nw.number_of_nodes, nw.number_of_state_vars
        return nw, n, ns, anyhow(w, n, ns), (lambda x: nw.connections[x["co"]]["index"])
    def E(x, t): return sum(w.val(wave(w, d), t) for d in x["src"])
    def check(nw, n, ns, q, flow, states):
        for x, i, I in flow:
            w.eq("current of the elements at a cable end", inflow(w, nw, n, ns, q, i) * 1e-10, I * 1e-10)
        for s, d in states: w.eq("state of the elements at a cable end", slope(w, nw, n, ns, q, s), d)
    short = 1e10
    for t in g.terms:
        nodes = [x for l in t["lists"] for x in l]
        nw, n, ns, q, idx = at(nodes)
        flow, states = [], []
        for x in nodes:
            e, v = x["el"], q["v"][idx(x)]
            u = E(x, q["t"]); du = (u - E(x, q["t"] - q["dt"])) / q["dt"]
            if e[0] == "short" or e == ("R", 0): I = -1 * short * (v - u)
            elif e[0] == "R": I = -1 * (v - u) / e[1]
            elif e[0] == "C": I = -1 * e[1] * (q["dv"][idx(x)] - du)
            else:
                a, b = nw.connections[x["co"]]["state_index"]
                I = -1 * (v - u - q["X"][a]) / e[1]
                states += [(a, (-1 * I - q["X"][b]) / e[3]), (b, q["X"][a] / e[2])]
            flow.append((x, idx(x), I))
        check(nw, n, ns, q, flow, states)
    for j in g.juncs:
        nodes = [x for pr in j["pairs"] for x in pr]
        nw, n, ns, q, idx = at(nodes)
        total = {x["co"]: 0 for x in nodes}
        for a, b in j["pairs"]:
            R = sum(x["el"][1] for x in (a, b) if x["el"][0] == "R")
            I = (q["v"][idx(a)] - q["v"][idx(b)] - E(a, q["t"]) - E(b, q["t"])) * (short if type(R) in (int, float) and R == 0 else 1 / R)
            total[a["co"]] = total[a["co"]] - I; total[b["co"]] = total[b["co"]] + I
        check(nw, n, ns, q, [(x, idx(x), total[x["co"]]) for x in {x["co"]: x for x in nodes}.values()], [])
