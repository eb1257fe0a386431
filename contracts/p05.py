from .common import *

CONN = {"connectorType": "Conn_R", "resistance": 0}
# (conductors of every line per level: a number or "s" for any number, [(level, line, side)...] of each network)
CASES = (
    ("two levels up", (("s",), ("s", "s"), ("s", 2)), [[(2, 1, "L")]]),
    ("second line of a level", (("s",), ("s", 2, "s")), [[(1, 1, "S")]]),
    ("two lines in one network", (("s",), (1, "s", 2)), [[(1, 0, "S"), (1, 2, "S")]]),
    ("one network per level", ((1,), ("s", 1), (2,)), [[(0, 0, "L")], [(1, 1, "L")], [(2, 0, "L")]]),
    ("lines of two levels in one network", ((2,), ("s", 1)), [[(1, 1, "L"), (0, 0, "L")]]),
    ("three levels in one network", ((1,), ("s", 1), (2,)), [[(2, 0, "S"), (0, 0, "S"), (1, 1, "S")]]),
    ("both ends", ((2,), ("s",)), [[(0, 0, "L"), (0, 0, "S")]]),
)

def tube(w, sizes, tg="", name="tube"):
    mtl = w.mod("mtl")
    nx = w.int("nx" + tg, 2)
    lines, num = {}, {}
    for lv, row in enumerate(sizes):
        lines[lv] = []
        for j, s in enumerate(row):
            tag = f"{tg}{lv}{j}"
            n = w.int("n" + tag, 1) if s == "s" else s
            one = w.eye(n)
            if w.sym:
                m = mtl.MTL(l=1.0 * one, c=1.0 * one, ndiv=[nx], name=f"{'rqpzyxw'[j]} line" + tag)
                if lv == 0 and j == 0: L = w.arr("len" + tg, (nx,), pos=True); u = w.arr("u" + tg, (nx + 1, 3)); du = w.arr("du" + tg, (nx, 3))
                m.u = u; m.du = du
                m.du_norm = L.reshape(nx, 1, 1) * one
                m.connectors.u = m.u
            else:
                if lv == 0 and j == 0: L = w.arr("len" + tg, (nx,), pos=True); pos = positions(w, nx, L, tg)
                m = mtl.MTL(l=1.0 * one, c=1.0 * one, node_positions=pos, ndiv=[1] * nx, name=f"{'rqpzyxw'[j]} line" + tag)
            m.c[:, :, :] = w.arr("c" + tag, (nx + 1, n, n), dd=True); m.g[:, :, :] = w.arr("g" + tag, (nx + 1, n, n), dd=True)
            lines[lv].append(m); num[lv, j] = n
    return mtl.MTLD(lines, name=name), lines, num, nx, L

def wire(w, b, lines, num, nets):
    """the networks of a case -> (NetworkD, [(network, node number, line, offset, conductor, end)])"""
    networks = w.mod("networks")
    levels, where = {}, []
    node = 20
    for g in nets:
        d = {}
        both = len({(lv, j) for lv, j, s in g}) < len(g)
        for lv, j, side in g[:1] if both else g:
            conns = []
            for c in range(num[lv, j]):
                node -= 3
                conns.append([node, c, CONN])
            d[lines[lv][j]] = {"connections": conns[::-1], "side": side, "bundle": b}
        levels[g[0][0]] = networks.Network(d)
        for lv, j, side in g[:1] if both else g:
            off = 0
            for a in range(lv + 1):
                for q in range(len(lines[a])):
                    if a < lv or q < j: off = off + num[a, q]
            for nd, c, _ in d[lines[lv][j]]["connections"]:
                where.append((levels[g[0][0]], nd, lines[lv][j], off, c, 0 if side == "S" else -1))
    return networks.NetworkD(levels), where

def mapping(w, case, register):
    name, sizes, nets = case
    b, lines, num, nx, L = tube(w, sizes)
    M = w.mod("mtln").MTLN(); M.add_bundle(b)
    groups = [nets] if len({s for g in nets for _, _, s in g}) == 1 else [[[x]] for g in nets for x in g]
    made = [wire(w, b, lines, num, g) for g in groups]
    register(M, [m[0] for m in made])
    where = [x for m in made for x in m[1]]
    tot = b.number_of_conductors
    b.v[:, :] = w.arr("v", (tot, nx + 1)); b.i[:, :] = w.arr("i", (tot, nx)); b.e_T[:, :] = w.funarr("eT", (tot, nx + 1))
    dt = w.real("dt", pos=True)
    if not w.sym:                                          # prepared before, with other fields
        now = b.e_T.copy(); b.e_T[:, :] = w.funarr("earlier", (tot, nx + 1)); M.run_until(0.0, dt); b.e_T[:, :] = now
    M.run_until(0.0, dt)                                   # prepares the networks, no step
    idx = lambda nw, nd: nw.connections[nd]["index"]
    M.update_networks_current()
    t = w.real("t")
    for nw, nd, line, off, c, e in where:
        k = idx(nw, nd)
        w.eq("reads the end current of its conductor, counted into the line", nw.nw_i[k], (1 if e == 0 else -1) * b.i[off + c, e])
        w.eq("transverse field of its conductor and end", w.val(nw.e_T[k], t), w.val(b.e_T[off + c, e], t))
        for nw2, nd2, line2, off2, c2, e2 in where:
            if nw2 is not nw: continue
            k2 = idx(nw, nd2)
            same = line2 is line
            w.eq("capacitance of its own line", nw.c[k, k2], line.c[e, c, c2] if same else 0)
            w.eq("conductance of its own line", nw.g[k, k2], line.g[e, c, c2] if same else 0)
            w.eq("spacing of its own end", nw.dx[k, k2], L[e] if nd == nd2 else 0)
    old = w.copy(b.v)
    for nw in {id(x[0]): x[0] for x in where}.values():
        nw.nw_v = w.arr(f"net{len(nw.connections)}", (nw.number_of_nodes,))
    for nwd in M.networks: nwd.update_voltages(M.bundles)
    for nw, nd, line, off, c, e in where:
        w.eq("writes its voltage to its conductor and end", b.v[off + c, e], nw.nw_v[idx(nw, nd)])
    def other(a, k):
        hit = w.lor(*[w.land(a == off + c, k == (0 if e == 0 else nx)) for nw, nd, line, off, c, e in where])
        w.eq("no other voltage is touched", w.ind(w.lnot(hit)) * (b.v[a, k] - old[a, k]), 0)
    w.forall([("a", 0, tot), ("k", 0, nx + 1)], other)

@contract("P05", "network nodes sit on their conductors", cases=CASES, secs=250)
def one_by_one(w, case):
    def reg(M, nets):
        for x in nets: M.add_network(x)
    mapping(w, case, reg)

@contract("P05", "networks registered in bulk or again", cases=[(how,) + c for how in ("bulk", "again", "construction") for c in (CASES[1], CASES[3])], secs=250)
def bulk(w, case):
    def reg(M, nets):
        if case[0] == "construction":
            N = w.mod("mtln").MTLN(list(M.bundles.values()), list(nets))
            M.networks, M.bundles = N.networks, N.bundles
            return
        M.add_networks(list(nets))
        if case[0] == "again":
            for x in nets: x.update_index_numbers(M.bundles)
    mapping(w, case[1:], reg)

@contract("P05", "a node number is used once")
def twice(w):
    networks = w.mod("networks")
    b, lines, num, nx, L = tube(w, ((2,), (1,)))
    mk = lambda conns: (lambda: networks.Network({lines[0][0]: {"connections": conns, "side": "S", "bundle": b}}))
    w.raises("refused: the same node twice", mk([[4, 0, CONN], [4, 1, CONN]]))
    w.raises("refused: negative node", mk([[-1, 0, CONN], [4, 1, CONN]]))
    w.raises("refused: unknown side", lambda: networks.Network({lines[0][0]: {"connections": [[1, 0, CONN], [4, 1, CONN]], "side": "X", "bundle": b}}))
    w.raises("refused: no side", lambda: networks.Network({lines[0][0]: {"connections": [[1, 0, CONN], [4, 1, CONN]], "bundle": b}}))

@contract("P05", "ends of two bundles in one network", cases=[
    ((("s", ((2,), (1,))), ("t", ((1,), ("s", 2)))), [(0, 0, 0, "L"), (1, 1, 1, "S")]),
    ((("s", (("s",), (1,))), ("t", ((2,),))), [(0, 1, 0, "S"), (1, 0, 0, "S")]),
    ((("s", ((1,),)), ("t", ((1,),))), [(0, 0, 0, "L"), (1, 0, 0, "L")])], secs=250)
def two_bundles(w, case):
    parts, ends = case
    networks = w.mod("networks")
    B = [tube(w, sizes, tg, "tube" + tg) for tg, sizes in parts]
    M = w.mod("mtln").MTLN()
    for x in B[::-1]: M.add_bundle(x[0])
    d, where, node = {}, [], 40
    for k, lv, j, side in ends:
        b, lines, num, nx, L = B[k]
        off = 0
        for a in range(lv + 1):
            for q in range(len(lines[a])):
                if a < lv or q < j: off = off + num[a, q]
        conns = []
        for c in range(num[lv, j]):
            node -= 7; conns.append([node, c, CONN]); where.append((node, k, lines[lv][j], off, c, 0 if side == "S" else -1))
        d[lines[lv][j]] = {"connections": conns[::-1], "side": side, "bundle": b}
    nw = networks.Network(d)
    D = networks.NetworkD({ends[0][1]: nw})
    for k, (b, lines, num, nx, L) in enumerate(B):
        tot = b.number_of_conductors; tg = parts[k][0]
        b.v[:, :] = w.arr("v" + tg, (tot, nx + 1)); b.i[:, :] = w.arr("i" + tg, (tot, nx)); b.e_T[:, :] = w.funarr("eT" + tg, (tot, nx + 1))
    M.add_network(D)
    if not w.sym:                                          # prepared before, with other fields
        now = [x[0].e_T.copy() for x in B]
        for k, x in enumerate(B): x[0].e_T[:, :] = w.funarr(f"earlier{k}", now[k].shape)
        M.run_until(0.0, w.real("dt", pos=True))
        for k, x in enumerate(B): x[0].e_T[:, :] = now[k]
    M.run_until(0.0, w.real("dt", pos=True))
    M.update_networks_current()
    t = w.real("t"); idx = lambda nd: nw.connections[nd]["index"]
    for nd, k, line, off, c, e in where:
        b, L = B[k][0], B[k][4]
        w.eq("reads the end current of its conductor, counted into the line", nw.nw_i[idx(nd)], (1 if e == 0 else -1) * b.i[off + c, e])
        w.eq("transverse field of its conductor and end", w.val(nw.e_T[idx(nd)], t), w.val(b.e_T[off + c, e], t))
        for nd2, k2, line2, off2, c2, e2 in where:
            w.eq("capacitance of its own line", nw.c[idx(nd), idx(nd2)], line.c[e, c, c2] if line2 is line else 0)
            w.eq("conductance of its own line", nw.g[idx(nd), idx(nd2)], line.g[e, c, c2] if line2 is line else 0)
            w.eq("spacing of its own end", nw.dx[idx(nd), idx(nd2)], L[e] if nd == nd2 else 0)
    old = [w.copy(x[0].v) for x in B]
    nw.nw_v = w.arr("net", (nw.number_of_nodes,))
    D.update_voltages(M.bundles)
    for nd, k, line, off, c, e in where: w.eq("writes its voltage to its conductor and end", B[k][0].v[off + c, e], nw.nw_v[idx(nd)])
    for q, (b, lines, num, nx, L) in enumerate(B):
        def other(a, k):
            hit = w.lor(*[w.land(a == off + c, k == (0 if e == 0 else nx)) for nd, p, line, off, c, e in where if p == q])
            w.eq("no other voltage is touched", w.ind(w.lnot(hit)) * (b.v[a, k] - old[q][a, k]), 0)
        w.forall([("a", 0, b.number_of_conductors), ("k", 0, nx + 1)], other)
