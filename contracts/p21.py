from .common import *

def rl(w, *names): return [w.real(n, pos=True) for n in names]
def freqs(w):
    """a vector of frequencies"""
    nf = w.int("nf", 1)
    return nf, w.arr("f", (nf,), pos=True)
def jw(w, f): return w.cplx(0.0, 2 * w.np.pi * f)

@contract("P21", "pole-residue sums", seeds=20)
def polres(w):
    u = w.mod("VF.utils")
    nf, f = freqs(w)
    n = w.int("np", 1)
    p, r = w.arr("p", (n,)), w.arr("r", (n,))

    out = u.vf(f, p, r)
    w.forall([("q", 0, nf)], lambda q: w.eq("sum of r / (j w - p)", out[q], w.sum(n, lambda k: r[k] / (jw(w, f[q]) - p[k]))))
    def one(k):
        e = u.vfi(f, p, r, k)
        w.forall([("q", 0, nf)], lambda q: w.eq("one term", e[q] * (jw(w, f[q]) - p[k]), r[k]))
    w.forall([("k", 0, n)], one)

@contract("P21", "Debye permittivity", seeds=20)
def debye(w):
    u = w.mod("VF.utils")
    nf, f = freqs(w)
    n = w.int("np", 1)
    k, tau = w.arr("k", (n,)), w.arr("tau", (n,), pos=True)
    out = u.epsDebye(f, k, tau)
    w.forall([("q", 0, nf)], lambda q: w.eq("1 + sum of k / (1 + j w tau)", out[q], 1 + w.sum(n, lambda s: k[s] / (1 + jw(w, f[q]) * tau[s]))))

@contract("P21", "parallel RL and RC, series R with dispersive L, and reciprocals", seeds=20)
def rlc(w):
    u = w.mod("VF.utils")
    nf, f = freqs(w)
    R, L, C, n = rl(w, "R", "L", "C", "n")
    rlp, rcp, rls, y = u.RLpar(f, R, L), u.RCpar(f, R, C), u.RLseriesDisp(f, R, L, n), u.Y_RLseriesDisp(f, R, L, n)
    def at(q):
        s = jw(w, f[q])
        w.eq("R parallel L", rlp[q] * (1 / R + 1 / (s * L)), 1)
        w.eq("R parallel C", rcp[q] * (1 / R + s * C), 1)
        w.eq("R in series with L w^n", rls[q], R + w.cplx(0.0, 1.0) * L * (2 * w.np.pi * f[q]) ** n)
        w.eq("the admittance is the reciprocal", y[q] * rls[q], 1)
    w.forall([("q", 0, nf)], at)

@contract("P21", "gaussian band impedance and its reciprocal", seeds=20)
def zw(w):
    u = w.mod("VF.utils")
    nf, f = freqs(w)
    f0, R, s = rl(w, "f0", "R", "sigma")
    Z, Y = u.Zw(f, f0, R, s), u.Y_Zw(f, f0, R, s)
    def at(q):
        d = f[q] - f0
        w.eq("gaussian around f0", Z[q], R * w.cplx(1.0, 2.5) * w.exp(-d * d / (2 * s * s)))
        w.eq("the admittance is the reciprocal", Z[q] * Y[q], 1)
    w.forall([("q", 0, nf)], at)

@contract("P21", "skin-effect impedance", cases=("below", "above", "at the corner"), seeds=20)
def skin(w, where):
    u = w.mod("VF.utils")
    f0, rdc, x = rl(w, "f0", "rdc", "x")
    f = f0
    if where == "below": f0 = f + x
    if where == "above": f = f0 + x
    Z = u.z(w.np.array([f]), f0, rdc)
    j = w.cplx(0.0, 1.0)
    w.shape("one value per frequency", Z, (1,))
    w.eq("resistive with an internal reactance below the corner, square root of the frequency above", Z[0],
         rdc * (1 + j * f / f0) if where == "below" else rdc * (1 + j) * w.sqrt(f / f0))

@contract("P21", "skin-effect impedance at a vector of frequencies", seeds=20)
def skin_vec(w):
    u = w.mod("VF.utils")
    nf, f = freqs(w)
    f0, rdc = rl(w, "f0", "rdc")
    Z = u.z(f, f0, rdc)
    j = w.cplx(0.0, 1.0)
    w.forall([("q", 0, nf)], lambda q: w.eq("each frequency by its own branch", Z[q], w.ite(f[q] <= f0, w.num(rdc) * (1 + j * f[q] / f0), w.num(rdc) * (1 + j) * w.sqrt(f[q] / f0))))

@contract("P21", "Debye permittivity with a relative error", seeds=20, sym=False)
def debye_err(w):
    u = w.mod("VF.utils")
    nf, f = freqs(w)
    n = w.int("np", 1)
    k, tau = w.arr("k", (n,)), w.arr("tau", (n,), pos=True)
    p = w.real("p", pos=True)
    ref = u.epsDebye(f, k, tau)
    exact, out = u.epsDebyeErr(f, k, tau, 0.0), u.epsDebyeErr(f, k, tau, p)
    w.shape("one value per frequency", out, (nf,))
    def at(q):
        w.eq("no error asked: the Debye permittivity", exact[q], ref[q])
        w.check("the susceptibility is off by at most the error asked", w.abs(out[q] - ref[q]) <= (p / 100) * w.abs(ref[q] - 1) * (1 + 1e-9))
        w.eq("the error is a real factor of the susceptibility", w.im((out[q] - 1) / (ref[q] - 1)), 0)
    w.forall([("q", 0, nf)], at)
