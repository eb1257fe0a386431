from .common import *

def pars(w, *names):
    return [w.real(n, pos=True) for n in names]
def instant(w, case, **points):
    """an arbitrary instant, or one of the break points"""
    return w.real("t") if case == "any instant" else points[case]

# ---- numeric waveforms --------------------------------------------------------------------------------------------
@contract("P18", "smooth pulses", seeds=20)
def smooth(w):
    f = w.mod("waveforms")
    t = w.real("t"); A = w.real("A"); x0 = w.real("x0"); s0, tau, om, a, b = pars(w, "s0", "tau", "om", "a", "b")
    w.eq("exponential rise", f.exp(t, A, tau), A - A * w.exp(-t / tau))
    w.eq("exponential rise, two instants", f.exp(t + tau, A, tau) - A, (f.exp(t, A, tau) - A) * w.exp(w.num(-1.0)))
    w.eq("gaussian of unit height", f.gaussian(t, x0, s0), w.exp(-(t - x0) * (t - x0) / (2 * s0 * s0)))
    w.eq("gaussian", f.gaussian_2(t, A, x0, s0), A * w.exp(-(t - x0) * (t - x0) / (s0 * s0)))
    w.eq("sine", f.sin_pulse(t, A, om), A * w.sin(om * t))
    w.eq("double exponential", w.value(f.double_exp(t, A, a, b)), A * w.exp(-a * t) - A * w.exp(-b * t))
    w.eq("null", w.value(f.null(), n=t), 0)

@contract("P18", "pulses of finite support and ramps", cases=["any instant", "start", "end", "before", "after"], seeds=20)
def finite(w, case):
    f = w.mod("waveforms")
    A = w.real("A"); x0, om, dt = pars(w, "x0", "om", "dt")
    t = instant(w, case, start=w.num(0.0), end=x0, before=-dt, after=x0 + dt)
    zero = w.num(0.0)
    inside = w.land(t >= 0, t <= x0)
    w.eq("square pulse", f.square_pulse(t, A, x0), w.ite(inside, A, zero))
    w.eq("triangle pulse", f.triangle_pulse(t, A, x0), w.ite(inside, A * t / x0, zero))
    ramp = w.ite(t < 0, zero, w.ite(t <= x0, A * t / x0, A))
    w.eq("ramp", f.ramp_pulse(t, A, x0), ramp)
    r = w.value(f.ramp_pulse_sp(A, x0), t=t)
    w.eq("symbolic ramp", r, ramp)

@contract("P18", "half period of a squared sine", cases=["any instant", "start", "end"], seeds=20)
def sin_sq(w, case):
    f = w.mod("waveforms")
    A = w.real("A"); om, = pars(w, "om")
    t = instant(w, case, start=w.num(0.0), end=w.np.pi / om)
    if case == "any instant": w.assume(w.lnot(t == w.np.pi / om))       # the value there is 0 either way, next case
    exp = w.ite(w.land(t >= 0, t < w.np.pi / om), A * w.sin(om * t) * w.sin(om * t), w.num(0.0))
    w.eq("squared sine", f.sin_sq_pulse(t, A, om), w.num(0.0) if case == "end" else exp)

PH = ["rising", "plateau", "falling", "rest", "start", "top", "edge", "foot"]
def trapezoid(w, case):
    """rise, plateau and fall are fractions of a period; the plateau is what the duty cycle leaves.
    -> parameters, an instant of the first period, the value there"""
    a, b, c, T = pars(w, "rise", "plateau", "fall", "T"); A = w.real("A")
    if w.sym: ph = w.real("phase")
    else:
        th = abs(w.real("phase")); n = a + b + c + w.real("rest", pos=True)
        a, b, c = a / n, b / n, c / n
        lo, hi = dict(rising=(0, a), plateau=(a, a + b), falling=(a + b, a + b + c)).get(case, (a + b + c, 1))
        ph = lo + th * (hi - lo)
    w.assume(a + b + c < 1)
    if case in ("start", "top", "edge", "foot"): ph = dict(start=w.num(0.0), top=a, edge=a + b, foot=a + b + c)[case]
    else:
        w.assume(ph < 1); w.assume(ph > 0)
        lo, hi = dict(rising=(0, a), plateau=(a, a + b), falling=(a + b, a + b + c), rest=(a + b + c, 1))[case]
        w.assume(ph > lo); w.assume(ph < hi)
    val = dict(rising=A * ph / a, plateau=A, falling=A * (a + b + c - ph) / c, rest=w.num(0.0), start=w.num(0.0), top=A, edge=A, foot=w.num(0.0))[case]
    return (A, a * T, c * T, 1 / T, b + (a + c) / 2), ph * T, T, val

@contract("P18", "trapezoidal wave", cases=PH, seeds=20)
def trapezoidal(w, case):
    f = w.mod("waveforms")
    (A, tr, tf, f0, D), p, T, val = trapezoid(w, case)
    k = w.int("k", -3, 4)
    got = f.trapezoidal_wave(p + k * T, A, tr, tf, f0, D)
    w.eq("trapezoidal wave over its period", got, val, tol=1e-5)

@contract("P18", "symbolic trapezoidal wave", cases=[(n, c) for n in ("trapezoidal_wave_sp", "trapezoidal_wave_x_sp") for c in PH], seeds=12)
def trapezoidal_sp(w, case):
    name, case = case
    f = w.mod("waveforms")
    (A, tr, tf, f0, D), p, T, val = trapezoid(w, case)
    k = w.int("k", -3, 4)
    v = w.real("v", pos=True); x = w.real("x")
    e = getattr(f, name)(A, tr, tf, f0, D, v)
    got = w.value(e, t=p + k * T - x / v, x=x)
    w.eq("symbolic trapezoidal wave of the retarded time", got, val, tol=1e-5)

# ---- symbolic waveforms -------------------------------------------------------------------------------------------
@contract("P18", "symbolic ramps travel", cases=[(a, c) for a in "xyz" for c in ("any instant", "start", "end", "before", "after")], seeds=12)
def ramps(w, case):
    axis, case = case
    f = w.mod("waveforms")
    A = w.real("A"); x0, dt, v = pars(w, "x0", "dt", "v")
    p = {q: w.real(q) for q in "xyz"}
    ret = instant(w, case, start=w.num(0.0), end=x0, before=-dt, after=x0 + dt)
    zero = w.num(0.0)
    ramp = w.ite(ret < 0, zero, w.ite(ret <= x0, A * ret / x0, A))
    e = getattr(f, f"ramp_pulse_{axis}_sp")(A, x0, v)
    w.eq("symbolic ramp of the retarded time", w.value(e, t=ret - p[axis] / v, v=v, **p), ramp)

@contract("P18", "symbolic double exponentials and gaussians", seeds=12)
def dexp(w):
    f = w.mod("waveforms")
    C, x0, t = w.real("C"), w.real("x0"), w.real("t"); a, b, v, s0 = pars(w, "a", "b", "v", "s0")
    p = {q: w.real(q) for q in "xyz"}
    for axes in ("", "xy", "yz", "xz"):
        e = getattr(f, f"double_exp_{axes}_sp" if axes else "double_exp_sp")(C, a, b)
        ret = t + sum(p[q] / v for q in axes)
        w.eq(f"symbolic double exponential {axes}", w.value(e, t=t, v=v, **p), C * w.exp(-a * ret) - C * w.exp(-b * ret))
    w.eq("symbolic gaussian", w.value(f.gaussian_2_sp(C, x0, s0), t=t, **p), C * w.exp(-(t - x0) * (t - x0) / (s0 * s0)))

# ---- arrays of instants -------------------------------------------------------------------------------------------
ELEMENTWISE = ["exp", "gaussian", "gaussian_2", "square_pulse", "triangle_pulse", "sin_sq_pulse", "sin_pulse", "ramp_pulse"]
@contract("P18", "waveforms of an array of instants", cases=ELEMENTWISE, seeds=20)
def vectors(w, name):
    f = getattr(w.mod("waveforms"), name)
    n = w.int("instants", 1)
    t = w.arr("t", (n,)); A = w.real("A"); x0, s0, om = pars(w, "x0", "s0", "om")
    if not w.sym and n > 2: t[0] = 0.0; t[1] = x0
    p = dict(exp=(A, s0), gaussian=(x0, s0), gaussian_2=(A, x0, s0), sin_sq_pulse=(A, om), sin_pulse=(A, om)).get(name, (A, x0))
    out = f(t, *p)
    w.shape("one value per instant", out, (n,))
    w.forall([("q", 0, n)], lambda q: w.eq("each value is that of its instant", out[q], f(t[q], *p)))

@contract("P18", "trapezoidal wave of an array of instants", seeds=30, sym=False)
def trapezoidal_vector(w):
    f = w.mod("waveforms")
    (A, tr, tf, f0, D), p, T, val = trapezoid(w, "rising")
    n = w.int("instants", 1)
    t = 3 * T * w.arr("t", (n,)); t[0] = p
    out = f.trapezoidal_wave(t, A, tr, tf, f0, D)
    w.shape("one value per instant", out, (n,))
    for q in range(n): w.eq("each value is that of its instant", out[q], f.trapezoidal_wave(t[q], A, tr, tf, f0, D))
    w.eq("rising edge", out[0], val, tol=1e-5)
