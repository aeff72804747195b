"""S05-S07: minima, saddle points, modes, Floquet exponents, static analysis."""
import math
import re

import numpy as np
from scipy import constants as ct
from scipy import integrate

from electrode import saddle as saddle_mod
from electrode import utils
from electrode.system import System

from .. import gen, jets, oracles, traps
from ..core import scenario


# ------------------------------------------------------------------ helpers
def make_trap(c, scales=True, kind=None):
    """A confining trap: descs, dcs, rfs, coeff, true minimum (oracle), Hessian there."""
    for _ in range(20):
        scale = c.choice([1., 1., 1., .2, 40.]) if scales else 1.
        f = kind or c.choice([traps.ring_trap, traps.ring_trap, traps.five_wire])
        descs, pat, x0 = f(c, scale)
        pat = np.array(pat)
        coeff = c.choice([1., c.logu(1e-3, 10.)])
        # curvature of order one
        j = traps.weighted_jet(x0[None], descs, pat, 2)
        k = np.abs(jets.full(j, 2)).max().astype(float)
        rfs = pat*c.uniform(.7, 1.4)/(coeff*k)
        dcs = np.where(pat == 0, c.rng.normal(size=len(pat)), 0)*.05*scale**2
        if f is traps.five_wire:
            dcs[2:8] = np.array([1, 1, -1, -1, 1, 1])*c.uniform(.4, 1.)*scale**2 + c.rng.normal(size=6)*.05*scale**2
            dcs[8] = 0.
        if c.chance(.15):
            dcs = 0*dcs
        r = traps.stationary(x0, descs, dcs, rfs, coeff)
        if r is None:
            continue
        y, g, h = r
        ew = np.linalg.eigvalsh(h)
        if ew[0] > 0 and ew[2] < 60*ew[0] and np.linalg.norm(y-x0) < .5*y[2]:
            return dict(descs=descs, dcs=dcs, rfs=rfs, coeff=coeff, x=y, h=h, ew=ew, scale=scale,
                        kind=f.__name__)
    c.count("no-trap-found")
    return None


def make(t):
    s = traps.build_all(t["descs"], t["dcs"], t["rfs"])
    s.rf_coeff = t["coeff"]
    return s


def random_coord(c):
    k = c.integers(0, 3)
    if k == 0:
        return np.eye(3), "identity"
    if k == 1:
        a = c.uniform(0, 2*np.pi)
        return np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1.]]), "azimuth"
    if k == 2:
        return np.eye(3)[c.rng.permutation(3)], "permutation"
    return gen.rotation(c.rng), "rotation"


def attempt(c, fun, arg, x0, y, **kw):
    """The documented failure (ValueError: no convergence, e.g. precision loss at rounding level) is
    acceptable once in a while, so retry from other starts before judging it."""
    for k in range(4):
        try:
            return fun(arg, **kw)
        except ValueError as e:
            err = e
            c.count("solver-retried")
            d = y-x0
            arg = x0+d*(.5, 1.3, .8, .2)[k]
    c.giveup("no convergence from four starts: %s" % err)


AXES = [(0, 1, 2), (0, 1, 2), (0, 1), (1, 2), (0, 2), (2,), (0,), (1,), (2, 1), (2, 0, 1)]


# ------------------------------------------------------------------ S05
@scenario("S05", quick=120, thorough=5000)
def minimum(c):
    t = make_trap(c)
    if t is None:
        return
    s = make(t)
    C, ck = random_coord(c)
    axis = c.choice(AXES)
    z = t["x"][2]
    base = C.T @ t["x"]
    start = base.copy()
    if len(axis) < 3 and c.chance(.5):       # off the true minimum along the frozen axes
        fr = [a for a in range(3) if a not in axis]
        start[fr] += c.rng.normal(size=len(fr))*.03*z
    r = traps.stationary(start, t["descs"], t["dcs"], t["rfs"], t["coeff"], C, axis)
    if r is None:
        return
    y, g, h = r
    ha = h[np.ix_(list(axis), list(axis))]
    ew = np.linalg.eigvalsh(ha)
    if ew[0] <= 0 or ew[-1] > 100*ew[0] or np.abs(y-start).max() > .2*z:
        return
    x0 = y.copy()
    x0[list(axis)] += c.rng.normal(size=len(axis))*c.choice([.003, .02, .05])*z
    fr = [a for a in range(3) if a not in axis]
    meth = c.choice(["default", "default", "Newton-CG", "Nelder-Mead", "tight"])
    kw = {}
    if meth in ("Newton-CG", "Nelder-Mead"):
        kw["method"] = meth
    if meth == "tight":
        kw["options"] = {"xtol": 1e-7*t["scale"]}
    elif meth == "Nelder-Mead":
        kw["options"] = {"xatol": 1e-6*t["scale"], "fatol": 1e-12*t["ew"][0]*t["scale"]**2}
    elif t["scale"] > 1:         # the default tolerance is absolute
        kw["options"] = {"xtol": 1e-5*t["scale"]}
    if ck != "identity" or c.chance(.3):
        kw["coord"] = C
    if tuple(axis) != (0, 1, 2) or c.chance(.3):
        kw["axis"] = axis
    form = c.choice(["array", "list", "tuple"])
    arg = {"array": x0.copy(), "list": list(x0), "tuple": tuple(x0)}[form]
    c.note(trap=t["kind"], scale=t["scale"], axis=axis, coord=ck, method=meth, x0=x0, truth=y, coeff=t["coeff"])
    c.state(t["kind"], t["scale"], axis, ck, meth, form)
    before = s.dcs, s.rfs
    got = attempt(c, s.minimum, arg, x0, y, **kw)
    c.same_array(np.asarray(arg), x0, "start-unchanged")
    c.same_array(s.dcs, before[0], "voltages-unchanged")
    c.same_array(s.rfs, before[1], "voltages-unchanged")
    got = np.asarray(got)
    c.equal(got.shape, (3,), "shape")
    if fr:
        c.same_array(got[fr], x0[fr], "frozen-axes-stay")
    tol = {"Nelder-Mead": 1e-3, "tight": 1e-4}.get(meth, 2e-3)
    c.close(got, y, "reaches-the-minimum", rtol=0, atol=tol*z)


@scenario("S05", quick=48, thorough=1500)
def integer_start(c):
    """Integer-valued start points are positions like any other."""
    t = make_trap(c, scales=False, kind=traps.ring_trap)
    if t is None:
        return
    z = t["x"][2]
    # scale the trap so that an integer point lies close to the minimum
    k = 2*max(1, int(round(z*c.choice([3, 6]))))/(2*z)*c.uniform(.99, 1.01)
    d2 = [dict(d, paths=[p*k for p in d["paths"]]) for d in t["descs"]]
    x0 = np.rint(t["x"]*k).astype(int)
    r = traps.stationary(x0, d2, t["dcs"], t["rfs"], t["coeff"]*k)
    if r is None:
        return
    s = traps.build_all(d2, t["dcs"], t["rfs"])
    s.rf_coeff = t["coeff"]*k
    c.note(x0=x0, truth=r[0], factor=k)
    c.state(x0, round(k, 6))
    if np.linalg.eigvalsh(r[2])[0] <= 0 or np.abs(r[0]-x0).max() > .2*x0[2]:
        return
    arg = c.choice([list(map(int, x0)), tuple(map(int, x0)), x0])
    sc = 1e-9
    got = s.minimum(arg, options={"xtol": sc})
    c.close(got, r[0], "reaches-the-minimum", rtol=0, atol=1e-4*x0[2])


@scenario("S05", quick=64, thorough=1500)
def minimum_reports_failure(c):
    """Either a stationary point or an error: never a silent non-minimum."""
    t = make_trap(c, scales=False, kind=traps.ring_trap)
    if t is None:
        return
    s = make(t)
    z = t["x"][2]
    x0 = t["x"]+c.rng.normal(size=3)*.1*z
    if np.linalg.norm(x0-t["x"]) < .03*z:
        x0[0] += .06*z
    n = c.integers(1, 3)
    kind = c.choice(["Newton-CG", "Newton-CG", "Nelder-Mead", "Nelder-Mead-evaluations", "BFGS", "Powell", "no-gradient"])
    kw = dict(options={"maxiter": n, "xtol": 1e-9})
    if kind.startswith("Nelder"):
        kw = dict(method="Nelder-Mead", options={"xatol": 1e-12, "fatol": 1e-14})
        kw["options"].update({"maxfev": 4+n} if kind.endswith("s") else {"maxiter": n})
    elif kind == "BFGS":
        kw = dict(method="BFGS", options={"maxiter": n, "gtol": 1e-12})
    elif kind == "Powell":
        kw = dict(method="Powell", options={"maxfev": 3+n, "xtol": 1e-12, "ftol": 1e-12})
    elif kind == "no-gradient":
        # nothing of the system confines: there is no minimum to be found
        s.rf_coeff = 0.
        s.dcs = np.where(np.arange(len(s)) == c.integers(0, len(s)-1), 1., 0.)
        kw = dict(method="Nelder-Mead", options={"xatol": 1e-9, "fatol": 1e-12, "maxiter": 25})
    c.note(x0=x0, maxiter=n, kind=kind)
    c.state(n, kind, np.round(x0, 6).tolist())
    try:
        got = s.minimum(x0, **kw)
    except ValueError:
        c.count("failure-reported")
        return
    if kind == "no-gradient":
        c.fail("failure-reported", "harmonic potentials have no minima", returned=got)
    c.close(got, t["x"], "returned-point-is-a-minimum", rtol=0, atol=1e-3*z)


@scenario("S05", quick=120, thorough=3000)
def minimum_callbacks(c):
    """What a minimisation method (here: a recording one, scipy accepts callables) gets to work with are the
    potential along the searched axes and its derivatives."""
    from scipy.optimize import OptimizeResult
    t = make_trap(c)
    if t is None:
        return
    s = make(t)
    C, ck = random_coord(c)
    axis = c.choice(AXES)
    ax = list(axis)
    z = t["x"][2]
    x0 = C.T @ (t["x"]+c.rng.normal(size=3)*.1*z)
    ts = [x0[ax]+c.rng.normal(size=len(ax))*.1*z for i in range(3)]
    rec = []

    def method(fun, x0, args=(), jac=None, hess=None, **kw):
        rec.append(("start", np.array(x0, float), None))
        for y in ts:
            rec.append(("f", y, np.array(fun(y, *args), float)))
            if callable(jac):
                rec.append(("g", y, np.array(jac(y, *args), float)))
            if callable(hess):
                rec.append(("h", y, np.array(hess(y, *args), float)))
        return OptimizeResult(x=ts[-1], success=True, message="", status=0, fun=0., nfev=1)
    kw = {}
    if ck != "identity":
        kw["coord"] = C
    c.note(trap=t["kind"], axis=axis, coord=ck, x0=x0)
    c.state(t["kind"], axis, ck, t["scale"])
    got = s.minimum(x0, axis=axis, method=method, **kw)
    want = x0.copy()
    want[ax] = ts[-1]
    c.close(got, want, "result-of-the-method", rtol=1e-14)
    for k, y, v in rec:
        if k == "start":
            c.close(y, x0[ax], "start-along-the-axes", rtol=1e-14)
            continue
        p = x0.copy()
        p[ax] = y
        q = C @ p
        if not q[2] > .2*z:
            continue
        j = traps.total_jet(q[None], t["descs"], t["dcs"], t["rfs"], t["coeff"], 2)
        o = "fgh".index(k)
        w = [float(j.c[0][0]), jets.full(j, 1)[0].astype(float) @ C,
             C.T @ jets.full(j, 2)[0].astype(float) @ C][o]
        w = [w, w if o < 1 else w[ax], w if o < 2 else w[np.ix_(ax, ax)]][o]
        sc = max(np.abs(t["ew"]).max()*z**(2-o), np.abs(w).max())
        c.close(v, w, {"f": "objective", "g": "objective-gradient", "h": "objective-curvature"}[k], rtol=1e-6, scale=sc)


@scenario("S05", quick=96, thorough=3000)
def saddle(c):
    t = make_trap(c, kind=traps.ring_trap)
    if t is None:
        return
    d, sc = t["descs"], t["scale"]
    found = None
    for f in (1.6, 2., 2.5, 1.3, 3.):
        r = traps.stationary(t["x"]*[1, 1, f], d, t["dcs"], t["rfs"], t["coeff"])
        if r is not None:
            ew = np.linalg.eigvalsh(r[2])
            if ew[0] < 0 < ew[1] and np.abs(ew).max() < 200*np.abs(ew).min() and r[0][2] < 6*t["x"][2]:
                found = r
                break
    if found is None:
        c.count("no-saddle-found")
        return
    y, g, h = found
    z = y[2]
    s = make(t)
    C, ck = random_coord(c)
    yc = C.T @ y
    w, v = np.linalg.eigh(h)
    axis = (0, 1, 2)
    x0 = yc+c.rng.normal(size=3)*c.choice([.002, .01, .02])*z
    kw = {"ftol": 1e-13, "xtol": 1e-8, "maxiter": 500, "dx_max": .1*z}
    if ck != "identity":
        kw["coord"] = C
    if c.chance(.3):
        # one frozen axis: the restricted problem has its own stationary point
        axis = c.choice([(0, 2), (1, 2), (2, 1)]) if ck in ("identity", "azimuth") else axis
    ax = list(axis)
    fr = [a for a in range(3) if a not in ax]
    if fr:
        r = traps.stationary(x0, d, t["dcs"], t["rfs"], t["coeff"], C, axis)
        if r is None:
            return
        yc, hc = r[0], r[2]
        ew = np.linalg.eigvalsh(hc[np.ix_(ax, ax)])
        if not (ew[0] < 0 < ew[1]) or np.abs(yc-x0).max() > .05*z:
            return
        kw["axis"] = axis
    c.note(scale=sc, coord=ck, axis=axis, x0=x0, truth=yc, curvatures=w)
    c.state(sc, ck, axis, np.round(x0/z, 3).tolist())
    keep = x0.copy()
    got, p = s.saddle(x0 if c.chance(.5) else list(x0), **kw)
    c.same_array(x0, keep, "start-unchanged")
    if fr:
        c.same_array(np.asarray(got)[fr], x0[fr], "frozen-axes-stay")
    c.close(got, yc, "reaches-the-saddle", rtol=0, atol=2e-4*z)
    tj = traps.total_jet((C @ np.asarray(got))[None], d, t["dcs"], t["rfs"], t["coeff"], 0)
    c.close(p, float(tj.c[0][0]), "height-is-the-potential-there", rtol=1e-8, scale=abs(t["ew"][0])*z*z)


@scenario("S05", quick=48, thorough=1500)
def saddle_kind(c):
    """Wherever the search starts, what it reports as a saddle point has an unstable direction."""
    t = make_trap(c)
    if t is None:
        return
    s, z = make(t), t["x"][2]
    k = c.choice(["minimum", "near-minimum", "anywhere", "above"])
    x0 = t["x"].copy()
    if k == "near-minimum":
        x0 += c.rng.normal(size=3)*z*c.choice([1e-9, 1e-6, 1e-3])
    elif k == "anywhere":
        x0 = t["x"]*np.r_[1, 1, c.uniform(.7, 2.5)]+c.rng.normal(size=3)*z*.3*np.r_[1, 1, 0]
    elif k == "above":
        x0 = t["x"]*np.r_[1, 1, c.uniform(1.2, 2.5)]
    C, ck = random_coord(c)
    axis = c.choice([(0, 1, 2), (0, 1, 2), (0, 2), (1, 2), (2,)])
    kw = {"dx_max": .1*z}
    if ck != "identity":
        kw["coord"] = C
    if axis != (0, 1, 2):
        kw["axis"] = axis
    y0 = C.T @ x0
    keep = y0.copy()
    c.note(kind=k, trap=t["kind"], coord=ck, axis=axis, x0=x0)
    c.state(k, t["kind"], ck, axis, np.round(x0/z, 4).tolist())
    if c.chance(.3):
        del kw["dx_max"]
        step = .1
    else:
        step = kw["dx_max"]
    seen = []
    pot_ = s.potential

    def spy(x, derivative=0):
        v = pot_(x, derivative)
        seen.append((np.array(x, float), derivative, np.array(v)))
        return v
    s.potential = spy
    try:
        got, p = s.saddle(y0, **kw)
    except ValueError:
        c.count("no-saddle-reported")
        c.same_array(y0, keep, "start-unchanged")
        return
    finally:
        del s.potential
    c.same_array(y0, keep, "start-unchanged")
    ax = list(axis)
    # the walk: steps stay below the limit, and it ends when the last step is small
    walk = [C.T @ i[0] for i in seen if i[1] == 0 and i[0].shape == (3,)]
    vals = [float(i[2].ravel()[0]) for i in seen if i[1] == 0 and i[0].shape == (3,)]
    if len(walk) > 1:
        d_ = np.linalg.norm(np.diff(walk, axis=0), axis=1)
        c.ok(d_.max() <= step*(1+1e-9)+1e-12, "steps-stay-below-the-limit", "%g, limit %g" % (d_.max(), step))
        dv = 2*abs(vals[-1]-vals[-2])/max(abs(vals[-1])+abs(vals[-2]), 1e-20)
        dx = 2*d_[-1]/max(np.linalg.norm(walk[-1][ax])+np.linalg.norm(walk[-2][ax]), 1e-20)
        c.ok(dv <= 1.01e-5 or dx <= 1.01e-5, "ends-when-converged", "value %g, step %g" % (dv, dx))
        c.count("walks")
    fr = [a for a in range(3) if a not in ax]
    c.same_array(np.asarray(got)[fr], y0[fr], "frozen-axes-stay")
    x = C @ np.asarray(got)
    if not x[2] > .05*z or np.linalg.norm(x) > 50*z:
        c.count("ran-away")
        return
    j = traps.total_jet(x[None], t["descs"], t["dcs"], t["rfs"], t["coeff"], 2)
    h = (C.T @ jets.full(j, 2)[0].astype(float) @ C)[np.ix_(ax, ax)]
    w = np.linalg.eigvalsh(h)
    c.ok(w[0] < 1e-9*np.abs(w).max(), "saddle-has-an-unstable-direction", "curvatures %s" % w)
    pot = float(j.c[0][0])
    c.close(p, pot, "height-is-the-potential-there", rtol=1e-7,
            scale=max(abs(pot), np.abs(t["ew"]).max()*z*z))


@scenario("S05", quick=200, thorough=4000)
def rfo(c):
    """Rational function optimisation of quadratic-plus-cubic functions of any dimension."""
    n = c.integers(1, 6)
    q = np.linalg.qr(c.rng.normal(size=(n, n)))[0]
    ew = np.r_[-c.uniform(.5, 3), c.rng.uniform(.5, 3, n-1)]
    A = q @ np.diag(ew) @ q.T
    x1 = c.rng.normal(size=n)
    eps = c.choice([0., .05])
    off = c.rng.normal()
    ncall = [0]

    def fun(x):
        ncall[0] += 1
        d = np.asarray(x).ravel()-x1
        return off+.5*d @ A @ d+eps*(d**3).sum()

    def grad(x):
        d = np.asarray(x).ravel()-x1
        return A @ d+3*eps*d**2
    h = c.choice(["exact", "exact", "none"])
    x0 = x1+c.rng.normal(size=n)*.1
    cbs = []
    c.note(n=n, curvatures=ew, eps=eps, h=h)
    c.state(n, eps, h, round(float(x0[0]), 6))
    H = A+6*eps*np.diag(x0-x1)
    if h == "none" and n > 1:
        # only claim what it reports: the value at the returned point
        x, f, ret = saddle_mod.rfo(fun, grad, x0, maxiter=50)
    else:
        x, f, ret = saddle_mod.rfo(fun, grad, x0, h=H.copy(), xtol=1e-10, ftol=1e-15, maxiter=300,
                                   cb=lambda *a: cbs.append(len(a)))
        c.ok(ret in ("xtol", "ftol"), "converges", ret=ret)
        c.close(x, x1, "reaches-the-index-one-saddle", rtol=0, atol=1e-5)
        c.ok(cbs and set(cbs) == {4}, "callback-called")
    # the recorded walk of a second search with any tolerances and step limit
    dm, xt, ft = c.choice([.03, .1, .3]), c.choice([1e-3, 1e-5, 1e-12]), c.choice([1e-3, 1e-5, 1e-12, 1e-16])
    walk = []

    def record(x, f, g, h):
        walk.append((np.array(x, float).ravel(), float(f), np.array(g, float).ravel(), np.array(h, float)))
    b = x1+c.rng.normal(size=n)*c.choice([.1, .5])*(c.rng.random(n) < .7)
    with np.errstate(all="ignore"):
        try:
            x2, f2, ret2 = saddle_mod.rfo(fun, grad, b, h=A+6*eps*np.diag(b-x1), xtol=xt, ftol=ft, maxiter=60, dx_max=dm,
                                          cb=record)
        except np.linalg.LinAlgError:
            walk = []
    if len(walk) > 1 and all(np.isfinite(w[0]).all() for w in walk):
        X = np.array([w[0] for w in walk])
        F = np.array([w[1] for w in walk])
        c.close(X[0], b, "walk-starts-at-the-start")
        c.close(X[-1], x2, "walk-ends-at-the-result")
        step = np.linalg.norm(np.diff(X, axis=0), axis=1)
        c.ok(step.max() <= dm*(1+1e-9), "steps-are-limited", longest=step.max(), limit=dm)
        ref = np.array([fun(v) for v in X])
        big = 1+np.abs(X-x1).max()**3
        c.close(F, ref, "recorded-values", rtol=1e-9, scale=abs(off)+big)
        c.close(np.array([w[2] for w in walk]), np.array([grad(v) for v in X]), "recorded-gradients", rtol=1e-9, scale=big)
        nx = np.linalg.norm(X, axis=1)
        xok = 2*step <= xt*(nx[1:]+nx[:-1]+1e-20)*(1+1e-6)
        fok = 2*np.abs(np.diff(F)) <= ft*(np.abs(F[1:])+np.abs(F[:-1])+1e-20)*(1+1e-6)+4e-16*np.abs(F).max()
        if ret2 == "xtol":
            c.ok(xok[-1], "position-converged", step=step[-1], xtol=xt)
        elif ret2 == "ftol":
            c.ok(fok[-1], "value-converged", change=F[-1]-F[-2], ftol=ft)
        elif ret2 == "iter":
            c.ok(len(walk) > 60, "all-iterations-used", n=len(walk))
        c.count("walk-"+ret2)
        c.count("walk-steps", len(step))
    c.ok(ret in ("xtol", "ftol", "iter"), "status")
    if np.isfinite(x).all():
        c.close(f, fun(x), "value-at-the-returned-point", rtol=1e-9, scale=1.+abs(off)+np.abs(x-x1).max()**3)


# ------------------------------------------------------------------ S06
@scenario("S06", quick=320, thorough=8000)
def modes(c):
    from .systems import make_system, sys_points, pseudo_bound
    descs, dcs, rfs = make_system(c)
    s = traps.build_all(descs, dcs, rfs)
    s.rf_coeff = coeff = c.choice([1., .3, c.logu(1e-2, 10)])
    x = sys_points(c, descs, 1)
    tj = traps.total_jet(x, descs, dcs, rfs, coeff, 2)
    h = jets.full(tj, 2)[0].astype(float)
    rj = traps.weighted_jet(x, descs, rfs, 3)
    b = float((pseudo_bound(x, descs, rfs, rj, coeff, 2)+4*traps.weighted_tol(x, descs, dcs, 2))[0])
    n = np.abs(h).max()
    srt = c.choice([None, True, False])
    c.note(x=x[0], coeff=coeff, dcs=dcs, rfs=rfs, sorted=srt)
    if not b < 1e-5*n:
        c.count("points-skipped-ill-conditioned")
        return
    c.state(len(descs), srt, round(float(x[0, 0]), 5))
    xa = c.choice([x[0], list(x[0]), x])
    ew, ev = s.modes(xa) if srt is None else s.modes(xa, sorted=srt)
    c.equal((np.shape(ew), np.shape(ev)), ((3,), (3, 3)), "shape")
    c.close(ev.T @ ev, np.eye(3), "modes-orthonormal", rtol=0, atol=1e-12)
    c.close(h @ ev, ev*ew, "modes-are-eigenvectors-in-columns", rtol=1e-9, atol=20*b, scale=n)
    if srt is not False:
        c.ok((np.diff(ew) >= 0).all(), "ascending")
    c.close(np.sort(ew), np.linalg.eigvalsh(h), "curvatures", rtol=1e-9, atol=20*b, scale=n)


NUM = r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?|nan|inf"


def numbers(txt):
    return [float(v) for v in re.findall(NUM, txt)]


@scenario("S06", quick=120, thorough=2400)
def report(c):
    """The text analysis states the quantities that its labels name."""
    scale_l = 1
    t = make_trap(c, scales=False)
    if t is None:
        return
    d = t["descs"]
    m = c.choice([9, 25, 40, 88, 171])*ct.atomic_mass
    q = ct.elementary_charge*c.choice([1, 1, 2])
    l = c.choice([40e-6, 100e-6, 1e-3])
    o = 2*np.pi*c.choice([10e6, 35e6, 100e6])
    coeff = math.sqrt(q/m)/(2*l*o)
    # Volts for a moderate q parameter
    k = t["coeff"]/coeff
    u = c.uniform(.02, .2)
    j = traps.weighted_jet(t["x"][None], d, t["rfs"], 2)
    hq = np.abs(np.linalg.eigvalsh(jets.full(j, 2)[0].astype(float))).max()
    # Mathieu q = 8 coeff^2 * curvature: choose q = u*2
    f = 2*u/(8*coeff**2*hq)
    rfs = t["rfs"]*f
    dcs = t["dcs"]*(f*coeff/t["coeff"])**2*c.choice([0., 1., .3])
    r = traps.stationary(t["x"], d, dcs, rfs, coeff)
    if r is None or np.linalg.eigvalsh(r[2])[0] <= 0 or np.linalg.norm(r[0]-t["x"]) > .3*t["x"][2]:
        return
    mn, _, h = r
    off = c.rng.normal(size=3)*c.choice([0., .01])*mn[2]
    x = mn+off
    s = traps.build_all(d, dcs, rfs)
    s.rf_scale(m, q, l, o)
    mo = c.chance(.3)
    kw = dict(m=m, q=q, l=l, o=o)
    mo_ = np.zeros(3)
    if mo:
        kw["min_off"] = True
    elif c.chance(.2):
        kw["min_offset"] = mo_ = c.rng.normal(size=3)*.01*mn[2]
    if c.chance(.1):
        kw["min_method"] = c.choice(["Powell", "Nelder-Mead"])
    if c.chance(.6):
        kw["saddle_offset"] = np.r_[0, 0, c.uniform(.3, 1.2)*mn[2]]
        if c.chance(.4):
            kw["saddle_offset"] = c.rng.normal(size=3)*c.uniform(.02, .15)*mn[2]
    c.note(m=m/ct.atomic_mass, q=q, l=l, o=o, x=x, minimum=mn, rfs=rfs, dcs=dcs)
    c.state(t["kind"], m, q, l, o, mo, round(float(x[2]), 5))
    with np.printoptions(precision=12, suppress=False, floatmode="maxprec", linewidth=200):
        lines = list(s.analyze_static(x, **kw))
    txt = "\n".join(lines)
    c.ok(all(isinstance(i, str) for i in lines), "yields-strings")
    if c.chance(.3):
        # a reader that stops early, or a log instead of a reader
        it = s.analyze_static(x, **kw)
        n = c.integers(1, len(lines))
        if c.chance(.5):
            n = 1+max([i for i, ln in enumerate(lines) if "saddle" in ln])-c.integers(0, 2)
        with np.printoptions(precision=12, suppress=False, floatmode="maxprec", linewidth=200):
            head = [next(it) for _ in range(n)]
        c.equal(head, lines[:n], "read-line-by-line")
        try:
            it.close()
        except RuntimeError as e:
            c.fail("can-be-closed-at-any-line", repr(e), line=lines[n-1])
        c.equal(list(it), [], "closed")
    if c.chance(.3):
        import logging
        from electrode import system as module
        level = c.choice([logging.INFO, logging.WARNING, 33])
        seen = []
        h_ = logging.Handler()
        h_.emit = lambda r_: seen.append((r_.levelno, r_.getMessage()))
        lg = module.logger
        old = lg.level, lg.propagate
        lg.addHandler(h_)
        lg.setLevel(1)
        lg.propagate = False
        try:
            with np.printoptions(precision=12, suppress=False, floatmode="maxprec", linewidth=200):
                got = s.analyze_static(x, log=level, **kw)
        finally:
            lg.removeHandler(h_)
            lg.setLevel(old[0])
            lg.propagate = old[1]
        c.ok(got is None, "logs-instead-of-yielding")
        c.equal([i[1] for i in seen if i[0] == level], lines, "log-has-all-lines")

    def after(label, nth=0, cont=False):
        hits = [i for i, ln in enumerate(lines) if label in ln]
        if len(hits) <= nth:
            c.fail("report-has-line", "no line %r" % label, lines=lines)
        return hits[nth]

    def vec(i, label=None):
        s_ = lines[i]
        s_ = s_[s_.index(label)+len(label):] if label else s_
        a = s_.index("[")
        return np.array(numbers(s_[a+1:s_.index("]")]))
    i = after("f=")
    p = numbers(lines[i].split("f=")[1])
    c.close(p[0], o/(2e6*np.pi), "rf-frequency", rtol=6e-3)
    c.close(numbers(lines[i].split("m=")[1])[0], m/ct.atomic_mass, "mass", rtol=6e-3)
    c.close(numbers(lines[i].split("q=")[1])[0], q/ct.elementary_charge, "charge", rtol=6e-3)
    c.close(numbers(lines[i].split("scale=")[1])[0], coeff, "rf-scale", rtol=6e-3)
    i = after("analyze point")
    c.close(vec(i), x, "point", rtol=1e-9, scale=1e-3)
    c.close(vec(i+1), x*l/1e-6, "point-in-micrometers", rtol=1e-9, scale=1e-3)
    i = after("minimum is at offset")
    z = mn[2]
    if mo:
        c.close(vec(i), np.zeros(3), "minimum-offset-off", rtol=0, atol=0)
    else:
        # the default simplex search stops once its simplex has shrunk: it may fall short of the minimum
        start = traps.total_jet((x+mo_)[None], d, dcs, rfs, coeff, 0).c[0][0]
        got = traps.total_jet((x+vec(i))[None], d, dcs, rfs, coeff, 0).c[0][0]
        best = traps.total_jet(mn[None], d, dcs, rfs, coeff, 0).c[0][0]
        c.close(float(got-best), 0., "minimum-is-the-lowest-point-nearby", rtol=0,
                atol=float(4e-4+.5*abs(start-best)))
        c.close(vec(i), mn-x, "minimum-offset", rtol=0, atol=.1*z)
        c.close(vec(i+1), vec(i)*l/1e-6, "minimum-offset-in-micrometers", rtol=1e-6, scale=1e-3)
    dj = traps.weighted_jet(x[None], d, dcs, 2)
    rj = traps.weighted_jet(x[None], d, rfs, 3)
    pj = jets.square_gradient(rj)*(jets.LD(coeff)**2)
    D = [jets.full(dj, a)[0].astype(float) for a in range(3)]
    P = [jets.full(pj, a)[0].astype(float) for a in range(3)]
    R2 = jets.full(rj, 2)[0].astype(float)
    c.close(numbers(lines[after("dc electrical")])[0], D[0], "dc-potential", rtol=.06, scale=1e-12)
    c.close(numbers(lines[after("rf pseudo")])[0], P[0], "pseudo-potential", rtol=.06, scale=1e-12)
    try:
        xs = s.saddle(x+kw.get("saddle_offset", 0.))[0]
    except Exception:
        xs = None
    c.equal("saddle not found" in txt, xs is None, "saddle-searched-from-the-offset-point")
    if "saddle not found" not in txt:
        c.close(vec(after("saddle offset")), xs-x, "saddle-searched-from-the-offset-point", rtol=1e-6, scale=z)
        y = x+vec(after("saddle offset"))
        c.close(vec(after("saddle offset")+1), (y-x)*l/1e-6, "saddle-offset-in-micrometers", rtol=1e-6, scale=1e-3)
        if .05*z < y[2] < 50*z:
            yj = traps.total_jet(y[None], d, dcs, rfs, coeff, 2)
            top = float(yj.c[0][0])
            c.close(numbers(lines[after("saddle height")])[0], top-D[0]-P[0], "saddle-height", rtol=.06,
                    scale=1e-6*max(abs(top), abs(D[0])+abs(P[0])))
            w = np.linalg.eigvalsh(jets.full(yj, 2)[0].astype(float))
            c.ok(w[0] < 1e-9*np.abs(w).max(), "reported-saddle-has-an-unstable-direction", "curvatures %s" % w)
            c.count("saddles-reported")
    i = after("dc electrical", 1)
    sc = np.abs(P[2]).max()*z*1e-9
    c.close(vec(i), D[1], "dc-force", rtol=1e-6, scale=max(np.abs(D[1]).max(), sc))
    c.close(vec(i+1), D[1]/l, "dc-force-si", rtol=1e-6, scale=max(np.abs(D[1]).max(), sc)/l)
    i = after("rf pseudo", 1)
    c.close(vec(i), P[1], "pseudo-force", rtol=1e-5, scale=max(np.abs(P[1]).max(), np.abs(P[2]).max()*z*1e-4))
    c.close(vec(i+1), P[1]/l, "pseudo-force-si", rtol=1e-5,
            scale=max(np.abs(P[1]).max(), np.abs(P[2]).max()*z*1e-4)/l)
    hx = D[2]+P[2]
    cur = np.linalg.eigvalsh(hx)
    c.close(vec(after("normal curvatures")), cur, "curvatures", rtol=1e-7, scale=np.abs(cur).max())
    # frequencies
    fs = [ln for ln in lines if re.match(r"^\s+[abc]: ", ln) and "MHz" in ln]
    c.ok(len(fs) == 6, "six-mode-lines", lines=lines)
    pp = np.array([numbers(ln.split(":")[1])[0] for ln in fs[:3]])
    with np.errstate(all="ignore"):
        want = np.sqrt(q*cur/m)/(2*np.pi*l)/1e6
    good = np.isfinite(want)
    c.close(pp[good], want[good], "pseudopotential-frequencies", rtol=1e-3, scale=np.nanmax(want)*1e-2)
    ex = floquet_exponents(16*coeff**2*D[2], 8*coeff**2*R2)
    stable = np.abs(np.abs(ex)-1).max() < 1e-6
    bound = "True" in lines[after("motion is bounded")]
    ang = np.sort(np.abs(np.angle(ex)))[::2]/np.pi
    if stable and ang.min() > .003 and ang.max() < .9:
        c.ok(bound, "bounded-motion-reported")
        mf = np.array([numbers(ln.split(":")[1])[0] for ln in fs[3:]])
        c.close(mf, ang/2*o/(2e6*np.pi), "mathieu-frequencies", rtol=2e-3, scale=ang.max()/2*o/(2e6*np.pi)*.1)
        c.count("stable-traps")
    elif np.abs(np.abs(ex)-1).max() > 1e-3:
        c.ok(not bound, "unbounded-motion-reported")
    # mode vectors
    for nm, mat in (("pseudopotential", hx),):
        V = np.array([vec_of(ln) for ln in fs[:3]]).T
        c.close(mat @ V, V*cur, "pseudopotential-mode-vectors", rtol=1e-5, scale=np.abs(cur).max())
        e = np.deg2rad(vec(after("euler angles")))
        if np.linalg.det(V) > 0:
            # rotating frame z-x-z
            rz = [np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1]]) for a in e]
            rx = np.array([[1, 0, 0], [0, np.cos(e[1]), -np.sin(e[1])], [0, np.sin(e[1]), np.cos(e[1])]])
            c.close(rz[0] @ rx @ rz[2], V, "euler-angles-of-the-modes", rtol=0, atol=1e-6)
    # field noise
    un = 1e-9
    se = un*np.array([jets.full(jets.electrode_jet(x[None], e, 1), 1)[0].astype(float) for e in d])/l
    c.close(vec(after("field-noise psd")), (se**2).sum(0), "field-noise", rtol=1e-5, scale=(se**2).sum())
    nd = [ln for ln in lines if "ndot" in ln]
    c.ok(len(nd) == 3, "three-heating-lines")
    if stable and ang.min() > .003 and ang.max() < .9:
        MV = np.array([vec_of(ln) for ln in fs[3:]]).T
        sem = ((se @ MV)**2).sum(0)
        for k3, ln in enumerate(nd):
            v = numbers(ln.split("ndot=")[1])
            fi = mf[k3]*1e6
            c.close(v[0], sem[k3]*q**2/(4*m*ct.h*fi), "heating-rate", rtol=5e-3, scale=sem.max()*q**2/(4*m*ct.h*fi)*1e-6)
            s_e = numbers(ln.split("S_E*f=")[1])[0]
            c.close(s_e, sem[k3]*fi, "noise-times-frequency", rtol=5e-3, scale=sem.max()*fi*1e-6)


def vec_of(ln):
    a = ln.index("[")
    return np.array(numbers(ln[a+1:ln.index("]")]))


# ------------------------------------------------------------------ S07
def monodromy(harm):
    """One period (pi) of x'' + (A0 + 2 sum A_k cos 2kt) x = 0 from unit initial states."""
    n = harm[0].shape[0]

    def f(t, y):
        y = y.reshape(2*n, 2*n)
        A = harm[0]+sum(2*h*math.cos(2*k*t) for k, h in enumerate(harm) if k)
        return np.vstack([y[n:], -A @ y[:n]]).ravel()
    s = integrate.solve_ivp(f, [0, np.pi], np.eye(2*n).ravel(), method="DOP853", rtol=1e-11, atol=1e-12)
    return s.y[:, -1].reshape(2*n, 2*n)


def floquet_exponents(a, q):
    return np.linalg.eigvals(monodromy([a, q]))


@scenario("S07", quick=200, thorough=4000)
def floquet(c):
    """utils.mathieu: exponents and Floquet vectors of the generalised Mathieu equation."""
    n = c.choice([1, 1, 2, 3])
    nh = c.choice([2, 2, 2, 1, 3, c.choice([4, 5, 6])])

    def sym(s):
        a = c.rng.normal(size=(n, n))*s
        return (a+a.T)/2
    A = [sym(c.choice([0., .02, .2]))] + [sym(c.choice([.1, .3])) for i in range(nh-1)]
    if c.chance(.3):
        A = [np.diag(np.diag(a)) for a in A]
    if c.chance(.15):
        A = [np.round(a*4)/4 for a in A]
    r = c.choice([5, 6, 8]) if nh < 4 else 10
    c.note(n=n, r=r, a=A)
    c.state(n, nh, r, round(float(A[0][0, 0]), 4), round(float(A[-1][0, 0]), 4))
    keep = [a.copy() for a in A]
    mu, b = utils.mathieu(r, *A)
    for a, k in zip(A, keep):
        c.same_array(a, k, "input-unchanged")
    c.equal((np.shape(mu), np.shape(b)), ((2*n*(2*r+1),), (2*n*(2*r+1), 2*n*(2*r+1))), "shape")
    M = monodromy(A)
    lam = np.linalg.eigvals(M)
    # the central exponents of the truncated problem are accurate; every multiplier has one
    cen = np.abs(mu.imag) <= 3
    got = np.exp(np.pi*mu[cen])
    sc = max(1., np.abs(lam).max())
    # eigenvalues of a non-normal monodromy move by sqrt(error) where they collide
    for v in lam:
        gap = np.sort(np.abs(lam-v))[1] if len(lam) > 1 else 1.
        tol = 1e-5*sc/max(min(gap, 1.), 1e-2)+1e-6*sc
        if gap < 1e-2:
            tol = 2e-2*sc
        c.close(np.abs(got-v).min(), 0., "every-multiplier-is-found", rtol=0, atol=tol)
    # Floquet vectors solve the equation
    B = b.reshape(2*r+1, 2, n, -1)
    for i in np.where(np.abs(mu.imag) <= 1.05)[0]:
        w = np.abs(B[:, 0, :, i]).max(1)
        if w[:2].max()+w[-2:].max() > 1e-7*w.max():
            continue
        k = np.arange(-r, r+1)
        for t in c.rng.uniform(0, np.pi, 2):
            e = np.exp((mu[i]-2j*k)*t)
            x = (B[:, 0, :, i]*e[:, None]).sum(0)
            v = (B[:, 1, :, i]*e[:, None]).sum(0)
            x2 = (B[:, 0, :, i]*(e*(mu[i]-2j*k)**2)[:, None]).sum(0)
            x1 = (B[:, 0, :, i]*(e*(mu[i]-2j*k))[:, None]).sum(0)
            At = A[0]+sum(2*h*math.cos(2*m*t) for m, h in enumerate(A) if m)
            s_ = np.abs(B[..., i]).max()*math.exp(abs(mu[i].real)*np.pi)
            c.close(x2+At @ x, np.zeros(n), "floquet-vector-solves-the-equation", rtol=0, atol=1e-4*s_)
            c.close(v, x1, "second-component-is-the-derivative", rtol=0, atol=1e-6*s_*(2*r+1))


@scenario("S07", quick=160, thorough=3000)
def system_mathieu(c):
    t = make_trap(c, scales=False)
    if t is None:
        return
    d = t["descs"]
    x = t["x"]+c.rng.normal(size=3)*c.choice([0., .02])*t["x"][2]
    s = traps.build_all(d, t["dcs"], t["rfs"])
    D = jets.full(traps.weighted_jet(x[None], d, t["dcs"], 2), 2)[0].astype(float)
    R = jets.full(traps.weighted_jet(x[None], d, t["rfs"], 2), 2)[0].astype(float)
    qmax = c.choice([.05, .2, .5, .8, 1.2])
    scale = math.sqrt(qmax/(8*np.abs(np.linalg.eigvalsh(R)).max()))
    r = c.choice([4, 5, 6])
    a, q = 16*scale**2*D, 8*scale**2*R
    lam = np.linalg.eigvals(monodromy([a, q]))
    srt = c.choice([None, True, False])
    c.note(kind=t["kind"], q=qmax, r=r, scale=scale, a=a, qm=q)
    c.state(t["kind"], qmax, r, srt, round(float(x[2]), 5))
    kw = {} if srt is None else {"sorted": srt}
    mu, b = s.mathieu(x, scale, r=r, **kw)
    mu = np.asarray(mu)
    if srt is False:
        c.equal(mu.shape, (6*(2*r+1),), "shape")
    else:
        c.ok((mu.imag >= 0).all(), "no-negative-frequencies")
        c.ok((np.diff(mu.imag) >= 0).all(), "ascending")
    c.equal(b.shape, (6*(2*r+1), len(mu)), "one-vector-per-exponent")
    stable = np.abs(np.abs(lam)-1).max() < 1e-6
    ang = np.sort(np.abs(np.angle(lam)))[::2]/np.pi
    if stable and ang.min() > .003 and ang.max() < .95 and np.diff(ang).min() > 1e-3:
        c.count("stable-traps")
        got = np.sort(np.abs(mu.imag))
        if srt is False:
            for v in ang/2:
                c.close(np.abs(got-v).min(), 0., "secular-frequencies", rtol=0, atol=2e-5)
        else:
            c.close(mu[:3].imag, ang/2, "secular-frequencies", rtol=0, atol=2e-5)
            c.close(mu[:3].real, np.zeros(3), "bounded", rtol=0, atol=1e-5)
    else:
        c.count("other-traps")
        g = np.abs(lam)
        big = g.max()
        if big > 1.05 and np.sort(g)[-2] < .9*big:
            gr = np.abs(mu.real)*2*np.pi
            c.close(gr[np.abs(gr-math.log(big)).argmin()], math.log(big), "growth-rate", rtol=1e-3)
    # eigenvectors belong to their eigenvalues
    B = b.reshape(2*r+1, 2, 3, -1)
    k = np.arange(-r, r+1)
    for i in range(min(3, len(mu))) if srt is not False else []:
        w = np.abs(B[:, 0, :, i]).max(1)
        if w[:1].max()+w[-1:].max() > 1e-6*w.max():
            continue
        tt = c.uniform(0, np.pi)
        m2 = 2*mu[i]-2j*k
        e = np.exp(m2*tt)
        xx = (B[:, 0, :, i]*e[:, None]).sum(0)
        x2 = (B[:, 0, :, i]*(e*m2**2)[:, None]).sum(0)
        s_ = np.abs(B[..., i]).max()*math.exp(abs(mu[i].real)*2*np.pi)
        c.close(x2+(a+2*q*math.cos(2*tt)) @ xx, np.zeros(3), "vector-solves-the-equation-of-motion", rtol=0,
                atol=1e-3*s_)


# ------------------------------------------------------------------ S12
def crystal_terms(xs, qi, t, order=2):
    """Own energy, force and curvatures of ions: trap potential plus all Coulomb pairs."""
    n = len(xs)
    j = traps.total_jet(xs, t["descs"], t["dcs"], t["rfs"], t["coeff"], 2)
    e = float(j.c[0].sum())
    g = jets.full(j, 1).astype(float)
    h = np.zeros((n, 3, n, 3))
    H = jets.full(j, 2).astype(float)
    for a in range(n):
        h[a, :, a, :] += H[a]
        for b in range(n):
            if a == b:
                continue
            d = xs[a]-xs[b]
            r = np.linalg.norm(d)
            qq = qi[a]*qi[b]
            e += .5*qq/r
            g[a] -= qq*d/r**3
            k = qq*(3*np.outer(d, d)/r**5-np.eye(3)/r**3)
            h[a, :, a, :] += k
            h[a, :, b, :] -= k
    return e, g, h.reshape(3*n, 3*n)


@scenario("S12", quick=60, thorough=1500)
def crystal(c):
    """Positions returned for several ions are force free, modes diagonalise the curvatures."""
    t = make_trap(c, scales=False)
    if t is None:
        return
    s = make(t)
    n = c.choice(gen.big([2, 2, 3, 4, 6], [8, 10]))
    z = t["x"][2]
    sep = c.uniform(.01, .08)*z
    q0 = math.sqrt(sep**3*t["ew"][0]/2)
    q = np.ones(n)*q0
    if c.chance(.5):
        q *= c.rng.uniform(.6, 1.6, n)
    qk = q.copy()
    c.note(n=n, q=q, x=t["x"], curvatures=t["ew"], sep=sep)
    c.state(n, t["kind"], round(float(sep), 6))
    got = None
    for k in range(4):
        x0 = t["x"]+c.rng.normal(size=(n, 3))*sep
        keep = x0.copy()
        xs, ew, ev = s.ions(x0, q)
        c.same_array(x0, keep, "start-unchanged")
        c.same_array(q, qk, "charges-unchanged")
        c.equal((xs.shape, ew.shape, ev.shape), ((n, 3), (3*n,), (n, 3, 3*n)), "documented-shapes")
        e, g, h = crystal_terms(xs, q, t)
        fs = max(np.abs(t["ew"]).max()*sep, 1e-300)
        w = np.linalg.eigvalsh(h)
        # the curvatures belong to the returned positions whether they are an equilibrium or not
        c.close(ew, w, "mode-curvatures", rtol=1e-5, scale=np.abs(w).max())
        V = ev.reshape(3*n, 3*n)
        c.close(V.T @ V, np.eye(3*n), "modes-orthonormal", rtol=0, atol=1e-8)
        c.close(h @ V, V*w, "modes-diagonalise", rtol=1e-5, scale=np.abs(w).max())
        if np.abs(g).max() < 1e-2*fs and w[0] > 0 and np.linalg.norm(xs-t["x"], axis=1).max() < .5*z:
            got = xs
            break
        c.count("not-converged")
    if got is None:
        c.giveup("no equilibrium from four starts")
    c.ok(True, "equilibrium-found")
    c.count("crystals")


@scenario("S12", quick=40, thorough=600)
def crystal_report(c):
    """The analysis of several ions agrees with the harmonic crystal in the reported curvatures."""
    t = make_trap(c, scales=False, kind=traps.five_wire)
    if t is None:
        return
    m = c.choice([9, 25, 40, 88, 171])*ct.atomic_mass
    q = ct.elementary_charge*c.choice([1, 1, 2])
    s = make(t)
    n = c.choice([2, 2, 2, 3])
    ew = t["ew"]
    # a length unit for which the ions sit close together in the harmonic region
    sep = c.uniform(.01, .05)*t["x"][2]
    l = q/(2*np.pi*ct.epsilon_0*sep**3*ew[0])
    if ew[1]-ew[0] < .1*ew[0]*(1 if n == 2 else 10):
        return
    c.note(m=m/ct.atomic_mass, q=q, l=l, n=n, x=t["x"], curvatures=ew, sep=sep)
    c.state(n, l, q, t["kind"], round(float(sep), 7))
    np.random.seed(c.integers(0, 2**31-1))
    with np.printoptions(precision=12, suppress=False, floatmode="maxprec", linewidth=200):
        lines = list(s.analyze_static(t["x"], m=m, q=q, l=l, o=2*np.pi*35e6, ions=n, min_off=True))
    k = [i for i, ln in enumerate(lines) if "ion modes" in ln]
    c.equal(len(k), 1, "report-has-ion-modes")
    tail = lines[k[0]+1:]
    v = numbers(tail[0][tail[0].index(":"):])
    c.close(v[2]*1e-6, sep*l, "harmonic-separation", rtol=1e-2)
    c.close(v[1], v[0]*l/1e-6, "separation-in-micrometers", rtol=1e-2)
    if n == 2:
        c.close(v[0], sep, "two-ion-separation", rtol=.05)
    rows = tail[1:]
    c.equal(len(rows), 3*n, "one-line-per-mode")
    f = np.array([numbers(ln.split(":")[1])[0] for ln in rows])
    k1 = ew[0]
    if n == 2:
        kk = [k1, 3*k1, ew[1], ew[1]-k1, ew[2], ew[2]-k1]
    else:
        kk = [k1, 3*k1, 5.8*k1]+[e-b*k1 for e in ew[1:] for b in (0, 1, 2.4)]
    kk = np.sort(kk)
    if kk[0] < .05*k1:
        c.count("near-a-structural-transition")
        return
    want = np.sqrt(q*kk/m)/(2*np.pi*l)/1e6
    c.close(f, want, "crystal-mode-frequencies", rtol=.06, scale=want.max()*.1)
    vecs = []
    for ln in rows:
        p = ln[ln.index("MHz,")+4:].split("/")
        c.equal(len(p), n, "one-vector-per-ion")
        vecs.append([np.array(numbers(i[i.index("[")+1:i.index("]")])) for i in p])
    V = np.array(vecs).reshape(3*n, -1)
    c.close(V @ V.T, np.eye(3*n), "reported-modes-orthonormal", rtol=0, atol=1e-6)
    # the lowest axial mode moves all ions alike
    i = int(np.argmin(np.abs(f-math.sqrt(q*k1/m)/(2*np.pi*l)/1e6)))
    if np.abs(np.delete(kk, i)-kk[i]).min() > .1*k1:
        c.close(vecs[i], np.array([vecs[i][0]]*n), "centre-of-mass-mode", rtol=0, atol=.15)
