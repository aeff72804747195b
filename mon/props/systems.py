"""S01-S04: pseudopotential, combined potentials, voltages, lookup and grouping."""
import itertools
import math

import numpy as np

from electrode import electrode as el
from electrode import utils
from electrode.system import System

from .. import gen, jets, oracles, traps
from ..core import scenario
from .electrostatics import make_poly, make_points, build, near, cover_points
from .electro2 import any_electrode, some_points, snapshot

LD = np.longdouble


# ------------------------------------------------------------------ helpers
def make_system(c, nmax=5, cover=.2, nmin=1):
    """descs, dcs, rfs: mixed electrodes of comparable size with generic voltages."""
    ne = c.integers(*gen.big((nmin, nmax), (9, 24)))
    descs = []
    for i in range(ne):
        if c.chance(.7):
            d, _ = make_poly(c, nmax=2, scale=False)
        else:
            d = make_points(c)
            while d["scale"] != 1.:
                d = make_points(c)
        if c.chance(cover):
            d["cover_nmax"], d["cover_height"] = c.choice([1, 2, 3]), c.choice([5., 8., 20.])
        descs.append(d)
    dcs = np.array([c.choice([0., 1., c.rng.normal(), c.rng.normal()*10]) for d in descs])
    rfs = np.array([c.choice([0., 0., 1., c.rng.normal()*3, -2.]) for d in descs])
    if not rfs.any() and c.chance(.9):
        rfs[c.integers(0, ne-1)] = c.choice([1., -1., 2.5])
    return descs, dcs, rfs


def sys_points(c, descs, n):
    ps = [p for d in descs for p in near(d)]
    x, kind = gen.points(c.rng, n, ps, negz=False)
    H = [d["cover_height"] for d in descs if d.get("cover_nmax")]
    if H:
        x[:, 2] = np.minimum(x[:, 2], .8*min(H))
    return x


def tensor_close(c, got, want, bound, monitor, **kw):
    """bound: per point absolute rounding bound; points where it says nothing are skipped."""
    o = want.ndim-1
    mag = np.abs(want).reshape(len(want), -1).max(1)
    use = (bound < 1e-4*mag) | (mag == 0)
    c.count("points-skipped-ill-conditioned", int((~use).sum()))
    if use.any():
        b = bound.reshape((-1,)+(1,)*o)
        c.close(np.asarray(got)[use], want[use].astype(float), monitor, rtol=1e-11, atol=b[use],
                scale=mag[use].reshape((-1,)+(1,)*o), **kw)
    return bool(use.any())


def pseudo_bound(x, descs, rfs, rfjet, coeff, d):
    """Propagated rounding bound of the order-d derivative of coeff^2 |grad phi|^2."""
    T = [traps.weighted_tol(x, descs, rfs, k) for k in range(d+2)]
    M = [np.abs(jets.full(rfjet, k)).reshape(len(x), -1).max(1).astype(float) for k in range(d+2)]
    b = np.zeros(len(x))
    for k in range(d+1):
        i, j = k+1, d-k+1
        b += math.comb(d, k)*3*(T[i]*M[j]+M[i]*T[j]+T[i]*T[j]+1e-15*M[i]*M[j])
    return 2*coeff**2*b


def symmetric(c, t, monitor):
    o = t.ndim-1
    sc = np.abs(t).max()+1e-300
    for a, b in itertools.combinations(range(1, o+1), 2):
        c.close(np.swapaxes(t, a, b), t, monitor, rtol=1e-12, scale=sc)


# ------------------------------------------------------------------ S01
@scenario("S01", quick=480, thorough=12000)
def pseudo(c):
    descs, dcs, rfs = make_system(c)
    s = traps.build_all(descs, dcs, rfs)
    n = c.choice([1, 1, 2, 3, 5])
    x = sys_points(c, descs, n)
    k = c.integers(0, 2)
    if k == 0:
        coeff = c.choice([1., .5, 2., c.logu(1e-3, 1e2)])
        s.rf_coeff = coeff
    else:
        m, q, l, o = c.logu(1e-27, 3e-25), 1.602e-19*c.choice([1, 2, -1, 3]), c.logu(1e-6, 1e-2), c.logu(1e6, 1e9)
        q = abs(q)
        coeff = math.sqrt(q/m)/(2*l*o)
        r = s.rf_scale(m, q, l, o)
        c.close(r, coeff, "rf-scale-value", rtol=1e-13)
        c.close(s.rf_coeff, coeff, "rf-scale-stored", rtol=1e-13)
    c.note(n=n, electrodes=len(descs), rfs=rfs, coeff=coeff, x=x)
    jet = traps.weighted_jet(x, descs, rfs, 5)
    pj = jets.square_gradient(jet)*(LD(coeff)**2)
    keep = x.copy()
    for d in (range(5) if c.chance(.4) else [c.integers(0, 4)]):
        got = s.pseudo_potential(x if n > 1 or c.chance(.5) else x[0], d)
        c.equal(np.shape(got), (n,)+(3,)*d, "shape")
        want = jets.full(pj, d)
        if tensor_close(c, got, want, pseudo_bound(x, descs, rfs, jet, coeff, d),
                        "pseudo-potential-derivative", msg="order %d" % d):
            c.state(d, n, len(descs), "".join(sorted(q["kind"][1] for q in descs)))
        if d >= 2:
            symmetric(c, np.asarray(got), "symmetric")
        if d == 0:
            c.ok((np.asarray(got) >= 0).all(), "non-negative")
    c.same_array(x, keep, "points-unchanged")


@scenario("S01", quick=160, thorough=3000)
def pseudo_scaling(c):
    """Quadratic in rf voltage and rf_coeff, independent of dc, defined only after rf_scale."""
    descs, dcs, rfs = make_system(c)
    s = traps.build_all(descs, dcs, rfs)
    x = sys_points(c, descs, 3)
    d = c.integers(0, 4)
    c.note(order=d, rfs=rfs, dcs=dcs)
    c.state(d, len(descs), round(float(x[0, 0]), 6))
    c.raises(AttributeError, lambda: s.pseudo_potential(x, d), "refuses-without-rf-coefficient")
    c.raises(AttributeError, lambda: s.potential(x, d), "refuses-without-rf-coefficient")
    s.rf_coeff = 1.5
    p = s.pseudo_potential(x, d)
    sc = np.abs(p).max()
    s.rf_coeff = 3.
    c.close(s.pseudo_potential(x, d), 4*p, "quadratic-in-rf-coeff", rtol=1e-12, scale=sc)
    s.rf_coeff = 1.5
    a = c.choice([2., -1., .5, -3.])
    with s.with_voltages(rfs=a*rfs):
        c.close(s.pseudo_potential(x, d), a*a*p, "quadratic-in-rf-voltage", rtol=1e-12, scale=sc)
    with s.with_voltages(dcs=dcs+1.):
        c.same_array(s.pseudo_potential(x, d), p, "independent-of-dc")
    with s.with_voltages(rfs=0*rfs):
        c.same_array(s.pseudo_potential(x, d), 0*p, "zero-without-rf")
    # a different system's coefficient does not leak
    s2 = traps.build_all(descs, dcs, rfs)
    s2.rf_coeff = 7.
    c.same_array(s.pseudo_potential(x, d), p, "coefficient-belongs-to-the-system")


# ------------------------------------------------------------------ S02
@scenario("S02", quick=400, thorough=10000)
def combined(c):
    descs, dcs, rfs = make_system(c)
    s = traps.build_all(descs, dcs, rfs)
    s.rf_coeff = coeff = c.choice([1., .3, c.logu(1e-2, 10)])
    n = c.choice([1, 2, 4])
    x = sys_points(c, descs, n)
    d = c.integers(0, 4)
    c.note(order=d, n=n, coeff=coeff, dcs=dcs, rfs=rfs)
    rj = traps.weighted_jet(x, descs, rfs, 5)
    dj = traps.weighted_jet(x, descs, dcs, 5)
    P = jets.full(jets.square_gradient(rj)*(LD(coeff)**2), d)
    D = jets.full(dj, d)
    R = jets.full(rj, d)
    bp = pseudo_bound(x, descs, rfs, rj, coeff, d)
    bd = traps.weighted_tol(x, descs, dcs, d)*4
    br = traps.weighted_tol(x, descs, rfs, d)*4
    seen = []
    seen.append(tensor_close(c, s.potential(x, d), P+D, bp+bd, "total-is-dc-plus-pseudo"))
    seen.append(tensor_close(c, s.potential(x, d, "tot"), P+D, bp+bd, "total-is-dc-plus-pseudo"))
    seen.append(tensor_close(c, s.potential(x, d, typ="dc"), D, bd, "dc-part"))
    seen.append(tensor_close(c, s.potential(x, d, typ="rf"), P, bp, "rf-part"))
    bad = c.choice(["foo", "", "total", None, "DC"])
    c.raises(ValueError, lambda: s.potential(x, d, typ=bad), "refuses-unknown-type", typ=bad)
    # electrical parts, both forms
    for typ, T, b in (("dc", D, bd), ("rf", R, br)):
        seen.append(tensor_close(c, s.electrical_potential(x, d, typ, expand=True), T, b, "electrical-expanded"))
        red = s.electrical_potential(x, d, typ)
        c.equal(np.shape(red), (n, 2*d+1), "reduced-shape")
        seen.append(tensor_close(c, oracles.expand(red, d), T, b, "electrical-reduced"))
    t = c.choice([0., np.pi/2, np.pi, c.uniform(-20, 20), c.uniform(0, 1e4)])
    seen.append(tensor_close(c, s.time_potential(x, d, t, expand=True), D+R*LD(math.cos(t)), bd+br,
                             "instantaneous-potential", t=t))
    seen.append(tensor_close(c, oracles.expand(s.time_potential(x, d, t), d), D+R*LD(math.cos(t)), bd+br,
                             "instantaneous-potential", t=t))
    c.state(d, n, len(descs), round(t, 3), seen.count(True))


@scenario("S02", quick=160, thorough=3000)
def individual(c):
    """Unit contributions of every electrode, in electrode order."""
    descs, dcs, rfs = make_system(c, nmax=7)
    s = traps.build_all(descs, dcs, rfs)
    n = c.choice([1, 2, 4])
    x = sys_points(c, descs, n)
    d = c.integers(0, 5)
    c.note(order=d, n=n)
    got = s.individual_potential(x, d)
    c.equal(got.shape, (len(descs), n, 2*d+1), "shape")
    ok = 0
    for i, q in enumerate(descs):
        j = jets.electrode_jet(x, q, d)
        want = np.asarray(jets.fold(j)[d])
        b = oracles.tol(x, q, d)
        mag = np.abs(want).max(1)
        use = (b < 1e-4*mag) | (mag == 0)
        ok += use.sum()
        if use.any():
            c.close(got[i][use], want[use].astype(float), "unit-contribution", rtol=1e-12,
                    atol=b[use][:, None], electrode=i)
    c.state(d, n, len(descs), int(ok))
    c.same_array(s.dcs, dcs, "voltages-unchanged")
    c.same_array(s.rfs, rfs, "voltages-unchanged")


@scenario("S02", quick=120, thorough=2000)
def trajectory(c):
    """trajectory() drives a user supplied integrator with the instantaneous gradient."""
    descs, dcs, rfs = make_system(c, nmax=3)
    s = traps.build_all(descs, dcs, rfs)
    x0 = np.r_[c.rng.normal(size=2), c.uniform(2., 4.)]
    v0 = c.rng.normal(size=3)*.1
    axis = c.choice([(0, 1, 2), (0, 1, 2), (2,), (0, 2), (1, 2), (2, 0)])
    dt, t0 = c.choice([.1, .25, .5]), c.choice([0., 1.25, -.75, 4096.5, -1e4])
    k = c.integers(1, 6)
    if dt == .1:
        t1 = t0+dt*(k-.5)
    else: # sums of these are exact: the final time may be hit
        t1 = t0+dt*(k-c.choice([0., 0., .5, .25]))
    nst = c.integers(1, 3)
    named = c.chance(.3)
    c.note(axis=axis, dt=dt, t0=t0, t1=t1, nsteps=nst, x0=x0)
    c.state(axis, dt, t0, k, nst, len(descs))
    calls = []
    ax = list(axis)

    def integ(ddx, nsteps, t, p, q, t2):
        f = np.empty(len(ax))
        ddx(t, q, f)
        calls.append((nsteps, t, p.copy(), q.copy(), t2, f.copy()))
        q += .01*p
        p += .001*f
    keep = x0.copy(), v0.copy()
    kw = dict(axis=axis, t0=t0, dt=dt, t1=t1, nsteps=nst)
    if named:
        # a stand-in for the optional integrator library
        import types
        from electrode import system as module
        extra = {"methc": c.choice([2, 4, 8])} if c.chance(.5) else {}
        name = c.choice(["gni_irk2", "gni_lmm2"])
        c.ok(hasattr(module, "gni"), "integrators-come-from-the-library")
        seen = []

        def lib(nm):
            def fun(ddx, nsteps, t, p, q, t2, methc, tol=0):
                seen.append((nm, methc, tol))
                integ(ddx, nsteps, t, p, q, t2)
            return fun
        old = module.gni
        module.gni = types.SimpleNamespace(gni_irk2=lib("gni_irk2"), gni_lmm2=lib("gni_lmm2"))
        try:
            if name != "gni_irk2":
                extra["integ"] = name
            out = list(s.trajectory(x0, v0, tol=3, **kw, **extra))
        finally:
            module.gni = old
        c.ok(set(seen) == {(name, extra.get("methc", 2), 3)}, "named-integrator-and-its-arguments", seen=seen[:3])
        c.count("named-integrators")
    else:
        out = list(s.trajectory(x0, v0, integ=integ, **kw))
    c.same_array(x0, keep[0], "start-unchanged")
    c.same_array(v0, keep[1], "start-unchanged")
    c.equal(len(out), k, "reports-until-final-time")
    q, p = x0[ax].copy(), v0[ax].copy()
    for i, ((ns, t, pp, qq, t2, f), (tr, xr, vr)) in enumerate(zip(calls, out)):
        c.equal(ns, nst, "step-count-passed")
        c.close([t, t2, tr], [t0+i*dt, t0+(i+1)*dt, t0+(i+1)*dt], "times", rtol=1e-12, scale=10.)
        c.same_array(qq, q, "position-carried")
        c.same_array(pp, p, "speed-carried")
        full = keep[0].copy()
        full[ax] = q
        g = (s.electrical_potential(full, 1, "dc")[0]+math.cos(t)*s.electrical_potential(full, 1, "rf")[0])[ax]
        c.close(f, g, "gradient-at-the-instant", rtol=1e-10, scale=np.abs(g).max())
        q = q+.01*p
        p = p+.001*f
        c.same_array(xr, q, "reported-position")
        c.same_array(vr, p, "reported-speed")


# ------------------------------------------------------------------ S03
class Boom(Exception):
    pass


@scenario("S03", quick=480, thorough=12000)
def temporary_voltages(c):
    n = c.choice(gen.big([0, 1, 2, 3, 6], [17, 40]))
    s = System([el.PointPixelElectrode(points=[[i, 0.]], areas=[1.], name="e%d" % i, dc=c.rng.normal(),
                                       rf=c.rng.normal()) for i in range(n)])
    hist = []

    def level(depth):
        dc0, rf0 = s.dcs.copy(), s.rfs.copy()
        objs = [id(e) for e in s]
        dcs = c.choice([None, "zero", "list", "tuple", "array"])
        rfs = c.choice([None, "zero", "list", "array"])

        def mk(k):
            v = c.rng.normal(size=n)
            return {None: None, "zero": 0*v, "list": list(v), "tuple": tuple(v), "array": v}[k]
        dv, rv = mk(dcs), mk(rfs)
        how = c.choice(["normal", "normal", "raise", "mutate", "genexit", "baddc", "badrf"])
        hist.append((depth, dcs, rfs, how))
        inner = {}
        try:
            if how == "baddc":
                dv = 5.
            if how == "badrf":
                rv = 5.
            with s.with_voltages(dcs=dv, rfs=rv):
                if how not in ("baddc", "badrf"):
                    c.same_array(s.dcs, dc0 if dv is None else np.array(dv, float).reshape(n), "voltages-in-effect")
                    c.same_array(s.rfs, rf0 if rv is None else np.array(rv, float).reshape(n), "voltages-in-effect")
                if depth < 3 and c.chance(.5):
                    level(depth+1)
                if how == "mutate" and n:
                    if dv is not None:
                        s[c.integers(0, n-1)].dc = 99.
                    if rv is not None:
                        s[c.integers(0, n-1)].rf = 98.
                if how == "raise":
                    raise Boom()
                if how == "genexit":
                    raise KeyboardInterrupt()
                inner["done"] = 1
        except Boom:
            c.ok(how == "raise", "exception-propagates")
        except KeyboardInterrupt:
            c.ok(how == "genexit", "exception-propagates")
        except TypeError:
            c.ok(how in ("baddc", "badrf"), "exception-propagates")
        else:
            c.ok(how not in ("raise", "genexit"), "exception-propagates")
        c.same_array(s.dcs, dc0, "dc-restored", history=hist)
        c.same_array(s.rfs, rf0, "rf-restored", history=hist)
        c.equal([id(e) for e in s], objs, "electrodes-stay")
    level(0)
    c.note(n=n, history=hist)
    c.state(n, hist)


@scenario("S03", quick=300, thorough=6000)
def accessors(c):
    """names/dcs/rfs mirror the electrodes after any history of writes."""
    n = c.integers(*gen.big((1, 6), (10, 20)))
    els = [any_electrode(c, 2)[1] for i in range(n)]
    s = System(els)
    model = []
    for i, e in enumerate(els):
        e.name, e.dc, e.rf = "n%d" % i, c.rng.normal(), c.rng.normal()
        model.append([e.name, e.dc, e.rf])
    ops = []
    for _ in range(c.integers(1, 8)):
        k = c.integers(0, 6)
        v = c.rng.normal(size=n)
        if k == 0:
            s.dcs = v if c.chance(.5) else list(v)
            for m, a in zip(model, v):
                m[1] = a
        elif k == 1:
            s.rfs = v if c.chance(.5) else list(v)
            for m, a in zip(model, v):
                m[2] = a
        elif k == 2:
            nm = ["x%d" % c.integers(0, 99) for i in range(n)]
            s.names = nm
            for m, a in zip(model, nm):
                m[0] = a
        elif k == 3:
            i = c.integers(0, n-1)
            s[i].dc = model[i][1] = 3.25
        elif k == 4:
            i = c.integers(0, n-1)
            s[model[i][0]].rf = -1.5
            j = [m[0] for m in model].index(model[i][0])
            model[j][2] = -1.5
        elif k == 5:
            s.dcs[:] = 77.        # in-place changes have no effect
        else:
            j = c.integers(0, n)
            e = any_electrode(c, 2)[1]
            e.name, e.dc, e.rf = "new", .5, .25
            s.insert(j, e)
            model.insert(j, ["new", .5, .25])
            n += 1
        ops.append(k)
        c.equal(list(s.names), [m[0] for m in model], "names-mirror")
        c.same_array(s.dcs, np.array([m[1] for m in model]), "dcs-mirror")
        c.same_array(s.rfs, np.array([m[2] for m in model]), "rfs-mirror")
    c.note(ops=ops, n=n)
    c.state(ops, n)


# ------------------------------------------------------------------ S04
@scenario("S04", quick=400, thorough=8000)
def lookup(c):
    n = c.integers(*gen.big((0, 6), (12, 60)))
    pool = ["a", "b", "dc1", "", "x y", "rf", None, "a"]
    els = [el.PointPixelElectrode(points=[[0, 0.]], areas=[1.], name=c.choice(pool)) for i in range(n)]
    s = System(els)
    c.note(names=[e.name for e in els])
    c.state([e.name for e in els])
    c.equal(len(s), n, "length")
    c.ok(all(a is b for a, b in zip(s, els)), "iteration-order")
    for i in range(-n, n):
        c.ok(s[i] is els[i], "by-index")
        c.ok(s.electrode(i) is els[i], "by-index")
        c.ok(s[np.int64(i)] is els[i], "by-numpy-index")
    c.raises(IndexError, lambda: s[n], "index-out-of-range")
    c.raises(IndexError, lambda: s[-n-1], "index-out-of-range")
    for k in pool+["nope"]:
        if k is None:
            continue
        first = next((e for e in els if e.name == k), None)
        c.ok(s[k] is first, "first-of-that-name-or-none", name=k)
        c.ok(s.electrode(k) is first, "first-of-that-name-or-none", name=k)
    a, b = sorted((c.integers(0, n), c.integers(0, n)))
    sl = s[a:b]
    c.ok(len(sl) == b-a and all(p is q for p, q in zip(sl, els[a:b])), "slice")


@scenario("S04", quick=320, thorough=6000)
def group(c):
    ne = c.integers(*gen.big((1, 7), (12, 30)))
    els, descs = [], []
    unit = c.choice([1., 1., 1., 1e-8])
    cov = {}
    if c.chance(.3):
        cov = dict(cover_nmax=c.choice([0, 1, 2, 5]), cover_height=c.choice([5., 10., 30.]))
    for i in range(ne):
        d, _ = make_poly(c, nmax=2, scale=False)
        d.update(cov)
        descs.append(d)
        els.append(build(d, name="e%d" % i, dc=unit*c.integers(-4, 4)/2, rf=float(c.integers(0, 3))))
    s = System(els)
    before = [snapshot(e) for e in els]
    src = c.choice(["dcs", "dcs", "array", "list"])
    v = s.dcs
    if src != "dcs":
        v = unit*np.round(c.rng.normal(size=ne)*2)/2
    k = c.choice(["default", "list", "array", "none", "empty"])
    th = [0.]
    kw = {}
    if k in ("list", "array"):
        th = sorted(set(unit*np.round(c.rng.normal(size=c.integers(*gen.big((1, 4), (5, 20))))*2)/2))
        kw["thresholds"] = list(th) if k == "list" else np.array(th)
    elif k == "none":
        th = sorted(set(v.tolist()))
        kw["thresholds"] = None
    elif k == "empty":
        th = []
        kw["thresholds"] = []
    if src != "dcs":
        kw["voltages"] = v if src == "array" else list(v)
    c.note(thresholds=th, voltages=v, source=src, given=k)
    c.state(ne, k, src, th, v.tolist())
    g = s.group(**kw)
    c.ok(isinstance(g, System), "is-a-system")
    c.equal(len(g), len(th)+1, "one-electrode-per-bin")
    edges = [-np.inf]+list(th)+[np.inf]
    x = sys_points(c, descs, 3)
    allp = 0
    for i in range(len(g)):
        mem = [j for j in range(ne) if edges[i] <= v[j] < edges[i+1]]
        want = [np.asarray(p) for j in mem for p in els[j].paths]
        got = [np.asarray(p) for p in g[i].paths]
        allp += len(got)

        def key(p):
            return (p.shape, p.tobytes())
        c.equal(sorted(map(key, got)), sorted(map(key, want)), "members-of-the-bin", bin=i)
        if mem:
            c.close(g[i].dc, np.mean([els[j].dc for j in mem]), "mean-dc", rtol=1e-13, scale=4.)
            c.close(g[i].rf, np.mean([els[j].rf for j in mem]), "mean-rf", rtol=1e-13, scale=4.)
            p = sum(els[j].potential(x, 0) for j in mem)
            c.close(g[i].potential(x, 0), p, "group-potential-is-the-sum", rtol=1e-12,
                    scale=len(want)*(1+2*cov.get("cover_nmax", 0)))
        else:
            c.equal((g[i].dc, g[i].rf), (0, 0), "empty-bins-are-grounded", bin=i)
    c.equal(allp, sum(len(e.paths) for e in els), "every-path-in-one-group")
    if src == "dcs" and k == "none":
        # electrodes of equal voltage: the groups have the potential of the system
        if len(set(e.rf for e in els)) == 1:
            c.count("whole-groupings")
        c.close(g.electrical_potential(x, 0, "dc"), s.electrical_potential(x, 0, "dc"), "grouping-keeps-the-potential",
                rtol=1e-12, scale=2*allp*(1+2*cov.get("cover_nmax", 0)))
    c.ok(before == [snapshot(e) for e in els], "source-unchanged")
