"""E01-E06: electrostatic potentials of surface electrodes."""
import numpy as np

from electrode import electrode as el
from electrode.system import System

from .. import gen, jets, oracles
from ..core import scenario


# ------------------------------------------------------------------ helpers
def make_poly(c, nmax=4, scale=True, cover=False):
    ps, tag = gen.paths(c.rng, nmax)
    s = 1.
    if scale and c.chance(.3):
        s = 10**c.uniform(-4, 3)
        ps = [p*s for p in ps]
    if scale and c.chance(.15):
        off = np.round(c.rng.uniform(-20, 20, 2))*s
        ps = [p+off for p in ps]
    d = {"kind": "poly", "paths": ps, "scale": s}
    if cover:
        add_cover(c, d, s)
    return d, tag


def add_cover(c, d, s):
    d["cover_nmax"] = c.choice(gen.big([0, 1, 1, 2, 3, 5, 8, 10], [12, 20]))
    d["cover_height"] = s*c.choice([.7, 1., 2., 5., 10., 50., 3.3])


def make_points(c, cover=False):
    n = c.choice(gen.big([1, 1, 2, 3, 4, 7, 20], [40, 65, 130]))
    s = 10**c.uniform(-4, 3) if c.chance(.3) else 1.
    p = c.rng.normal(size=(n, 2))*s*2
    if c.chance(.3):
        p = np.round(p/s)*s
    a = c.rng.uniform(.01, 2, n)*s*s
    if c.chance(.2):
        a[c.integers(0, n-1)] *= -1
    if c.chance(.1):
        a[c.integers(0, n-1)] = 0.
    d = {"kind": "point", "points": p, "areas": a, "scale": s}
    if cover:
        add_cover(c, d, s)
    return d


def build(d, **kw):
    k = {a: d[a] for a in ("cover_nmax", "cover_height") if a in d}
    k.update(kw)
    if d["kind"] == "poly":
        return el.PolygonPixelElectrode(paths=d["paths"], **k)
    return el.PointPixelElectrode(points=d["points"], areas=d["areas"], **k)


def near(d):
    """paths that the point generator should be hostile around"""
    if d["kind"] == "poly":
        return d["paths"]
    p, s = np.asarray(d["points"]), d["scale"]
    return [np.array([q+s*np.array(v) for v in ([0, 0], [.5, 0], [0, .5])]) for q in p]


def cover_points(c, x, d):
    """Move some heights to places that matter with a cover, away from image planes."""
    n, H = d.get("cover_nmax", 0), d.get("cover_height")
    if not H:
        return x
    for i in range(len(x)):
        k = c.integers(0, 5)
        if k == 0:
            x[i, 2] = H*c.uniform(.05, .95)
        elif k == 1:
            x[i, 2] = H
        elif k == 2:
            x[i, 2] = H*c.uniform(1.05, 1.9)
        elif k == 3:
            x[i, 2] = -H*c.uniform(.05, .9)
        # keep clear of the image planes z = -2kH, where the formula is singular
        for m in range(-n, n+1):
            if abs(x[i, 2]+2*m*H) < .04*H:
                x[i, 2] += .09*H
    return x


def subset(c, n, k=10):
    k = gen.big(k, 3)
    if n <= k:
        return np.arange(n)
    return np.unique(np.r_[0, n-1, c.rng.choice(n, k-2, replace=False)])


def compare(c, got, d, x, V, o, monitor, jet=None, plane=False):
    """got: (len(x), 2o+1) values; compare with the oracle at x."""
    want = jets.fold(jet if jet is not None else jets.electrode_jet(x, d, o))[o]*np.longdouble(V)
    t = oracles.tol(x, d, o, plane)*abs(V)
    mag = np.abs(want).max(1)
    ok = t < 1e-3*mag
    flat = mag == 0
    use = ok | flat
    c.count("points-skipped-ill-conditioned", int((~use).sum()))
    if use.any():
        # an exactly zero tensor (e.g. zero area): only rounding noise is allowed
        c.close(np.asarray(got)[use], want[use].astype(float), monitor, rtol=1e-12,
                atol=t[use][:, None], msg="order %d" % o, x=x[use])
    return use.any()


# ------------------------------------------------------------------ E01
@scenario("E01", quick=440, thorough=20000)
def polygon_vs_solid_angle(c):
    """Every order at generic and hostile points against the exact solid angle jets."""
    d, tag = make_poly(c)
    n = c.choice(gen.NPTS)
    x, kind = gen.points(c.rng, n, d["paths"])
    e = build(d)
    idx = subset(c, n, 8)
    V = gen.voltage(c.rng)
    jet = jets.electrode_jet(x[idx], d, 5)
    orders = range(6) if c.chance(.5) else [c.integers(0, 5)]
    c.note(tags=tag, n=n, V=V, scale=d["scale"], kinds=sorted(set(kind))[:6], paths=d["paths"])
    for o in orders:
        xi = x.copy()
        got = e.potential(xi, o, potential=V)
        c.equal(got.shape, (n, 2*o+1), "shape")
        if compare(c, got[idx], d, x[idx], V, o, "potential-equals-solid-angle", jet):
            c.state(sorted(set(t.split("+")[0] for t in tag)), o, n, sorted({kind[i] for i in idx}))


@scenario("E01", quick=160, thorough=4000)
def many_vertices(c):
    """Polygons of many vertices / electrodes of many paths."""
    if c.chance(.5):
        n = c.choice([16, 32, 33, 50, 64, 65, 100, 150])
        p = gen.star(c.rng, n, .8, 1.2)
        ps = [p]
    else:
        m = c.choice([5, 9, 12, 20])
        ps = [gen.polygon(c.rng)[0]*.5+np.array([3*(i % 4), 3*(i//4)]) for i in range(m)]
        n = m
    d = {"kind": "poly", "paths": ps, "scale": 1.}
    e = build(d)
    x, kind = gen.points(c.rng, 4, ps)
    o = c.choice([0, 1, 2, 2, 3])
    c.note(vertices=n, npaths=len(ps), order=o)
    c.state(len(ps), n, o)
    compare(c, e.potential(x, o), d, x, 1., o, "potential-equals-solid-angle")


@scenario("E01", quick=120, thorough=3000)
def geometry_symmetries(c):
    """Relations between runs that need no closed form: same shape described differently."""
    d, tag = make_poly(c, nmax=3, scale=False)
    x, kind = gen.points(c.rng, 6, d["paths"])
    o = c.integers(0, 5)
    e = build(d)
    base = e.potential(x, o)
    t = oracles.tol(x, d, o)[:, None]
    good = (t < 1e-3*np.abs(base).max(1)[:, None]).ravel()
    if not good.any():
        c.count("points-skipped-ill-conditioned", len(x))
        return
    x, base, t = x[good], base[good], t[good]
    c.note(tags=tag, order=o)

    def run(paths, xx):
        return el.PolygonPixelElectrode(paths=paths).potential(xx, o)
    which = c.choice(["cyclic", "reverse", "translate", "mirror-z", "split", "scale", "pathorder", "rotate90"])
    c.state(which, o, tag[0])
    if which == "cyclic":
        q = [np.roll(p, c.integers(0, len(p)-1), 0) for p in d["paths"]]
        c.close(run(q, x), base, "cyclic-invariance", atol=2*t)
    elif which == "reverse":
        c.close(run([p[::-1] for p in d["paths"]], x), -base, "orientation-sign", atol=2*t)
    elif which == "translate":
        off = np.round(c.rng.uniform(-8, 8, 2))
        c.close(run([p+off for p in d["paths"]], x+np.r_[off, 0]), base, "translation", atol=20*t, rtol=1e-7)
    elif which == "mirror-z":
        s = np.array([(-1)**(1+nm.count("z")) for nm in jets.NAMES[o]])
        c.close(run(d["paths"], x*[1, 1, -1]), base*s, "odd-in-z", atol=2*t)
    elif which == "split":
        p = d["paths"][0]
        tri = [np.array([p[0], p[i], p[i+1]]) for i in range(1, len(p)-1)]
        tt = t+oracles.polygon_tol(x, tri, o)[:, None]
        c.close(run(tri+d["paths"][1:], x), base, "additivity-over-tilings", atol=2*tt, rtol=1e-9)
    elif which == "scale":
        k = c.choice([2., .5, 1024., 1e-3])
        c.close(run([p*k for p in d["paths"]], x*k)*k**o, base, "scaling", atol=4*t, rtol=1e-9)
    elif which == "pathorder":
        c.close(run(d["paths"][::-1], x), base, "path-order-invariance", atol=2*t)
    else:
        R = np.array([[0, -1], [1, 0.]])
        xr = np.c_[x[:, :2] @ R.T, x[:, 2]]
        got = run([p @ R.T for p in d["paths"]], xr)
        # components swap x->y, y->-x: use the complete tensors
        A, B = oracles.expand(got, o), oracles.expand(base, o)
        R3 = np.eye(3)
        R3[:2, :2] = R
        for i in range(o):
            B = np.moveaxis(np.tensordot(B, R3, axes=([1+i], [1])), -1, 1+i)
        c.close(A, B, "rotation-covariance", atol=(8*t).reshape((-1,)+(1,)*o) if o else 8*t[:, 0], rtol=1e-9)


def segment_distance(xy, paths):
    r = np.full(len(xy), np.inf)
    for p in paths:
        for a, b in zip(p, np.roll(p, -1, 0)):
            u = b-a
            t = np.clip((xy-a) @ u/(u @ u), 0, 1)
            r = np.minimum(r, np.hypot(*(xy-a-t[:, None]*u).T))
    return r


def plane_points(c, d, n):
    """Points in or next to the plane z = 0, clear of the edges."""
    x, kind = gen.points(c.rng, 6*n, d["paths"])
    allv = np.concatenate(d["paths"])
    size = np.ptp(allv, 0).max()
    x[:, 2] = np.where(c.rng.random(len(x)) < .6, 0., size*c.rng.choice([1e-12, -1e-9, 1e-6, -1e-4], len(x)))
    if c.chance(.1):
        x[:, 2] *= -1   # also -0.
    # clear of the edges and, where the closed form is singular edge by edge, of their lines
    return x[segment_distance(x[:, :2], d["paths"]) > .03*size][:n]


@scenario("E01", quick=200, thorough=5000)
def derivatives_in_the_plane(c):
    """Fields and higher derivatives are regular on the plane itself, off the electrode edges."""
    d, tag = make_poly(c, nmax=3)
    x = plane_points(c, d, c.choice([1, 2, 5, 30]))
    if not len(x):
        return
    e = build(d)
    V = gen.voltage(c.rng)
    idx = subset(c, len(x), 6)
    jet = jets.Jet.const(np.zeros(len(idx)), 5)
    for p in d["paths"]:
        jet = jet+jets.polygon_field_jet(x[idx], p, 5)
    c.note(tags=tag, n=len(x), scale=d["scale"], z=x[:3, 2])
    for o in range(1, 6):
        got = e.potential(x.copy(), o, potential=V)
        if compare(c, got[idx], d, x[idx], V, o, "in-plane-derivative", jet, plane=True):
            c.state(tag[0], o, len(x), "plane")


def winding(xy, paths):
    w = np.zeros(len(xy))
    for p in paths:
        for (ax, ay), (bx, by) in zip(p, np.roll(p, -1, 0)):
            left = (bx-ax)*(xy[:, 1]-ay)-(by-ay)*(xy[:, 0]-ax)
            w += ((ay <= xy[:, 1]) & (by > xy[:, 1]) & (left > 0)).astype(int)
            w -= ((ay > xy[:, 1]) & (by <= xy[:, 1]) & (left < 0)).astype(int)
    return w


@scenario("E01", quick=120, thorough=4000)
def boundary_condition(c):
    """Just above and below the plane the potential is the voltage on the electrode and zero around it."""
    d, tag = make_poly(c, nmax=4)
    x, kind = gen.points(c.rng, 6*c.choice([1, 3, 20]), d["paths"])
    size = np.ptp(np.concatenate(d["paths"]), 0).max()
    r = segment_distance(x[:, :2], d["paths"])
    x = x[r > 1e-3*size]
    r = r[r > 1e-3*size]
    if not len(x):
        return
    x[:, 2] = r*c.rng.choice([1e-300, 1e-100, 1e-30, 1e-15, 1e-12, 1e-9, 1e-7, 1e-5], len(x))*c.rng.choice([1, 1, -1], len(x))
    V = gen.voltage(c.rng)
    got = build(d).potential(x.copy(), 0, potential=V)
    edges = sum(len(p) for p in d["paths"])
    c.note(tags=tag, n=len(x), scale=d["scale"])
    c.state(tag[0], len(x), sorted(set(kind))[:4])
    c.equal(got.shape, (len(x), 1), "shape")
    c.close(got[:, 0], V*winding(x[:, :2], d["paths"])*np.sign(x[:, 2]), "boundary-condition", rtol=0,
            atol=abs(V)*edges*(2*np.abs(x[:, 2])/r+1e-10))


# ------------------------------------------------------------------ E02
@scenario("E02", quick=640, thorough=20000)
def point_pixels_vs_series(c):
    d = make_points(c)
    n = c.choice(gen.NPTS)
    x, kind = gen.points(c.rng, n, near(d))
    if c.chance(.15):
        # the plane itself, clear of the pixels
        x[::2, :2] += d["scale"]*np.pi
        x[::2, 2] = 0
        r = np.hypot(x[:, None, 0]-np.asarray(d["points"])[:, 0], x[:, None, 1]-np.asarray(d["points"])[:, 1]).min(1)
        x[(r < .05*d["scale"]) & (x[:, 2] == 0), 2] = d["scale"]
    e = build(d)
    idx = subset(c, n, 8)
    V = gen.voltage(c.rng)
    jet = jets.electrode_jet(x[idx], d, 5)
    c.note(n=n, pixels=len(d["areas"]), V=V, points=d["points"], areas=d["areas"])
    for o in range(6):
        got = e.potential(x.copy(), o, potential=V)
        c.equal(got.shape, (n, 2*o+1), "shape")
        if compare(c, got[idx], d, x[idx], V, o, "potential-equals-point-series", jet):
            c.state(len(d["areas"]), n, o, sorted({kind[i] for i in idx}))


@scenario("E02", quick=80, thorough=2000)
def to_points_far_field(c):
    """A polygon seen from afar is its `to_points()` pixel (area and centroid kept)."""
    d, tag = make_poly(c, nmax=3, scale=False)
    cov = {}
    if c.chance(.5):
        cov = {"cover_nmax": c.integers(0, 3), "cover_height": c.uniform(20., 60.)}
    e = el.PolygonPixelElectrode(paths=d["paths"], name="abc", dc=1.5, rf=-2., **cov)
    q = e.to_points()
    c.note(tags=tag, cover=cov)
    c.state(tag, bool(cov))
    c.ok(isinstance(q, el.PointPixelElectrode), "type")
    c.equal((q.name, q.dc, q.rf, q.cover_nmax, q.cover_height),
            (e.name, e.dc, e.rf, e.cover_nmax, e.cover_height), "to-points-keeps-attributes")
    c.equal(q.points.shape, (len(d["paths"]), 2), "one-pixel-per-path")
    for p, a, ce in zip(d["paths"], q.areas, q.points):
        # independent area and centroid from a triangle fan in long double
        P = np.asarray(p, np.longdouble)
        A, C = np.longdouble(0), np.zeros(2, np.longdouble)
        for i in range(1, len(P)-1):
            u, v = P[i]-P[0], P[i+1]-P[0]
            ar = (u[0]*v[1]-u[1]*v[0])/2
            A += ar
            C += ar*(P[0]+P[i]+P[i+1])/3
        c.close(a, float(A), "signed-area", rtol=1e-10)
        if abs(A) > 1e-6:
            c.close(ce, (C/A).astype(float), "centroid", rtol=1e-9, scale=10.)
    c.same_array(e.orientations(), np.sign(q.areas), "orientation-is-sign-of-area")
    c.same_array(q.orientations(), np.ones(len(q.areas)), "point-orientation")


# ------------------------------------------------------------------ E03
@scenario("E03", quick=480, thorough=12000)
def image_sum(c):
    if c.chance(.6):
        d, tag = make_poly(c, nmax=2, cover=True)
    else:
        d, tag = make_points(c, cover=True), ["point"]
        d["points"], d["areas"] = d["points"][:4], d["areas"][:4]
    n = c.choice([1, 2, 3, 5, 8, 40])
    x, kind = gen.points(c.rng, n, near(d))
    x = cover_points(c, x, d)
    idx = subset(c, n, 4)
    V = gen.voltage(c.rng)
    e = build(d)
    if d["kind"] == "poly" and c.chance(.35):
        # the same shape as a mesh, cut into one polygon per path
        parts = System([el.PolygonPixelElectrode(paths=[p], dc=1.) for p in d["paths"]])
        e = el.MeshPixelElectrode.from_polygon_system(parts)
        e.cover_nmax, e.cover_height = d["cover_nmax"], d["cover_height"]
        tag = ["mesh"]
    o = c.integers(0, 5)
    c.note(nmax=d["cover_nmax"], height=d["cover_height"], order=o, tags=tag, x=x[idx])
    got = e.potential(x.copy(), o, potential=V)
    c.equal(got.shape, (n, 2*o+1), "shape")
    if compare(c, got[idx], d, x[idx], V, o, "potential-equals-image-sum"):
        c.state(d["cover_nmax"], d["cover_height"], o, tag[0], n)


@scenario("E03", quick=120, thorough=3000)
def cover_attributes_live(c):
    """Changing cover_nmax/cover_height on an existing electrode changes the next evaluation."""
    d, tag = make_poly(c, nmax=2, scale=False) if c.chance(.6) else (make_points(c), ["point"])
    s = d["scale"]
    e = build(d)
    if d["kind"] == "poly" and c.chance(.3):
        e = el.MeshPixelElectrode.from_polygon_system(System([el.PolygonPixelElectrode(paths=d["paths"], dc=1.)]))
        tag = ["mesh"]
    x, kind = gen.points(c.rng, 3, near(d))
    o = c.integers(0, 3)
    steps = []
    for i in range(3):
        d["cover_nmax"], d["cover_height"] = c.integers(0, 4), s*c.uniform(.8, 20.)
        e.cover_nmax, e.cover_height = d["cover_nmax"], d["cover_height"]
        xi = cover_points(c, x.copy(), d)
        steps.append((d["cover_nmax"], d["cover_height"]))
        if compare(c, e.potential(xi, o), d, xi, 1., o, "live-cover-parameters"):
            c.state(tag[0], o, d["cover_nmax"])
    c.note(steps=steps, order=o)


@scenario("E03", quick=120, thorough=3000)
def cover_electrode(c):
    """The cover itself is the linear capacitor potential V*z/height."""
    H = c.choice([50., 1., c.logu(1e-4, 1e3)])
    V = gen.voltage(c.rng)
    e = el.CoverElectrode(height=H, dc=V, name="cover")
    n = c.choice([1, 2, 5, 65])
    x = c.rng.normal(size=(n, 3))*H
    c.note(H=H, V=V, n=n)
    o = c.integers(0, 5)
    c.state(n, o)
    want = np.zeros((n, 2*o+1))
    if o == 0:
        want[:, 0] = V*x[:, 2]/H
    elif o == 1:
        want[:, 2] = V/H
    c.close(e.potential(x.copy(), o, potential=V), want, "cover-is-linear", rtol=1e-12)
    out = c.rng.normal(size=(n, 2*o+1))
    o0 = out.copy()
    r = e.potential(x.copy(), o, potential=V, out=out)
    c.ok(r is out, "out-is-returned")
    c.close(out, o0+want, "cover-accumulates", rtol=1e-12, scale=np.abs(o0).max())
    if o < 2:
        s = System([e])
        c.close(s.electrical_potential(x, o), want, "cover-in-system", rtol=1e-12)


@scenario("E03", quick=60, thorough=1000)
def grounded_cover_physics(c):
    """With enough images the electrode contributes (almost) nothing on the cover plane and is
    harmonic between the planes; the unpaired image is the only remainder."""
    d, tag = make_poly(c, nmax=1, scale=False)
    H = c.uniform(2., 10.)
    d["cover_nmax"], d["cover_height"] = c.integers(1, 12), H
    e = build(d)
    xy = np.array(d["paths"][0]).mean(0)+c.rng.normal(size=(5, 2))*3
    x = np.c_[xy, np.full(5, H)]
    N = d["cover_nmax"]
    bare = el.PolygonPixelElectrode(paths=d["paths"])
    rem = bare.potential(np.c_[xy, np.full(5, (2*N+1)*H)], 0)
    got = e.potential(x, 0)
    c.note(H=H, N=N)
    c.state(N, tag[0])
    c.close(got, rem, "cover-plane-remainder", rtol=1e-9, atol=1e-13*(2*N+1)*20)
