"""E04-E08: superposition, kernel equivalence, meshes, gridded electrodes."""
import os
import sys
import types

import numpy as np

from electrode import electrode as el
from electrode import expressions as pyx
from electrode.system import System

from .. import gen, jets, oracles
from ..core import scenario
from .electrostatics import make_poly, make_points, build, near, cover_points, compare, subset, plane_points


# ------------------------------------------------------------------ helpers
def grid_electrode(c, shape=None, orders=3, **kw):
    shape = shape or tuple(c.integers(2, 6) for _ in range(3))
    data = [c.rng.normal(size=shape+(2*o+1,)) for o in range(orders)]
    return el.GridElectrode(data=data, origin=c.rng.normal(size=3), spacing=c.rng.uniform(.1, 2., 3), **kw)


def off_images(d):
    """Keep round heights above the cover off the image planes, where edges and pixels are singular."""
    if "cover_height" in d:
        d["cover_height"] *= 1.0137


def any_electrode(c, maxorder=5, kinds=("poly", "poly", "point", "grid", "cover", "mesh"), **kw):
    if gen.LARGE:       # many of them are enough
        gen.LARGE = False
        try:
            return any_electrode(c, maxorder, kinds, **kw)
        finally:
            gen.LARGE = True
    k = c.choice(kinds)
    if k == "grid" and maxorder > 4:
        k = "poly"
    if k == "poly":
        d, _ = make_poly(c, nmax=2, scale=False, cover=c.chance(.3))
        off_images(d)
        return k, build(d, **kw), d
    if k == "point":
        d = make_points(c, cover=c.chance(.3))
        off_images(d)
        return k, build(d, **kw), d
    if k == "cover":
        return k, el.CoverElectrode(height=c.uniform(5, 60), **kw), None
    if k == "mesh":
        d, _ = make_poly(c, nmax=2, scale=False)
        s = System([el.PolygonPixelElectrode(paths=[p], dc=c.uniform(-2, 2)) for p in d["paths"]])
        e = el.MeshPixelElectrode.from_polygon_system(s)
        for a, v in kw.items():
            setattr(e, a, v)
        return k, e, None
    return k, grid_electrode(c, orders=maxorder+1, **kw), None


def some_points(c, n):
    ps = [gen.polygon(c.rng)[0] for i in range(2)]
    return gen.points(c.rng, n, ps, negz=False)[0]


def snapshot(e):
    out = {}
    for cls in type(e).__mro__:
        for a in getattr(cls, "__slots__", ()):
            v = getattr(e, a)
            if isinstance(v, np.ndarray):
                v = (v.dtype.str, v.shape, v.tobytes())
            elif isinstance(v, list):
                v = [(np.asarray(i).shape, np.asarray(i).tobytes()) for i in v]
            out[a] = v
    return out


# ------------------------------------------------------------------ E04
@scenario("E04", quick=480, thorough=12000)
def superposition(c):
    """System potential = sum over electrodes of voltage * unit potential (own summation)."""
    o = c.integers(0, 5)
    ne = c.choice(gen.big([0, 1, 1, 2, 3, 5, 8], [17, 33, 70]))
    els, kinds = [], []
    for i in range(ne):
        k, e, d = any_electrode(c, o)
        e.name = c.choice(["a", "b", "", "dc%d" % i])
        e.dc, e.rf = [c.choice([0, 0., 1, -1., gen.voltage(c.rng), np.float64(c.uniform(-3, 3)),
                                c.integers(-4, 4)]) for _ in range(2)]
        els.append(e)
        kinds.append(k)
    s = System(els)
    n = c.choice(gen.NPTS[:13])
    x = some_points(c, n)
    typ = c.choice(["dc", "rf"])
    V = [float(getattr(e, typ)) for e in els]
    c.note(kinds=kinds, V=V, typ=typ, order=o, n=n)
    c.state(sorted(kinds), typ, o, n, [np.sign(v) for v in V])
    unit = [np.array(e.potential(x.copy(), o)) for e in els]
    want = np.zeros((n, 2*o+1), np.longdouble)
    mag = np.zeros((n, 1))
    for u, v in zip(unit, V):
        want = want+np.longdouble(v)*u
        mag = np.maximum(mag, np.abs(v*u).max(1)[:, None])
    before = [snapshot(e) for e in els]
    got = s.electrical_potential(x, o, typ)
    c.close(got, want.astype(float), "sum-of-voltage-times-unit", rtol=1e-10, scale=mag)
    c.equal([snapshot(e) for e in els], before, "evaluation-does-not-change-the-system")
    ind = s.individual_potential(x, o)
    c.equal(ind.shape, (ne, n, 2*o+1), "individual-shape")
    for i, u in enumerate(unit):
        c.close(ind[i], u, "individual-is-unit-potential", rtol=1e-12, scale=np.abs(u).max(1)[:, None])
    full = s.electrical_potential(x, o, typ, expand=True)
    c.close(full, oracles.expand(got, o), "expand-is-complete-tensor", rtol=1e-10,
            scale=mag.reshape((-1,)+(1,)*o) if o else mag[:, 0])
    if ne > 1:
        perm = [int(i) for i in c.rng.permutation(ne)]
        c.close(System([els[i] for i in perm]).electrical_potential(x, o, typ), got,
                "order-of-electrodes", rtol=1e-9, scale=mag)
        k = c.integers(1, ne-1)
        a, b = System(els[:k]), System(els[k:])
        c.close(a.electrical_potential(x, o, typ)+b.electrical_potential(x, o, typ), got,
                "split-systems-add", rtol=1e-9, scale=mag)
    f = c.choice([2., -3., .5, 1e-3])
    for e in els:
        setattr(e, typ, getattr(e, typ)*f)
    c.close(s.electrical_potential(x, o, typ), f*got, "homogeneous-in-voltage", rtol=1e-9, scale=abs(f)*mag)


@scenario("E04", quick=320, thorough=8000)
def batch_and_layout(c):
    """Any number of points, memory layout, dtype or container: same per-point values."""
    o = c.integers(0, 4)
    els = []
    for i in range(c.integers(*gen.big((1, 3), (1, 2)))):
        k, e, d = any_electrode(c, o)
        e.dc = gen.voltage(c.rng)
        els.append((k, e))
    s = System([e for _, e in els])
    n = c.choice(gen.NPTS)
    x = some_points(c, n)
    if c.chance(.3):
        x = np.round(x*4)/4
        x[:, 2] = np.maximum(np.abs(x[:, 2]), .25)
    idx = subset(c, n, 12)
    ref = s.electrical_potential(x, o)
    c.note(kinds=[k for k, _ in els], n=n, order=o)
    mag = np.maximum(np.abs(ref).max(1)[:, None], 1e-300)
    for i in idx:
        one = s.electrical_potential(x[i], o)
        c.equal(one.shape, (1, 2*o+1), "single-point-shape")
        c.close(one[0], ref[i], "batch-equals-single", rtol=1e-9, scale=mag[i])
    perm = c.rng.permutation(n)
    c.close(s.electrical_potential(x[perm], o), ref[perm], "point-order", rtol=1e-9, scale=mag[perm])
    how = c.choice(["fortran", "strided", "list", "reversed", "3d", "float32", "int", "readonly", "columns", "tuple"])
    c.state(how, o, n, sorted(k for k, _ in els))
    xx, want, m = x, ref, mag
    if how == "fortran":
        v = np.asfortranarray(x)
    elif how == "strided":
        b = np.full((2*n, 6), np.nan)
        b[::2, ::2] = x
        v = b[::2, ::2]
    elif how == "list":
        v = x.tolist()
    elif how == "tuple":
        v = tuple(tuple(i) for i in x)
    elif how == "reversed":
        v, want, m = x[::-1], ref[::-1], mag[::-1]
    elif how == "3d":
        v = np.repeat(x[None], 2, 0)
        want, m = np.concatenate([ref, ref]), np.concatenate([mag, mag])
    elif how == "columns":
        v = np.ascontiguousarray(x.T).T
    elif how == "readonly":
        v = x.copy()
        v.flags.writeable = False
    else:
        dt = np.float32 if how == "float32" else int
        v = x.astype(dt)
        if how == "int":
            v[:, 2] = np.maximum(np.abs(v[:, 2]), 1)
        xx = v.astype(float)
        want = s.electrical_potential(xx, o)
        m = np.maximum(np.abs(want).max(1)[:, None], 1e-300)
    keep = np.array(v, copy=True)
    got = s.electrical_potential(v, o)
    c.close(got, want, "layout-independent", rtol=1e-9, scale=m, how=how)
    c.same_array(np.asarray(v), keep, "points-not-modified")
    for k, e in els:        # electrodes directly, strided double input
        if how in ("fortran", "strided", "reversed", "columns"):
            a = e.potential(v, o)
            b = e.potential(np.ascontiguousarray(v), o)
            c.close(a, b, "electrode-layout-independent", rtol=1e-12, scale=np.abs(b).max(1)[:, None], kind=k)


@scenario("E04", quick=320, thorough=8000)
def accumulate_into_out(c):
    """`out` is added to, whatever it held, and is what is returned."""
    o = c.integers(0, 5)
    k, e, d = any_electrode(c, o)
    n = c.choice(gen.NPTS[:13])
    x = some_points(c, n)
    V = gen.voltage(c.rng)
    unit = e.potential(x.copy(), o)
    base = c.rng.normal(size=(n, 2*o+1))*c.choice([0, 1, 1, 1e3])
    big = np.full((n+4, 2*o+1), 7.25)
    use_view = c.chance(.5)
    out = big[2:-2] if use_view else base.copy()
    out[...] = base
    reps = c.integers(1, 3)
    c.note(kind=k, n=n, order=o, V=V, reps=reps)
    c.state(k, n, o, reps, use_view)
    for i in range(reps):
        r = e.potential(x, o, potential=V, out=out)
        c.ok(r is out or np.shares_memory(r, out), "returned-array-is-out")
    want = base+reps*V*unit
    c.close(out, want, "accumulates", rtol=1e-9, scale=np.maximum(np.abs(base), np.abs(V*unit).max(1)[:, None]))
    if use_view:
        c.ok((big[:2] == 7.25).all() and (big[-2:] == 7.25).all(), "nothing-outside-out-is-written")
    fresh = e.potential(x, o, potential=V)
    c.ok(not np.shares_memory(fresh, out), "fresh-array-without-out")
    again = e.potential(x, o, potential=V)
    c.same_array(again, fresh, "repeatable")
    c.ok(not np.shares_memory(again, fresh), "results-are-independent")


# ------------------------------------------------------------------ E05
@scenario("E05", quick=400, thorough=10000)
def kernels_agree(c):
    """Compiled kernels against the pure Python ones on identical arguments."""
    o = c.integers(0, 5)
    fn = c.choice(["polygon", "polygon", "point", "mesh"])
    n = c.choice(gen.big([1, 2, 3, 5, 9, 17], [3, 12]))
    V = gen.voltage(c.rng)
    nmax, H = c.choice(gen.big([0, 0, 1, 2, 5], [0, 6])), c.choice([1., 5., 50.])
    c.state(fn, o, n, nmax)
    c.note(fn=fn, order=o, n=n, nmax=nmax, H=H, V=V)
    from electrode import cexpressions as cx
    if fn == "point":
        d = make_points(c)
        H *= d["scale"]
        d["cover_nmax"], d["cover_height"] = nmax, H
        x = cover_points(c, gen.points(c.rng, n, near(d))[0], d) if nmax else gen.points(c.rng, n, near(d))[0]
        args = (np.array(d["points"]), np.array(d["areas"]), V, o, nmax, H)
        f, g = cx.point_potential, pyx.point_potential
        t = oracles.tol(x, d, o)*abs(V)
    else:
        d, _ = make_poly(c, nmax=3)
        H *= d["scale"]
        d["cover_nmax"], d["cover_height"] = nmax, H
        x = gen.points(c.rng, n, d["paths"])[0]
        flat = c.chance(.15 if o else .5)
        if nmax:
            x = cover_points(c, x, d)
        elif flat:      # next to the plane, away from the edges
            x = plane_points(c, d, n)
            n = len(x)
            if not n:
                return
        t = oracles.tol(x, d, o, flat and not nmax)*abs(V)
        if flat and not nmax and o == 0:
            t[:] = abs(V)*1e-9
        ps = [np.array(p, float) for p in d["paths"]]
        if fn == "polygon":
            args = (ps, V, o, nmax, H)
            f, g = cx.polygon_potential, pyx.polygon_potential
        else:
            pts = np.concatenate(ps)
            off = np.cumsum([0]+[len(p) for p in ps])
            edges = np.concatenate([np.c_[np.roll(np.arange(len(p)), 1), np.arange(len(p))]+a
                                    for p, a in zip(ps, off)]).astype(np.intc)
            polys = np.concatenate([np.full(len(p), i) for i, p in enumerate(ps)]).astype(np.intc)
            pv = c.rng.normal(size=len(ps))*V
            perm = c.rng.permutation(len(edges))
            args = (pts, edges[perm], polys[perm], pv, o, nmax, H)
            f, g = cx.mesh_potential, pyx.mesh_potential
            t = t*max(1., np.abs(pv).max()/max(abs(V), 1e-300))
    base = c.rng.normal(size=(n, 2*o+1)) if c.chance(.3) else None
    a = f(x, *args, out=None if base is None else base.copy()) if False else \
        f(x, *(args+((None if base is None else base.copy()),)))
    b = g(x, *(args+((None if base is None else base.copy()),)))
    mag = np.abs(b-(0 if base is None else base)).max(1)
    use = (t < 1e-3*mag) | (mag == 0)
    c.equal(a.shape, b.shape, "kernel-shapes")
    if use.any():
        c.close(a[use], b[use], "compiled-equals-python", rtol=1e-12, atol=2*t[use][:, None])
    c.count("points-skipped-ill-conditioned", int((~use).sum()))


# ------------------------------------------------------------------ E06
@scenario("E06", quick=320, thorough=8000)
def mesh_from_system(c):
    """MeshPixelElectrode.from_polygon_system(s) reproduces the dc potential of s."""
    m = c.choice(gen.big([1, 2, 3, 5, 9], [20, 45]))
    els, ps = [], []
    scale = 10**c.uniform(-3, 3) if c.chance(.4) else 1.
    tile = None
    if c.chance(.3):
        # neighbours with gaps much smaller than themselves
        tile = gen.star(c.rng, c.choice([3, 4, 6]), .8, 1.2)
        gap = 10**c.uniform(-6, -1)
    cov = {}
    if c.chance(.3):
        cov = dict(cover_nmax=c.choice([0, 1, 2, 5]), cover_height=scale*c.choice([2.03, 5.1, 50.]))
    for i in range(m):
        if tile is None:
            q = [p*scale for p in gen.paths(c.rng, c.choice([1, 1, 2, 3]))[0]]
        else:
            q = [(tile+[i*gap, (i % 3)*gap*2])*scale]
        ps += q
        els.append(el.PolygonPixelElectrode(paths=q, name="e%d" % (i % 3), rf=c.uniform(-1, 1), **cov,
                                            dc=c.choice([0., 1., gen.voltage(c.rng), c.uniform(-2, 2), c.integers(-3, 3)])))
    s = System(els)
    mesh = el.MeshPixelElectrode.from_polygon_system(s)
    o = c.integers(0, 5)
    n = c.choice([1, 2, 3, 7, 33])
    x, kind = gen.points(c.rng, n, ps)
    V = c.choice([1., gen.voltage(c.rng)])
    c.note(electrodes=m, order=o, n=n, dcs=s.dcs, V=V, scale=scale, tile=tile is not None)
    want = s.electrical_potential(x, o)
    vm = max(np.abs(s.dcs).max(), 1e-300)
    t = oracles.polygon_tol(x, ps, o)*vm
    for i in range(1, cov.get("cover_nmax", 0)+1):
        for sg in (-1, 1):
            t = t+oracles.polygon_tol(x+[0, 0, sg*2*i*cov["cover_height"]], ps, o)*vm
    mag = np.abs(np.array([e.potential(x, o)*e.dc for e in els])).max(0).max(1)
    use = (t < 1e-3*mag) | (mag == 0)
    if use.any():
        c.state(m, o, n, [len(e.paths) for e in els], cov.get("cover_nmax"))
        got = mesh.potential(x, o, potential=V)
        c.close(got[use], V*want[use], "mesh-equals-system", rtol=1e-12, atol=(2*abs(V)*t[use])[:, None])
        sm = System([mesh])
        c.close(sm.electrical_potential(x, o, "dc")[use], want[use], "mesh-system-equals-system", rtol=1e-12,
                atol=(2*t[use])[:, None])


@scenario("E06", quick=240, thorough=6000)
def mesh_by_hand(c):
    """A mesh with shared vertices, shuffled edges and permuted vertex numbers, with a cover."""
    nx, ny = c.integers(1, 3), c.integers(1, 3)
    gx, gy = np.meshgrid(np.arange(nx+1.), np.arange(ny+1.), indexing="ij")
    pts = np.c_[gx.ravel(), gy.ravel()]+c.rng.uniform(-.2, .2, ((nx+1)*(ny+1), 2))
    num = np.arange(len(pts)).reshape(nx+1, ny+1)
    quads = [[num[i, j], num[i+1, j], num[i+1, j+1], num[i, j+1]] for i in range(nx) for j in range(ny)]
    perm = c.rng.permutation(len(pts))
    newpts = np.empty_like(pts)
    newpts[perm] = pts
    edges, polys = [], []
    for k, q in enumerate(quads):
        for a, b in zip(q, q[1:]+q[:1]):
            edges.append([perm[a], perm[b]])
            polys.append(k)
    sh = c.rng.permutation(len(edges))
    pot = c.rng.normal(size=len(quads))
    if c.chance(.3):
        pot[c.integers(0, len(pot)-1)] = 0
    cov = {"cover_nmax": c.integers(0, 3), "cover_height": c.uniform(3., 20.)} if c.chance(.5) else {}
    mesh = el.MeshPixelElectrode(points=newpts, edges=np.array(edges)[sh], polygons=np.array(polys)[sh],
                                 potentials=pot, **cov)
    o = c.integers(0, 5)
    ps = [pts[q] for q in quads]
    x, kind = gen.points(c.rng, c.choice([1, 2, 5]), ps)
    V = gen.voltage(c.rng)
    d = {"kind": "poly", "paths": ps, "scale": 1.}
    d.update(cov)
    if cov:
        x = cover_points(c, x, d)
    got = mesh.potential(x, o, potential=V)
    c.note(quads=len(quads), order=o, V=V, cover=cov)
    want = sum(jets.fold(jets.electrode_jet(x, dict(d, paths=[p]), o))[o]*np.longdouble(v) for p, v in zip(ps, pot))
    t = oracles.tol(x, d, o)*abs(V)*np.abs(pot).max()
    want = (want*np.longdouble(V)).astype(float)
    use = t < 1e-3*np.abs(want).max(1)
    if use.any():
        c.state(nx, ny, o, bool(cov))
        c.close(got[use], want[use], "mesh-equals-sum-of-polygons", rtol=1e-12, atol=t[use][:, None])
    c.count("points-skipped-ill-conditioned", int((~use).sum()))


# ------------------------------------------------------------------ E07
def trilinear(data, idx):
    """Multilinear interpolation with clamping, own implementation (longdouble)."""
    idx = np.asarray(idx, np.longdouble)
    sh = np.array(data.shape[:3])
    u = np.clip(idx, 0, sh-1)
    i0 = np.minimum(np.floor(u).astype(int), np.maximum(sh-2, 0))
    f = u-i0
    out = np.zeros((len(idx),)+data.shape[3:], np.longdouble)
    for a in (0, 1):
        for b in (0, 1):
            for d in (0, 1):
                j = np.minimum(i0+[a, b, d], sh-1)
                w = ((f[:, 0] if a else 1-f[:, 0])*(f[:, 1] if b else 1-f[:, 1])*(f[:, 2] if d else 1-f[:, 2]))
                out += w[:, None]*data[j[:, 0], j[:, 1], j[:, 2]]
    return out


def fd(a, axis, h):
    """Central differences inside, one sided at the two ends."""
    a = np.moveaxis(a, axis, 0)
    r = np.empty_like(a)
    r[1:-1] = (a[2:]-a[:-2])/(2*h)
    r[0] = (a[1]-a[0])/h
    r[-1] = (a[-1]-a[-2])/h
    return np.moveaxis(r, 0, axis)


@scenario("E07", quick=400, thorough=10000)
def interpolation(c):
    """Node values are reproduced, linear in between, constant beyond the grid."""
    shape = tuple(c.integers(*gen.big((1, 7), (6, 20))) for _ in range(3))
    e = grid_electrode(c, shape, orders=c.integers(1, 5))
    o = c.integers(0, len(e.data)-1)
    n = c.choice(gen.big([1, 2, 3, 10, 65], [500, 3000]))
    sh = np.array(shape)
    kinds = []
    idx = np.empty((n, 3))
    for i in range(n):
        k = c.choice(["node", "inside", "inside", "face", "outside", "edge"])
        if k == "node":
            idx[i] = [c.integers(0, s-1) for s in shape]
        elif k in ("inside", "face", "edge"):
            idx[i] = c.rng.uniform(0, 1, 3)*(sh-1)
            if k != "inside":
                a = c.integers(0, 2)
                idx[i, a] = c.choice([0, shape[a]-1])
        else:
            idx[i] = c.rng.uniform(-3, 3, 3)+c.rng.uniform(0, 1, 3)*(sh-1)
        kinds.append(k)
    x = e.origin+idx*e.spacing
    V = gen.voltage(c.rng)
    x0 = x.copy()
    got = e.potential(x, o, potential=V)
    c.same_array(x, x0, "points-not-modified")
    # indices as the electrode must recover them from x
    ii = (x.astype(np.longdouble)-e.origin)/e.spacing
    want = trilinear(e.data[o], ii)*np.longdouble(V)
    c.note(shape=shape, order=o, n=n, kinds=sorted(set(kinds)), V=V)
    c.state(shape, o, n, sorted(set(kinds)))
    c.close(got, want.astype(float), "trilinear-with-clamping", rtol=1e-9, scale=abs(V)*np.abs(e.data[o]).max(), kinds=kinds)
    s = System([e])
    e.dc = 2.5
    c.close(s.electrical_potential(x, o), 2.5*want.astype(float)/V if V else 0*got+2.5*trilinear(e.data[o], ii).astype(float),
            "grid-in-system", rtol=1e-9, scale=2.5*np.abs(e.data[o]).max())


@scenario("E07", quick=240, thorough=6000)
def generated_derivatives(c):
    """Missing orders are finite differences of the given data; given data are kept."""
    shape = tuple(c.integers(*gen.big((2, 6), (6, 17))) for _ in range(3))
    spacing = c.rng.uniform(.1, 2., 3)
    phi = c.rng.normal(size=shape)
    data = [phi[..., None].copy()]
    given = c.choice([1, 1, 1, 2, 2, 3, 4, 6])
    field = None
    if given >= 2:
        field = np.stack([fd(phi, a, spacing[a]) for a in range(3)], -1)
        if c.chance(.5):
            field = field+c.rng.normal(size=field.shape)*.1
        data.append(field.copy())
    for o in range(2, given):
        data.append(c.rng.normal(size=shape+(2*o+1,)))
    e = el.GridElectrode(data=data, origin=c.rng.normal(size=3), spacing=spacing)
    m = c.choice([c.integers(1, 6), given])
    keep = [a.copy() for a in e.data]
    e.generate(m)
    c.note(shape=shape, spacing=spacing, given=given, maxderiv=m)
    c.state(shape, given, m)
    c.equal(len(e.data), max(given, m), "orders-present-after-generate")
    for i, k in enumerate(keep):
        c.same_array(e.data[i], k, "given-data-kept")
    for o in range(given, len(e.data)):
        c.equal(e.data[o].shape, shape+(2*o+1,), "generated-shape")
        for i, nm in enumerate(jets.NAMES[o]):
            # any path from the highest given order is fine: a component there, then differences
            ok, paths = False, 0
            for j, base in enumerate(jets.NAMES[given-1]):
                rest = list(nm)
                if any(rest.count(ch) < base.count(ch) for ch in "xyz"):
                    continue
                for ch in base:
                    rest.remove(ch)
                paths += 1
                w = e.data[given-1][..., j]
                m0 = np.abs(w).max()
                for ch in rest:
                    w = fd(w, "xyz".index(ch), spacing["xyz".index(ch)])
                    m0 *= 2/spacing["xyz".index(ch)]
                ok = ok or np.allclose(w, e.data[o][..., i], rtol=1e-9, atol=1e-12*m0)
            if paths:
                c.ok(ok, "finite-difference-of-given-data", "order %d component %s" % (o, nm), name=nm, given=given)
            else:
                c.count("components-without-a-direct-path")
    snap = [a.copy() for a in e.data]
    e.generate(m)
    c.ok(all(np.array_equal(a, b) for a, b in zip(e.data, snap)) and len(e.data) == len(snap), "generate-idempotent")


@scenario("E07", quick=100, thorough=2000)
def sampled_surface_electrode(c):
    """A grid sampled from an analytic electrode approximates it within the a-priori bound."""
    d, tag = make_poly(c, nmax=1, scale=False)
    p = build(d)
    ctr = np.r_[np.array(d["paths"][0]).mean(0), c.uniform(1., 2.)]
    shape = tuple(c.integers(3, 7) for _ in range(3))
    h = c.rng.uniform(.05, .15, 3)
    org = ctr-h*(np.array(shape)-1)/2
    mg = np.stack(np.meshgrid(*[org[a]+h[a]*np.arange(shape[a]) for a in range(3)], indexing="ij"), -1)
    data = [p.potential(mg.reshape(-1, 3), o).reshape(shape+(2*o+1,)) for o in range(3)]
    e = el.GridElectrode(data=data, origin=org, spacing=h, dc=1.)
    x = org+c.rng.uniform(0, 1, (6, 3))*h*(np.array(shape)-1)
    c.note(shape=shape, h=h, tags=tag)
    c.state(shape, tag)
    fine = np.concatenate([x]+[x+c.rng.uniform(-1, 1, x.shape)*h for i in range(10)]+[mg.reshape(-1, 3)])
    for o in range(2):
        nxt = oracles.expand(p.potential(fine, o+2), o+2).reshape(len(fine), -1)
        bound = np.abs(nxt).max()*1.5*(h**2).sum()/8*3
        c.close(e.potential(x, o), p.potential(x, o), "sampled-grid-approximates", rtol=0, atol=bound+1e-12)


# ------------------------------------------------------------------ E08
class FakeGrid(object):
    def __init__(self, origin, step, shape):
        self.step, self.shape = step, shape
        self._o = origin

    def get_origin(self):
        return self._o


@scenario("E08", quick=200, thorough=5000)
def from_result(c):
    shape = tuple(c.integers(*gen.big((2, 6), (6, 17))) for _ in range(3))
    org, step = c.rng.normal(size=3), c.rng.uniform(.1, 2, 3)
    r = types.SimpleNamespace(grid=FakeGrid(org, step, shape), potential=c.rng.normal(size=shape),
                              field=c.rng.normal(size=(3,)+shape) if c.chance(.6) else None)
    m = c.integers(1, 5)
    pot0, f0 = r.potential.copy(), None if r.field is None else r.field.copy()
    e = el.GridElectrode.from_result(r, maxderiv=m)
    c.note(shape=shape, field=r.field is not None, maxderiv=m)
    c.state(shape, r.field is not None, m)
    check_loaded(c, e, org, step, pot0, None if f0 is None else np.moveaxis(f0, 0, -1), m)


def check_loaded(c, e, org, step, pot, field, m):
    shape = pot.shape
    c.close(e.origin, org, "origin")
    c.close(e.spacing, step, "spacing")
    c.equal(len(e.data), max(m, 1+(field is not None)), "orders-present")
    idx = np.stack(np.meshgrid(*map(np.arange, shape), indexing="ij"), -1).reshape(-1, 3)
    x = org+idx*step
    c.close(e.potential(x, 0)[:, 0], pot[tuple(idx.T)], "node-potential-is-the-loaded-value", rtol=1e-8,
            scale=np.abs(pot).max())
    if len(e.data) > 1:
        if field is not None:
            want = field[tuple(idx.T)]
        else:
            want = np.stack([fd(pot, a, step[a]) for a in range(3)], -1)[tuple(idx.T)]
        c.close(e.potential(x, 1), want, "node-field-is-the-loaded-value", rtol=1e-8, scale=np.abs(want).max())


class _Arr(object):
    def __init__(self, a):
        self.a = a
        self.number_of_components = a.shape[1] if a.ndim > 1 else 1

    def to_array(self):
        return self.a


class _PD(object):
    def __init__(self, arrays):
        self.arrays = arrays
        self.number_of_arrays = len(arrays)

    def get_array_name(self, i):
        return self.arrays[i][0]

    def get_array(self, i):
        return _Arr(self.arrays[i][1])


class _Reader(object):
    """Stand-in for tvtk's legacy StructuredPoints reader: parses the ASCII file."""

    def __init__(self, file_name=None):
        self.fn = file_name

    def update(self):
        tok = open(self.fn).read().split("\n", 4)
        words = tok[4].split()
        self.out = types.SimpleNamespace()
        arrays, i = [], 0
        while i < len(words):
            w = words[i]
            if w == "DIMENSIONS":
                self.out.dimensions = np.array([int(v) for v in words[i+1:i+4]])
                i += 4
            elif w in ("ORIGIN", "SPACING"):
                setattr(self.out, w.lower(), np.array([float(v) for v in words[i+1:i+4]]))
                i += 4
            elif w == "POINT_DATA":
                n = int(words[i+1])
                i += 2
            elif w == "SCALARS":
                name = words[i+1]
                i += 6
                arrays.append((name, np.array([float(v) for v in words[i:i+n]])))
                i += n
            elif w == "VECTORS":
                name = words[i+1]
                i += 3
                arrays.append((name, np.array([float(v) for v in words[i:i+3*n]]).reshape(n, 3)))
                i += 3*n
            else:
                i += 1
        self.out.point_data = _PD(arrays)

    def get_output(self):
        return self.out


def write_vtk(path, org, step, shape, arrays):
    with open(path, "w") as f:
        f.write("# vtk DataFile Version 3.0\nx\nASCII\nDATASET STRUCTURED_POINTS\n")
        f.write("DIMENSIONS %d %d %d\n" % tuple(shape))
        f.write("ORIGIN %r %r %r\n" % tuple(map(float, org)))
        f.write("SPACING %r %r %r\n" % tuple(map(float, step)))
        f.write("POINT_DATA %d\n" % np.prod(shape))
        for name, a in arrays:       # a: (nx, ny, nz[, 3]); vtk runs x fastest
            b = np.moveaxis(a, [0, 1, 2], [2, 1, 0]).reshape(int(np.prod(shape)), -1)
            f.write("SCALARS %s double 1\nLOOKUP_TABLE default\n" % name if a.ndim == 3 else
                    "VECTORS %s double\n" % name)
            f.write("\n".join(" ".join(repr(float(v)) for v in row) for row in b)+"\n")


@scenario("E08", quick=160, thorough=3000)
def from_vtk(c):
    tv, api = types.ModuleType("tvtk"), types.ModuleType("tvtk.api")
    api.tvtk = types.SimpleNamespace(StructuredPointsReader=_Reader)
    tv.api = api
    sys.modules["tvtk"], sys.modules["tvtk.api"] = tv, api
    shape = tuple(c.integers(2, 5) for _ in range(3))
    org, step = c.rng.normal(size=3), c.rng.uniform(.1, 2, 3)
    pot = c.rng.normal(size=shape)
    field = c.rng.normal(size=shape+(3,)) if c.chance(.6) else None
    arrays = [("potential", pot)]
    if field is not None:
        arrays.append(("field", field))
    for nm in ("x_pondpot", "charge", "potential_pondpot", "field_pondpot"):
        if c.chance(.3):
            arrays.insert(c.integers(0, len(arrays)), (nm, c.rng.normal(size=shape)))
    m = c.integers(1, 4)
    path = os.path.join(os.environ.get("VERIF_SCRATCH", "."), "g%d-%d.vtk" % (os.getpid(), c.idx))
    write_vtk(path, org, step, shape, arrays)
    c.note(shape=shape, arrays=[a for a, _ in arrays], maxderiv=m)
    c.state(shape, [a for a, _ in arrays], m)
    try:
        e = el.GridElectrode.from_vtk(path, maxderiv=m)
        check_loaded(c, e, org, step, pot, field, m)
        c.raises(FileNotFoundError, lambda: el.GridElectrode.from_vtk(path+".missing.vtk"), "missing-file-is-reported")
        os.rename(path, path+".dat")
        c.raises(FileNotFoundError, lambda: el.GridElectrode.from_vtk(path+".dat"), "wrong-suffix-is-reported")
    finally:
        for p in (path, path+".dat"):
            if os.path.exists(p):
                os.remove(p)
