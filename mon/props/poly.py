"""P01-P05: polygon collections, drawings and GDS files.

Oracles are independent of shapely's predicates: point membership by crossing numbers over the
rings, shoelace areas, and rasters (cells of an integer grid with walls, flooded by union-find).
"""
import io
import itertools
import math

import numpy as np
from gdsii import elements, library, structure
from shapely import geometry as G
from shapely import ops

from electrode import electrode as el
from electrode import polygons as pg
from electrode.polygons import Polygons
from electrode.system import System

from .. import gen
from ..core import HarnessError, scenario

EDGE_MARGIN = 1e-6


# ------------------------------------------------------------------ oracle geometry
def parts(g):
    """[[exterior, interior, ...], ...] of the areal parts of a geometry."""
    if g.is_empty:
        return []
    if hasattr(g, "geoms"):
        return [p for q in g.geoms for p in parts(q)]
    if g.geom_type != "Polygon":
        return []
    return [[np.asarray(r.coords)[:-1, :2] for r in [g.exterior]+list(g.interiors)]]


def crossing(ring, pts):
    a, b = np.roll(ring, 1, 0), ring
    x, y = pts[:, :1], pts[:, 1:]
    with np.errstate(all="ignore"):
        up = (a[:, 1] > y) != (b[:, 1] > y)
        xi = a[:, 0]+(y-a[:, 1])*(b[:, 0]-a[:, 0])/(b[:, 1]-a[:, 1])
        return (up & (x < xi)).sum(1) % 2 == 1


def inside(ps, pts):
    """Membership in a union of parts."""
    out = np.zeros(len(pts), bool)
    for p in ps:
        q = np.zeros(len(pts), bool)
        for r in p:
            q ^= crossing(r, pts)
        out |= q
    return out


def segdist(a, b, pts):
    """Distance of points to segments a-b and the position along them."""
    d = b-a
    l2 = np.maximum((d**2).sum(-1), 1e-300)
    t = np.clip(((pts[:, None]-a)*d).sum(-1)/l2, 0, 1)
    return np.sqrt(((pts[:, None]-a-t[..., None]*d)**2).sum(-1)), t


def bdist(ps, pts):
    """Distance to the boundary and whether the nearest boundary point is a vertex."""
    segs = [(np.roll(r, 1, 0), r) for p in ps for r in p]
    if not segs:
        return np.full(len(pts), np.inf), np.zeros(len(pts), bool)
    a, b = (np.concatenate(s) for s in zip(*segs))
    d, t = segdist(a, b, pts)
    i = d.argmin(1)
    tt = t[np.arange(len(pts)), i]
    return d.min(1), (tt == 0) | (tt == 1)


def shoelace(r):
    x, y = r[:, 0]-r[0, 0], r[:, 1]-r[0, 1]
    return float((np.roll(x, 1)*y-np.roll(y, 1)*x).sum()/2)


def area(ps):
    return sum(abs(shoelace(p[0]))-sum(abs(shoelace(r)) for r in p[1:]) for p in ps)


def bounds(pss):
    v = np.concatenate([r for ps in pss for p in ps for r in p])
    return v.min(0), v.max(0)


def sample(c, pss, n):
    """Points in and around the shapes, also close to boundaries."""
    lo, hi = bounds(pss)
    size = max(hi-lo)
    x = lo-.1*size+c.rng.random((n, 2))*(hi-lo+.2*size)
    rings = [r for ps in pss for p in ps for r in p]
    for i in range(n//2):
        r = rings[c.integers(0, len(rings)-1)]
        j = c.integers(0, len(r)-1)
        x[i] = r[j]+(r[(j+1) % len(r)]-r[j])*c.rng.random()+c.rng.normal(size=2)*size*c.logu(1e-4, .05)
    return x


def same_set(c, got, want, pts, monitor, margin=EDGE_MARGIN, **kw):
    """Two geometries (parts) have the same members among points away from the wanted boundary."""
    size = max(1., np.abs(pts).max())
    use = bdist(want, pts)[0] > margin*size
    g, w = inside(got, pts[use]), inside(want, pts[use])
    c.count("membership", int(use.sum()))
    if not np.array_equal(g, w):
        i = int(np.argmax(g != w))
        c.fail(monitor, "membership differs", point=pts[use][i], got=bool(g[i]), want=bool(w[i]), **kw)


def wkts(p):
    return [(n, g.wkt) for n, g in p]


# ------------------------------------------------------------------ workloads
def nested(c, centre, s, depth=None):
    """Rings of nested scaled copies about the centre of a star shape: [[ext, hole], [island, ...]]"""
    n = c.integers(3, 9)
    shape = gen.star(c.rng, n, .5, 1.) if c.chance(.7) else gen.rect(-.7, -.7, 1.4, 1.4)
    if c.chance(.3):
        shape = np.round(shape*8)/8
        nx = np.roll(shape, -1, 0)      # still strictly star-shaped about the centre
        if (shape[:, 0]*nx[:, 1]-shape[:, 1]*nx[:, 0] < .02).any():
            shape = gen.rect(-.5, -.5, 1., 1.)
    depth = c.choice(gen.big([1, 1, 2, 3, 4, 5], [6, 7, 9])) if depth is None else depth
    rings = []
    f = s
    for i in range(depth):
        rings.append(shape*f+centre)
        f *= c.uniform(*gen.big((.4, .8), (.75, .85)))
    out = [[r] if i+1 == depth else [r, rings[i+1]] for i, r in enumerate(rings)][::2]
    if depth == 1 and c.chance(.3):     # several separate holes
        out[0] += [shape*s*.1+centre+np.array(o)*s*.12 for o in ((-1, -1), (1, -1), (1, 1))]
        if not G.Polygon(out[0][0], out[0][1:]).is_valid:
            out[0] = out[0][:1]
    return out


def electrode_paths(c, ps):
    """Paths (exteriors ccw, holes cw) in random order and start vertex."""
    paths = []
    for p in ps:
        for i, r in enumerate(p):
            r = np.array(r, float)
            if (shoelace(r) > 0) != (i == 0):
                r = r[::-1]
            r = np.roll(r, c.integers(0, len(r)-1), 0)
            paths.append(np.asfortranarray(r) if c.chance(.3) else r.copy())
    order = c.rng.permutation(len(paths))
    return [paths[i] for i in order]


def random_names(c, n, empty=.1):
    base = ["rf", "dc1", "dc_2", "A", "left top", "x", "m1", "m10", "c-3"]
    out = []
    for i in range(n):
        k = c.choice(base)+(str(i) if c.chance(.7) else "")
        out.append("" if c.chance(empty) else k)
    return out


def cells_part(c, cells):
    """Parts of the union of unit cells."""
    return parts(ops.unary_union([G.box(i, j, i+1, j+1) for i, j in cells]))


def blob(c, w, h, p=.6):
    return [(i, j) for i in range(w) for j in range(h) if c.rng.random() < p]


def labelled(c, w, h, k):
    """Raster of labels 0..k-1 (or -1) in patches."""
    lab = np.full((w, h), -1)
    for i in range(3*k):
        x, y = c.integers(0, w-1), c.integers(0, h-1)
        dx, dy = c.integers(1, 4), c.integers(1, 4)
        lab[x:x+dx, y:y+dy] = c.integers(-1, k-1)
    return lab


def affine(c):
    """A similarity: p -> f(p), its scale and inverse."""
    s = c.choice([1., 1., .25, c.logu(1e-2, 1e2)])
    a = c.choice([0., 0., c.uniform(0, 2*np.pi)])
    t = c.rng.normal(size=2)*s*c.choice([0, 3, 30])
    R = np.array([[math.cos(a), -math.sin(a)], [math.sin(a), math.cos(a)]])*s
    Ri = np.linalg.inv(R)
    return (lambda p: np.asarray(p) @ R.T+t), s, (lambda p: (np.asarray(p)-t) @ Ri.T)


def to_geom(ps, f=lambda p: p, multi=None):
    g = [G.Polygon(f(p[0]), [f(r) for r in p[1:]]) for p in ps]
    return g[0] if len(g) == 1 and not multi else G.MultiPolygon(g)


def raster_polygons(c, k=None, nmax=7):
    """Disjoint collection from a raster: polygons, labels, similarity."""
    while True:
        k = gen.big(k or c.integers(1, 4), c.integers(8, 20) if gen.LARGE else 0)
        nmin, nmax = gen.big((2, nmax), (12, 18))
        w, h = c.integers(nmin, nmax), c.integers(nmin, nmax)
        lab = labelled(c, w, h, k)
        use = [i for i in range(k) if (lab == i).any()]
        if use:
            break
    f, s, fi = affine(c)
    names = random_names(c, len(use))
    P = Polygons()
    for n, i in zip(names, use):
        g = ops.unary_union([G.box(a, b, a+1, b+1) for a, b in zip(*np.nonzero(lab == i))])
        g = to_geom(parts(g), f, c.chance(.3))
        if not g.is_valid:          # corner contacts may become overlaps when rotated
            g = g.buffer(0)
        P.append((n, g))
    return P, lab, use, f, s, fi, names


def cell_samples(c, lab, n, pad=1):
    p = c.rng.uniform(-pad, np.array(lab.shape)+pad, (n, 2))
    i = np.floor(p).astype(int)
    fr = p-i
    p = i+.02+.96*fr
    ok = ((i >= 0) & (i < lab.shape)).all(1)
    out = np.full(n, -1)
    out[ok] = lab[i[ok, 0], i[ok, 1]]
    return p, out


# ------------------------------------------------------------------ P01
@scenario("P01", quick=450, thorough=4000)
def from_to_system(c):
    k = c.integers(*gen.big((1, 4), (6, 11)))
    S, want, tags = System(), [], []
    names = random_names(c, k)
    slots = list(itertools.product(range(gen.big(4, 9)), range(4)))
    c.rng.shuffle(slots)
    unit = c.choice([1., 1., 100., .01, 1e-6])
    for n in names:
        t = c.integers(0, 9)
        if t == 0:
            S.append(el.PointPixelElectrode(name="pt", points=[[0, 0]], areas=[1.]))
        if t == 1:
            S.append(el.CoverElectrode(name="cover"))
        if t == 2:      # no exterior at all
            S.append(el.PolygonPixelElectrode(name="ghost", paths=[gen.rect(0, 0, 1, 1)[::-1]]))
        ps = []
        for i in range(c.integers(1, 3)):
            ps += nested(c, np.array(slots.pop())*3.*unit, unit*c.uniform(.3, 1.3))
        S.append(el.PolygonPixelElectrode(name=n, paths=electrode_paths(c, ps), dc=1., rf=2.))
        want.append(ps)
        tags.append("/".join(str(len(p)) for p in ps))
    keep = [[p.copy() for p in e.paths] if hasattr(e, "paths") else None for e in S]
    P = Polygons.from_system(S)
    c.note(names=names, shapes=want)
    c.state(k, *tags)
    c.equal([n for n, g in P], names, "names-and-order")
    for e, kp in zip(S, keep):
        if kp is not None:
            c.ok(len(e.paths) == len(kp) and all(np.array_equal(a, b) for a, b in zip(e.paths, kp)),
                 "system-unchanged")
    pts = sample(c, want, 120)
    for (n, g), w in zip(P, want):
        c.ok(g.is_valid, "valid")
        c.equal(sum(map(len, parts(g))), sum(map(len, w)), "ring-count")
        c.close(area(parts(g)), area(w), "area", rtol=1e-9)
        same_set(c, parts(g), w, pts, "point-set", EDGE_MARGIN*min(1., unit))
    T = P.to_system()
    c.ok(isinstance(T, System), "type")
    c.equal([e.name for e in T], names, "names-and-order")
    x = np.c_[sample(c, want, 6), unit*c.rng.uniform(.3, 2, 6)]
    src = [e for e in S if hasattr(e, "paths") and e.name != "ghost"]
    for e, o, w in zip(T, src, want):
        c.equal(len(e.paths), sum(map(len, w)), "path-count")
        c.close(sum(shoelace(np.asarray(p)) for p in e.paths), area(w), "signed-area", rtol=1e-9)
        for p in e.paths:
            c.ok(not np.array_equal(p[0], p[-1]), "paths-not-closed-twice")
            c.equal(np.asarray(p).shape[1:], (2,), "path-shape")
        c.close(e.potential(x, 0), o.potential(x, 0), "potential", rtol=1e-9, atol=1e-11)
        c.close(e.potential(x, 1), o.potential(x, 1), "field", rtol=1e-8, atol=1e-9/unit)


@scenario("P01", quick=60, thorough=600)
def empties(c):
    """Entries without area become electrodes without paths, in place."""
    P, want, names = Polygons(), [], random_names(c, c.integers(2, 5))
    for k, n in enumerate(names):
        box = G.box(3*k, 0, 3*k+c.choice([1., 2.]), 2.)
        g, a = c.choice([(G.Polygon(), 0), (G.MultiPolygon(), 0), (box, 1), (G.MultiPolygon([box]), 1),
                         (G.MultiPolygon([box, G.box(3*k, 5, 3*k+1, 6)]), 2)])
        P.append((n, g))
        want.append((a, g.area))
    c.note(names=names, shapes=wkts(P))
    c.state(names, want)
    S = P.to_system()
    c.equal([e.name for e in S], names, "names-and-order")
    c.equal([len(e.paths) for e in S], [w[0] for w in want], "paths")
    from electrode.utils import area_centroid
    c.close([sum(area_centroid(p)[0] for p in e.paths) for e in S], [w[1] for w in want], "signed-area", rtol=1e-9)
    v = S.individual_potential(np.array([[0, 0, 1.]]))[:, 0, 0]
    c.same_array(v != 0, np.array([w[0] > 0 for w in want]), "no-area-no-potential")


@scenario("P01", quick=450, thorough=4000)
def to_from_system(c):
    P, lab, use, f, s, fi, names = raster_polygons(c)
    k = len(use)
    c.note(names=names, raster=lab, polygons=wkts(P))
    c.state(k, lab.shape, *[sorted(map(len, parts(g))) for n, g in P])
    before = wkts(P)
    T = P.to_system()
    Q = Polygons.from_system(T)
    c.equal(wkts(P), before, "argument-unchanged")
    c.equal([e.name for e in T], names, "names-and-order")
    c.equal([n for n, g in Q], names, "names-and-order")
    cells, labels = cell_samples(c, lab, 150)
    pts = f(cells)
    for e, (n, g), i in zip(T, Q, use):
        m = labels == i
        w = np.zeros(len(pts))
        for p in e.paths:
            w += crossing(np.asarray(p), pts)*np.sign(shoelace(np.asarray(p)))
        c.same_array(w, m.astype(float), "to-system-winding")
        c.ok(g.is_valid, "valid")
        c.same_array(inside(parts(g), pts), m, "from-system-members")
        c.close(area(parts(g)), (lab == i).sum()*s**2, "area", rtol=1e-9)
        c.close(e.areas if hasattr(e, "areas") else sum(shoelace(np.asarray(p)) for p in e.paths),
                (lab == i).sum()*s**2, "area", rtol=1e-9)


# ------------------------------------------------------------------ P02
def star_polygon(c, spread):
    k = c.integers(0, 3)
    o = c.rng.uniform(-spread, spread, 2)
    if k == 0:
        p = [[gen.rect(*np.round(o), *c.rng.integers(1, 4, 2))]]
    elif k == 1:
        p = nested(c, o, c.uniform(.5, 2.))
    else:
        p = [[gen.star(c.rng, c.integers(*gen.big((3, 10), (12, 80))), .4, 2.)+o]]
    g = to_geom(p, multi=c.chance(.3))
    return g if g.is_valid else G.Polygon(gen.rect(*o, 1, 1))


@scenario("P02", quick=600, thorough=5000)
def overlaps(c):
    k = c.integers(*gen.big((1, 5), (12, 30)))
    names = random_names(c, k)
    P = Polygons((n, star_polygon(c, c.choice(gen.big([.5, 1.5, 3.], [3., 5., 8.])))) for n in names)
    if c.chance(.2):
        P.append((names[0], P[0][1]))       # the same shape twice
    if c.chance(.2):
        x = P[c.integers(0, len(P)-1)][1]
        P.append(("inner", x.buffer(-.05)))
    before = wkts(P)
    c.note(polygons=before)
    Q = P.remove_overlaps()
    c.equal(wkts(P), before, "argument-unchanged")
    c.ok(isinstance(Q, Polygons), "type")
    c.equal([n for n, g in Q], [n for n, g in P], "names-and-order")
    ps = [parts(g) for n, g in P]
    pts = sample(c, ps, 250)
    far = np.min([bdist(p, pts)[0] for p in ps], 0) > 1e-5
    pts = pts[far]
    taken = np.zeros(len(pts), bool)
    lost = 0
    for (n, g), p in zip(Q, ps):
        m = inside(p, pts) & ~taken
        c.ok(g.is_valid, "valid", name=n)
        c.same_array(inside(parts(g), pts), m, "minus-predecessors", name=n)
        lost += (inside(p, pts) & taken).sum()
        taken |= m
    c.state(len(P), min(int(lost), 30)//3, *[len(p) for p in ps])
    u = area(parts(ops.unary_union([g for n, g in P])))
    c.close(sum(area(parts(g)) for n, g in Q), u, "areas-add-up-to-union", rtol=1e-6)


@scenario("P02", quick=450, thorough=4000)
def gaps(c):
    """Erosion by half the gap; reflex corners are cut by chords of the rounding circle."""
    if c.chance(.5):
        P, lab, use, f, s, fi, names = raster_polygons(c)
    else:
        names = random_names(c, c.integers(1, 4))
        P, s = Polygons((n, star_polygon(c, 3)) for n in names), 1.
    gap = s*c.choice([.05, .2, .5, c.logu(1e-3, .8), 1.5, 10.])
    before = wkts(P)
    c.note(gap=gap, polygons=before)
    Q = P.add_gaps(gap)
    c.equal(wkts(P), before, "argument-unchanged")
    c.equal([n for n, g in Q], [n for n, g in P], "names-and-order")
    ps = [parts(g) for n, g in P]
    pts = sample(c, ps, 300)
    hit = 0
    for (n, g), p in zip(Q, ps):
        c.ok(g.is_valid, "valid", name=n)
        d, vertex = bdist(p, pts)
        m = inside(p, pts)
        got = inside(parts(g), pts)
        must = m & (d > gap/2*1.03+1e-9*s)
        never = ~m & (d > 1e-9*s) | (d < gap/2*np.where(vertex, .36, .97)-1e-9*s)
        c.count("membership", int(must.sum()+never.sum()))
        hit += int(must.sum())
        if (must & ~got).any():
            i = int(np.argmax(must & ~got))
            c.fail("points-beyond-the-gap-stay", "lost a point", point=pts[i], distance=d[i], gap=gap)
        if (never & got).any():
            i = int(np.argmax(never & got))
            c.fail("points-within-the-gap-go", "kept a point", point=pts[i], distance=d[i], gap=gap)
    c.state(len(P), min(hit, 60)//5, "%.1g" % (gap/s))


@scenario("P02", quick=180, thorough=2000)
def gap_zero(c):
    P, lab, use, f, s, fi, names = raster_polygons(c)
    c.note(polygons=wkts(P))
    for Q, what in ((P.add_gaps(), "add_gaps()"), (P.add_gaps(0.), "add_gaps(0)"), (P.simplify(), "simplify()"),
                    (P.simplify(0.), "simplify(0)")):
        c.equal([n for n, g in Q], names, "names-and-order", msg=what)
        cells, labels = cell_samples(c, lab, 60)
        for (n, g), i in zip(Q, use):
            c.ok(g.is_valid, "valid")
            c.same_array(inside(parts(g), f(cells)), labels == i, "nothing-changes", msg=what)
            c.close(area(parts(g)), (lab == i).sum()*s**2, "area", rtol=1e-9)
    c.state(lab.shape, len(use))


@scenario("P02", quick=360, thorough=3000)
def simplify(c):
    """No point of the result is further than the tolerance from the original, and (with shapes whose
    features are larger) the other way round."""
    k = c.integers(1, 3)
    P, tags = Polygons(), []
    tol = c.logu(1e-3, .05)
    topo = c.chance(.5)
    for n in random_names(c, k):
        a = np.linspace(0, 2*np.pi, c.integers(12, 120))[:-1]
        w = c.choice([0., 0., .3])
        r = 1+w*np.cos(3*a)+c.rng.uniform(-1, 1, len(a))*tol*c.choice([0., .2, .6])
        shp = np.c_[np.cos(a), np.sin(a)]*r[:, None]*c.choice([1., 2., 5.])
        if c.chance(.4):        # rectangle with many collinear points
            t = np.linspace(0, 1, c.integers(3, 30))[:-1, None]
            q = gen.rect(-1, -1, 2, 1.5)*c.choice([1., 3.])
            shp = np.concatenate([q[i]+(q[(i+1) % 4]-q[i])*t for i in range(4)])
        o = c.rng.uniform(-20, 20, 2)
        holes = [shp[::-1]*.4+o] if c.chance(.4) else []
        g = G.Polygon(shp+o, holes)
        if not g.is_valid:
            g = G.Polygon(gen.rect(*o, 1, 1))
        P.append((n, g if c.chance(.7) else G.MultiPolygon([g])))
    before = wkts(P)
    c.note(tolerance=tol, preserve_topology=topo, polygons=before)
    Q = P.simplify(tol, topo) if c.chance(.5) else P.simplify(buffer=tol, preserve_topology=topo)
    c.equal(wkts(P), before, "argument-unchanged")
    c.equal([n for n, g in Q], [n for n, g in P], "names-and-order")
    gone = 0
    for (n, g), (_, g0) in zip(Q, P):
        p, p0 = parts(g), parts(g0)
        c.ok(g.is_valid and area(p) > 0, "valid", name=n)
        v = np.concatenate([r for q in p for r in q])
        v0 = np.concatenate([r for q in p0 for r in q])
        c.close(np.maximum(bdist(p0, v)[0]-tol, 0), np.zeros(len(v)), "result-near-original", atol=1e-9)
        c.close(np.maximum(bdist(p, v0)[0]-2*tol, 0), np.zeros(len(v0)), "original-near-result", atol=1e-9)
        pts = sample(c, [p0], 60)
        use = bdist(p0, pts)[0] > 2*tol*1.001+1e-9
        c.same_array(inside(p, pts)[use], inside(p0, pts)[use], "members")
        c.ok(len(v) <= len(v0), "no-more-vertices")
        gone += len(v0)-len(v)
    c.ok(True, "simplified")
    c.state(k, topo, min(gone, 200)//10)


@scenario("P02", quick=180, thorough=1500)
def smoothing_zero(c):
    """Smoothing with zero tolerance and linear splines interpolates: shapes stay."""
    names = random_names(c, c.integers(1, 3))
    P, want = Polygons(), []
    for n in names:
        ps = nested(c, c.rng.uniform(-9, 9, 2), c.uniform(.5, 3), depth=c.choice([1, 2]))
        want.append(ps)
        P.append((n, to_geom(ps, multi=c.chance(.4))))
    c.note(polygons=wkts(P))
    Q = P.smooth(smoothing=0, **c.choice([{}, {"k": 1}]))
    c.equal([n for n, g in Q], names, "names-and-order")
    pts = sample(c, want, 80)
    for (n, g), w in zip(Q, want):
        same_set(c, parts(g), w, pts, "shapes-stay")
        c.close(area(parts(g)), area(w), "area", rtol=1e-9)
    c.state(len(names), *[len(r) for w in want for p in w for r in p])


def loops(g):
    """Coordinate arrays of all rings, exterior first, in order."""
    out = []
    for q in (g.geoms if hasattr(g, "geoms") else [g]):
        for r in [q.exterior]+list(q.interiors):
            out.append(np.array(r.coords)[:, :2])
    return out


def arc(ring, m):
    """m points equally spaced along a closed ring, both ends included."""
    u = np.r_[0, np.cumsum(np.hypot(*np.diff(ring, axis=0).T))]
    t = np.linspace(0, u[-1], m)
    return np.c_[np.interp(t, u, ring[:, 0]), np.interp(t, u, ring[:, 1])]


def straight_corner(ring):
    """(straight, corner) per vertex of a closed ring without its last point;
    None if a turn is too close to call."""
    e = np.diff(ring, axis=0)
    b = np.roll(e, 1, axis=0)
    turn = np.abs(np.arctan2(b[:, 0]*e[:, 1]-b[:, 1]*e[:, 0], (b*e).sum(1)))
    if np.any((turn > 1e-8) & (turn < 1e-3)):
        return None
    t = turn < 1e-7
    return t, (np.roll(t, 1) | np.roll(t, -1)) & ~t


def smooth_ring(c):
    if c.chance(.5):
        a = np.sort(c.rng.uniform(0, 2*np.pi, gen.big(c.integers(6, 60), 400)))
        r = 1+.3*np.cos(3*a)+c.rng.normal(0, .02, len(a))
        p = np.c_[np.cos(a), np.sin(a)]*r[:, None]
    else:
        q = gen.rect(-1, -.5, 2, 1)
        th = c.choice([0., 0., c.rng.uniform(0, 7)])
        q = q @ np.array([[np.cos(th), np.sin(th)], [-np.sin(th), np.cos(th)]])
        p = np.concatenate([q[i]+(q[(i+1) % 4]-q[i])*np.arange(m)[:, None]/m
                            for i in range(4) for m in [c.choice([1, 2, 4, 8, 11])]])
    return np.roll(p, c.integers(0, len(p)-1), axis=0)


@scenario("P02", quick=160, thorough=1500)
def smoothing_tolerance(c):
    """Each loop's weighted residual stays within n*smoothing; knots are equally spaced."""
    names = random_names(c, c.integers(1, 3))
    P = Polygons()
    scale = c.choice([1., 1., 20.])
    for n in names:
        g = []
        for i in range(c.choice([1, 1, 2])):
            o = np.array([5.*i, 0])+c.rng.uniform(-1, 1, 2)
            holes = [smooth_ring(c)[::-1]*.2+o] if c.chance(.4) else []
            q = G.Polygon((smooth_ring(c)+o)*scale, [h*scale for h in holes])
            g.append(q)
        P.append((n, g[0] if len(g) == 1 and c.chance(.7) else G.MultiPolygon(g)))
    smoothing = 10**c.rng.uniform(-6, -3.5)*scale**2
    kw = {"smoothing": smoothing}
    if c.chance(.3):
        kw["smoothing"] = smoothing = 0
    if c.chance(.5):
        kw["corner"] = c.choice([.5, 3., 20.])
    if c.chance(.5):
        kw["straight"] = c.choice([.3, 1., 4.])
    if c.chance(.4):
        kw["knots"] = c.integers(4, 90)
    c.note(args=kw, polygons=wkts(P))
    before = wkts(P)
    try:
        Q = P.smooth(**kw)
    except AssertionError as e:      # splprep did not converge, and says so
        c.state("refused")
        c.ok("spline" in str(e), "refusal-says-why", got=str(e))
        c.giveup(str(e))
    c.equal(wkts(P), before, "argument-unchanged")
    c.equal([n for n, g in Q], names, "names-and-order")
    for (n, g), (_, g0) in zip(Q, P):
        L, L0 = loops(g), loops(g0)
        c.equal(len(L), len(L0), "loops", name=n)
        for a, b in zip(L, L0):
            size = np.ptp(b, axis=0).max()
            if "knots" in kw:
                c.ok(kw["knots"] <= len(a) <= kw["knots"]+1, "points-asked-for", got=len(a))
                if smoothing == 0:
                    c.close(a[:kw["knots"]], arc(b, kw["knots"]), "equally-spaced-along-the-outline",
                            atol=1e-9*size+1e-12*np.abs(b).max())
                continue
            c.ok(len(a) <= len(b)+1, "no-more-vertices")
            sc = straight_corner(b)
            if sc is None:
                continue
            w = np.ones(len(b)-1)
            if "straight" in kw:
                w[sc[0]] = kw["straight"]
            if "corner" in kw:
                w[sc[1]] = kw["corner"]
            d = np.array([G.LineString(a).distance(G.Point(*v)) for v in b[:-1]])
            c.ok(((w*d)**2).sum() <= len(b)*smoothing*1.002+(1e-9*size)**2, "residual-within-smoothing",
                 got=float(((w*d)**2).sum()), limit=len(b)*smoothing)
            c.state(len(b)//8, len(a)//8, "corner" in kw, "straight" in kw)


# ------------------------------------------------------------------ P03
class Walls(object):
    """n x n cells with walls on unit edges; edges are ((x, y), (x', y')) lattice segments."""

    def __init__(self, n):
        self.n = n
        self.parent = {}

    @staticmethod
    def unit_edges(line):
        out = set()
        for (x0, y0), (x1, y1) in zip(line, line[1:]):
            k = max(abs(x1-x0), abs(y1-y0))
            dx, dy = np.sign(x1-x0), np.sign(y1-y0)
            for i in range(k):
                a = (x0+i*dx, y0+i*dy)
                b = (x0+(i+1)*dx, y0+(i+1)*dy)
                out.add((min(a, b), max(a, b)))
        return out

    def neighbours(self, i, j):
        """(cell, separating edge)"""
        yield (i+1, j), ((i+1, j), (i+1, j+1))
        yield (i-1, j), ((i, j), (i, j+1))
        yield (i, j+1), ((i, j+1), (i+1, j+1))
        yield (i, j-1), ((i, j), (i+1, j))

    def components(self, cells, wall):
        cells = set(cells)
        comp = {}
        k = 0
        for s in sorted(cells):
            if s in comp:
                continue
            todo = [s]
            comp[s] = k
            while todo:
                a = todo.pop()
                for b, e in self.neighbours(*a):
                    if b in cells and b not in comp and not wall(e, a, b):
                        comp[b] = k
                        todo.append(b)
            k += 1
        return comp, k


def random_line(c, n, kind=None):
    kind = kind or c.choice(["span", "span", "loop", "walk", "part"])
    if kind == "span":
        k = c.integers(1, n-1)
        l = [(k, -1), (k, n+1)] if c.chance(.5) else [(k, 0), (k, n)]
        if c.chance(.5):
            l = [(b, a) for a, b in l]
    elif kind == "part":
        k, a, b = c.integers(1, n-1), c.integers(0, n-1), c.integers(0, n)
        b = b if b != a else a+1
        l = [(k, a), (k, b)]
        if c.chance(.5):
            l = [(y, x) for x, y in l]
    elif kind == "loop":
        a, b = sorted(c.rng.choice(np.arange(0, n+1), 2, replace=False).tolist())
        d, e = sorted(c.rng.choice(np.arange(0, n+1), 2, replace=False).tolist())
        l = [(a, d), (b, d), (b, e), (a, e), (a, d)]
    else:
        x, y = c.integers(1, n-1), c.integers(1, n-1)
        l, used = [(x, y)], {(x, y)}
        for i in range(c.integers(2, 5)):
            k = c.integers(1, 3)
            dx, dy = c.choice([(1, 0), (-1, 0), (0, 1), (0, -1)])
            q = [(x+j*dx, y+j*dy) for j in range(1, k+1)]
            if any(p in used or not (0 <= p[0] <= n and 0 <= p[1] <= n) for p in q):
                continue
            used |= set(q)
            x, y = q[-1]
            l.append(q[-1])
        if len(l) < 2:
            l = [(1, 0), (1, n)]
    return l if c.chance(.7) else l[::-1]


def ring_polygon(c, n, free):
    """Simple lattice polygon (no holes, no corner contacts) of free cells; may reach out of the field."""
    for _ in range(20):
        x, y = c.integers(-1, n-1), c.integers(-1, n-1)
        cells = {(x+i, y+j) for i in range(c.integers(1, 3)) for j in range(c.integers(1, 3))}
        if c.chance(.5):
            cells |= {(x+i, y) for i in range(c.integers(1, 4))}
        if not all(q in free or not (0 <= q[0] < n and 0 <= q[1] < n) for q in cells):
            continue
        if not any(0 <= q[0] < n and 0 <= q[1] < n for q in cells):
            continue
        ps = cells_part(c, cells)
        if len(ps) == 1 and len(ps[0]) == 1:
            r = ps[0][0]
            if len({tuple(v) for v in r.tolist()}) == len(r):
                return cells, r
    return None, None


def buffered(c, lines, width, edge):
    """GEOS itself buffers these lines by so little (about one in 3000 of them it does not)."""
    if not lines:
        return True
    ls = G.MultiLineString(lines)
    b = ls.buffer(width, 1)
    if b.is_valid and b.area <= 2.1*width*ls.length+10*width**2*len(lines) and \
            ops.unary_union(ls).difference(b).length <= 1e-6*edge:
        return True
    c.count("skipped-geos-cannot-buffer")
    c.state("geos-cannot-buffer")
    return False


@scenario("P03", quick=780, thorough=7000)
def layout(c):
    n = c.integers(*gen.big((3, 8), (10, 14)))
    h = c.choice([1., 5., .5, 40./n, c.uniform(.3, 7.)])
    edge = n*h
    buf = c.choice([None, None, 1e-10, 1e-8, 1e-9])
    free = {(i, j) for i in range(n) for j in range(n)}
    polys = []
    W = Walls(n)
    to = lambda l: (np.array(l, float)-n/2.)*h
    for i in range(c.choice(gen.big([0, 1, 2, 4], [6, 12]))):
        cells, r = ring_polygon(c, n, free)
        if cells is None:
            continue
        free -= cells
        r = np.roll(r, c.integers(0, len(r)-1), 0)
        if c.chance(.5):
            r = r[::-1]
        polys.append((cells & {(a, b) for a in range(n) for b in range(n)}, np.r_[r, r[:1]]))
    ng, nr, nb = c.choice(gen.big(0, [(6, 2, 2), (10, 0, 0), (8, 3, 1), (12, 4, 4)]) or [(1, 0, 0), (3, 0, 0), (0, 1, 0), (2, 1, 0), (3, 1, 1), (4, 2, 2), (0, 0, 0), (3, 1, 2)])
    gl = [random_line(c, n) for i in range(ng)]
    if c.chance(.3):    # outlines of polygons as gaps, as to_gds writes them
        gl += [[tuple(int(q) for q in v) for v in r] for _, r in polys]
    rl = [random_line(c, n) for i in range(nr)]
    bl = [random_line(c, n) for i in range(nb)]
    if nb and c.chance(.7):       # a loop of half route, half bridge
        l = random_line(c, n, "loop")
        k = c.integers(1, 3)
        rl.append(l[:k+1])
        bl.append(l[k:])
    gap, route, bridge = (set().union(*[W.unit_edges(l) for l in q]) if q else set() for q in (gl, rl, bl))
    # faces of routes and bridges
    face, nf = {}, 0
    if rl and bl:
        ext = {(i, j) for i in range(-2, n+2) for j in range(-2, n+2)}
        comp, _ = W.components(ext, lambda e, a, b: e in route or e in bridge)
        out = comp[(-2, -2)]
        face = {q: k for q, k in comp.items() if k != out}

    def wall(e, a, b):
        return e in route or (e in gap and not (a in face and b in face))
    comp, nc = W.components(free, wall)
    if not gl and not rl:
        comp, nc = {}, 0
    names = ["p%d" % i if c.chance(.7) else "" for i in range(len(polys))]
    pads = []
    target = {}
    owner = {q: ("poly", i) for i, (cs, r) in enumerate(polys) for q in cs}
    owner.update({q: ("free", k) for q, k in comp.items()})
    if owner and c.chance(.5):
        keys = sorted(owner)
        for i in range(c.integers(1, 4)):
            q = keys[c.integers(0, len(keys)-1)]
            if owner[q] in target:
                continue
            target[owner[q]] = "pad%d" % i
            pads.append(("pad%d" % i, (np.array(q)+c.rng.uniform(.1, .9, 2)-n/2.)*h))
    kw = {}
    if buf is not None:
        kw["buffer"] = buf
    if edge != 40. or c.chance(.5):
        kw["edge"] = edge
    c.note(n=n, h=h, kw=kw, polys=[r for _, r in polys], poly_names=names, gaps=gl, routes=rl, bridges=bl, pads=pads)
    b = (buf or 1e-10)
    if not buffered(c, [to(l) for l in gl], b, edge) or not buffered(c, [to(l) for l in rl], b, edge):
        return
    F = Polygons.from_data([(nm, to(r) if c.chance(.8) else to(r).tolist()) for nm, (_, r) in zip(names, polys)],
                           [to(l) for l in gl], [to(l) for l in rl], [to(l) for l in bl], pads, **kw)
    c.ok(isinstance(F, Polygons), "type")
    cells = [(i, j) for i in range(n) for j in range(n)]
    pts = (np.array(cells)+c.rng.uniform(.05, .95, (len(cells), 2))-n/2.)*h
    seen = np.zeros(len(cells), int)
    which = {}
    tot = 0.
    for i, (nm, g) in enumerate(F):
        c.ok(g.is_valid, "valid", index=i, wkt=g.wkt[:500])
        ps = parts(g)
        m = inside(ps, pts)
        seen += m
        tot += area(ps)
        if ps:
            lo, hi = bounds([ps])
            c.ok((np.abs([lo, hi]) <= edge/2+20*b).all(), "inside-the-field", index=i)
        own = {owner.get(cells[k]) for k in np.nonzero(m)[0]}
        if m.any():
            c.ok(len(own) == 1 and None not in own, "fragment-within-one-region", index=i, regions=sorted(map(str, own)))
            o = own.pop()
            c.ok(o not in which, "region-in-one-fragment", region=o)
            which[o] = i
            cs = sum(1 for q in cells if owner.get(q) == o)
            c.equal(int(m.sum()), cs, "fragment-covers-its-region", region=o)
            c.close(area(ps), cs*h*h, "fragment-area", rtol=1e-5, region=o)
            want = target.get(o, names[o[1]] if o[0] == "poly" else "")
            c.equal(nm, want, "fragment-name", region=o)
            if o[0] == "poly":
                cl = to_geom(cells_part(c, polys[o[1]][0]), to)
                c.close(g.symmetric_difference(cl).area, 0., "polygon-as-drawn", atol=1e-9*h*h)
        else:
            c.ok(area(ps) < 1e-6*h*h, "no-spurious-fragment", index=i, wkt=g.wkt[:300])
    c.same_array(seen, [1 if q in owner else 0 for q in cells], "partition")
    c.close(tot, len(owner)*h*h, "covers-the-field", rtol=1e-5)
    # matched fragments come first, in the order of their names
    got = [nm for nm, g in F][:len(pads)]
    c.equal(got, [p[0] for p in pads], "named-first-in-order")
    c.state(n, len(polys), nc, len(face) > 0, len(target), ng, nr, nb)


@scenario("P03", quick=360, thorough=3000)
def arrangement(c):
    """Straight gaps in any direction cut the field into the cells of their arrangement."""
    k = c.integers(*gen.big((1, 6), (8, 13)))
    edge = c.choice([40., 2., 10., c.logu(.5, 100)])
    ang = np.pi*(np.arange(k)+c.rng.uniform(.1, .9, k))/k
    off = c.rng.uniform(-.4, .4, k)*edge
    u = np.c_[np.cos(ang), np.sin(ang)]
    nrm = np.c_[-np.sin(ang), np.cos(ang)]
    lines = [(nrm[i]*off[i]+u[i]*edge*s, nrm[i]*off[i]-u[i]*edge*t)
             for i, (s, t) in enumerate(c.rng.uniform(1.5, 3, (k, 2)))]
    routes = []
    if c.chance(.4):
        j = c.integers(0, k-1)
        routes = [lines[j]]
        lines = lines[:j]+lines[j+1:]
    c.note(edge=edge, angles=ang, offsets=off, route=bool(routes))
    if not buffered(c, lines, 1e-10, edge) or not buffered(c, routes, 1e-10, edge):
        return
    F = Polygons.from_data(gaps=[np.array(l) for l in lines], routes=[np.array(l) for l in routes], edge=edge)
    pts = c.rng.uniform(-.5, .5, (400, 2))*edge
    s = pts @ nrm.T-off
    pts, s = pts[(np.abs(s) > 1e-5*edge).all(1)], s[(np.abs(s) > 1e-5*edge).all(1)] > 0
    lab = np.full(len(pts), -1)
    for i, (n, g) in enumerate(F):
        c.equal(n, "", "unnamed")
        c.ok(g.is_valid, "valid")
        m = inside(parts(g), pts)
        c.ok((lab[m] == -1).all(), "no-overlap")
        lab[m] = i
    c.ok((lab >= 0).all(), "covered")
    a = {tuple(q) for q in np.c_[lab, s].tolist()}
    c.equal(len(a), len({q[0] for q in a}), "fragment-not-crossed")
    c.equal(len(a), len({q[1:] for q in a}), "not-split-further")
    c.close(sum(area(parts(g)) for n, g in F), edge**2, "covers-the-field", rtol=1e-6)
    c.state(k, len(F), bool(routes))


# ------------------------------------------------------------------ P04
def hole_free(c):
    """Collection of disjoint hole-free multipolygons in a raster of slots."""
    k = c.integers(*gen.big((1, 4), (7, 11)))
    slots = list(itertools.product(range(-3, 3), range(-3, 3)))
    c.rng.shuffle(slots)
    P, tags = Polygons(), []
    names = random_names(c, k, empty=.25)
    for n in names:
        ps = []
        for i in range(c.choice([1, 1, 2, 3])):
            o = np.array(slots.pop(), float)
            t = c.integers(0, 3)
            if t == 0:
                r = gen.rect(*o, 1, 1)
            elif t == 1:
                r = gen.rect(*o, 1, 1)[[0, 1, 2]]
            elif t == 2:
                r = np.array([[0, 0], [1, 0], [1, .5], [.5, .5], [.5, 1], [0, 1]])+o
            else:
                r = gen.star(c.rng, c.integers(3, 9), .2, .45)+o+.5
            ps.append([r])
            tags.append("%d:%d" % (len(r), t))
        P.append((n, to_geom(ps, multi=c.chance(.3))))
    if not all(g.is_valid for n, g in P):       # neighbours of one electrode share an edge
        P = Polygons((n, ops.unary_union([q for q in getattr(g, "geoms", [g])])) for n, g in P)
        P = Polygons((n, g) for n, g in P)
    P = Polygons((n, to_geom([p[:1] for p in parts(g)], multi=c.chance(.3))) for n, g in P)
    return P, tags


def ring_match(c, got, want, tol, monitor, **kw):
    """Same closed vertex sequence up to start, direction and vertices that coincide or are collinear."""
    gv, wv = np.asarray(got), np.asarray(want)
    c.count(monitor, len(wv)+len(gv))
    d1 = bdist([[wv]], gv)[0].max()
    d2 = bdist([[gv]], wv)[0].max()
    if not (max(d1, d2) <= tol and abs(abs(shoelace(gv))-abs(shoelace(wv))) <=
            tol*4*np.abs(np.diff(np.r_[wv, wv[:1]], axis=0)).sum()):
        c.fail(monitor, "ring differs", got=gv, want=wv, tolerance=tol, deviation=max(d1, d2), **kw)


@scenario("P04", quick=450, thorough=4000)
def gds_round_trip(c):
    P, tags = hole_free(c)
    scale = c.choice([1., 100e-6, 40e-6, 1e-3, c.logu(1e-6, 1e-2)])
    phys = c.choice([1e-9, 1e-9, 1e-8, 1e-10])
    while scale/phys*5 > 1e9 or scale/phys < 300:
        phys = phys*10 if scale/phys*5 > 1e9 else phys/10
    q = phys/scale
    pl, gl, tl = c.choice([(0, 0), (13, 6), (255, 3)]), c.choice([(1, 0), (0, 0), (7, 2), None]), c.choice(
        [(0, 0), (9, 1), None])
    kw = {}
    if pl != (0, 0) or c.chance(.3):
        kw["poly_layer"] = pl
    if gl != (1, 0):
        kw["gap_layer"] = gl
    if tl != (0, 0):
        kw["text_layer"] = tl
    if phys != 1e-9 or c.chance(.3):
        kw["phys_unit"] = phys
    gw = c.choice([0., 0., .05])
    if gw:
        kw["gap_width"] = gw
    sname = c.choice([None, "chip"])
    if sname:
        kw["name"] = sname
    before = wkts(P)
    c.note(polygons=before, scale=scale, kw=kw)
    c.state(*tags)
    lib = P.to_gds(scale=scale, **kw)
    c.equal(wkts(P), before, "argument-unchanged")
    stream = io.BytesIO()
    lib.save(stream)
    raw = stream.getvalue()
    lib = library.Library.load(io.BytesIO(raw))
    c.close(lib.physical_unit, phys, "physical-unit", rtol=1e-12)
    c.equal(len(lib), 1, "one-structure")
    c.equal(lib[0].name.decode(), sname or "trap_electrodes", "structure-name")
    flat = [(n, p[0]) for n, g in P for p in parts(g)]
    B = [e for e in lib[0] if isinstance(e, elements.Boundary)]
    T = [e for e in lib[0] if isinstance(e, elements.Text)]
    L = [e for e in lib[0] if isinstance(e, elements.Path)]
    c.equal(len(B), len(flat), "boundaries")
    for e, (n, r) in zip(B, flat):
        c.equal((e.layer, e.data_type), pl, "poly-layer")
        xy = np.array(e.xy, float)*phys
        c.ok(np.array_equal(xy[0], xy[-1]), "closed")
        c.close(xy[:-1], r*scale, "physical-coordinates", rtol=0, atol=phys*.500001)
        c.equal(dict(e.properties or []).get(951, b"").decode(), n, "name-property")
    if tl is None:
        c.equal(len(T), 0, "no-texts")
    else:
        c.equal([e.string.decode() for e in T], [n for n, r in flat if n], "texts")
        for e, (n, r) in zip(T, [f for f in flat if f[0]]):
            c.equal((e.layer, e.text_type), tl, "text-layer")
            xy = np.array(e.xy, float)*q
            c.ok(crossing(r, xy)[0] or bdist([[r]], xy)[0][0] < 2*q, "text-at-its-polygon")
    if gl is None:
        c.equal(len(L), 0, "no-gap-paths")
    else:
        c.equal(len(L), len(flat), "gap-paths")
        for e, (n, r) in zip(L, flat):
            c.equal((e.layer, e.data_type), gl, "gap-layer")
            c.close(e.width or 0, gw/q, "gap-width", rtol=0, atol=1.)
            c.close(np.array(e.xy[:-1], float)*q, r, "gap-coordinates", rtol=0, atol=.500001*q)
    # back again, polygons only
    lk = {"poly_layers": c.choice([None, [pl], [(99, 99), pl]]), "gap_layers": [],
          "name_layers": c.choice([None, [], [tl[0]] if tl else []])}
    s2 = scale*c.choice([1., 1., 2.])
    name = c.choice([None, sname or "trap_electrodes"])
    Q = Polygons.from_gds(io.BytesIO(raw), scale=s2, name=name, **lk)
    # without texts the order is kept, otherwise named ones come first
    want = list(flat)
    if T and lk["name_layers"] != []:
        want = [f for f in flat if f[0]]+[f for f in flat if not f[0]]
    c.equal([n for n, g in Q], [n for n, r in want], "names-round-trip")
    for (n, g), (_, r) in zip(Q, want):
        c.equal([len(p) for p in parts(g)], [1], "one-ring", name=n)
        ring_match(c, parts(g)[0][0], r*scale/s2, .8*q*scale/s2, "shapes-round-trip", name=n)
    E = Polygons.from_gds(io.BytesIO(raw), scale=s2, poly_layers=[(99, 0)], gap_layers=[], name_layers=[])
    c.equal(len(E), 0, "other-layers-are-ignored")
    if gl is not None and tl is not None and c.chance(.5):
        # with the outlines as gaps the rest of the field is filled
        Q = Polygons.from_gds(io.BytesIO(raw), scale=scale, poly_layers=[pl], gap_layers=[gl], edge=8.)
        named = [f for f in flat if f[0]]
        c.equal([n for n, g in Q][:len(named)], [n for n, r in named], "names-round-trip")
        c.ok(all(n == "" for n, g in Q[len(named):]), "rest-unnamed")
        c.close(sum(area(parts(g)) for n, g in Q), 64., "field-covered", rtol=1e-4)
        for (n, g), (_, r) in zip(Q, named):
            ring_match(c, parts(g)[0][0], r, .8*q, "shapes-round-trip", name=n)


@scenario("P04", quick=300, thorough=3000)
def gds_clip(c):
    """`edge` clips to the centred square."""
    P, tags = hole_free(c)
    edge = c.choice([1., 2., 3., 4.5, 7., 20.])
    q = 1e-9/1e-4
    c.note(polygons=wkts(P), edge=edge)
    c.state(edge, *tags)
    lib = P.to_gds(scale=1e-4, edge=edge, gap_layer=c.choice([(1, 0), None]))
    stream = io.BytesIO()
    lib.save(stream)
    Q = Polygons.from_gds(io.BytesIO(stream.getvalue()), scale=1e-4, gap_layers=[])
    sq = [[gen.rect(-edge/2, -edge/2, edge, edge)]]
    ps = [parts(g) for n, g in P]
    pts = sample(c, ps+[sq], 200)
    far = np.min([bdist(p, pts)[0] for p in ps+[sq]], 0) > 3*q
    pts = pts[far]
    names = {n for n, g in P}
    c.ok({n for n, g in Q} <= names, "names")
    for nm in names:
        w = np.any([inside(p, pts) for (n, g), p in zip(P, ps) if n == nm], 0) & inside(sq, pts)
        g = np.any([np.zeros(len(pts), bool)]+[inside(parts(g), pts) for n, g in Q if n == nm], 0)
        c.same_array(g, w, "clipped-members", name=nm)


@scenario("P04", quick=120, thorough=800)
def gds_structures(c):
    """A named structure of several is found."""
    A, ta = hole_free(c)
    B, tb = hole_free(c)
    la, lb = A.to_gds(scale=1e-4, name="first"), B.to_gds(scale=1e-4, name="second")
    la.append(lb[0])
    stream = io.BytesIO()
    la.save(stream)
    c.note(first=wkts(A), second=wkts(B))
    c.state(*(ta+tb))
    for name, X in (("first", A), ("second", B), (None, A)):
        Q = Polygons.from_gds(io.BytesIO(stream.getvalue()), scale=1e-4, name=name, gap_layers=[], name_layers=[])
        flat = [(n, p[0]) for n, g in X for p in parts(g)]
        c.equal([n for n, g in Q], [n for n, r in flat], "names", structure=name)
        for (n, g), (_, r) in zip(Q, flat):
            ring_match(c, parts(g)[0][0], r, .8e-5, "shapes", structure=name)


@scenario("P04", quick=240, thorough=2400)
def gds_layers(c):
    """Boundaries, paths and texts count if they are on one of the layers (and data types) asked for."""
    lib = library.Library(version=5, name=b"l", physical_unit=1e-9, logical_unit=1e-3)
    st = structure.Structure(name=b"s")
    lib.append(st)
    any_layer = lambda: (c.integers(0, 3), c.integers(0, 3))
    scale = c.choice([1e-6, 1e-4, 37e-6])
    u = lambda xy: [(int(round(x*scale/1e-9)), int(round(y*scale/1e-9))) for x, y in xy]
    boxes, lines, texts, elems = [], [], [], []
    for k in range(c.integers(1, 6)):       # one square in each of some columns
        x, y, w = 3.*k-9, c.choice([-5., 0., 3.]), c.choice([1., .5])
        l = any_layer()
        nm = c.choice(["", "", "b%d" % k])
        e = elements.Boundary(layer=l[0], data_type=l[1], xy=u([(x, y), (x+w, y), (x+w, y+w), (x, y+w), (x, y)]))
        if nm:
            e.properties = [(Polygons._attr_name, nm.encode())]
        boxes.append((l, nm, (x, y, w)))
        elems.append(e)
        if c.chance(.5):
            t = "t%d" % k
            l = any_layer()
            e = elements.Text(layer=l[0], text_type=l[1], xy=u([(x+w/2, y+w/2)]), string=t.encode())
            texts.append((l[0], t, k))
            elems.append(e)
    for k in range(c.integers(0, 3)):       # lines between the columns, across the field
        x = 3.*c.integers(-3, 4)-1.25+.125*k
        l = any_layer()
        elems.append(elements.Path(layer=l[0], data_type=l[1], xy=u([(x, -30.), (x, 30.)])))
        lines.append((l, x))
    if c.chance(.2):        # a line without length bounds nothing
        l = any_layer()
        elems.append(elements.Path(layer=l[0], data_type=l[1], xy=u([(1., 2.)])))
    c.rng.shuffle(elems)
    st.extend(elems)
    pick = lambda ls: [l for l in sorted(set(ls)) if c.chance(.5)]+[any_layer()]*int(c.chance(.5))
    near = lambda l: (l[0], (l[1]+1) % 4)
    kw = {}
    for key, ls in (("poly_layers", [b[0] for b in boxes]), ("gap_layers", [g[0] for g in lines])):
        if c.chance(.75):
            kw[key] = pick(ls+[near(l) for l in ls if c.chance(.3)])
    if c.chance(.6):
        kw["name_layers"] = [l for l in sorted({t[0] for t in texts}) if c.chance(.5)]
    if "gap_layers" in kw and c.chance(.4):
        kw["route_layers"] = [l for l in pick([g[0] for g in lines]) if l not in kw["gap_layers"]]
    stream = io.BytesIO()
    lib.save(stream)
    stream.seek(0)
    c.note(boxes=boxes, lines=lines, texts=texts, kw=kw, scale=scale)
    c.state(len(boxes), len(lines), len(texts), tuple(sorted(kw)), tuple(len(v) for v in kw.values()))
    Q = Polygons.from_gds(stream, scale=scale, **kw)
    keep = [b for b in boxes if kw.get("poly_layers") is None or b[0] in kw["poly_layers"]]
    cut = sorted(x for l, x in lines if kw.get("gap_layers") is None or l in kw["gap_layers"] or l in kw.get("route_layers", []))
    txt = {boxes.index(b): None for b in keep}
    for l, t, k in texts:
        if "name_layers" not in kw or l in kw["name_layers"]:
            if k in txt:
                txt[k] = t
    want = sorted((txt[boxes.index(b)] or b[1],)+b[2] for b in keep)
    got, strips = [], []
    for n, g in Q:
        ps = parts(g)
        b = bounds([ps])
        if (b[1]-b[0] < 1.5).all() and abs(area(ps)-(b[1][0]-b[0][0])**2) < 1e-3:
            got.append((n, b[0][0], b[0][1], b[1][0]-b[0][0]))
        else:
            strips.append(((b[0][0]+b[1][0])/2, b[0], b[1], area(ps), n))
    c.equal(len(got), len(want), "polygons-of-the-layers")
    for a, b in zip(sorted(got), want):
        c.equal(a[0], b[0], "name")
        c.close(a[1:], b[1:], "shape", rtol=0, atol=2e-9/scale)
    if not cut:
        c.equal(strips, [], "no-field-without-gaps")
        return
    ends = [-20.]+cut+[20.]
    c.equal(len(strips), len(ends)-1, "field-is-cut-by-the-gaps-of-the-layers")
    for (m, lo, hi, ar, n), a, b in zip(sorted(strips, key=lambda s: s[0]), ends[:-1], ends[1:]):
        c.close([lo[0], hi[0]], [a, b], "strip", rtol=0, atol=1e-6)
        c.close(ar, (b-a)*40-sum(w*w for _, _, (x, y, w) in keep if a < x < b), "strip-area", rtol=1e-6)
        # texts of layers that are read but whose square is not
        c.ok(n == "" or any(n == t and a < boxes[k][2][0] < b for l, t, k in texts), "strip-name", name=n)


@scenario("P04", quick=150, thorough=1500)
def gds_routes(c):
    """Routes and bridges together encircle areas, which routes cut from the rest and bridges connect to it."""
    routes_and_bridges(c, True)


@scenario("P03", quick=150, thorough=1500)
def data_routes(c):
    """The same for drawings given as data."""
    routes_and_bridges(c, False)


def routes_and_bridges(c, gds):
    lib = library.Library(version=5, name=b"l", physical_unit=1e-9, logical_unit=1e-3)
    st = structure.Structure(name=b"s")
    lib.append(st)
    scale = c.choice([1e-6, 1e-4])
    u = lambda xy: [(int(round(x*scale/1e-9)), int(round(y*scale/1e-9))) for x, y in xy]
    G_, R_, B_, O_ = [(int(a), int(b)) for a, b in c.rng.permutation([(i, j) for i in range(3) for j in range(3)])[:4]]
    edge = 40.
    # a gap from side to side, and rectangles next to it, each made of routes and bridges
    gx = c.choice([-8., 0., 5.])
    elems = [elements.Path(layer=G_[0], data_type=G_[1], xy=u([(gx, -30.), (gx, 30.)]))]
    rects = []
    for k in range(c.integers(1, 3)):
        right = c.chance(.5)
        y, w, h = -15.+10*k, c.choice([2., 5., 7.5]), c.choice([1., 4., 6.])
        x0, x1 = (gx, gx+w) if right else (gx-w, gx)
        if c.chance(.4):        # the gap runs through it
            x0, x1 = gx-w, gx+w/2
        # the side at the gap is closed by a bridge or a route across it
        sides = {"left": [(x0, y), (x0, y+h)], "low": [(x0, y), (x1, y)], "high": [(x0, y+h), (x1, y+h)],
                 "right": [(x1, y), (x1, y+h)]}
        kind = {n: c.choice("RB") for n in sides}
        rects.append((x0, x1, y, y+h, kind))
        for n, xy in sides.items():
            l = R_ if kind[n] == "R" else B_
            elems.append(elements.Path(layer=l[0], data_type=l[1], xy=u(xy)))
    if c.chance(.3):        # a ring of routes around everything, partly beyond the field
        x0, x1 = c.choice([-25., -18.]), c.choice([25., 18., gx+10])
        sides = {"left": [(x0, -18.), (x0, 16.)], "low": [(x0, -18.), (x1, -18.)], "high": [(x0, 16.), (x1, 16.)],
                 "right": [(x1, -18.), (x1, 16.)]}
        kind = {n: c.choice("RBB") for n in sides}
        rects.append((x0, x1, -18., 16., kind))
        for n, xy in sides.items():
            l = R_ if kind[n] == "R" else B_
            elems.append(elements.Path(layer=l[0], data_type=l[1], xy=u(xy)))
    for i in range(c.integers(0, 2)):      # elsewhere
        elems.append(c.choice([elements.Path(layer=O_[0], data_type=O_[1], xy=u([(-30., 3.*i), (30., 4.)])),
                               elements.Box(layer=R_[0], box_type=R_[1], xy=u([(0, 0), (3, 0), (3, 30), (0, 30), (0, 0)]))]))
    c.rng.shuffle(elems)
    st.extend(elems)
    stream = io.BytesIO()
    lib.save(stream)
    kw = {"gap_layers": [G_], "route_layers": [R_], "bridge_layers": [B_]}
    bridges = c.chance(.8)
    if not bridges:
        del kw["bridge_layers"]
    c.note(gap=gx, rects=rects, kw=kw, scale=scale)
    c.state(gx, [(r[0], r[1], r[3], sorted(r[4].items())) for r in rects], bridges)
    if gds:
        Q = Polygons.from_gds(io.BytesIO(stream.getvalue()), scale=scale, edge=edge, **kw)
    else:
        lines = {l: [np.array(s.xy)*1e-9/scale for s in st if isinstance(s, elements.Path) and (s.layer, s.data_type) == l]
                 for l in (G_, R_, B_)}
        if c.chance(.3):
            lines = {k: [i.tolist() for i in v] for k, v in lines.items()}
        Q = Polygons.from_data(gaps=lines[G_], routes=lines[R_], bridges=lines[B_] if bridges else [], edge=edge)
    routes = [s for s in st if isinstance(s, elements.Path) and (s.layer, s.data_type) == R_]
    # the gap is healed within encircled areas, and what routes leave connected is one fragment
    rects = [(max(r[0], -edge/2), min(r[1], edge/2), r[2], r[3], r[4]) for r in rects]
    xs = sorted({-edge/2, edge/2, gx}|{r[0] for r in rects}|{r[1] for r in rects})
    ys = sorted({-edge/2, edge/2}|{r[2] for r in rects}|{r[3] for r in rects})
    wall = set()

    def lay(a, b):
        (x0, y0), (x1, y1) = sorted([a, b])
        if x0 == x1:
            for i in range(len(ys)-1):
                if y0 <= ys[i] and ys[i+1] <= y1:
                    wall.add(("v", x0, i))
        else:
            for i in range(len(xs)-1):
                if x0 <= xs[i] and xs[i+1] <= x1:
                    wall.add(("h", y0, i))
    lay((gx, -edge/2), (gx, edge/2))
    for x0, x1, y0, y1, kind in rects:
        if bridges and routes and {"B"} & {v for r in rects for v in r[4].values()} and x0 < gx < x1:
            for j in range(len(ys)-1):      # gaps inside of encircled areas are healed
                if y0 <= ys[j] and ys[j+1] <= y1:
                    wall.discard(("v", gx, j))
    for x0, x1, y0, y1, kind in rects:
        for n, xy in {"left": [(x0, y0), (x0, y1)], "low": [(x0, y0), (x1, y0)], "high": [(x0, y1), (x1, y1)],
                      "right": [(x1, y0), (x1, y1)]}.items():
            if kind[n] == "R":
                lay(*xy)
    lab = list(range((len(xs)-1)*(len(ys)-1)))
    idx = lambda i, j: i*(len(ys)-1)+j

    def root(k):
        while lab[k] != k:
            k = lab[k]
        return k
    for i in range(len(xs)-1):
        for j in range(len(ys)-1):
            if i and ("v", xs[i], j) not in wall:
                lab[root(idx(i, j))] = root(idx(i-1, j))
            if j and ("h", ys[j], i) not in wall:
                lab[root(idx(i, j))] = root(idx(i, j-1))
    want = {}
    for i in range(len(xs)-1):
        for j in range(len(ys)-1):
            k = root(idx(i, j))
            want[k] = want.get(k, 0.)+(xs[i+1]-xs[i])*(ys[j+1]-ys[j])
    got = sorted(area(parts(g)) for n, g in Q)
    c.close(sum(got), edge**2, "field-covered", rtol=1e-6)
    c.ok(all(max(np.abs(g.bounds)) < edge/2+1e-6 for n, g in Q), "inside-the-field")
    c.close(got, sorted(want.values()), "fragments-of-routes-and-bridges", rtol=0, atol=1e-5)


# ------------------------------------------------------------------ P05
@scenario("P05", quick=360, thorough=3000)
def pads(c):
    if c.chance(.6):
        P, lab, use, f, s, fi, names = raster_polygons(c)
    else:
        names = random_names(c, c.integers(1, 5))
        P = Polygons((n, star_polygon(c, 2)) for n in names)
    ps = [parts(g) for n, g in P]
    pts = sample(c, ps, c.choice(gen.big([1, 3, 10, 40], [150, 400])))
    size = max(bounds(ps)[1]-bounds(ps)[0])
    pts = pts[np.min([bdist(p, pts)[0] for p in ps], 0) > 1e-6*size]
    c.note(polygons=wkts(P), pads=pts)
    want, left = [], list(range(len(P)))
    for k, x in enumerate(pts):
        for i in left:
            if inside(ps[i], x[None])[0]:
                want.append((k, i))
                left.remove(i)
                break
    want += [(None, i) for i in left]
    arg = c.choice([pts, pts.tolist(), [tuple(x) for x in pts]])
    c.equal([(None if a is None else int(a), int(b)) for a, b in P.assign_to_pad(arg)], want, "assignment")
    c.state(len(P), len(pts), len(left), tuple(want[:4]))


@scenario("P05", quick=120, thorough=1200)
def pads_on_boundaries(c):
    """Lattice polygons are closed: pads on their edges and corners touch them."""
    n = c.integers(1, 4)
    lab = c.rng.integers(-1, n, size=(c.integers(1, 5), c.integers(1, 5)))
    use = [i for i in range(n) if (lab == i).any()]
    P = Polygons(("p%d" % i, ops.unary_union([G.box(a, b, a+1, b+1) for a, b in zip(*np.nonzero(lab == i))])) for i in use)
    pts = c.rng.integers(-1, 2*max(lab.shape)+2, size=(c.integers(1, 12), 2))/2.
    c.note(raster=lab, pads=pts)
    c.state(lab.shape, len(use), len(pts), tuple(lab.ravel()[:6]))
    want, left = [], list(range(len(P)))
    for k, (x, y) in enumerate(pts):
        for i in left:
            a, b = np.nonzero(lab == use[i])
            if ((a <= x) & (x <= a+1) & (b <= y) & (y <= b+1)).any():
                want.append((k, i))
                left.remove(i)
                break
    want += [(None, i) for i in left]
    c.equal([(None if a is None else int(a), int(b)) for a, b in P.assign_to_pad(pts)], want, "assignment")


@scenario("P05", quick=80, thorough=800)
def gaps_with_holes(c):
    """Boundaries of lattice polygons, outer and inner, each once."""
    lab = np.full((c.integers(3, 7), c.integers(3, 7)), c.choice([0, 0, 1]))
    for _ in range(c.integers(1, 5)):       # single cells and blocks inside
        i, j = c.integers(1, lab.shape[0]-2), c.integers(1, lab.shape[1]-2)
        lab[i:min(i+c.integers(1, 2), lab.shape[0]-1), j:min(j+c.integers(1, 2), lab.shape[1]-1)] = c.choice([-1, -1, 0, 1, 2])
    use = [int(i) for i in np.unique(lab) if i >= 0]
    P = Polygons(("p%d" % i, ops.unary_union([G.box(a, b, a+1, b+1) for a, b in zip(*np.nonzero(lab == i))])) for i in use)
    c.note(raster=lab)
    c.state(lab.shape, len(use), int((lab < 0).sum()), tuple(lab[1:-1, 1:-1].ravel()[:8]))
    g = P.gaps_union()
    pad = np.pad(lab, 1, constant_values=-1)
    v, h = pad[1:] != pad[:-1], pad[:, 1:] != pad[:, :-1]
    c.close(g.length, float(v.sum()+h.sum()), "gaps-once", rtol=1e-9)
    for a, b in zip(*np.nonzero(v)):
        c.ok(g.distance(G.Point(a, b-.5)) < 1e-9, "gap-present", at=[a, b-.5])
    for a, b in zip(*np.nonzero(h)):
        c.ok(g.distance(G.Point(a-.5, b)) < 1e-9, "gap-present", at=[a-.5, b])
    # and no two electrodes share more than their boundary: what is enclosed is a cell of the gaps
    k = len(list(ops.polygonize(g)))
    c.equal(k >= len(use), True, "gaps-close")


@scenario("P05", quick=180, thorough=1500)
def pad_ring(c):
    step = c.choice([10., 5., .5, 2.5, c.logu(.1, 10)])
    n = c.integers(1, 24)
    edge = step*n if c.chance(.6) else step*(n+c.choice([.25, .5, .75]))
    if int(edge/step) != n:
        edge = step*(n+.25)
    odd = c.chance(.5)
    corner = c.integers(0, 3)
    kw = {"step": step, "edge": edge}
    if odd or c.chance(.5):
        kw["odd"] = odd
    if corner or c.chance(.5):
        kw["start_corner"] = corner
    xy = pg.square_pads(**kw)
    c.note(kw=kw)
    c.state(n, odd, corner, edge == step*n)
    k = n if not odd else (n+1 if n % 2 == 0 else n+2)
    xy = np.asarray(xy)
    c.equal(xy.shape, (4*k, 2), "count")
    R = edge/2-step/2
    sc = max(edge, step*k)
    # corners counter clockwise from top left; walking counter clockwise along each side
    dirs = [np.array(d, float) for d in ((0, -1), (1, 0), (0, 1), (-1, 0))]
    outs = [np.array(d, float) for d in ((-1, 0), (0, -1), (1, 0), (0, 1))]
    for s in range(4):
        d, o = dirs[(s+corner) % 4], outs[(s+corner) % 4]
        side = xy[s*k:(s+1)*k]
        c.close(side @ o, np.full(k, R), "on-the-side", rtol=0, atol=1e-12*sc)
        c.close(side @ d, (np.arange(k)-(k-1)/2.)*step, "equally-spaced-and-centred", rtol=0, atol=1e-12*sc)
        if odd:
            c.ok((np.abs(side @ d) < 1e-12*sc).any(), "pad-in-the-centre")


@scenario("P05", quick=360, thorough=3000)
def filters(c):
    k = c.integers(*gen.big((1, 4), (6, 11)))
    P, want = Polygons(), []
    names = random_names(c, k)
    slots = list(itertools.product(range(gen.big(4, 9)), range(4)))
    c.rng.shuffle(slots)
    for n in names:
        ps = []
        for i in range(c.integers(1, 3)):
            ps += nested(c, np.array(slots.pop())*3., c.choice([1.3, .8, .3, .1, .06]))
        want.append(ps)
        P.append((n, to_geom(ps, multi=c.chance(.5))))
    mode = c.choice(["default", "default-shallow", "deep", "shallow", "name", "hole"])
    thr = c.choice([.01, .1, .5])
    calls = []

    def ring_area(b):
        return abs(shoelace(np.asarray(b.coords)[:-1]))

    def test(n, b):
        calls.append((n, b.geom_type))
        if mode == "name":
            return n == names[0]
        if mode == "shallow":
            return b.area > thr
        if mode == "hole":
            return len(calls) % 3 != 0
        return ring_area(b) > thr
    c.note(mode=mode, threshold=thr, polygons=wkts(P))
    before = wkts(P)
    if mode == "default":
        Q, keep = P.filter(), lambda n, a: a > .01
    elif mode == "default-shallow":
        Q, keep = P.filter(deep=False), lambda n, a: a > .01
    elif mode == "shallow":
        Q, keep = P.filter(test, deep=False), lambda n, a: a > thr
    elif mode == "name":
        Q, keep = P.filter(test, c.chance(.5)), lambda n, a: n == names[0]
    elif mode == "deep":
        Q, keep = P.filter(test), lambda n, a: a > thr
    else:
        keep = None
        Q = P.filter(test, deep=True)
    c.equal(wkts(P), before, "argument-unchanged")
    c.ok(isinstance(Q, Polygons), "type")
    out = []
    cnt = 0
    if mode == "name":
        deep = bool(calls) and calls[0][1] == "LinearRing"
    else:
        deep = mode in ("default", "deep", "hole")
    for n, ps in zip(names, want):
        kept = []
        for p in ps:
            if not deep:
                a = area([p])
                if mode == "default-shallow":
                    a = area([p])
                if keep(n, a):
                    kept.append(p)
                continue
            if keep is None:
                cnt += 1
                if cnt % 3:
                    q = [p[0]]
                    for r in p[1:]:
                        cnt += 1
                        if cnt % 3:
                            q.append(r)
                    kept.append(q)
            elif keep(n, abs(shoelace(p[0]))):
                kept.append([p[0]]+[r for r in p[1:] if keep(n, abs(shoelace(r)))])
        if kept:
            out.append((n, kept))
    c.equal([n for n, g in Q], [n for n, g in out], "names-and-order")
    for (n, g), (_, w) in zip(Q, out):
        c.equal([[r.tolist() for r in p] for p in parts(g)], [[r.tolist() for r in p] for p in w], "kept-rings")
    c.state(mode, k, [len(w) for n, w in out], thr)


@scenario("P05", quick=360, thorough=3000)
def unions(c):
    """unify, unify_by_name, gaps_union on rasters."""
    P, lab, use, f, s, fi, names = raster_polygons(c, k=c.integers(1, 4))
    pool = c.choice([["a", "b", ""], ["a", "A", "b"], ["rf", "rf ", "rf1"], ["dc1", "dc10", "DC1"]])
    P = Polygons((c.choice(pool), g) for n, g in P)
    names = [n for n, g in P]
    # fragment each electrode into its cells for the unions
    frag = Polygons()
    for (n, g), i in zip(P, use):
        cells = list(zip(*np.nonzero(lab == i)))
        frag.append((n, [G.Polygon(f(gen.rect(a, b, 1, 1))) for a, b in cells]))
    cells, labels = cell_samples(c, lab, 120)
    pts = f(cells)
    c.note(names=names, raster=lab)
    c.state(len(P), tuple(names), lab.shape, int((lab >= 0).sum()))
    U = P.unify()
    c.equal([n for n, g in U], names, "unify-names")
    for (n, g), i in zip(U, use):
        c.ok(g.is_valid, "valid")
        c.same_array(inside(parts(g), pts), labels == i, "unify-members")
        c.close(area(parts(g)), (lab == i).sum()*s**2, "unify-area", rtol=1e-9)
    V = Polygons((n, q) for n, g in frag for q in g)
    if c.chance(.5):
        order = c.rng.permutation(len(V))
        V = Polygons(V[i] for i in order)
    W = V.unify_by_name()
    first = []
    for n, g in V:
        if n not in first:
            first.append(n)
    c.equal([n for n, g in W], first, "one-entry-per-name-in-order")
    for n, g in W:
        ids = [i for m, i in zip(names, use) if m == n]
        c.ok(g.is_valid, "valid")
        c.same_array(inside(parts(g), pts), np.isin(labels, ids), "unify-by-name-members")
        c.close(area(parts(g)), np.isin(lab, ids).sum()*s**2, "unify-by-name-area", rtol=1e-9)
    # overlapping parts in one electrode, joined
    o = Polygons([("x", G.MultiPolygon([G.Polygon(gen.rect(0, 0, 2, 2)), G.Polygon(gen.rect(1, 1, 2, 2))]))])
    c.close(area(parts(o.unify()[0][1])), 7., "unify-overlapping", rtol=1e-12)
    # boundaries (exact lattice only)
    L = Polygons()
    for n, i in zip(names, use):
        L.append((n, ops.unary_union([G.box(a, b, a+1, b+1) for a, b in zip(*np.nonzero(lab == i))])))
    g = L.gaps_union()
    pad = np.pad(lab, 1, constant_values=-1)
    inb = lambda a, b: (a != b) & (np.isin(a, use) | np.isin(b, use))
    length = inb(pad[1:], pad[:-1]).sum()+inb(pad[:, 1:], pad[:, :-1]).sum()
    c.close(g.length, float(length), "gaps-once", rtol=1e-9)
    ex, ey = np.nonzero(inb(pad[1:], pad[:-1]))
    for a, b in list(zip(ex, ey))[:10]:     # vertical unit edges at x = a, y from b-1 to b
        c.ok(g.distance(G.Point(a, b-.5)) < 1e-9, "gap-present", at=[a, b-.5])


@scenario("P05", quick=240, thorough=2000)
def restricts(c):
    P, lab, use, f, s, fi, names = raster_polygons(c)
    before = wkts(P)
    cells, labels = cell_samples(c, lab, 150)
    pts = f(cells)
    if c.chance(.5):
        w = nested(c, f(np.array(lab.shape)/2.), s*max(lab.shape)*c.uniform(.2, .8), depth=c.choice([1, 2]))[:1]
        Q = P.restrict(to_geom(w))
        kind = "restrict"
    elif c.chance(.8):
        e = c.choice([s*2., s*5., s*20., 50., 1.])
        w = [[gen.rect(-e/2, -e/2, e, e)]]
        Q = P.within(e)
        kind = "within"
    else:
        w = [[gen.rect(-25., -25., 50, 50)]]
        Q = P.within()
        kind = "within-default"
    c.note(kind=kind, window=w, polygons=before)
    c.equal(wkts(P), before, "argument-unchanged")
    c.equal([n for n, g in Q], names, "names-and-order")
    m = inside(w, pts)
    far = bdist(w, pts)[0] > 1e-7*s
    n = 0
    for (_, g), i in zip(Q, use):
        want = (labels == i) & m
        n += want.sum()
        c.same_array(inside(parts(g), pts)[far], want[far], "intersection")
    c.state(kind, len(P), int(n)//8)


@scenario("P05", quick=120, thorough=800)
def validation(c):
    """validate() raises exactly for collections with an invalid polygon."""
    P, lab, use, f, s, fi, names = raster_polygons(c)
    bad = c.choice([None, None, "bowtie", "hole-outside", "hole-crossing", "overlap", "touching-edge"])
    if bad == "bowtie":
        g = G.Polygon([(0, 0), (1, 1), (1, 0), (0, 1)])
    elif bad == "hole-outside":
        g = G.Polygon(gen.rect(0, 0, 1, 1), [gen.rect(3, 3, 1, 1)])
    elif bad == "hole-crossing":
        g = G.Polygon(gen.rect(0, 0, 2, 2), [gen.rect(1, 1, 2, 2)])
    elif bad == "overlap":
        g = G.MultiPolygon([G.Polygon(gen.rect(0, 0, 2, 2)), G.Polygon(gen.rect(1, 1, 2, 2))])
    elif bad:
        g = G.MultiPolygon([G.Polygon(gen.rect(0, 0, 2, 2)), G.Polygon(gen.rect(2, 0, 2, 2))])
    if bad:
        P.insert(c.integers(0, len(P)), ("bad", g))
    c.note(bad=bad, polygons=wkts(P))
    c.state(str(bad), len(P), [n for n, g in P].index("bad") if bad else -1)
    if bad:
        c.raises(ValueError, P.validate, "invalid-is-reported")
    else:
        c.equal(P.validate(), None, "valid-is-accepted")
