"""A02: adaptive refinement of electrode meshes, observed at its triangulator and its optimiser.

The triangulator (bem.pytriangle) is not installed: a stand-in with its interface takes its place, which
splits triangles above their area limit, and records what it is asked for and what it answers.
"""
import contextlib
import io
import re
import sys
import types

import numpy as np

from electrode import pattern_constraints as pc
from electrode.electrode import PolygonPixelElectrode
from electrode.system import System

from .. import gen, jets, traps
from ..core import scenario
from .optim import row

CALLS = []
LIMIT = [4]


class Enough(Exception):
    pass


def triangle_area(p):
    (x0, y0), (x1, y1), (x2, y2) = p
    return .5*((x1-x0)*(y2-y0)-(x2-x0)*(y1-y0))


def neighbours(tri):
    edges = {}
    for i, t in enumerate(tri):
        for k in range(3):
            edges.setdefault(frozenset((t[(k+1) % 3], t[(k+2) % 3])), []).append((i, k))
    nb = -np.ones((len(tri), 3), np.intc)
    for e in edges.values():
        if len(e) == 2:
            (i, k), (j, m) = e
            nb[i, k], nb[j, m] = j, i
    return nb


def triangulate(opts="", **args):
    call = {"opts": opts, "args": {k: np.array(v) for k, v in args.items()}}
    CALLS.append(call)
    if len(CALLS) > LIMIT[0]:
        raise Enough()
    pts = [np.array(p, float) for p in args["points"]]
    if "triangles" in args:
        tri = [tuple(t) for t in args["triangles"]]
        lim = list(np.asarray(args["triangleareas"], float).ravel())
    else:
        # a fan around the centre of each closed chain of segments, with points in common merged
        key, where = {}, []
        for p in pts:
            where.append(key.setdefault(tuple(np.round(p, 9)), len(key)))
        keep = [None]*len(key)
        for p, w in zip(pts, where):
            keep[w] = p
        pts, tri = keep, []
        seg, mark = np.asarray(args["segments"]), np.asarray(args["segmentmarkers"]).ravel()
        for m in np.unique(mark):
            s = seg[mark == m]
            loop = [where[a] for a in np.unique(s)]
            c = np.mean([pts[i] for i in loop], axis=0)
            pts.append(c)
            for a, b in s:
                t = [len(pts)-1, where[a], where[b]]
                if triangle_area([pts[i] for i in t]) < 0:
                    t = [t[0], t[2], t[1]]
                tri.append(tuple(t))
        lim = [float(re.search(r"a([0-9.e+-]+)", opts).group(1))]*len(tri)
    done = []
    while tri:
        t, m = tri.pop(0), lim.pop(0)
        p = [pts[i] for i in t]
        if triangle_area(p) <= m*(1+1e-9) or len(done)+len(tri) > 400:
            done.append(t)
            continue
        pts.append(np.mean(p, axis=0))
        n = len(pts)-1
        for k in range(3):
            tri.append((t[k], t[(k+1) % 3], n))
            lim.append(m)
    out = {"points": np.array(pts, np.double), "triangles": np.array(done, np.intc),
           "neighbors": neighbours(done), "segments": np.asarray(args["segments"]),
           "segmentmarkers": np.asarray(args["segmentmarkers"])}
    call["out"] = {k: v.copy() for k, v in out.items()}
    return out


def module():
    if "electrode.adaptive" not in sys.modules:
        try:
            import bem.pytriangle           # noqa: F401
        except ImportError:
            b, t = types.ModuleType("bem"), types.ModuleType("bem.pytriangle")
            b.pytriangle, t.triangulate = t, triangulate
            sys.modules["bem"], sys.modules["bem.pytriangle"] = b, t
    from electrode import adaptive
    adaptive.triangulate = triangulate
    return adaptive


def boundaries(c):
    """Variable areas: some tiles of a row that touch or not."""
    k = c.choice(["tiles", "tiles", "ngons", "one"])
    if k == "one":
        return [gen.rect(-1.3, -1., 2., 1.7)], k
    if k == "tiles":
        gap = c.choice([0., 0., .1])
        return [gen.rect(-1.5+i*(1+gap), -.7, 1., 1.4) for i in range(c.integers(2, 4))], k
    out = []
    for i in range(c.integers(1, 3)):
        n = c.integers(4, 6)
        ph = c.uniform(0, 7)+2*np.pi*np.arange(n)/n
        out.append(np.c_[np.cos(ph)*c.uniform(.6, 1), np.sin(ph)]+[-2+2.2*i, 0])
    return out, k


def symmetry(c):
    k = c.choice(["none", "mirror", "rotation", "translation"])
    one = (np.eye(4), 1)
    if k == "none":
        return k, None
    if k == "mirror":           # at a line beyond the variable areas
        t = np.diag([1., -1, 1, 1])
        t[1, 3] = 5.
        return k, [one, (t, -1)]
    if k == "rotation":
        t = np.diag([-1., -1, 1, 1])
        t[:2, 3] = .3, 5.
        return k, [one, (t, 1)]
    t = np.eye(4)
    t[0, 3] = 9.
    return k, [one, (t, 1)]


def image(path, sym):
    if sym is None:
        return [np.asarray(path)]
    return [(np.asarray(path) @ t[:2, :2].T+t[:2, 3])[::s] for t, s in sym]


def same_paths(c, got, want, monitor):
    c.equal(len(got), len(want), monitor)
    for a, b in zip(got, want):
        c.equal(np.shape(a), np.shape(b), monitor)
        c.close(np.asarray(a), np.asarray(b), monitor, rtol=1e-12, scale=10.)


@scenario("A02", quick=60, thorough=1500)
def refinement(c):
    mod = module()
    var, kind = boundaries(c)
    sk, sym = symmetry(c)
    kw = {}
    if sym is not None:
        kw["symmetry"] = mod.transformer(sym)
    ekw = {}
    if c.chance(.3):
        ekw = dict(cover_nmax=c.choice([1, 2]), cover_height=20.)
    fixed_paths = [gen.rect(-3., -4., 6., 2.)+[0, -.5*i-i*2] for i in range(c.integers(0, 2))]
    fixed = fixed_paths
    how = c.choice(["boundaries", "electrodes"])
    if how == "electrodes":
        fixed = [PolygonPixelElectrode(paths=[p], **ekw) for p in fixed_paths]
    if fixed_paths or c.chance(.5):
        kw["fixed"] = fixed
    th = .5
    if c.chance(.6):
        th = kw["threshold"] = c.choice([.02, .1, .3, .9, 1.5])
    up, down = 16., 4.
    if c.chance(.5):
        up = kw["up"] = c.choice([1.5, 16., 8.])
    if c.chance(.5):
        down = kw["down"] = c.choice([2., 4., 6.])
    a, q = 1., 20.
    if c.chance(.7):
        a = kw["a"] = c.choice([.3, .15, .5, 1.])
    if c.chance(.3):
        q = kw["q"] = c.choice([15., 30.])
    nmax = kw["nmax"] = c.choice([20, 40, 80])
    lo, hi = c.choice([(-1., 1.), (0., 1.), (-2., .5)])
    x = np.r_[c.rng.uniform(-.4, .4, 2), c.uniform(.6, 1.2)]
    names = [str(n) for n in c.rng.permutation(["z", "xx", "y", "x", "yy"])[:c.integers(1, 2)]]
    vals = [1.]+[0.]*(len(names)-1)
    cons = [pc.PatternRangeConstraint(min=lo, max=hi)]
    cons += [pc.PotentialObjective(x=x, derivative=n, value=v) for n, v in zip(names, vals)]
    c.note(kind=kind, symmetry=sk, fixed=len(fixed_paths), how=how, options={k: v for k, v in kw.items() if k not in ("symmetry", "fixed")},
           objectives=names)
    loud = c.chance(.4)
    if loud or c.chance(.5):
        kw["verbose"] = loud
    out = io.StringIO()
    del CALLS[:]
    LIMIT[0] = c.integers(2, 4)
    runs = []
    real = System.optimize

    def spy(self, constraints, *p, **k):
        r = real(self, constraints, *p, **k)
        runs.append((self, list(constraints), np.array(r[0]), r[1]))
        return r
    System.optimize = spy
    res = None
    try:
        with contextlib.redirect_stdout(out):
            res = mod.adapt_mesh(cons, [p.copy() for p in var], **kw, **ekw)
    except Enough:
        c.count("stopped")
    except ValueError as e:
        if "solve failed" not in str(e):
            raise
        c.count("not-solvable")
        return
    finally:
        System.optimize = real
    calls = list(CALLS)
    c.state(kind, sk, len(fixed_paths), sorted(k for k in kw), len(calls), [len(r[0]) for r in runs])
    nf = len(fixed_paths)
    first = calls[0]
    c.close(np.asarray(first["args"]["points"]), np.concatenate(var), "points-of-the-variable-boundaries", rtol=0)
    for k in calls:
        o = k["opts"]
        c.close(float(re.search(r"q([0-9.e+-]+)", o).group(1)), q, "minimum-angle-asked-for", rtol=1e-6)
        c.close(float(re.search(r"a([0-9.e+-]+)", o).group(1)), a, "first-area-asked-for", rtol=1e-6)
        c.ok("n" in re.sub(r"[0-9.e+-]", "", o), "neighbours-asked-for", o)
    rounds = [k["out"] for k in calls if "out" in k]
    small = [o for o in rounds if len(o["triangles"]) <= nmax]
    c.equal(len(runs), len(small), "one-optimisation-per-mesh")
    said = [re.sub(r"[^0-9.e+-]+", " ", i).split() for i in out.getvalue().splitlines()]
    c.equal(len(said), len(runs) if loud else 0, "a-line-per-mesh-if-verbose", out=out.getvalue()[:300])
    if loud:
        for w, r in zip(said, runs):
            w = [i for i in w if re.match(r"-?[0-9.]+", i)]
            c.close([float(w[0]), float(w[-1])], [len(r[0])-len(fixed_paths), r[3]], "numbers-of-the-mesh", rtol=1e-9)
    c.ok(all(len(o["triangles"]) <= nmax for o in rounds[:-1]), "stops-at-the-largest-number")
    for i, (s, cs, v, k) in enumerate(runs):
        o = rounds[i]
        c.equal(len(s), nf+len(o["triangles"]), "an-electrode-per-triangle")
        c.ok(len(cs) == len(cons) and all(p is r for p, r in zip(cs, cons)), "constraints-as-given")
        for e, p in zip(list(s)[:nf], fixed_paths):
            same_paths(c, e.paths, [p], "fixed-electrodes-come-first")
        for e, t in zip(list(s)[nf:], o["triangles"]):
            same_paths(c, e.paths, image(o["points"][t], sym), "triangle-and-its-images")
            for n in ekw:
                c.equal(getattr(e, n), ekw[n], "electrode-attributes")
        # what the next mesh is asked to refine
        if i+1 < len(calls):
            nxt = calls[i+1]["args"]
            c.same_array(np.asarray(nxt["triangles"]), o["triangles"], "mesh-handed-back")
            c.same_array(np.asarray(nxt["points"]), o["points"], "mesh-handed-back")
            ar = np.array([triangle_area(o["points"][t]) for t in o["triangles"]])
            p = v[nf:]
            jump = np.array([max([abs(p[j]-p[m]) for j in nb if j >= 0] or [0.])
                             for m, nb in enumerate(o["neighbors"])])
            sure = np.abs(jump-th) > 1e-6
            want = np.where(jump > th, ar/down, ar*up)
            got = np.asarray(nxt["triangleareas"]).ravel()
            c.equal(got.shape, want.shape, "an-area-per-triangle")
            c.close(got[sure], want[sure], "refines-at-potential-jumps", rtol=1e-9)
            c.count("refined", int((jump > th)[sure].sum()))
            c.count("coarsened", int((jump <= th)[sure].sum()))
    if res is None:
        return
    s, v, k = res
    if not runs:
        c.ok(s is None and v is None and k is None, "nothing-to-optimise")
        return
    c.ok(s is runs[-1][0], "returns-the-last-system")
    c.same_array(np.asarray(v), runs[-1][2], "returns-the-last-voltages")
    c.equal(float(k), float(runs[-1][3]), "returns-the-last-strength")
    c.ok(v.min() > lo-1e-5 and v.max() < hi+1e-5, "voltages-within-limits")
    descs = [dict(traps.poly_desc(f), **(ekw if how == "boundaries" or ekw else {})) for f in [[p] for p in fixed_paths]]
    descs += [dict(traps.poly_desc(image(rounds[len(runs)-1]["points"][t], sym)), **ekw)
              for t in rounds[len(runs)-1]["triangles"]]
    B = np.array([row(descs, x, n) for n in names])
    c.close(B @ v, float(k)*np.array(vals), "objectives-met", rtol=0, atol=3e-5*np.abs(B).sum(1)*max(abs(lo), hi))
    # together, the triangles are the variable areas
    got = s.individual_potential(x, 0)[nf:, 0, 0].sum()
    want = sum(float(jets.electrode_jet(x[None], dict(traps.poly_desc(image(p, sym)), **ekw), 0).c[0][0]) for p in var)
    c.close(got, want, "triangles-cover-the-variable-areas", rtol=1e-9)
    c.count("finished")


@scenario("A02", quick=120, thorough=2000)
def helpers(c):
    """paths_to_mesh() closes every boundary; transformed copies are the affine images."""
    mod = module()
    paths = [gen.star(c.rng, c.integers(3, 9), .5, 1.)*c.uniform(.1, 10)+c.rng.normal(size=2) for _ in range(c.integers(1, 5))]
    order = c.choice(["C", "F", "list-of-int"])
    if order == "F":
        paths = [np.asfortranarray(p) for p in paths]
    elif order == "list-of-int":
        paths = [np.round(p*10).astype(int) for p in paths]
    keep = [p.copy() for p in paths]
    a = mod.paths_to_mesh(paths)
    c.state(order, [len(p) for p in paths])
    c.note(order=order, sizes=[len(p) for p in paths])
    pt, sg, mk = a["points"], a["segments"], a["segmentmarkers"]
    c.ok(pt.dtype == np.double and sg.dtype == np.intc and mk.dtype == np.intc, "types")
    c.ok(all(k.flags.c_contiguous for k in (pt, sg, mk)), "memory-order")
    c.close(pt, np.concatenate(keep), "all-points-in-order", rtol=0)
    c.equal((sg.shape, mk.shape), ((len(pt), 2), (len(pt),)), "a-segment-per-point")
    n = 0
    marks = set()
    for p in keep:
        ids = set(range(n, n+len(p)))
        mine = [i for i in range(len(sg)) if set(sg[i]) & ids]
        c.equal(sorted(map(tuple, np.sort(sg[mine], 1))),
                sorted(tuple(sorted((n+k, n+(k+1) % len(p)))) for k in range(len(p))), "closed-boundaries")
        m = set(mk[mine].tolist())
        c.ok(len(m) == 1 and not m & marks and min(m) >= 2, "a-marker-per-boundary", m)
        marks |= m
        n += len(p)
    for p, k in zip(paths, keep):
        c.same_array(p, k, "arguments-unchanged")
    ts = []
    for _ in range(c.integers(1, 4)):
        t = np.eye(4)
        t[:3] = c.rng.normal(size=(3, 4))
        ts.append((t, c.choice([1, -1])))
    p = keep[0].astype(float)
    want = [(np.c_[p, np.zeros(len(p)), np.ones(len(p))] @ t.T)[::s, :2] for t, s in ts]
    for fn in (lambda q: mod.transformed_copy(ts, q), mod.transformer(ts)):
        got = fn(p)
        c.equal(len(got), len(ts), "an-image-per-transformation")
        for g, w in zip(got, want):
            c.close(np.asarray(g), w, "image", rtol=1e-12, scale=np.abs(w).max()+10)
