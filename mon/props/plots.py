"""S10: what plots show."""
import contextlib
import io

import numpy as np
import matplotlib
matplotlib.use("Agg")
from matplotlib import collections as mc      # noqa: E402
from matplotlib.figure import Figure          # noqa: E402
from matplotlib.backends.backend_agg import FigureCanvasAgg      # noqa: E402

from electrode import colors, electrode as el
from electrode.grid import Grid
from electrode.system import System

from ..core import scenario
from .. import gen, traps
from .electro2 import any_electrode, grid_electrode, snapshot
from .electrostatics import make_poly, make_points, build


def axes():
    f = Figure(figsize=(3, 3))
    FigureCanvasAgg(f)
    return f, f.add_subplot(111)


def loops(path):
    """The sub-polygons of a matplotlib path, unclosed."""
    v, codes = path.vertices, path.codes
    if codes is None:
        codes = [1]+[2]*(len(v)-1)
    out = []
    for p, k in zip(v, codes):
        if k == 1:
            out.append([])
        if k == 79:
            continue
        out[-1].append(p)
    out = [np.array(o) for o in out]
    return [o[:-1] if len(o) > 1 and np.allclose(o[0], o[-1], rtol=0, atol=1e-12) else o for o in out]


def closed_equal(a, b):
    """the same closed loop, from whichever start"""
    if a.shape != b.shape:
        # drop the redundant closing vertex of a loop that was given closed
        if len(b) == len(a)+1 and np.allclose(b[0], b[-1]):
            b = b[:-1]
        else:
            return False
    return any(np.allclose(np.roll(b, k, 0), a, rtol=1e-12, atol=1e-12) for k in range(len(a)))


def poly_system(c, nmax=6):
    s, info = System(), []
    for i in range(c.integers(*gen.big((1, nmax), (12, 24)))):
        k = c.choice(["poly", "poly", "poly", "point", "other"])
        name = c.choice(["e%d" % i, "dup", "", "rf \u03bc", "a_b"])
        kw = dict(name=name, dc=c.choice([0., c.uniform(-5, 5)]), rf=c.choice([0., 1.]))
        if k == "poly":
            d, _ = make_poly(c, nmax=3, scale=False)
            s.append(build(d, **kw))
        elif k == "point":
            d = make_points(c)
            d["areas"] = np.abs(d["areas"])
            s.append(build(d, **kw))
        else:
            d = None
            s.append(el.CoverElectrode(height=10., **kw) if c.chance(.5) else grid_electrode(c, orders=1, **kw))
        info.append((k, d, name))
    return s, info


def check_artists(c, ax, s, info, rgba, label=None):
    patches, colls = list(ax.patches), [a for a in ax.collections if isinstance(a, mc.EllipseCollection)]
    texts = [(t.get_text(),)+tuple(t.get_position()) for t in ax.texts]
    c.equal(len(patches), sum(k == "poly" for k, _, _ in info), "one-patch-per-polygon-electrode")
    c.equal(len(colls), sum(k == "point" for k, _, _ in info), "one-collection-per-point-electrode")
    want_t, ip, ic = [], 0, 0
    for (k, d, name), col in zip(info, rgba):
        if k == "poly":
            p = patches[ip]
            ip += 1
            got = loops(p.get_path())
            c.equal(len(got), len(d["paths"]), "every-path-drawn")
            for a, b in zip(got, d["paths"]):
                c.ok(closed_equal(a, np.asarray(b, float)), "drawn-outline", got=a, want=b)
            if col is not None:
                c.close(np.asarray(p.get_facecolor())[:3], col[:3], "electrode-colour", rtol=0, atol=1e-9)
                if len(col) > 3:
                    c.close(p.get_facecolor()[3], col[3], "electrode-alpha", rtol=0, atol=1e-9)
            lab = name if label is None else label
            if lab:
                want_t += [(lab,)+tuple(np.asarray(q, float).mean(0)) for q in d["paths"]]
        elif k == "point":
            p = colls[ic]
            ic += 1
            c.close(np.asarray(p.get_offsets()), np.asarray(d["points"])[:, :2], "point-positions", rtol=1e-12)
            # the size shown is that of a disk of the pixel's area
            c.close(np.pi*np.asarray(p._widths)*np.asarray(p._heights), np.asarray(d["areas"]), "point-areas", rtol=1e-9,
                    atol=1e-12)
            if col is not None:
                c.close(np.asarray(p.get_facecolor())[0][:3], col[:3], "electrode-colour", rtol=0, atol=1e-9)
            lab = name if label is None else label
            if lab:
                want_t.append((lab,)+tuple(np.asarray(d["points"])[:, :2].mean(0)))
    c.equal(sorted(t[0] for t in texts), sorted(t[0] for t in want_t), "labels")
    a, b = sorted(texts), sorted(want_t)
    if a:
        c.close(np.array([t[1:] for t in a], float), np.array([t[1:] for t in b], float), "label-positions",
                rtol=1e-9, atol=1e-9)


@scenario("S10", quick=160, thorough=4000)
def plot(c):
    s, info = poly_system(c, c.choice([3, 6, 15]))
    before = [snapshot(e) for e in s]
    f, ax = axes()
    kw = {}
    label = None
    if c.chance(.3):
        label = kw["label"] = c.choice(["x", "", "L1"])
    if c.chance(.4):
        kw["alpha"] = c.uniform(.1, 1)
    alpha = kw.get("alpha", .3)
    c.note(kinds=[i[0] for i in info], names=[i[2] for i in info], kw=kw)
    c.state([i[0] for i in info], sorted(kw))
    s.plot(ax, **kw)
    pal = np.asarray(colors.set3)/255.
    rgba = [np.r_[pal[i % len(pal)][:3], alpha] for i in range(len(s))]
    check_artists(c, ax, s, info, rgba, label)
    for a, b in zip(range(len(s)), range(1, min(len(s), len(pal)))):
        c.ok(not np.allclose(rgba[a], rgba[b]), "neighbours-distinguishable")
    c.equal([snapshot(e) for e in s], before, "system-unchanged")
    f.canvas.draw()


@scenario("S10", quick=160, thorough=4000)
def voltages(c):
    import matplotlib.pyplot as plt
    s, info = poly_system(c)
    n = len(s)
    before = [snapshot(e) for e in s]
    u = c.choice([None, c.rng.normal(size=n)*5, np.zeros(n), c.rng.integers(-3, 4, n).astype(float)])
    um = c.choice([None, None, 1., 10., 3.7])
    cmap = c.choice([None, None, plt.cm.viridis, plt.cm.gray])
    kw = {}
    if u is not None:
        kw["u"] = u
    if um is not None:
        kw["um"] = um
    if cmap is not None:
        kw["cmap"] = cmap
    u0 = None if u is None else u.copy()
    c.note(kinds=[i[0] for i in info], u=u, um=um, cmap=getattr(cmap, "name", None))
    c.state([i[0] for i in info], sorted(kw), None if u is None else list(np.sign(u)))
    f, ax = axes()
    s.plot_voltages(ax, **kw)
    if u is not None:
        c.same_array(u, u0, "given-voltages-unchanged")
    v = np.array([e.dc for e in s]) if u is None else u0
    m = um if um is not None else (np.abs(v).max() or 1.)
    cm = cmap or plt.cm.RdBu_r
    rgba = [cm(float((x/m+1)/2)) for x in v]
    check_artists(c, ax, s, info, rgba)
    if cmap is None:
        # red for positive, blue for negative
        fc = [np.asarray(p.get_facecolor()) for p in ax.patches]
        vp = [x for x, i in zip(v, info) if i[0] == "poly"]
        for x, col in zip(vp, fc):
            if x > .05*m:
                c.ok(col[0] > col[2], "positive-is-red", v=x, colour=col)
            elif x < -.05*m:
                c.ok(col[2] > col[0], "negative-is-blue", v=x, colour=col)
    c.equal([snapshot(e) for e in s], before, "system-unchanged")


class Spy(object):
    """Forwards to real axes and keeps what contour and contourf were given."""

    def __init__(self, ax):
        self.ax, self.calls = ax, []

    def __getattr__(self, k):
        v = getattr(self.ax, k)
        if k in ("contour", "contourf"):
            def rec(*a, **kw):
                self.calls.append((k, [np.array(i, float) for i in a], dict(kw)))
                return v(*a, **kw)
            return rec
        return v


@scenario("S10", quick=120, thorough=2500)
def contour(c):
    shape = tuple(c.integers(2, 6) for _ in range(3))
    step = c.rng.uniform(.1, .5, 3)
    center = np.r_[c.rng.normal(size=2)*.5, c.uniform(2., 3)]
    use_default = c.chance(.3)
    s = System()
    kinds = []
    if use_default:
        # the grid defaults to that of the first electrode
        ge = el.GridElectrode(data=[c.rng.normal(size=shape+(2*o+1,)) for o in range(2)],
                              origin=center-step*(np.array(shape)-1)/2, spacing=step, name="g", dc=1., rf=.5)
        s.append(ge)
        kinds.append("grid")
    for i in range(c.integers(0 if use_default else 1, 3)):
        k, e, d = any_electrode(c, 1, kinds=("poly", "point", "cover"))
        e.dc, e.rf = c.rng.normal(), c.choice([0., 1., c.rng.normal()])
        s.append(e)
        kinds.append(k)
    s.rf_coeff = c.uniform(.2, 2)
    before = [snapshot(e) for e in s]
    slc, typ = c.choice("xyz"), c.choice([None, "tot", "dc", "rf"])
    kw = {"slc": slc}
    if typ:
        kw["typ"] = typ
    at = 0.
    lo, hi = center-step*(np.array(shape)-1)/2, center+step*(np.array(shape)-1)/2
    ax3 = "xyz".index(slc)
    if slc == "z" or c.chance(.7):
        kw["slc_at"] = at = float(c.uniform(lo[ax3], hi[ax3]))
    if c.chance(.5):
        kw["fill"] = True
    if c.chance(.5):
        kw["divide_max"] = c.choice([1, 2, -1, 3.5])
    if c.chance(.5):
        kw["line_num"] = c.choice([5, 12])
    if c.chance(.2):
        kw["cmap"] = "viridis"
    if not use_default:
        kw["grid"] = Grid(center=center, step=step, shape=shape)
    c.note(kinds=kinds, shape=shape, kw={k: v for k, v in kw.items() if k != "grid"})
    c.state(kinds, shape, sorted((k, str(v)) for k, v in kw.items() if k not in ("grid", "slc_at")))
    other = [i for i in range(3) if i != ax3]
    axs = [lo[i]+step[i]*np.arange(shape[i]) for i in other]
    P = np.empty((len(axs[1]), len(axs[0]), 3))
    P[..., other[0]] = axs[0][None]
    P[..., other[1]] = axs[1][:, None]
    P[..., ax3] = at
    q = P.reshape(-1, 3)
    t = typ or "tot"
    want = 0.
    if t in ("tot", "dc"):
        want = want+sum(e.dc*e.potential(q, 0)[:, 0] for e in s)
    if t in ("tot", "rf"):
        g = sum(e.rf*e.potential(q, 1) for e in s)
        want = want+s.rf_coeff**2*(g**2).sum(1)
    want = want.reshape(P.shape[:2])
    sc = np.abs(want).max()+1e-12
    if want.max()-want.min() < 1e-6*sc or (want.max() <= 0 and kw.get("divide_max", 8) < 1):
        return          # nothing to contour; limits beyond all data
    f, ax = axes()
    spy = Spy(ax)
    with contextlib.redirect_stdout(io.StringIO()):
        CS, (maxp, minp) = s.plot_contour(spy, **kw)
    c.equal(len(spy.calls), 1, "one-contour-set")
    name, args, ckw = spy.calls[0]
    c.equal(name, "contourf" if kw.get("fill") else "contour", "filled-or-lines")
    c.equal(len(args), 3, "contour-arguments")
    X, Y, Z = args
    if X.ndim == 2:
        c.ok((X == X[:1]).all() and (Y == Y[:, :1]).all(), "rectangular-mesh")
        X, Y = X[0], Y[:, 0]
    c.close(X, axs[0], "horizontal-axis", rtol=1e-9, atol=1e-9)
    c.close(Y, axs[1], "vertical-axis", rtol=1e-9, atol=1e-9)
    c.close(Z, want, "potential-on-the-plane", rtol=1e-8, scale=sc)
    c.close([maxp, minp], [want.max(), want.min()], "reported-range", rtol=1e-8, scale=sc)
    dm = kw.get("divide_max", 8)
    top = want.max()/dm
    if abs(top-want.min()) > 1e-6*sc:
        if top <= want.min():
            top = (want.max()+want.min())/2
        lv = np.linspace(want.min(), top, kw.get("line_num", 50))
        c.close(np.asarray(ckw["levels"]), lv, "contour-levels", rtol=1e-7, scale=sc)
    c.equal([ax.get_xlabel()[0], ax.get_ylabel()[0]], ["xyz"[other[0]], "xyz"[other[1]]], "axis-labels")
    c.equal([snapshot(e) for e in s], before, "system-unchanged")
