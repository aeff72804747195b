"""Editing between evaluations: the scenarios `after_edits` of several properties.

The same question is asked at the same points after each of a few edits. The answer has to be that of a system
built afresh from what the edited one consists of now."""
import numpy as np

from electrode import electrode as el
from electrode import grid as gr
from electrode.system import System

from .. import gen
from ..core import scenario
from .electro2 import any_electrode, some_points
from .forms import well
from .state import fresh as fresh_electrode
from .state import model_of

MESH = ("points", "edges", "polygons", "potentials", "cover_nmax", "cover_height")


def twin(s):
    out = System()
    for e in s:
        if type(e).__name__ == "MeshPixelElectrode":
            t = el.MeshPixelElectrode(name=e.name, dc=e.dc, rf=e.rf, **{a: np.array(getattr(e, a)) if a in MESH[:4] else getattr(e, a)
                                                                       for a in MESH})
        else:
            t = fresh_electrode(model_of(e))
        out.append(t)
    if hasattr(s, "rf_coeff"):
        out.rf_coeff = s.rf_coeff
    return out


def edit(c, s, kinds, what):
    """One change; gives its name."""
    n = len(s)
    e = s[c.integers(0, n-1)]
    k = c.choice(what)
    if k == "dc":
        e.dc = c.rng.normal()
    elif k == "rf":
        e.rf = c.rng.normal()+2.
    elif k == "dcs":
        s.dcs = c.rng.normal(size=n)
    elif k == "rfs":
        s.rfs = c.rng.normal(size=n)
    elif k == "swap":       # the same voltages elsewhere
        s.dcs, s.rfs = s.dcs[::-1], s.rfs[::-1]
    elif k == "coeff":
        s.rf_coeff = c.uniform(.5, 2)
    elif k == "ion":
        m, q, l, o = c.choice([6.6e-26, 1.5e-26]), c.choice([1., 2.])*1.602e-19, c.choice([50e-6, 1e-4]), c.uniform(.5, 5)*1e8
        want = np.sqrt(q/m)/(2*l*o)
        c.close(s.rf_scale(m, q, l, o), want, "rf-scale-of-this-ion", rtol=1e-12)
        c.close(s.rf_coeff, want, "rf-scale-of-this-ion", rtol=1e-12)
    elif k == "gentle":      # keeps the trap one
        k = c.choice(["gentle rf", "gentle dc", "gentle coeff", "gentle shape"])
        f = c.choice([.9, 1.1])
        if k == "gentle rf":
            s.rfs = s.rfs*f
        elif k == "gentle dc":
            s.dcs = s.dcs*f
        elif k == "gentle coeff":
            s.rf_coeff *= f
        else:
            shift = c.rng.uniform(-.1, .1, 2)
            for i in s:
                for p in i.paths:
                    p += shift
    elif k == "name":
        e.name = c.choice(["a", "b", "c", "new"])
    elif k == "replace":
        kind, t, d = any_electrode(c, 5, kinds=kinds)
        t.dc, t.rf, t.name = e.dc, e.rf, e.name
        list.__setitem__(s, [i is e for i in s].index(True), t)
    elif k == "reverse":
        s.reverse()
    elif k == "cover" and hasattr(e, "cover_nmax"):
        e.cover_nmax, e.cover_height = c.choice([0, 1, 2]), c.choice([9., 20.])
    elif k == "shape":
        how = c.choice(["in place", "new"])
        k = k+" "+how
        shift = c.rng.uniform(-.4, .4, 2)
        if hasattr(e, "paths"):
            if how == "new":
                e.paths = [p+shift for p in e.paths]
            else:
                for p in e.paths:
                    p += shift
        elif hasattr(e, "points"):
            if how == "new":
                e.points = e.points+shift
            else:
                e.points += shift
        elif hasattr(e, "data"):
            if how == "new":
                e.origin, e.spacing = e.origin+.1, e.spacing*1.1
            else:
                for d in e.data:
                    d *= 1.3
        elif hasattr(e, "height"):
            e.height *= 1.2
    elif k == "amount" and hasattr(e, "areas"):
        e.areas = e.areas*c.uniform(.5, 2)
    elif k == "amount" and hasattr(e, "potentials"):
        e.potentials *= c.uniform(.5, 2)
    return k


GEO = ["shape", "shape", "replace", "cover", "amount", "reverse"]
VOLT = ["dc", "rf", "dcs", "rfs", "swap"]
SURF = ("poly", "poly", "point")
ALL = ("poly", "poly", "point", "grid", "cover", "mesh")


def each(s, x, o):
    return [e.potential(x, o) for e in s]


def modes(s, x, o):
    ew, ev = s.modes(x[0])
    return [ew, np.abs(ev.T.dot(s.potential(x[0], 2)[0]).dot(ev))]


def head(s, x, o):
    it = s.analyze_static(x[0], m=6.6e-26, l=50e-6, o=2e8, min_off=True)
    out = []
    for ln in it:
        if "saddle" in ln:
            it.close()
            break
        out.append(ln)
    return [np.array([ord(i) for i in "\n".join(out)], float)]


def minimum(s, x, o):
    return s.minimum([.1, 0, 1.7], method="Nelder-Mead", options=dict(xatol=1e-7, fatol=1e-13))


# pid -> (electrodes, edits, question, tolerance, cases)
TABLE = {
    "E01": (("poly",), ["shape", "shape", "cover", "replace"], each, 1e-11, 40),
    "E02": (("point",), ["shape", "amount", "cover", "replace"], each, 1e-11, 40),
    "E03": (("poly", "point", "mesh"), ["cover", "cover", "shape", "amount"], each, 1e-11, 40),
    "E04": (ALL, VOLT+GEO, (lambda s, x, o: s.electrical_potential(x, o, "dc"), lambda s, x, o: s.individual_potential(x, o),
                            lambda s, x, o: s.electrical_potential(x, o, "rf", True),
                            lambda s, x, o: [s.electrical_potential(x, o, "rf"), s.electrical_potential(x, o)]), 1e-11, 60),
    "E06": (("mesh",), ["shape", "amount", "cover", "replace"], each, 1e-11, 40),
    "E07": (("grid",), ["shape", "shape", "replace"], each, 1e-11, 40),
    "S01": (ALL, VOLT+GEO+["coeff", "coeff", "ion", "ion"], lambda s, x, o: s.pseudo_potential(x, min(o, 2)), 1e-10, 60),
    "S02": (ALL, VOLT+GEO+["coeff", "ion"], (lambda s, x, o: s.potential(x, min(o, 2)), lambda s, x, o: s.time_potential(x, o, .7),
                                             lambda s, x, o: s.potential(x, min(o, 2), "rf"),
                                             lambda s, x, o: [s.time_potential(x, o, t, True) for t in (0., 1., 2.)]), 1e-10, 60),
    "S04": (("poly",), VOLT+["name", "shape", "reverse", "replace"], lambda s, x, o: [
        [float([i is s[n] for i in s].index(True)) if s[n] is not None else -1. for n in ("a", "b", "c", "new")],
        s.group([0.]).individual_potential(x, 0), s.group([0.]).dcs], 1e-10, 60),
    "S05": (None, ["gentle"], minimum, 1e-3, 8),
    "S06": (("poly", "point"), VOLT+GEO[:4]+["ion", "coeff"], (modes, modes, head), 1e-8, 60),
    "S07": (("poly", "point"), VOLT+GEO[:4]+["ion", "coeff"],
            lambda s, x, o: [np.sum(i) for mu in [s.mathieu(x[0], scale=.01, r=2)[0]] for i in (mu**2, mu**4)], 1e-6, 60),
}


def flat(v):
    return np.concatenate([np.ravel(np.asarray(i, complex)) for i in (v if isinstance(v, list) else [v])]+[np.zeros(0)])


def make(pid):
    kinds, what, ask, tol, cases = TABLE[pid]

    def after_edits(c):
        s = System()
        if kinds is None:
            s.extend(well())
        for i in range(c.integers(1, 3) if kinds else 0):
            k, e, d = any_electrode(c, 5, kinds=kinds)
            e.name = c.choice(["a", "b", "c"])
            e.dc, e.rf = c.rng.normal(), c.rng.normal()
            s.append(e)
        s.rf_coeff = 1.
        n = 1 if pid in ("S05", "S06", "S07") else c.choice([1, 2, 5])
        x = some_points(c, n)
        x[:, 2] = np.maximum(np.abs(x[:, 2]), .5)
        o = c.integers(0, 3)
        q = c.choice(ask) if isinstance(ask, tuple) else ask
        steps = []
        for i in range(c.integers(3, 6)):
            steps.append(edit(c, s, kinds, what) if i else "first")
            x0 = x.copy()
            got = flat(q(s, x, o))
            c.same_array(x, x0, "points-unchanged")
            want = flat(q(twin(s), x.copy(), o))
            if q is head and len(got) == len(want):
                c.ok((got != want).mean() < .01, "as-if-built-now", steps=steps)
            else:
                c.close(got, want, "as-if-built-now", rtol=tol, scale=np.abs(want).max() if len(want) else 0., steps=steps)
        c.note(kinds=[type(e).__name__ for e in s], steps=steps, order=o, x=x)
        c.state([type(e).__name__ for e in s], steps, o, n)
    scenario(pid, quick=cases, thorough=cases*20)(after_edits)


for _pid in sorted(TABLE):
    make(_pid)


@scenario("G01", quick=60, thorough=1500)
def after_edits_of_grids(c):
    def new():
        return c.rng.normal(size=3), c.rng.uniform(.1, 2, 3), tuple(c.integers(1, 4) for i in range(3))
    g = gr.Grid(*new())
    steps = []
    for i in range(4):
        if i:
            a, b, h = new()
            k = c.choice(["center", "step", "shape", "in place"])
            steps.append(k)
            if k == "in place":
                g.center += .5
                g.step *= 1.5
            else:
                setattr(g, k, {"center": a, "step": b, "shape": h}[k])
        f = gr.Grid(g.center.copy(), g.step.copy(), tuple(g.shape))
        keep = g.center.copy(), g.step.copy(), tuple(g.shape)
        for nm in ("to_points", "to_mgrid", "get_origin", "to_xyz"):
            r = getattr(g, nm)()
            for u, v in zip(r, getattr(f, nm)()):
                c.close(u, v, "as-if-built-now", rtol=0, atol=1e-12*(1+np.abs(v).max()), method=nm)
            for u in r:
                if np.ndim(u):
                    u[...] = 1e9        # results belong to the caller
        idx = c.rng.integers(0, 3, 3)
        c.close(g.indices_to_coordinates(idx), f.indices_to_coordinates(idx), "as-if-built-now", rtol=0, atol=1e-12)
        c.equal((g.center.tolist(), g.step.tolist(), tuple(g.shape)), (keep[0].tolist(), keep[1].tolist(), keep[2]), "grid-unchanged")
    c.note(steps=steps)
    c.state(steps, g.shape)
