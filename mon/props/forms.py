"""X02: documented array-likes may come in any form, and come back unchanged.

Every entry point that documents an array-like argument is called twice with the same values: with plain
double arrays, and with other forms of them (nested lists, tuples, integer, single precision, byte-swapped,
read-only, strided, reversed, transposed arrays). Both calls have to agree, and leave what they were
given as it was."""
import itertools

import numpy as np

from electrode import electrode as el
from electrode import grid as gr
from electrode import pattern_constraints as pc
from electrode import utils
from electrode.polygons import Polygons
from electrode.system import System

from .. import gen
from ..core import scenario

FORMS = ["list", "tuple", "int", "short", "f4", "big", "readonly", "strided", "reversed", "fortran", "mixed"]


def nest(a, t):
    return t(nest(i, t) for i in a) if isinstance(a, list) else a


def form(c, a, kind):
    """The same values as the array `a`, and a way to tell that they were not changed."""
    a = np.array(a, float)
    if kind in ("int", "short"):
        v = a.astype("i8" if kind == "int" else "i2") if (a == np.rint(a)).all() else a.tolist()
    elif kind == "f4":
        v = a.astype("f4")
        if not (v == a).all():
            v = a.tolist()
    elif kind == "big":
        v = a.astype(">f8")
    elif kind == "readonly":
        v = a.copy()
        v.flags.writeable = False
    elif kind == "strided":
        v = np.full(tuple(2*s+1 for s in a.shape), np.nan)[tuple(slice(1, 2*s+1, 2) for s in a.shape)]
        v[...] = a
    elif kind == "reversed":
        v = a[::-1].copy()[::-1]
    elif kind == "fortran":
        v = np.asfortranarray(a)
    elif kind == "mixed":       # ints where whole, in lists
        v = nest(a.tolist(), lambda it: [int(i) if isinstance(i, float) and i == int(i) else i for i in it])
    else:
        v = nest(a.tolist(), list if kind == "list" else tuple)
    return v


def frozen(v):
    """A comparable copy of what was handed over."""
    if isinstance(v, np.ndarray):
        return (v.dtype.str, v.shape, v.tobytes())
    if isinstance(v, (list, tuple)):
        return (type(v), [frozen(i) for i in v])
    return (type(v), v)


def flat(v):
    if v is None:
        return np.zeros(0)
    if isinstance(v, (list, tuple)):
        return np.concatenate([np.zeros(0)]+[flat(i) for i in v])
    return np.ravel(np.asarray(v, complex))


class Arg(object):
    """An array-like argument (or, `many`, a list of them)."""
    def __init__(self, v, many=False, only=None):
        self.many, self.only = many, only
        self.v = [np.array(i, float) for i in v] if many else np.array(v, float)

    def plain(self):
        return [i.copy() for i in self.v] if self.many else self.v.copy()

    def other(self, c):
        k = c.choice([f for f in FORMS if self.only is None or f in self.only])
        if not self.many:
            return k, form(c, self.v, k)
        v = [form(c, i, c.choice([k, k, c.choice(FORMS)])) for i in self.v]
        return k, (v if c.chance(.6) else tuple(v))


def dy(c, v, whole=False):
    """Round to values that single precision can hold."""
    return np.rint(v) if whole else np.rint(np.asarray(v, float)*64)/64


def some_x(c, whole, n=None):
    n = c.integers(1, 4) if n is None else n
    x = np.c_[c.rng.normal(size=(n, 2))*3, c.rng.uniform(1, 4, n)]
    x = dy(c, x, whole)
    x[:, 2] = np.maximum(x[:, 2], 1.)
    return x


def ring(c, whole):
    p = gen.polygon(c.rng)[0]
    p = dy(c, p*(8 if whole else 1), whole)
    keep = (np.abs(p-np.roll(p, 1, 0)).sum(1) > 0)
    p = p[keep]
    return p if len(p) > 2 and abs(utils.area_centroid(p)[0]) > .1 else np.array([[0, 0], [4, 0], [4, 3], [0, 3.]])


def pads(c, n=4):
    """An independent set of electrodes around the origin."""
    out = []
    for i in range(n):
        x, y = -2.*n/2+2*i, c.choice([-1., 0, 1.])
        out.append(el.PolygonPixelElectrode(name="e%d" % i, paths=[[[x, y-4], [x+2, y-4], [x+2, y+c.integers(1, 4)],
                                                                     [x, y+4]]]))
    s = System(out)
    s.dcs = dy(c, c.rng.normal(size=n))
    s.rfs = dy(c, c.rng.normal(size=n))
    s.rf_coeff = 1.
    return s


# name -> builder(c, whole): (function of the arguments, [Arg, ...], tolerance)
TABLE = {}


def entry(f):
    TABLE[f.__name__] = f
    return f


@entry
def point_electrode(c, whole):
    n, d = c.integers(1, 4), c.integers(0, 5)
    kw = dict(cover_height=c.choice([20., 50.]), cover_nmax=c.choice([0, 1, 3]))
    return lambda x, p, a: el.PointPixelElectrode(points=p, areas=a, **kw).potential(x, d), \
        [Arg(some_x(c, whole)), Arg(dy(c, c.rng.normal(size=(n, 2))*3, whole)), Arg(dy(c, c.rng.uniform(1, 4, n), whole))], 1e-12


@entry
def point_electrode_details(c, whole):
    n = c.integers(1, 4)
    return lambda p, a: [el.PointPixelElectrode(points=p, areas=a).orientations()], \
        [Arg(dy(c, c.rng.normal(size=(n, 2))*3, whole)), Arg(dy(c, c.rng.uniform(1, 4, n), whole))], 1e-12


@entry
def polygon_electrode(c, whole):
    d = c.integers(0, 4)
    kw = dict(cover_height=c.choice([20., 50.]), cover_nmax=c.choice([0, 1, 3]))
    return lambda x, p: el.PolygonPixelElectrode(paths=p, **kw).potential(x, d), \
        [Arg(some_x(c, whole)), Arg([ring(c, whole) for i in range(c.integers(1, 3))], True)], 1e-12


@entry
def polygon_electrode_details(c, whole):
    def f(p):
        e = el.PolygonPixelElectrode(paths=p)
        q = e.to_points()
        return [e.orientations(), q.points, q.areas]
    return f, [Arg([ring(c, whole) for i in range(c.integers(1, 3))], True)], 1e-12


@entry
def cover_electrode(c, whole):
    d, h = c.integers(0, 3), c.uniform(5, 60)
    return lambda x: el.CoverElectrode(height=h).potential(x, d), [Arg(some_x(c, whole))], 1e-12


@entry
def mesh_electrode(c, whole):
    d = c.integers(0, 4)
    p = ring(c, whole)
    n = len(p)
    e = np.c_[np.arange(n), np.roll(np.arange(n), -1)]
    ints = ["list", "tuple", "int", "readonly", "strided", "reversed", "fortran", "mixed"]
    return lambda x, pp, v: el.MeshPixelElectrode(points=pp, edges=e, polygons=np.zeros(n, int), potentials=v).potential(x, d), \
        [Arg(some_x(c, whole)), Arg(p), Arg(dy(c, c.rng.normal(size=1), whole)+3, only=ints)], 1e-12


@entry
def grid_electrode(c, whole):
    d = c.integers(0, 1)
    sh = [c.integers(2, 4) for i in range(3)]
    data = [dy(c, c.rng.normal(size=sh+[2*i+1])*9, whole) for i in range(2)]
    return lambda x, o, s, *data: el.GridElectrode(data=list(data), origin=o, spacing=s).potential(x, d), \
        [Arg(some_x(c, whole)), Arg(dy(c, c.rng.normal(size=3)*2, whole)), Arg(dy(c, c.rng.uniform(1, 3, 3), whole)),
         Arg(data[0]), Arg(data[1])], 1e-12


@entry
def system_potentials(c, whole):
    s, d, e = pads(c), c.integers(0, 2), c.chance(.5)
    k = c.integers(0, 4)
    f = [lambda x: s.individual_potential(x, d), lambda x: s.electrical_potential(x, d, "rf", e),
         lambda x: s.pseudo_potential(x, d), lambda x: s.potential(x, d), lambda x: s.time_potential(x, d, .5, e)][k]
    return f, [Arg(some_x(c, whole))], 1e-12


@entry
def system_voltages(c, whole):
    s = pads(c)
    x = some_x(c, False)

    def f(v, w):
        t = System(list(s))
        keep = t.dcs, t.rfs
        t.rf_coeff = 1.
        out = []
        with t.with_voltages(v, w):
            out.append([t.dcs, t.rfs, t.potential(x)])
        out.append([t.dcs, t.rfs])
        t.dcs, t.rfs = v, w
        out.append([t.dcs, t.rfs])
        t.dcs, t.rfs = keep
        return out
    v = [Arg(dy(c, c.rng.normal(size=4)*4, whole)) for i in range(2)]
    return f, v, 1e-12


@entry
def system_group(c, whole):
    s = pads(c)
    def f(t, v):
        g = s.group(t, v)
        return [[len(e.paths) for e in g], g.individual_potential(np.array([[1., 0, 2]]))]
    return f, \
        [Arg(np.sort(dy(c, c.rng.normal(size=c.integers(1, 3))*2, whole))), Arg(dy(c, c.rng.normal(size=4)*4, whole))], 1e-12


@entry
def system_modes(c, whole):
    s = pads(c)
    x = some_x(c, whole, 1)[0]
    return lambda x: np.linalg.eigvalsh(s.potential(x, 2)[0])-s.modes(x)[0], [Arg(x)], 1e-9


@entry
def system_mathieu(c, whole):
    s, r = pads(c), c.integers(1, 3)
    x = some_x(c, whole, 1)[0]

    def f(x):
        mu, b = s.mathieu(x, scale=.01, r=r)
        return [np.sum(mu**2), np.sum(mu.real**2)]
    return f, [Arg(x)], 1e-6


def well():
    """A trap whose minimum is near (0, 0, 1)."""
    s = System([el.PolygonPixelElectrode(name="a", rf=12., paths=[[[1, -40], [3, -40], [3, 40], [1, 40]]]),
                el.PolygonPixelElectrode(name="b", rf=12., paths=[[[-3, -40], [-1, -40], [-1, 40], [-3, 40]]]),
                el.PolygonPixelElectrode(name="c", dc=1., paths=[[[-9, 2], [-3, 2], [-3, 8], [-9, 8]], [[3, 2], [9, 2], [9, 8], [3, 8]]]),
                el.PolygonPixelElectrode(name="d", dc=1., paths=[[[-9, -8], [-3, -8], [-3, -2], [-9, -2]],
                                                                 [[3, -8], [9, -8], [9, -2], [3, -2]]])])
    s.rf_coeff = 1.
    return s


@entry
def system_minimum(c, whole):
    s = well()
    x = np.array([0, 0, 2.]) if whole else dy(c, [0, 0, 1.75]+c.rng.normal(size=3)*.1)
    return lambda x: s.minimum(x), [Arg(x)], 1e-6


@entry
def system_report(c, whole):
    s = well()
    x = s.minimum(np.array([0, 0, 1.75]))
    x = dy(c, [0, 0, 2.], whole) if whole else dy(c, x)
    a, b = dy(c, c.rng.normal(size=3)*(1. if whole else .05), whole), dy(c, c.rng.normal(size=3)*.05, whole)

    def f(x, a, b):
        it = s.analyze_static(x, m=6.6e-26, l=50e-6, o=2e8, min_off=True, min_offset=a, saddle_offset=b)
        head = list(itertools.islice(it, 3))
        it.close()
        return [float(len(head))]+[float(ord(ch)) for ch in "".join(head)]
    return f, [Arg(x), Arg(a), Arg(b)], 1e-12


@entry
def system_report_search(c, whole):
    s = well()
    x = np.array([0, 0, 2.])
    offs = c.chance(.5)
    a, b = dy(c, c.rng.normal(size=3)*.05), dy(c, c.rng.normal(size=3)*.05)

    def f(x, a, b):
        kw = dict(min_offset=a, saddle_offset=b) if offs else {}
        it = s.analyze_static(x, m=6.6e-26, l=50e-6, o=2e8, **kw)
        out = []
        for ln in it:
            out.append(ln)
            if ln.startswith(" saddle"):
                it.close()
                break
        ln = [i for i in out if "minimum is at" in i][0]
        return np.array([float(i) for i in ln.split("[")[1].rstrip("] ").split()])
    return f, [Arg(x), Arg(a), Arg(b)], 1e-3


@entry
def system_trajectory(c, whole):
    s = pads(c)
    axis = c.choice([(0, 1, 2), (0, 1), (2,), (2, 0)])

    def integ(ddx, nsteps, t, p, q, t1):
        f = np.empty(len(axis))
        ddx(t, q, f)
        q += .0123*p
        p -= .0123*f
    return lambda x, v: [list(i) for i in s.trajectory(x, v, axis=axis, t1=1., dt=.25, integ=integ)], \
        [Arg(some_x(c, whole, 1)[0]), Arg(dy(c, c.rng.normal(size=3), whole))], 1e-12


@entry
def system_ions(c, whole):
    s = System([el.PolygonPixelElectrode(name="b", rf=12., paths=[[[-3, -3], [3, -3], [3, 3], [-3, 3]], [[-1, -1], [-1, 1], [1, 1], [1, -1]]])])
    s.rf_coeff = 1.
    x = np.array([[0, 1, 2.], [0, -1, 2]]) if whole else dy(c, [[.3, .2, 1.6], [-.3, .1, 1.8]])

    def f(x, q):
        y, ew, ev = s.ions(x, q)
        e = .5*q[0]*q[1]*2/np.linalg.norm(y[0]-y[1])
        return [s.potential(y, 0).sum()+e, np.sort(ew)[2:]]
    q = [1., 1.] if whole else [.125, .125]
    return f, [Arg(x), Arg(q)], 1e-3


@entry
def objectives(c, whole):
    s = pads(c)
    R = np.eye(3)[c.rng.permutation(3)] if whole or c.chance(.5) else dy(c, gen.rotation(c.rng))
    nm = c.choice(["", "x", "z", "xx", "xy", "yz", "zz"])
    x = some_x(c, whole, 1)[0]
    return lambda x, R: pc.PotentialObjective(x=x, derivative=nm, rotation=R, value=1.).get(s, None), [Arg(x), Arg(R)], 1e-12


@entry
def shims(c, whole):
    s = pads(c, 6)
    ders = [str(i) for i in c.rng.permutation(["x", "y", "z", "xx"])[:c.integers(1, 3)]]
    x = np.array([[-3, 1., 1], [2, -1, 2]]) if whole else dy(c, some_x(c, False, 2))
    R = np.eye(3)
    if not whole:
        a = c.uniform(0, 6)
        R = dy(c, [[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1]])
    i = c.integers(0, 1)
    return lambda x, R: [np.asarray(v) for v in s.shims([(x, R, d) for d in ders])], [Arg(x[i]), Arg(R)], 1e-5


@entry
def tensors(c, whole):
    o = c.integers(0, 5)
    lead = [(), (3,), (2, 2)][c.integers(0, 2)]
    v = dy(c, c.rng.normal(size=lead+(2*o+1,))*5, whole)
    return lambda v: utils.expand_tensor(v) if o else utils.expand_tensor(v, 0), [Arg(v)], 1e-12


@entry
def tensors_back(c, whole):
    o = c.integers(1, 5)
    n = c.integers(1, 3)
    v = utils.expand_tensor(dy(c, c.rng.normal(size=(n, 2*o+1))*5, whole))
    return lambda v: [utils.select_tensor(v)]+([utils.select_tensor(v, o)] if o > 1 else []), [Arg(v)], 1e-12


@entry
def tensor_rotation(c, whole):
    o, n = c.integers(1, 4), c.integers(1, 3)
    v = utils.expand_tensor(dy(c, c.rng.normal(size=(n, 2*o+1))*5, whole))
    R = np.eye(3)[c.rng.permutation(3)] if whole else dy(c, gen.rotation(c.rng))
    return lambda v, R: [utils.rotate_tensor(v, R), utils.rotate_tensor(v, R, o)], [Arg(v), Arg(R)], 1e-12


@entry
def harmonics(c, whole):
    o, n = c.integers(0, 5), c.integers(1, 3)
    return lambda v: utils.cartesian_to_spherical_harmonics(v), [Arg(dy(c, c.rng.normal(size=(2*o+1, n))*5, whole))], 1e-12


@entry
def areas(c, whole):
    return lambda p: list(utils.area_centroid(p)), [Arg(ring(c, whole))], 1e-12


@entry
def norms(c, whole):
    a = dy(c, c.rng.normal(size=(c.integers(1, 4), c.integers(1, 4)))*5, whole)
    ax = c.choice([0, 1, -1])
    return lambda a: utils.norm(a, ax), [Arg(a)], 1e-7


@entry
def floquet(c, whole):
    n, r, k = c.integers(1, 3), c.integers(1, 4), c.integers(1, 2)
    a = [dy(c, c.rng.normal(size=(n, n))*.3, False) for i in range(k)]
    if whole:
        a = [np.rint(i*4) for i in a]

    def f(*a):
        mu, b = utils.mathieu(r, *a)
        return [np.sum(mu), np.sum(mu**2), b.shape]
    return f, [Arg(i) for i in a], 1e-6


@entry
def grids(c, whole):
    sh = tuple(c.integers(2, 4) for i in range(3))
    ctr, st = dy(c, c.rng.normal(size=3)*4, whole), dy(c, c.rng.uniform(1, 3, 3), whole)
    return lambda a, b: [gr.Grid(a, b, sh).to_points(), list(gr.Grid(a, b, sh).to_xyz())], \
        [Arg(ctr), Arg(st)], 1e-12


@entry
def layouts(c, whole):
    rings = [np.array([[0, 0], [8, 0], [8, 6], [0, 6.]]), np.array([[-9, -8], [-2, -8], [-4, -1.]]),
             np.array([[2, -8], [8, -8], [8, -2], [5, -2], [5, -5], [2, -5.]])]
    rings = [rings[i]+c.integers(-2, 2) for i in c.rng.permutation(3)[:c.integers(1, 3)]]
    rings = [np.r_[p, p[:1]] for p in rings]
    gap = [np.array([[-30, 12], [30, 12.]]), np.array([[-12, -30], [-12, 30.]])][:c.integers(1, 2)]
    route = [np.array([[-30, -15.], [30, -15.]])][:c.integers(0, 1)]

    def f(*a):
        k, m = len(rings), len(gap)
        P = Polygons.from_data([("e%d" % i, p) for i, p in enumerate(a[:k])], list(a[k:k+m]), list(a[k+m:]), [], [], edge=50.)
        return [[float(len(P))]]+[[len(n), p.area, list(p.bounds)] for n, p in P]
    return f, [Arg(i) for i in rings+gap+route], 1e-9


def defaults():
    """The default arguments of all public functions and methods."""
    import inspect
    import sys
    out = {}
    for nm, mod in list(sys.modules.items()):
        if not nm.startswith("electrode") or mod is None:
            continue
        for k, o in list(vars(mod).items()):
            fs = [(k, o)] if inspect.isfunction(o) else \
                [(k+"."+j, f) for j, f in list(vars(o).items()) if inspect.isfunction(f)] if inspect.isclass(o) else []
            for j, f in fs:
                if getattr(f, "__module__", "").startswith("electrode"):
                    out[f.__module__+":"+j] = frozen(tuple(f.__defaults__ or ()))
    return out


FIRST = defaults()


@scenario("X02", quick=1200, thorough=30000)
def any_form(c):
    names = sorted(TABLE)
    name = names[c.idx % len(names)]
    whole = c.chance(.5)
    fn, args, tol = TABLE[name](c, whole)
    def call(v):
        try:
            return flat(fn(*v))
        except ValueError as e:
            if name == "system_minimum" and "failed" in str(e):    # precision loss at rounding level
                c.giveup("no convergence: %s" % e)
            raise
    want = call([a.plain() for a in args])
    use = [c.chance(.7) for a in args]
    if not any(use):
        use[c.integers(0, len(args)-1)] = True
    given, kinds = [], []
    for a, u in zip(args, use):
        k, v = a.other(c) if u else ("array", a.plain())
        kinds.append(k)
        given.append(v)
    c.note(entry=name, forms=kinds, values=[a.v for a in args])
    c.state(name, kinds, whole, [np.round(flat(a.v), 3).tolist()[:6] for a in args])
    before = [frozen(v) for v in given]
    got = call(given)
    if "f4" in kinds or any(a.many for a in args):      # may be calculated in single precision
        tol = max(tol, 3e-6)
    c.count("form:"+kinds[use.index(True)])
    c.close(got, want, "same-values-in-any-form", rtol=tol, scale=np.abs(want).max() if len(want) else 0., entry=name, forms=kinds)
    for v, b, k in zip(given, before, kinds):
        c.ok(frozen(v) == b, "arguments-unchanged", entry=name, form=k)
    if c.idx % 7 == 0:
        now = defaults()
        bad = [k for k, v in now.items() if k in FIRST and FIRST[k] != v]
        c.ok(not bad, "defaults-unchanged", changed=bad)
