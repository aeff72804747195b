"""T01-T03: homogeneous transformations, Euler angles and quaternions.

Every public function exists twice: compiled (the name a user gets) and pure Python (`_py_` prefix).
T01 runs both on the same arguments, T02 and T03 judge each implementation against geometry.
"""
import inspect
import itertools
import math

import numpy as np
from scipy.spatial.transform import Rotation

from electrode import _transformations, transformations as tf

from .. import gen
from ..core import scenario

AXES = ["".join(t) for t in itertools.product("sr", ["xyz", "xyx", "xzy", "xzx", "yzx", "yzy", "yxz", "yxy",
                                                       "zxy", "zxz", "zyx", "zyz"])]


def impl(name, py):
    return getattr(tf, "_py_"+name) if py else getattr(tf, name)


# ---------------------------------------------------------------- workloads

def vec(c, n=3, point=False):
    """A non-zero vector, generic or aligned, at various scales."""
    k = c.integers(0, 4)
    v = c.rng.normal(size=3)
    if k == 0:
        v = np.zeros(3)
        v[c.integers(0, 2)] = c.choice([-1., 1., 2.5])
    elif k == 1:
        v = np.round(v*4)+np.array([0, 0, 1.])*(np.abs(np.round(v*4)).sum() == 0)
    elif k == 2 and not point:
        v *= 10**c.uniform(-5, 5)
    elif k == 3:
        v[c.integers(0, 2)] = 0.
    if point and c.chance(.1):
        v[:] = 0.
    elif not v.any():
        v[0] = 1.
    return v


def angle(c):
    k = c.integers(0, 5)
    if k == 0:
        return c.integers(-8, 8)*np.pi/4
    if k == 1:
        return float(c.integers(-7, 7))
    if k == 2:
        return c.uniform(-1e-4, 1e-4)
    if k == 3:
        return c.uniform(-30, 30)
    return c.uniform(-np.pi, np.pi)


def dress(c, a, homogeneous=False):
    """The same values in another container; returns (container, kind)."""
    a = np.array(a, float)
    if homogeneous and a.shape == (3,) and c.chance(.3):
        a = np.r_[a, 1.]
    k = c.choice(["array", "array", "list", "tuple", "strided", "fortran", "readonly", "float32", "reversed", "swapped",
                  "unaligned", "some-axis", "some-axis", "fortran-some-axis"])
    if k == "list":
        return a.tolist(), k
    if k == "tuple":
        return tuple(map(tuple, a.tolist())) if a.ndim == 2 else tuple(a.tolist()), k
    if k == "strided":
        b = np.full(tuple(2*s for s in a.shape), 777.)
        b[tuple(slice(None, None, 2) for s in a.shape)] = a
        return b[tuple(slice(None, None, 2) for s in a.shape)], k
    if k == "fortran":
        return np.asfortranarray(a), k
    if k.endswith("some-axis") and a.ndim:
        i = c.integers(0, a.ndim-1)
        step = c.choice([2, 3])
        b = np.full(tuple(step*s if i == j else s for j, s in enumerate(a.shape)), 777.)
        if k.startswith("fortran"):
            b = np.asfortranarray(b)
        b = b[tuple(slice(None, None, step) if i == j else slice(None) for j in range(a.ndim))]
        b[...] = a
        return b, k
    if k == "swapped":
        return a.astype(">f8"), k
    if k == "unaligned":
        b = np.zeros(a.nbytes+1, np.uint8)[1:].view(float).reshape(a.shape)
        b[...] = a
        return b, k
    if k == "reversed":
        return a[..., ::-1].copy()[..., ::-1], k
    if k == "readonly":
        a.setflags(write=False)
        return a, k
    if k == "float32" and np.array_equal(a.astype(np.float32), a):
        return a.astype(np.float32), k
    if k == "float32" and np.array_equal(np.rint(a), a):
        return a.astype(int), "int"
    return a, "array"


def affine(c, cond=3.):
    u = c.rng.normal(size=(3, 3))
    u, s, v = np.linalg.svd(u)
    m = np.eye(4)
    m[:3, :3] = u@np.diag(np.exp(c.rng.uniform(-np.log(cond), np.log(cond), 3)))@v
    m[:3, 3] = c.rng.normal(size=3)*10
    return m


def rotation(c):
    m = np.eye(4)
    k = c.integers(0, 5)
    if k == 0:
        m[:3, :3] = np.eye(3)[:, c.choice(list(itertools.permutations(range(3))))]
        m[:3, :3] *= np.array([c.choice([-1., 1.]) for i in range(3)])
        if np.linalg.det(m[:3, :3]) < 0:
            m[:3, 0] *= -1
    elif k == 1:
        n = vec(c)
        n /= np.linalg.norm(n)
        m[:3, :3] = 2*np.outer(n, n)-np.eye(3)     # half turn
    elif k == 2:
        m[:3, :3] = Rotation.from_rotvec(c.rng.normal(size=3)*10**c.uniform(-9, -1)).as_matrix()
    else:
        m[:3, :3] = Rotation.from_quat(c.rng.normal(size=4)).as_matrix()
    return m


def quat(c, unit=True):
    k = c.integers(0, 4)
    q = c.rng.normal(size=4)
    if k == 0:
        q = np.zeros(4)
        q[c.integers(0, 3)] = c.choice([-1., 1.])
    elif k == 1:
        q[c.integers(0, 3)] = 0.
    if unit:
        q /= np.linalg.norm(q)
    return q


def orthogonal(c, v):
    w = np.cross(v, vec(c))
    while np.linalg.norm(w) < 1e-3*np.linalg.norm(v):
        w = np.cross(v, c.rng.normal(size=3))
    return w


def points(c, n, d=3):
    while True:
        a = c.rng.normal(size=(d, n))
        s = np.linalg.svd(a-a.mean(1, keepdims=True))[1]
        if s[d-1 if n > d else d-2] > .2*s[0]:
            break
    s = 10**c.uniform(-4, 4)
    return s*(a+c.rng.normal(size=(d, 1))*c.choice([1, 10]))


def frustum(c):
    f = np.array([c.uniform(-5, 0), 0, c.uniform(-5, 0), 0, 0, 0])
    f[1] = f[0]+c.logu(.1, 10)
    f[3] = f[2]+c.logu(.1, 10)
    p = c.chance(.5)
    f[4] = c.logu(.01, 10) if p else c.uniform(-5, 5)
    f[5] = f[4]+c.logu(.1, 10)
    return f, p


# name -> workload: (args, kwargs, dressable argument positions, tolerance scale)
def W_is_same_transform(c):
    a = affine(c)
    b = c.choice([a, a*c.choice([2., -3., .1]), a+np.eye(4)*1e-9, a+c.rng.normal(size=(4, 4)), affine(c)])
    return [a, b], {}


def W_translation_matrix(c):
    return [vec(c, point=True)], {}


def W_reflection_matrix(c):
    return [vec(c, point=True), vec(c)], {}


def W_rotation_matrix(c):
    return [angle(c), vec(c)] + ([vec(c, point=True)] if c.chance(.6) else []), {}


def W_scale_matrix(c):
    a = [c.choice([-1., 0., 1., c.uniform(-3, 3)])]
    k = c.integers(0, 3)
    if k & 1:
        a.append(vec(c, point=True))
    elif k == 2:
        a.append(None)
    if k >= 2:
        a.append(vec(c))
    return a, {}


def W_projection_matrix(c):
    k = c.integers(0, 3)
    p, n = vec(c, point=True), vec(c)
    if k == 0:
        return [p, n], {}
    if k == 1:
        d = vec(c)
        while abs(d@n) < .05*np.linalg.norm(d)*np.linalg.norm(n):
            d = c.rng.normal(size=3)
        return ([p, n, d], {}) if c.chance(.5) else ([p, n], {"direction": d})
    s = p+np.linalg.norm(p)*c.rng.normal(size=3)+n/np.linalg.norm(n)*c.choice([-3, 3])
    return [p, n], {"perspective": s, "pseudo": k == 3}


def W_clip_matrix(c):
    f, p = frustum(c)
    return list(f), {"perspective": p} if c.chance(.7) or p else {}


def W_shear_matrix(c):
    n = vec(c)
    return [c.uniform(-1.4, 1.4), orthogonal(c, n), vec(c, point=True), n], {}


def W_superimposition_matrix(c):
    n = c.choice([3, 4, 5, 10, 64])
    a = points(c, n)
    m = rotation(c)
    m[:3, 3] = c.rng.normal(size=3)*np.std(a)
    s = c.logu(.2, 5) if c.chance(.5) else 1.
    b = s*m[:3, :3]@a+m[:3, 3:]
    b += c.rng.normal(size=b.shape)*np.std(a)*c.choice([0, 1e-6, .02])
    return [a, b], {"scale": c.chance(.5), "usesvd": c.chance(.5)}


def W_orthogonalization_matrix(c):
    while True:
        g = c.rng.uniform(30, 150, 3)
        x = np.cos(np.radians(g))
        if 1-(x**2).sum()+2*x.prod() > .02:
            break
    if c.chance(.3):
        g = np.array([90., 90., c.uniform(40, 140)])
    return [c.rng.uniform(.5, 20, 3), g], {}


def axes_arg(c):
    a = c.choice(AXES)
    return c.choice([a, a, tf._AXES2TUPLE[a]])


def W_euler_matrix(c):
    a = [angle(c), angle(c), angle(c)]
    return a + ([axes_arg(c)] if c.chance(.9) else []), {}


def W_quaternion_from_euler(c):
    return W_euler_matrix(c)


def W_euler_from_matrix(c):
    return [rotation(c)] + ([axes_arg(c)] if c.chance(.9) else []), {}


def W_quaternion_about_axis(c):
    return [angle(c), vec(c)], {}


def W_quaternion_matrix(c):
    return [quat(c, c.chance(.7))*c.choice([1., 1., 7., -1])], {}


def W_quaternion_from_matrix(c):
    if c.chance(.5):
        return [rotation(c)], {}
    return [rotation(c)*c.choice([1., 1., 1., 4., .25])], {"isprecise": True}     # homogeneous: of any positive scale


def W_quaternion_multiply(c):
    return [quat(c, False), quat(c, False)], {}


def W_quaternion_conjugate(c):
    return [quat(c, False)], {}


def W_quaternion_inverse(c):
    return [quat(c, False)], {}


def W_quaternion_slerp(c):
    a, b = quat(c, c.chance(.8)), quat(c, c.chance(.8))
    if c.chance(.2):
        b = a+c.rng.normal(size=4)*1e-3
    while abs(abs(a@b)/np.linalg.norm(a)/np.linalg.norm(b)-1) < 1e-9 and c.chance(.9):
        b = c.rng.normal(size=4)
    kw = {}
    if c.chance(.4):
        kw["spin"] = c.integers(-1, 2)
    if c.chance(.4):
        kw["shortestpath"] = c.chance(.5)
    return [a, b, c.choice([0., 1., .5, 2., -.5, -1., c.uniform(0, 1), c.uniform(0, 1)])], kw


def W_random_quaternion(c):
    return [c.choice([c.rng.random(3), np.array([0., 0, 0]), np.array([.5, .25, .75])])], {}


def W_random_rotation_matrix(c):
    return W_random_quaternion(c)


def W_inverse_matrix(c):
    n = c.choice([1, 2, 3, 4, 4, 5, 6, 9])
    if n == 4 and c.chance(.5):
        return [affine(c)], {}
    u = np.linalg.qr(c.rng.normal(size=(n, n)))[0]
    v = np.linalg.qr(c.rng.normal(size=(n, n)))[0]
    m = u@np.diag(np.exp(c.rng.uniform(-2, 2, n)))@v
    if c.chance(.2):
        m = np.eye(n)[:, c.rng.permutation(n)]*c.rng.uniform(1, 2, n)     # zero diagonal: needs pivoting
    return [m*c.choice([1., 1., 10**c.uniform(-6, 6)])], {}


def W_arcball_map_to_sphere(c):
    return [c.rng.uniform(-200, 200, 2), c.rng.uniform(-100, 100, 2), c.logu(1, 300)], {}


def W_arcball_constrain_to_axis(c):
    a = vec(c)
    a = a/np.linalg.norm(a)
    p = c.rng.normal(size=3)
    p /= np.linalg.norm(p)
    if c.chance(.15):
        # on the axis itself: an exact one, so that the remainder is exactly zero
        a = np.roll([0., 0, 1], c.integers(0, 2))*c.choice([1., -1.])
        p = a*c.choice([1., -1.])
        if a[2]:
            a = p = np.array([0., 0, 1])
    elif c.chance(.4):
        p = p*c.logu(.1, 10)      # any point, not only of the unit sphere
    return [p, a], {}


def nd(c):
    s = c.choice([(3,), (1,), (5, 3), (3, 5), (2, 3, 4), (4, 1, 3), (2, 2, 2, 2)])
    return c.rng.normal(size=s)*10**c.uniform(-3, 3)


def W_vector_norm(c):
    a = nd(c)
    return [a], {"axis": c.integers(-a.ndim, a.ndim-1)} if a.ndim > 1 and c.chance(.7) else {}


def W_unit_vector(c):
    a = nd(c)
    return [a], {"axis": c.integers(-a.ndim, a.ndim-1)} if a.ndim > 1 and c.chance(.8) else {}


BOTH = sorted(k[2:] for k in dict(globals()) if k.startswith("W_"))
POINTS = {"translation_matrix": [0], "reflection_matrix": [0, 1], "rotation_matrix": [1, 2], "scale_matrix": [1, 2],
          "projection_matrix": [0, 1, 2], "shear_matrix": [1, 2, 3]}


@scenario("T01", quick=16000, thorough=200000)
def twins(c):
    name = BOTH[c.idx % len(BOTH)]
    args, kw = globals()["W_"+name](c)
    kinds = []
    for i, a in enumerate(args):
        if isinstance(a, np.ndarray):
            if name == "superimposition_matrix" and i == 0 and c.chance(.4):
                args[1] = np.vstack((args[1], np.ones((1, a.shape[1]))))
                a = np.vstack((a, np.ones((1, a.shape[1]))))
            args[i], k = dress(c, a, i in POINTS.get(name, []))
            kinds.append(k)
    for k, a in kw.items():
        if isinstance(a, np.ndarray):
            kw[k], kk = dress(c, a)
            kinds.append(kk)
    if c.chance(.3) and args:
        # the same arguments by name
        names = list(inspect.signature(impl(name, True)).parameters)
        n = c.integers(0, len(args)-1)
        kw = dict(kw, **dict(zip(names[n:], args[n:])))
        args = args[:n]
    c.note(function=name, args=args, kwargs=kw, containers=kinds)
    c.state(name, tuple(kinds), sorted(kw), np.round(np.asarray(args[0] if args else list(kw.values())[0], float).ravel()[:2], 3))
    keep = [np.array(a, copy=True) if isinstance(a, np.ndarray) else a for a in args]
    fast, slow = impl(name, False), impl(name, True)
    c.ok(inspect.isbuiltin(fast) and inspect.isfunction(slow), "both-implementations-loaded", function=name)
    g = fast(*args, **kw)
    for a, k in zip(args, keep):
        if isinstance(a, np.ndarray):
            c.same_array(a, k, "compiled-leaves-arguments-unchanged", function=name)
    pargs = [a if isinstance(a, str) or a is None or np.isscalar(a) or isinstance(a, tuple) and name.count("euler")
             else np.array(a, float) for a in args]
    pkw = {k: np.array(v, float) if isinstance(v, (list, np.ndarray)) or isinstance(v, tuple) and k != "axes" else v
           for k, v in kw.items()}
    pk = [np.array(a, copy=True) if isinstance(a, np.ndarray) else a for a in pargs]
    w = slow(*pargs, **pkw)
    for a, k in zip(pargs, pk):
        if isinstance(a, np.ndarray):
            c.same_array(a, k, "python-leaves-arguments-unchanged", function=name)
    if name == "is_same_transform":
        c.equal(bool(g), bool(w), "same-verdict")
        return
    g, w = np.array(g, float), np.array(w, float)
    tol = 1e-9
    scale = max(1e-300, float(np.abs(w).max())) if w.size else None
    if name == "projection_matrix":
        # homogeneous matrices: the same up to a factor
        g, w = g/np.linalg.norm(g), w/np.linalg.norm(w)
        g, scale = g*np.sign((g*w).sum()), 1.
    elif name == "quaternion_from_matrix":
        g, scale, tol = g*np.sign((g*w).sum() or 1.), 1., 1e-7
    elif name == "euler_from_matrix":
        ax = args[1:] or ([kw["axes"]] if "axes" in kw else [])
        g, w, scale, tol = tf._py_euler_matrix(*g, *ax), tf._py_euler_matrix(*w, *ax), 1., 1e-7
    elif name == "superimposition_matrix":
        tol = 1e-6
    elif name == "vector_norm":
        w = w.reshape(g.shape) if w.size == g.size else w
    elif name == "quaternion_slerp":
        tol = 1e-6
    c.close(g, w, "implementations-agree", rtol=tol, scale=scale, function=name)


@scenario("T01", quick=800, thorough=20000)
def outputs(c):
    """Optional outputs, in place and strided, of both implementations."""
    name = c.choice(["vector_norm", "unit_vector"])
    a = nd(c)
    while a.ndim < 2:
        a = nd(c)
    ax = c.integers(-a.ndim, a.ndim-1)
    want = np.sqrt((a*a).sum(ax))
    if name == "unit_vector":
        want = a/np.expand_dims(want, ax)
    lay = c.choice(["C", "F", "strided"])
    for py in (False, True):
        d = a.copy()
        if lay == "strided":
            buf = np.full(tuple(2*n for n in want.shape), 5.)
            o = buf[tuple(slice(None, None, 2) for n in want.shape)]
        else:
            o = np.full(want.shape, 5., order=lay)
        inplace = name == "unit_vector" and c.chance(.3)
        if inplace:
            o = d
        r = impl(name, py)(d, axis=ax, out=o)
        c.ok(r is None, "returns-none-with-output", function=name, py=py)
        c.close(o, want, "output-filled", rtol=1e-13, function=name, py=py, inplace=inplace)
        if not inplace:
            c.same_array(d, a, "data-unchanged", function=name, py=py)
            if lay == "strided":
                b2 = np.full_like(buf, 5.)
                b2[tuple(slice(None, None, 2) for n in want.shape)] = o
                c.same_array(buf, b2, "nothing-written-around-output", function=name, py=py)
        if name == "unit_vector" and a.ndim:
            # whole-array normalisation
            u = impl(name, py)(a.copy())
            c.close(u, a/np.sqrt((a*a).sum()), "normalises-all-elements", rtol=1e-13, py=py)
    c.note(function=name, data=a, axis=ax, layout=lay)
    c.state(name, a.shape, ax, lay, round(float(a.flat[0]), 4))


class Shares(object):
    """An array-like that hands out its own memory."""

    def __init__(self, a):
        self.a = a

    def __array__(self, dtype=None, copy=None):
        return self.a


@scenario("T01", quick=1500, thorough=40000)
def shared_memory(c):
    """Array-likes that share their memory give what arrays give, and keep their values."""
    while True:
        name = c.choice(BOTH+["inverse_matrix"]*4)
        args, kw = globals()["W_"+name](c)
        if name != "arcball_map_to_sphere" and any(isinstance(a, np.ndarray) and a.ndim for a in args):
            break
    keep = [np.array(a, copy=True) if isinstance(a, np.ndarray) else a for a in args]
    want = impl(name, False)(*[a.copy() if isinstance(a, np.ndarray) else a for a in keep], **kw)
    kinds = []
    for i, a in enumerate(args):
        if isinstance(a, np.ndarray) and a.ndim:
            a = args[i] = np.ascontiguousarray(a, float)
            kinds.append(c.choice(["memoryview", "interface"]))
            keep[i] = (a, a.copy())
            args[i] = memoryview(a) if kinds[-1] == "memoryview" else Shares(a)
    c.note(function=name, args=[k[1] if isinstance(k, tuple) and len(k) == 2 else k for k in keep], kwargs=kw, containers=kinds)
    c.state(name, tuple(kinds), sorted(kw), c.idx)
    got = impl(name, False)(*args, **kw)
    if name in ("random_quaternion", "random_rotation_matrix") and not args:
        return
    c.same_array(np.asarray(got), np.asarray(want), "as-for-an-array", function=name)
    for k in keep:
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], np.ndarray):
            c.same_array(k[0], k[1], "shared-memory-unchanged", function=name)


BAD = [
    ("shear_matrix", lambda c: [.3, [1., 0, 0], [0, 0, 0], [1., .5, 0]]),
    ("clip_matrix", lambda c: [1., 0., 0., 1., 1., 2.]),
    ("clip_matrix", lambda c: [0., 1., 1., 0., 1., 2.]),
    ("clip_matrix", lambda c: [0., 1., 0., 1., 2., 1.]),
    ("clip_matrix", lambda c: [0., 1., 0., 1., -1., 2., True]),
    ("superimposition_matrix", lambda c: [c.rng.normal(size=(3, 4)), c.rng.normal(size=(3, 5))]),
    ("superimposition_matrix", lambda c: [c.rng.normal(size=(3, 2)), c.rng.normal(size=(3, 2))]),
    ("inverse_matrix", lambda c: [np.zeros((c.integers(1, 6),)*2)]),
    ("inverse_matrix", lambda c: [c.rng.normal(size=(3, 4))]),
    ("euler_matrix", lambda c: [1., 2, 3, (0, 0, 0, 2)]),
    ("euler_matrix", lambda c: [1., 2, 3, (3, 0, 0, 0)]),
    ("euler_from_matrix", lambda c: [np.eye(4), (0, 2, 0, 0)]),
    ("quaternion_from_euler", lambda c: [1., 2, 3, "abcd"]),
    ("euler_matrix", lambda c: [1., 2, 3, "sxxy"]),
    ("vector_norm", lambda c: [c.rng.normal(size=(3, 4)), 2]),
    ("unit_vector", lambda c: [c.rng.normal(size=(3, 4)), -3]),
    ("unit_vector", lambda c: [c.rng.normal(size=(3, 4)), 0, np.zeros((4, 3))]),
    ("vector_norm", lambda c: [c.rng.normal(size=(3, 4)), 0, np.zeros(7)]),
    ("vector_norm", lambda c: [c.rng.normal(size=(3, 4)), 1, np.zeros(2)]),
    ("quaternion_multiply", lambda c: [[1., 2, 3], [1., 2, 3, 4]]),
    ("rotation_matrix", lambda c: [1., [1., 2.]]),
]


@scenario("T01", quick=200, thorough=2000)
def errors(c):
    """Arguments that both implementations refuse."""
    name, f = BAD[c.idx % len(BAD)]
    args = f(c)
    c.note(function=name, args=args)
    c.state(name, c.idx % len(BAD))
    for py in (False, True):
        c.raises((ValueError, KeyError, IndexError, TypeError), lambda: impl(name, py)(*args), "invalid-arguments-refused",
                 function=name, py=py, args=args)


# ---------------------------------------------------------------- T02

def elementary(ax, a):
    i = "xyz".index(ax)
    m = np.eye(3)
    j, k = (i+1) % 3, (i+2) % 3
    m[j, j] = m[k, k] = math.cos(a)
    m[k, j] = math.sin(a)
    m[j, k] = -math.sin(a)
    return m


def compose(ang, axes):
    ms = [elementary(x, a) for x, a in zip(axes[1:], ang)]
    if axes[0] == "s":
        ms = ms[::-1]
    return ms[0]@ms[1]@ms[2]


def quat_rot(q):
    w, x, y, z = np.asarray(q, float)/np.linalg.norm(q)
    return Rotation.from_quat([x, y, z, w]).as_matrix()


def h(r):
    m = np.eye(4)
    m[:3, :3] = r
    return m


@scenario("T02", quick=2400, thorough=100000)
def euler(c):
    axes = AXES[c.idx % 24]
    py = (c.idx//24) % 2 == 1
    rep = axes[1] == axes[3]
    ang = [angle(c), angle(c), angle(c)]
    k = c.integers(0, 4)
    lock = k == 0
    if lock:       # gimbal lock
        ang[1] = c.choice([0., np.pi, -np.pi] if rep else [np.pi/2, -np.pi/2, 3*np.pi/2])
    elif k == 1:   # near it
        ang[1] = (c.choice([0., np.pi]) if rep else c.choice([np.pi/2, -np.pi/2])) + c.choice([1, -1])*10**c.uniform(-7, -2)
    arg = c.choice([axes, tf._AXES2TUPLE[axes]])
    c.note(axes=axes, angles=ang, implementation="python" if py else "compiled")
    c.state(axes, py, lock, np.round(ang, 3))
    want = compose(ang, axes)
    m = impl("euler_matrix", py)(*ang, arg)
    c.close(m, h(want), "matrix-is-the-product-of-elementary-rotations", rtol=0, atol=1e-13, axes=axes)
    q = impl("quaternion_from_euler", py)(*ang, arg)
    c.close(np.linalg.norm(q), 1., "unit-quaternion", rtol=1e-13)
    c.close(quat_rot(q), want, "quaternion-is-the-same-rotation", rtol=0, atol=1e-13, axes=axes)
    dist = abs(math.sin(ang[1]) if rep else math.cos(ang[1]))
    tol = 1e-13+(2e-15/dist if dist > 1e-12 else 1e-14)
    # angles from an independently composed matrix, 3x3 part of a 4x4 one
    big = h(want)
    big[:3, 3] = c.rng.normal(size=3)
    a2 = impl("euler_from_matrix", py)(big, arg)
    c.equal(len(a2), 3, "three-angles")
    c.close(compose(a2, axes), want, "angles-describe-the-matrix", rtol=0, atol=tol, axes=axes)
    a3 = tf.euler_from_quaternion(q*c.choice([1., -1., 2.5]), arg)
    c.close(compose(a3, axes), want, "angles-describe-the-quaternion", rtol=0, atol=tol*10, axes=axes)
    # canonical ranges
    lo, hi = (0., np.pi) if rep else (-np.pi/2, np.pi/2)
    mid = a2[1]
    if not rep or tf._AXES2TUPLE[axes][1] == 0:
        c.ok(lo-1e-12 <= mid <= hi+1e-12, "middle-angle-in-range", axes=axes, got=mid)
    else:
        c.ok(-np.pi-1e-12 <= mid <= 1e-12, "middle-angle-in-range", axes=axes, got=mid)
    c.ok(all(abs(a) <= np.pi+1e-12 for a in a2), "angles-in-range", axes=axes, got=a2)


@scenario("T02", quick=2500, thorough=60000)
def quaternions(c):
    py = c.chance(.5)
    r = rotation(c)
    q = quat(c)
    ang, ax = angle(c), vec(c)
    c.note(rotation=r, quaternion=q, angle=ang, axis=ax, implementation="python" if py else "compiled")
    c.state(py, np.round(r.ravel()[:3], 3), np.round(q, 3))
    m = impl("quaternion_matrix", py)(q*c.choice([1., 1., 3., -.2]))
    c.close(m, h(quat_rot(q)), "quaternion-matrix", rtol=0, atol=1e-13)
    for precise in (False, True):
        for R, tol in ((r, 1e-6), (h(quat_rot(q)), 1e-6)):
            if precise:
                R = R*c.choice([1., 1., 1., 9., .04])      # homogeneous matrices have any scale
            g = impl("quaternion_from_matrix", py)(R, isprecise=precise)
            c.close(np.linalg.norm(g), 1., "unit-quaternion", rtol=1e-7)
            c.close(quat_rot(g), R[:3, :3]/R[3, 3], "quaternion-of-a-matrix", rtol=0, atol=tol, precise=precise)
            if py or not precise:
                c.ok(g[0] >= -1e-9, "real-part-not-negative", got=g)
    noisy = r.copy()
    noisy[:3, :3] += c.rng.normal(size=(3, 3))*1e-3
    g = impl("quaternion_from_matrix", py)(noisy)
    best = best_rotation(noisy[:3, :3])
    c.close(quat_rot(g), best, "closest-rotation-to-a-noisy-matrix", rtol=0, atol=1e-4)
    q1, q2 = quat(c), quat(c, False)
    p = impl("quaternion_multiply", py)(q2, q1)
    c.close(p, hamilton(q2, q1), "quaternion-product", rtol=1e-13, scale=1.)
    c.close(quat_rot(p), quat_rot(q2)@quat_rot(q1), "product-composes-rotations", rtol=0, atol=1e-12)
    cj = impl("quaternion_conjugate", py)(q2)
    c.same_array(cj, q2*[1, -1, -1, -1], "conjugate")
    inv = impl("quaternion_inverse", py)(q2)
    c.close(hamilton(q2, inv), [1., 0, 0, 0], "inverse", rtol=0, atol=1e-13)
    c.equal(tf.quaternion_real(q2), float(q2[0]), "real-part")
    c.same_array(tf.quaternion_imag(q2), q2[1:], "imaginary-part")
    n = ax/np.linalg.norm(ax)
    qa = impl("quaternion_about_axis", py)(ang, ax)
    c.close(qa, np.r_[math.cos(ang/2), math.sin(ang/2)*n], "quaternion-about-axis", rtol=0, atol=1e-13)
    ra = impl("rotation_matrix", py)(ang, ax)
    c.close(ra[:3, :3], quat_rot(qa), "axis-quaternion-is-axis-rotation", rtol=0, atol=1e-12)
    c.ok(tf.is_same_quaternion(q, q) and tf.is_same_quaternion(q, -q) and not tf.is_same_quaternion(q, hamilton(q, [.6, .8, 0, 0])),
         "same-quaternion")


def hamilton(a, b):
    w1, v1, w2, v2 = a[0], np.asarray(a[1:]), b[0], np.asarray(b[1:])
    return np.r_[w1*w2-v1@v2, w1*v2+w2*v1+np.cross(v1, v2)]


def best_rotation(m):
    u, s, v = np.linalg.svd(m)
    return u@np.diag([1, 1, np.linalg.det(u@v)])@v


@scenario("T02", quick=100, thorough=3000)
def slerp_between_equals(c):
    """Nothing lies between a rotation and itself; a zero quaternion is no rotation."""
    py = c.chance(.5)
    a = quat(c)
    s = c.choice([1, 1, -1])
    f = c.choice([0., 1., .5, 2., -.5, c.uniform(0, 1)])
    spin = c.choice([0, 0, 1, -1])
    c.note(q0=a, sign=s, fraction=f, spin=spin, implementation="python" if py else "compiled")
    c.state(py, s, f, spin, np.round(a, 3).tolist())
    g = impl("quaternion_slerp", py)(a*c.choice([1., 3.]), s*a*c.choice([1., .5]), f, spin, c.choice([True, False]))
    c.close(quat_rot(np.asarray(g)/np.linalg.norm(g)), quat_rot(a), "equal-rotations", rtol=0, atol=1e-6)
    c.close(np.linalg.norm(g), 1., "slerp-stays-unit", rtol=1e-7)
    c.close(impl("quaternion_matrix", py)(np.zeros(4)), np.eye(4), "no-rotation", rtol=0, atol=0)


@scenario("T02", quick=800, thorough=30000)
def slerp(c):
    py = c.chance(.5)
    a = quat(c)
    th = c.choice([c.uniform(.05, 1.5), c.uniform(1.62, 3.0), 1e-4])
    b = orth4(c, a)
    b = math.cos(th)*a+math.sin(th)*b
    f = c.choice([0., 1., .5, .25, 2., -.5, c.uniform(0, 1), c.uniform(0, 1)])
    spin, short = c.choice([0, 0, 0, 1, -1, 2]), c.choice([True, True, False])
    c.note(q0=a, q1=b, fraction=f, spin=spin, shortest=short, implementation="python" if py else "compiled")
    c.state(py, round(th, 3), f, spin, short)
    a_, b_ = a*c.choice([1., 3.]), b*c.choice([1., .5])
    g = impl("quaternion_slerp", py)(a_, b_, f, spin, short)
    t, e = th, b
    if short and th > np.pi/2:
        t, e = np.pi-th, -b
    if f == 0.:
        want = a
    elif f == 1.:
        want = b
    else:
        # unit-speed motion in the plane of both quaternions
        w = (e-math.cos(t)*a)/math.sin(t)
        t2 = t+spin*np.pi
        s = math.sin(t)/math.sin(t2)
        d = math.sin((1-f)*t2)/math.sin(t2)
        want = d*a+math.sin(f*t2)/math.sin(t2)*e
        if spin == 0:
            c.close(want, math.cos(f*t)*a+math.sin(f*t)*w, "interpolates-at-constant-rate", rtol=0, atol=1e-8)
    c.close(g, want, "slerp", rtol=1e-6, scale=max(1., float(np.abs(want).max())))
    if spin == 0:
        c.close(np.linalg.norm(g), 1., "slerp-stays-unit", rtol=1e-7)


def orth4(c, a):
    b = c.rng.normal(size=4)
    b -= a*(a@b)
    return b/np.linalg.norm(b)


@scenario("T02", quick=40, thorough=400)
def random_rotations(c):
    """Without arguments: unit quaternions and proper rotations, uniformly distributed."""
    py = c.chance(.5)
    n = 1500
    qs, rs = np.zeros((n, 4)), np.zeros((n, 3, 3))
    for i in range(n):
        qs[i] = impl("random_quaternion", py)()
        rs[i] = impl("random_rotation_matrix", py)()[:3, :3]
    c.note(n=n, implementation="python" if py else "compiled")
    c.state(py, c.idx)
    c.close(np.linalg.norm(qs, axis=1), np.ones(n), "unit-quaternion", rtol=1e-12)
    c.close(np.einsum("nij,nkj->nik", rs, rs), np.broadcast_to(np.eye(3), rs.shape), "orthonormal", rtol=0, atol=1e-12)
    c.close(np.linalg.det(rs), np.ones(n), "proper", rtol=1e-12)
    for what, x, var in (("quaternions", qs, .25), ("matrices", rs.reshape(n, 9), 1/3.)):
        c.close(x.mean(0), np.zeros(x.shape[1]), "no-preferred-direction", rtol=0, atol=8*math.sqrt(var/n), of=what)
        c.close((x*x).mean(0), np.full(x.shape[1], var), "isotropic-second-moments", rtol=0, atol=8*math.sqrt(.1/n), of=what)
    v = impl("random_vector", py)(1000)
    c.ok(v.shape == (1000,) and v.min() >= 0 and v.max() < 1 and abs(v.mean()-.5) < .08, "random-vector-in-unit-interval")
    c.ok(len(set(v.tolist())) > 990, "random-vector-varies")


# ---------------------------------------------------------------- T03

def apply(m, p):
    """Map points (n, 3) with a homogeneous matrix."""
    x = np.c_[p, np.ones(len(p))]@np.asarray(m).T
    return x[:, :3]/x[:, 3:]


@scenario("T03", quick=6400, thorough=100000)
def constructors(c):
    py = c.chance(.5)
    kind = ["translation", "reflection", "rotation", "scale", "projection", "shear", "clip", "orthogonalization"][c.idx % 8]
    x = c.rng.normal(size=(6, 3))*3
    p, n = vec(c, point=True), vec(c)
    nn = n/np.linalg.norm(n)
    big = 1+np.linalg.norm(p)
    tol = 1e-10
    c.note(kind=kind, point=p, normal=n, implementation="python" if py else "compiled")
    c.state(kind, py, np.round(p, 3), np.round(n, 3))
    if kind == "translation":
        m = impl("translation_matrix", py)(p)
        c.close(apply(m, x), x+p, "translates", rtol=1e-13, scale=big)
        c.close(tf.translation_from_matrix(m), p, "translation-from-matrix", rtol=0, atol=0)
    elif kind == "reflection":
        m = impl("reflection_matrix", py)(p, n)
        want = x-2*((x-p)@nn)[:, None]*nn
        c.close(apply(m, x), want, "mirrors-at-the-plane", rtol=tol, scale=big)
        m2 = impl("reflection_matrix", py)(*tf.reflection_from_matrix(m))
        c.close(apply(m2, x), want, "reflection-from-matrix", rtol=1e-6, scale=big)
    elif kind == "rotation":
        a = angle(c)
        pt = p if c.chance(.7) else None
        o = np.zeros(3) if pt is None else p
        m = impl("rotation_matrix", py)(a, n, pt) if pt is not None else impl("rotation_matrix", py)(a, n)
        y = x-o
        par = (y@nn)[:, None]*nn
        want = o+par+math.cos(a)*(y-par)+math.sin(a)*np.cross(nn, y)
        c.close(apply(m, x), want, "rotates-about-the-axis", rtol=tol, scale=big)
        if abs(math.sin(a/2)) > 1e-3:
            a2, d2, p2 = tf.rotation_from_matrix(m)
            c.close(apply(impl("rotation_matrix", py)(a2, d2, p2), x), want, "rotation-from-matrix", rtol=1e-5, scale=big)
    elif kind == "scale":
        f = c.choice([-1., 2., .5, c.uniform(-3, 3)])
        dr = n if c.chance(.5) else None
        org = p if c.chance(.7) else None
        o = np.zeros(3) if org is None else p
        m = impl("scale_matrix", py)(f, org, dr)
        y = x-o
        want = o+(f*y if dr is None else y+(f-1)*(y@nn)[:, None]*nn)
        c.close(apply(m, x), want, "scales-about-the-origin", rtol=tol, scale=big)
        if abs(f-1) > 1e-2 and abs(f) > 1e-2 and abs(f-.5) > 1e-2 and abs(f-2) > 1e-2:
            f2, o2, d2 = tf.scale_from_matrix(m)
            c.close(apply(impl("scale_matrix", py)(f2, o2, d2), x), want, "scale-from-matrix", rtol=1e-5, scale=big)
    elif kind == "projection":
        projection(c, py, x, p, n, nn, big)
    elif kind == "shear":
        d = orthogonal(c, n)
        a = c.uniform(-1.3, 1.3)
        m = impl("shear_matrix", py)(a, d, p, n)
        want = x+math.tan(a)*((x-p)@nn)[:, None]*d/np.linalg.norm(d)
        c.close(apply(m, x), want, "shears-along-the-plane", rtol=1e-9, scale=big)
        if abs(a) > 1e-3:
            m2 = impl("shear_matrix", py)(*tf.shear_from_matrix(m))
            c.close(apply(m2, x), want, "shear-from-matrix", rtol=1e-8, scale=big)
    elif kind == "clip":
        f, per = frustum(c)
        m = impl("clip_matrix", py)(*f, per)
        for ix, iy, iz in itertools.product((0, 1), (0, 1), (0, 1)):
            z = f[4+iz]
            r = z/f[4] if per else 1.
            q = apply(m, np.array([[f[ix]*r, f[2+iy]*r, z]]))[0]
            c.close(q, np.array([ix, iy, iz])*2.-1, "frustum-corners-become-the-cube", rtol=0, atol=1e-10*(1+(abs(f[5])+abs(f[4]))/(f[5]-f[4])+100))
    else:
        ln, ang = W_orthogonalization_matrix(c)[0]
        m = impl("orthogonalization_matrix", py)(ln, ang)
        e = m[:3, :3]
        c.close(np.linalg.norm(e, axis=0), ln, "cell-lengths", rtol=1e-9)
        for i in range(3):
            j, k = (i+1) % 3, (i+2) % 3
            c.close(e[:, j]@e[:, k]/ln[j]/ln[k], math.cos(math.radians(ang[i])), "cell-angles", rtol=0, atol=1e-9)
        c.same_array(m[3], [0., 0, 0, 1], "affine-bottom-row")
        c.same_array(m[:3, 3], np.zeros(3), "no-translation")


def projection(c, py, x, p, n, nn, big):
    mode = c.integers(0, 2)
    pm = impl("projection_matrix", py)
    if mode == 0:
        m = pm(p, n)
        want = x-((x-p)@nn)[:, None]*nn
        c.close(apply(m, x), want, "projects-onto-the-plane", rtol=1e-9, scale=big)
        back = tf.projection_from_matrix(m)
        c.close(apply(pm(*back), x), want, "projection-from-matrix", rtol=1e-5, scale=big)
    elif mode == 1:
        d = c.rng.normal(size=3)
        while abs(d@nn) < .2*np.linalg.norm(d):
            d = c.rng.normal(size=3)
        m = pm(p, n, d)
        want = x-((x-p)@nn/(d@nn))[:, None]*d
        c.close(apply(m, x), want, "projects-along-the-direction", rtol=1e-9, scale=big)
        back = tf.projection_from_matrix(m)
        c.close(apply(pm(*back), x), want, "projection-from-matrix", rtol=1e-5, scale=big)
    else:
        s = p+nn*c.choice([-4., 4.])+c.rng.normal(size=3)
        x = x[np.abs((x-s)@nn) > .3]
        if not len(x):
            return
        m = pm(p, n, perspective=s)
        t = ((p-s)@nn)/((x-s)@nn)
        want = s+t[:, None]*(x-s)
        c.close(apply(m, x), want, "projects-towards-the-perspective-point", rtol=1e-8, scale=big*10)
        ps = pm(p, n, perspective=s, pseudo=True)
        c.close(apply(pm(p, n)@ps, x), want, "pseudo-perspective-keeps-the-projection", rtol=1e-8, scale=big*10)
        z = (apply(ps, x)-p)@nn
        dep = (x-p)@nn
        side = np.sign((x-s)@nn) == np.sign((p-s)@nn)
        if side.sum() > 1:
            o = np.argsort(dep[side])
            zz = z[side][o]
            c.ok(np.all(np.diff(zz) > -1e-9) or np.all(np.diff(zz) < 1e-9), "pseudo-perspective-keeps-depth-order", depth=zz)
        for mm, pseudo in ((m, False), (ps, True)):
            back = tf.projection_from_matrix(mm*c.choice([1., 1., 2.5]), pseudo)
            c.ok(back[3] is not None and back[4] == pseudo, "perspective-recognised")
            w2 = pm(back[0], back[1], back[2], back[3], back[4])
            c.close(apply(w2, x), apply(mm, x), "projection-from-matrix", rtol=1e-5, scale=big*10)


@scenario("T03", quick=1500, thorough=30000)
def decompose(c):
    """compose_matrix of chosen parts is their product; decompose_matrix gives parts of the same matrix."""
    s = np.exp(c.rng.uniform(-1.5, 1.5, 3))*(c.rng.choice([-1., 1.], 3) if c.chance(.4) else 1.)
    sh = c.rng.normal(size=3)
    an = c.rng.uniform(-np.pi, np.pi, 3)
    if c.chance(.15):
        an[1] = c.choice([np.pi/2, -np.pi/2])
    t = c.rng.normal(size=3)*10
    pe = np.r_[c.rng.normal(size=3)*.01, 1.] if c.chance(.4) else None
    use = [c.chance(.8) for i in range(4)]
    kw = {}
    S, Z, R, T, P = (np.eye(4) for i in range(5))
    if use[0]:
        kw["scale"] = s
        S[range(3), range(3)] = s
    if use[1]:
        kw["shear"] = sh
        Z[0, 1], Z[0, 2], Z[1, 2] = sh
    if use[2]:
        kw["angles"] = an
        R = h(compose(an, "sxyz"))
    if use[3]:
        kw["translate"] = t
        T[:3, 3] = t
    if pe is not None:
        kw["perspective"] = pe
        P[3] = pe
    c.note(**{k: np.asarray(v) for k, v in kw.items()})
    c.state(sorted(kw), np.round(s, 3))
    M = P@T@R@Z@S
    if abs(M[3, 3]) < .1:
        return
    M /= M[3, 3]
    m = tf.compose_matrix(**kw)
    c.close(m, M, "composes-in-the-documented-order", rtol=1e-12, scale=np.abs(M).max())
    keep = M.copy()
    d = tf.decompose_matrix(M)
    c.same_array(M, keep, "matrix-unchanged")
    c.equal(len(d), 5, "five-parts")
    lock = use[2] and abs(math.cos(an[1])) < 1e-7
    c.close(tf.compose_matrix(*d), M, "decomposition-recomposes", rtol=1e-6 if lock else 1e-9, scale=np.abs(M).max())
    if pe is None:
        c.close(d[4], [0, 0, 0, 1.], "no-perspective", rtol=0, atol=1e-12)
        c.close(d[3], M[:3, 3], "translation-part", rtol=1e-13)
        if np.all(s > 0) and use[0]:
            c.close(d[0], s, "scale-part", rtol=1e-8)
        if (np.all(s > 0) or not use[0]):
            c.close(d[1], sh if use[1] else np.zeros(3), "shear-part", rtol=1e-8, scale=10.)
            c.close(compose(d[2], "sxyz"), R[:3, :3], "rotation-part", rtol=0, atol=1e-6 if lock else 1e-9)


@scenario("T03", quick=1200, thorough=20000)
def registration(c):
    nd_ = c.choice([2, 3, 3, 3, 4])
    n = nd_+c.choice(gen.big([1, 2, 8], [60, 500, 3000]))
    a = points(c, n, nd_)
    r = np.linalg.qr(c.rng.normal(size=(nd_, nd_)))[0]
    r[:, 0] *= np.sign(np.linalg.det(r))
    t = c.rng.normal(size=(nd_, 1))*np.std(a)
    mode = c.choice(["affine", "similarity", "rigid"])
    usesvd = c.chance(.6)
    if mode == "affine":
        u, s, v = np.linalg.svd(c.rng.normal(size=(nd_, nd_)))
        L = u@np.diag(np.exp(c.rng.uniform(-1, 1, nd_)))@v
    else:
        L = r*(c.logu(.2, 5) if mode == "similarity" else 1.)
    b = L@a+t
    c.note(ndim=nd_, n=n, mode=mode, usesvd=usesvd)
    c.state(nd_, n, mode, usesvd, round(float(L[0, 0]), 4))
    ka, kb = a.copy(), b.copy()
    m = tf.affine_matrix_from_points(a, b, shear=mode == "affine", scale=mode != "rigid", usesvd=usesvd)
    c.same_array(a, ka, "points-unchanged")
    c.same_array(b, kb, "points-unchanged")
    want = np.eye(nd_+1)
    want[:nd_, :nd_], want[:nd_, nd_:] = L, t
    sc = np.abs(want).max()+np.abs(a).max()*np.abs(L).max()
    c.close(m, want, "recovers-the-transformation", rtol=1e-6, scale=sc)
    if mode != "affine":
        reflected(c, a, L, t, mode, usesvd, nd_, n)
    if nd_ != 3 or mode == "affine":
        return
    for py in (False, True):
        hom = c.chance(.3)
        aa, bb = (np.vstack((x, np.ones((1, n)))) if hom else x for x in (a, b))
        m = impl("superimposition_matrix", py)(aa, bb, scale=mode == "similarity", usesvd=usesvd)
        c.close(m, want, "superimposes", rtol=1e-6, scale=sc, py=py)
    # noisy points: the best rotation
    noise = c.rng.normal(size=b.shape)*.02*np.std(b)
    bn = b+noise
    a0, b0 = a-a.mean(1, keepdims=True), bn-bn.mean(1, keepdims=True)
    best = best_rotation(b0@a0.T)
    f = math.sqrt((b0**2).sum()/(a0**2).sum()) if mode == "similarity" else 1.
    for py in (False, True):
        m = impl("superimposition_matrix", py)(a, bn, scale=mode == "similarity", usesvd=usesvd)
        c.close(m[:3, :3], f*best, "least-squares-rotation", rtol=0, atol=1e-6*f, py=py)
        c.close(apply(m, a.T).mean(0), bn.mean(1), "centroids-coincide", rtol=1e-9, scale=np.abs(bn).max(), py=py)


def reflected(c, a, L, t, mode, usesvd, nd_, n):
    """Mirrored and perturbed points: the best rotation (not reflection) is found."""
    f = np.eye(nd_)
    a = a-a.mean(1, keepdims=True)
    k = c.integers(0, nd_-1)
    f[k, k] = -1.
    b = L@f@a+t+c.rng.normal(size=a.shape)*.02*np.std(a)
    b0 = b-b.mean(1, keepdims=True)
    u, s, v = np.linalg.svd(b0@a.T)
    if s[-2]-s[-1] < .05*s[0]:
        return          # the best rotation is not unique
    c.count("reflected")
    sg = np.ones(nd_)
    sg[-1] = np.linalg.det(u@v)
    best = u@np.diag(sg)@v
    g = math.sqrt((b0**2).sum()/(a**2).sum()) if mode == "similarity" else 1.
    c.close(tf.affine_matrix_from_points(a, b, shear=False, scale=mode == "similarity", usesvd=usesvd)[:-1, :-1], g*best,
            "best-rotation-of-mirrored-points", rtol=1e-6, scale=g)
    if nd_ == 3:
        for py in (False, True):
            m = impl("superimposition_matrix", py)(a, b, scale=mode == "similarity", usesvd=usesvd)
            c.close(m[:3, :3], g*best, "best-rotation-of-mirrored-points", rtol=0, atol=1e-5*g, py=py)


@scenario("T03", quick=1200, thorough=20000)
def vectors(c):
    s = c.choice([(3,), (3, 5), (3, 2, 2)])
    a, b = c.rng.normal(size=s), c.rng.normal(size=s)
    k = c.integers(0, 4)
    if k == 0:
        b = a*c.choice([1., -1., 2.5, -.3])
    axis = 0
    if c.chance(.4) and len(s) > 1:
        a, b, axis = np.moveaxis(a, 0, -1), np.moveaxis(b, 0, -1), -1
    c.note(v0=a, v1=b, axis=axis)
    c.state(s, axis, k, round(float(a.flat[0]), 4))
    x = tf.vector_product(a, b, axis)
    c.close((x*a).sum(axis), np.zeros_like(x.sum(axis)), "product-is-perpendicular", rtol=0, atol=1e-12)
    c.close((x*b).sum(axis), np.zeros_like(x.sum(axis)), "product-is-perpendicular", rtol=0, atol=1e-12)
    na, nb = np.sqrt((a*a).sum(axis)), np.sqrt((b*b).sum(axis))
    nx = np.sqrt((x*x).sum(axis))
    want = np.arctan2(nx, (a*b).sum(axis))
    for d in (True, False):
        g = tf.angle_between_vectors(a, b, directed=d, axis=axis)
        w = want if d else np.minimum(want, np.pi-want)
        c.close(np.cos(g), np.cos(w), "angle-between-vectors", rtol=0, atol=1e-12, directed=d)
        c.ok(np.all(np.asarray(g) >= 0) and np.all(np.asarray(g) <= (np.pi if d else np.pi/2)+1e-7), "angle-range")
    c.close(nx, na*nb*np.sin(want), "product-length", rtol=1e-9, atol=1e-12)
    ms = [affine(c) for i in range(c.integers(0, 4))]
    m = tf.concatenate_matrices(*ms)
    w = np.eye(4)
    for q in ms:
        w = w@q
    c.close(m, w, "concatenates-in-order", rtol=1e-12, scale=np.abs(w).max())
    ms = [q*c.choice([1., 1., 10**c.uniform(-6, 6)]) for q in ms]
    for q in ms:
        c.ok(tf.is_same_transform(q, q*c.choice([-2., .5, 3.])), "same-transform-up-to-a-factor")
        d = q.copy()
        d[c.integers(0, 3), c.integers(0, 2)] += .5*np.abs(q).max()
        c.ok(not tf.is_same_transform(q, d), "different-transform")
        for py in (False, True):
            inv = impl("inverse_matrix", py)(q)
            c.close(q@inv, np.eye(4), "inverse", rtol=0, atol=1e-9*np.abs(q).max()*np.abs(inv).max(), py=py)
    c.same_array(tf.identity_matrix(), np.eye(4), "identity")
    n = c.integers(1, 9)
    sq = c.rng.normal(size=(n, n))*c.choice([1., 10**c.uniform(-6, 6)])
    for py in (False, True):
        inv = impl("inverse_matrix", py)(sq)
        c.close(sq@inv, np.eye(n), "inverse", rtol=0, atol=1e-12*np.abs(sq).max()*np.abs(inv).max()*n)


@scenario("T03", quick=300, thorough=10000)
def eigen(c):
    """Compiled helpers for symmetric 4x4 matrices."""
    a = c.rng.normal(size=(4, 4))
    a = a+a.T
    k = c.integers(0, 4)
    if k == 0:
        q = np.linalg.qr(c.rng.normal(size=(4, 4)))[0]
        a = q@np.diag([3., -1, -1, .5])@q.T
    c.note(matrix=a)
    c.state(k, round(float(a[0, 0]), 5))
    w, v = np.linalg.eigh(a)
    keep = a.copy()
    d, s = _transformations._tridiagonalize_symmetric_44(a)
    c.same_array(a, keep, "matrix-unchanged")
    t = np.diag(d)+np.diag(s, 1)+np.diag(s, -1)
    c.close(np.linalg.eigvalsh(t), w, "tridiagonal-form-keeps-eigenvalues", rtol=0, atol=1e-10)
    l = _transformations._max_eigenvalue_of_tridiag_44(d, s)
    c.close(l, w[-1], "largest-eigenvalue", rtol=0, atol=1e-9)


@scenario("T03", quick=200, thorough=5000)
def refusals(c):
    """Matrices that are not of the kind asked for are refused, not decomposed into something."""
    k = c.idx % 3
    d, p = vec(c), c.rng.normal(size=3)
    ang = c.uniform(.3, 2.8)*c.choice([1, -1])
    f = c.choice([-1, 1])*c.uniform(1.5, 4)
    scale = np.eye(4)*f
    scale[3, 3] = 1
    rot = tf.rotation_matrix(ang, d, p)
    c.note(kind=k, angle=ang, axis=d, point=p, factor=f)
    c.state(k, round(ang, 3), round(f, 3))
    # what must not pass as a ...
    if k == 0:
        bad = c.choice([rot, scale, np.eye(4)])
        c.raises(ValueError, lambda: tf.reflection_from_matrix(bad), "not-a-reflection", matrix=bad)
    elif k == 1:
        c.raises(ValueError, lambda: tf.rotation_from_matrix(scale), "not-a-rotation", matrix=scale)
    else:
        m = rot.copy()
        if c.chance(.5):
            m[3, 3] = 0
        else:
            m[:3, c.integers(0, 2)] = 0
        c.raises(ValueError, lambda: tf.decompose_matrix(m), "singular", matrix=m)


@scenario("T03", quick=300, thorough=10000)
def arcball(c):
    center, rad = c.rng.uniform(-100, 100, 2), c.logu(10, 400)
    q0 = quat(c)
    init = c.choice([None, "q", "m"])
    ball = tf.Arcball(None if init is None else q0*2 if init == "q" else h(quat_rot(q0)))
    ball.place(center, rad)
    now = np.eye(3) if init is None else quat_rot(q0)
    c.close(ball.matrix()[:3, :3], now, "starts-at-the-initial-rotation", rtol=0, atol=1e-7)
    axes = None
    lifted = c.chance(.15)
    if lifted:
        # no axes: nothing to constrain to, whatever was set before
        if c.chance(.7):
            ball.setaxes(*[vec(c) for i in range(c.integers(1, 3))])
        ball.constrain = True
        ball.setaxes()
    elif c.chance(.5):
        axes = [vec(c) for i in range(c.integers(1, 3))]
        ball.setaxes(*axes)
        ball.constrain = True
        c.ok(ball.constrain is True, "constrain-state")
        axes = [x/np.linalg.norm(x) for x in axes]
    c.note(center=center, radius=rad, init=init, axes=axes, lifted=lifted)
    c.state(init, axes is not None, lifted, round(rad, 2))

    def sphere(p):
        x, y = (p[0]-center[0])/rad, (center[1]-p[1])/rad
        n = x*x+y*y
        return np.array([x, y, math.sqrt(1-n)]) if n <= 1 else np.array([x, y, 0])/math.sqrt(n)

    def onaxis(v, a):
        u = v-a*(a@v)
        n = np.linalg.norm(u)
        if n < 1e-9:
            return None
        u /= n
        return -u if u[2] < 0 else u

    for k in range(c.integers(1, 3)):
        p0 = center+c.rng.uniform(-1.3, 1.3, 2)*rad
        g0 = sphere(p0)
        for py in (False, True):
            c.close(impl("arcball_map_to_sphere", py)(p0, center, rad), g0, "maps-to-the-unit-sphere", rtol=0, atol=1e-12)
        ax = None
        if axes is not None:
            con = [onaxis(g0, a) for a in axes]
            if any(x is None for x in con):
                return
            sc = np.array([x@g0 for x in con])
            if len(sc) > 1 and np.diff(np.sort(sc)).min() < 1e-9:
                return
            i = int(np.argmax(sc))
            near = tf.arcball_nearest_axis(g0, axes)
            c.close(near, axes[i], "nearest-axis", rtol=0, atol=1e-12)
            for py in (False, True):
                c.close(impl("arcball_constrain_to_axis", py)(g0, axes[i]), con[i], "constrained-to-the-axis", rtol=0, atol=1e-9)
                far = c.rng.normal(size=3)*c.logu(.1, 10)
                if onaxis(far, axes[i]) is not None:
                    c.close(impl("arcball_constrain_to_axis", py)(far, axes[i]), onaxis(far, axes[i]), "constrained-to-the-axis",
                            rtol=0, atol=1e-6)
            ax, g0 = axes[i], con[i]
        ball.down(p0)
        c.close(ball.matrix()[:3, :3], now, "pressing-does-not-rotate", rtol=0, atol=1e-7)
        start = pre = now
        for j in range(c.integers(1, 4)):
            p1 = center+c.rng.uniform(-1.3, 1.3, 2)*rad
            if c.chance(.2):
                ball.drag(p0)
                c.close(ball.matrix()[:3, :3], start, "dragging-back-undoes-the-rotation", rtol=0, atol=1e-6)
                now = start
                continue
            g1 = sphere(p1)
            if ax is not None:
                g1 = onaxis(g1, ax)
                if g1 is None:
                    return
            ball.drag(p1)
            x = np.cross(g0, g1)
            if (x@x) < 1e-10 or np.linalg.norm(g0-g1) < 1e-3 or np.linalg.norm(g0+g1) < 1e-3:
                return
            pre, now = now, quat_rot(np.r_[g0@g1, x])@start
            m = ball.matrix()
            c.close(m[:3, :3], now, "drag-rotates-by-twice-the-arc", rtol=0, atol=1e-6)
            if ax is not None:
                rel = now@start.T
                c.close(rel@ax, ax, "constrained-drag-keeps-the-axis", rtol=0, atol=1e-6)
            if c.chance(.3):
                spin_on(c, ball, pre, now)
                return


def spin_on(c, ball, pre, now):
    """next() continues the last drag at its rate, again and again."""
    step = Rotation.from_matrix(now@pre.T)
    if not 1e-3 < step.magnitude() < 3.1:
        return
    acc = c.choice([0., 0., .5, -.5])
    c.count("spin-on")
    for i in range(c.integers(1, 4)):
        ball.next(acc) if acc else ball.next()
        s = Rotation.from_rotvec(step.as_rotvec()*(1+acc))
        pre, now = now, s.as_matrix()@now
        c.close(ball.matrix()[:3, :3], now, "next-continues-the-rotation", rtol=0, atol=1e-5)
        step = s
        if step.magnitude() > 3.1 or step.magnitude() < 1e-3:
            return
