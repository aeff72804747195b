"""T04: the compiled modules under AddressSanitizer and UndefinedBehaviorSanitizer.

The tree is rebuilt with both sanitizers, every allocation of the interpreter goes through malloc (so
that the sanitizer sees it, with fresh memory filled with 0xff bytes, i.e. NaN), and any report ends
the process, which the driver turns into a violation.  Inside, monitors watch reference counts and the
number of allocated bytes.
"""
import ctypes
import gc
import inspect
import os
import sys

import numpy as np

from ..core import scenario

IN_WORKER = "VERIF_SANITIZED" in os.environ
if IN_WORKER:
    from electrode import _transformations as C, cexpressions as X, transformations as tf
    from . import electro2, electrostatics, trafo


# ------------------------------------------------------------ valid workloads
# The scenarios of other properties, with their monitors, in the sanitized build.
if IN_WORKER:
    for fn, q, t in (
            (trafo.twins, 3000, 60000), (trafo.outputs, 240, 6000), (trafo.errors, 210, 2000),
            (trafo.euler, 240, 6000), (trafo.quaternions, 240, 6000), (trafo.registration, 120, 3000),
            (trafo.vectors, 160, 3000), (trafo.eigen, 80, 2000), (trafo.arcball, 80, 2000),
            (trafo.random_rotations, 16, 100),
            (electrostatics.polygon_vs_solid_angle, 40, 2000), (electrostatics.point_pixels_vs_series, 40, 2000),
            (electrostatics.image_sum, 32, 1000), (electro2.batch_and_layout, 32, 1000),
            (electro2.accumulate_into_out, 64, 2000), (electro2.kernels_agree, 48, 2000),
            (electro2.mesh_from_system, 32, 1000), (electro2.mesh_by_hand, 32, 1000)):
        scenario("T04", quick=q, thorough=t)(fn)


# ------------------------------------------------------------ malformed arguments
FUNCS = ["is_same_transform", "identity_matrix", "translation_matrix", "reflection_matrix", "rotation_matrix",
         "scale_matrix", "projection_matrix", "clip_matrix", "shear_matrix", "superimposition_matrix",
         "orthogonalization_matrix", "euler_matrix", "euler_from_matrix", "quaternion_from_euler",
         "quaternion_about_axis", "quaternion_multiply", "quaternion_matrix", "quaternion_from_matrix",
         "quaternion_conjugate", "quaternion_inverse", "quaternion_slerp", "random_quaternion",
         "random_rotation_matrix", "arcball_map_to_sphere", "arcball_constrain_to_axis", "vector_norm",
         "unit_vector", "random_vector", "inverse_matrix"]


class Odd(object):
    """Answers to the sequence, number and array protocols with errors or nonsense."""
    def __init__(self, k):
        self.k = k

    def __len__(self):
        if self.k == 0:
            raise RuntimeError("length")
        return [0, 4, 3, 2][self.k % 4]

    def __getitem__(self, i):
        if self.k < 3 or i > 5:
            raise IndexError("item")
        return [1., "x", None, 3.][(i+self.k) % 4]

    def __float__(self):
        if self.k % 2:
            raise ZeroDivisionError("float")
        return 2.

    def __index__(self):
        raise ValueError("index")

    def __bool__(self):
        if self.k == 2:
            raise ArithmeticError("truth")
        return True


def unaligned():
    return np.frombuffer(bytes(33), dtype=np.uint8)[1:].view(float)


def junk(c, small=False):
    """One object that a function may or may not expect."""
    r = c.rng
    k = c.integers(0, 30)
    if k == 0:
        return None
    if k == 1:
        return c.choice([1, 0, -1, 3, True, False])
    if k == 2:
        return c.choice([1., 2.5, -1e300, float("nan"), float("inf"), 1e-300, 0.])
    if k == 3:
        return c.choice(["sxyz", "rzyz", "bad", "", "sxyzz", "s", "\u00e9xyz", "axyz", "sxyz\0", b"sxyz"])
    if k == 4:
        return c.choice([(0, 0, 0, 0), (1, 1, 1, 1), (2, 1, 1, 1), (3, 0, 0, 0), (-1, 0, 0, 0), (0, 0, 0), (0, 2, 0, 0),
                         (0, 0, 0, 0, 0), ("a", 0, 0, 0), (0., 1, 0, 0), (10**30, 0, 0, 0)])
    if k == 5:
        return list(r.normal(size=c.integers(0, 6)))
    if k == 6:
        return r.normal(size=c.integers(0, 6)).tolist() + [c.choice([None, "x", [1.]])]
    if k == 7:
        return c.choice([object(), {}, set(), {"a": 1}, len, Odd, np, 1j, b"xyzw", bytearray(32), range(4), iter([1])])
    if k == 8:
        return Odd(c.integers(0, 8))
    if k == 9:
        return c.choice([-1, 10**30, -10**30, 2**31, 2**63, 7, 100]) if not small else c.choice([-1, 10**30, 7])
    if k <= 14:
        return r.normal(size=c.choice([3, 4, 3, 4, 0, 1, 2, 5, 16]))
    if k <= 20:
        return r.normal(size=c.choice([(4, 4), (4, 4), (3, 3), (3, 5), (4, 6), (4, 0), (0, 4), (1, 1), (2, 2, 2), (5, 5), (3, 4),
                                       (4, 3), (1, 4), ()]))
    if k == 21:
        return np.zeros(c.choice([(4, 4), (3, 3), 3, 4, (3, 4), (6, 6)]))
    if k == 22:
        return np.eye(c.choice([1, 3, 4, 5]))
    if k == 23:
        a = np.full(c.choice([(4, 4), (4,), (3,), (3, 5)]), np.nan)
        a.flat[0] = c.choice([1., np.inf, -np.inf])
        return a
    if k == 24:
        return r.normal(size=(8, 8))[::2, ::-2]
    if k == 25:
        return r.normal(size=8)[::-2]
    if k == 26:
        return np.arange(c.choice([3, 4, 16])).astype(c.choice(["i1", "f4", ">f8", "u8", "c16", "O", "U3", "S3", "?", "f2"]))
    if k == 27:
        a = r.normal(size=c.choice([(4, 4), (4,), (3,), (3, 5)]))
        a.setflags(write=False)
        return a
    if k == 28:
        return np.broadcast_to(r.normal(size=4), (4, 4))
    if k == 29:
        return r.normal(size=(4, 4)).tolist()
    return unaligned()


def near_valid(c, name):
    """The arguments of a valid call with something replaced, removed, reshaped or added."""
    args, kw = getattr(trafo, "W_"+name)(c)
    args = [np.array(a) if isinstance(a, np.ndarray) else a for a in args]
    for _ in range(c.integers(1, 2)):
        k = c.integers(0, 6)
        if k <= 2 and args:
            args[c.integers(0, len(args)-1)] = junk(c)
        elif k == 3 and args:
            args.pop(c.integers(0, len(args)-1))
        elif k == 4:
            args.insert(c.integers(0, len(args)), junk(c))
        elif k == 5 and kw:
            kw[c.choice(sorted(kw))] = junk(c)
        elif args:
            i = c.integers(0, len(args)-1)
            a = args[i]
            if isinstance(a, np.ndarray) and a.size:
                a = np.atleast_1d(a)
                args[i] = c.choice([a[:-1], a.ravel(), a[None], np.concatenate((a, a)), a.astype("c16" if a.dtype.kind
                                    in "fiu" else "O"), a.astype(object), np.full(a.shape, np.nan), a[..., :1], a.T,
                                    a[:0], np.zeros(a.shape)])
    return args, kw


def snapshot(a):
    return np.array(a, copy=True) if isinstance(a, np.ndarray) else None


def unchanged(c, a, s, **kw):
    if s is None:
        return
    if s.dtype.kind in "fc":
        c.same_array(a, s, "arguments-unchanged", **kw)
    else:
        c.ok(a.shape == s.shape and a.tobytes() == s.tobytes() or s.dtype.kind == "O", "arguments-unchanged", **kw)


if IN_WORKER:
    SIG = {n: list(inspect.signature(getattr(tf, "_py_"+n, getattr(tf, n, None))).parameters)
           for n in FUNCS if hasattr(tf, "_py_"+n) or n in ("clip_matrix",)}


@scenario("T04", quick=4000, thorough=300000)
def malformed(c):
    name = FUNCS[c.idx % len(FUNCS)]
    f = getattr(C, name)
    kw = {}
    if name in ("identity_matrix", "random_vector") or c.chance(.4):
        args = [junk(c, name == "random_vector") for i in range(c.integers(0, 5))]
        for n in SIG.get(name, []):
            if c.chance(.08):
                kw[n] = junk(c)
        if c.chance(.1):
            kw["nonsense"] = 1
    else:
        args, kw = near_valid(c, name)
        if c.chance(.1):
            kw["nonsense"] = 1
    if name == "random_vector":
        # only sizes that are small or refused
        args = [a if not isinstance(a, (int, float)) or abs(a) < 200 or abs(a) > 1e25 else 5 for a in args]
        kw = {}
    if name in ("vector_norm", "unit_vector"):
        if c.chance(.5):
            a = c.rng.normal(size=c.choice([(3,), (3, 4), (2, 3, 4), (4, 0), (0, 3), (4, 4)]))
            args = [a]+args[1:]
            if c.chance(.7):
                args[1:2] = [c.choice([None, 0, 1, -1, 2, -3, 5, 10**30, junk(c)])]
            if c.chance(.7):
                kw.pop("axis", None)
                o = np.zeros(c.choice([(3,), (4,), (3, 4), (2, 3), (3, 4, 1), (4, 3), (0,), (2, 4), ()]))
                if c.chance(.4):
                    o = c.choice([o.astype("f4"), np.asfortranarray(o), o[..., None], o.astype(int), o.tolist()])
                if c.chance(.1):
                    o = np.array(o)
                    o.setflags(write=False)
                if c.chance(.7) or len(args) < 2:
                    kw["out"] = o
                else:
                    args[2:3] = [o]
    out = kw.get("out", args[2] if len(args) > 2 and name in ("vector_norm", "unit_vector") else None)
    c.note(function=name, args=[repr(a)[:200] for a in args], kwargs={k: repr(v)[:200] for k, v in kw.items()})
    objs = args+[kw[k] for k in sorted(kw)]
    snap = [snapshot(a) for a in objs]
    before = [sys.getrefcount(objs[i]) for i in range(len(objs))]
    r = err = None
    try:
        r = f(*args, **kw)
    except SystemError as e:
        c.fail("no-system-error", repr(e), cause=repr(e.__cause__))
    except Exception as e:
        err = type(e).__name__
        e = None
    c.count("no-system-error")
    same = [r is o for o in objs]
    kind = err or ("none" if r is None else "value")
    if isinstance(r, np.ndarray) and r.size:
        # memory of the result is ours to write
        c.ok(r.flags.owndata or r.base is not None, "result-owns-memory")
        c.ok(not any(isinstance(o, np.ndarray) and o is not out and np.shares_memory(r, o) for o in objs),
             "result-does-not-alias-arguments")
        r[...] = r*1
    del r
    after = [sys.getrefcount(objs[i]) for i in range(len(objs))]
    for b, a, o in zip(before, after, objs):
        if o is None or isinstance(o, (int, str, bytes)) or callable(o):
            c.ok(abs(b-a) < 3 or o is None, "reference-counts-of-constants", function=name, before=b, after=a)
        else:
            c.equal(a, b, "reference-counts", function=name, kind=kind)
    for a, s in zip(objs, snap):
        if a is not out:
            unchanged(c, a, s, function=name)
    c.state(name, kind, [type(a).__name__+str(np.shape(a) if isinstance(a, np.ndarray) else "") for a in args])


@scenario("T04", quick=800, thorough=30000)
def kernels_malformed(c):
    """The kernels of the electrostatics with wrong types, dimensions, sizes and indices."""
    k = c.idx % 3
    nx, nv, d = c.integers(1, 5), c.integers(3, 6), c.integers(0, 5)
    r = c.rng
    x = r.normal(size=(nx, 3))
    out = np.zeros((nx, 2*d+1)) if c.chance(.6) else None
    if k == 0:
        name, a = "point_potential", [x, r.normal(size=(nv, 2)), r.random(nv), 1., d, 1, 5., out]
        arr = [0, 1, 2]
    elif k == 1:
        name, a = "polygon_potential", [x, [r.normal(size=(nv, 2)), r.normal(size=(3, 2))], 1., d, 1, 5., out]
        arr = [0]
    else:
        ed = np.c_[np.arange(nv), (np.arange(nv)+1) % nv].astype(np.intc)
        name, a = "mesh_potential", [x, r.normal(size=(nv, 2)), ed, np.zeros(nv, np.intc), np.ones(1), d, 1, 5., out]
        arr = [0, 1, 2, 3, 4]
    f = getattr(X, name)
    di = {0: 4, 1: 3, 2: 5}[k]
    how = c.choice(["junk", "junk", "dtype", "shorter", "longer", "dims", "out", "out", "index", "order", "missing", "none",
                    "path", "few"])
    i = c.choice(arr)
    valid = False
    if how == "junk":
        i = c.integers(0, len(a)-1)
        v = junk(c)
        if i > max(arr) and i != len(a)-1 and isinstance(v, (int, float)) and abs(v) > 100:
            v = 2       # orders and image numbers that are huge run for long
        if isinstance(v, np.ndarray) and (v.ndim == 0 or not v.flags.aligned):
            v = "x"
        a[i] = v
    elif how == "dtype":
        a[i] = a[i].astype(c.choice(["f4", "i8", ">f8", "c16", "O", "i2"]))
    elif how == "shorter":
        a[i] = a[i][:-1]
        valid = i == 0 and (out is None or True)
    elif how == "longer":
        a[i] = np.concatenate((a[i], a[i]))
    elif how == "dims":
        a[i] = c.choice([a[i][None], a[i].ravel() if a[i].ndim > 1 else a[i][:, None], a[i][..., :1], a[i][:0]])
    elif how == "out":
        a[-1] = c.choice([np.zeros((nx-1, 2*d+1)), np.zeros((nx, 2*d)), np.zeros((0, 0)), np.zeros(nx),
                          np.zeros((nx, 2*d+1), "f4"), np.zeros((2*nx, 2*d+1))[::2], np.asfortranarray(np.zeros((nx+1, 2*d+2))),
                          [[0.]*(2*d+1)]*nx, np.zeros((nx+1, 2*d+1)), np.zeros((nx, 2*d+2))])
        if c.chance(.1):
            a[-1] = np.zeros((nx, 2*d+1))
            a[-1].setflags(write=False)
    elif how == "index" and k == 2:
        j = c.choice([2, 3])
        a[j] = a[j].copy()
        a[j].flat[c.integers(0, a[j].size-1)] = c.choice([-1, nv, 10**6, -10**6, 2**31-1, -2**31])
    elif how == "order":
        a[di] = c.choice([-1, -5, 6, 7, 10, 3])
    elif how == "missing":
        a = a[:-c.integers(1, len(a))]
    elif how == "none":
        a[c.integers(0, len(a)-1)] = None
    elif how == "path" and k == 1:
        a[1] = c.choice([[], [np.zeros((0, 2))], [None], [np.zeros((3, 3))], [np.zeros(3)], [[1, 2]], 5, [r.normal(size=(1, 2))],
                         np.zeros((0, 3, 2)), [np.zeros((3, 2), "f4")], [r.normal(size=(2, 2))], Odd(4), r.normal(size=(2, 4, 2)),
                         [r.normal(size=(8, 4))[::2, ::2]]])
    elif how == "few":
        a[1] = a[1][:1]
    c.note(kernel=name, how=how, args=[repr(v)[:200] for v in a])
    given = a[-1] if len(a) and isinstance(a[-1], np.ndarray) else None
    snap = [snapshot(v) for v in a]
    before = [sys.getrefcount(v) for v in a]
    res = err = None
    try:
        res = f(*a)
    except SystemError as e:
        c.fail("no-system-error", repr(e))
    except Exception as e:
        err = type(e).__name__
        e = None
    c.count("no-system-error")
    if res is not None:
        c.ok(isinstance(res, np.ndarray), "returns-an-array")
        if given is not None and len(a) == len(snap) and res is given:
            c.ok(given.shape[0] >= len(a[0]), "output-large-enough")
    del res
    after = [sys.getrefcount(v) for v in a]
    for v, b, n in zip(a, before, after):
        if isinstance(v, (np.ndarray, list)):
            c.equal(n, b, "reference-counts", kernel=name, kind=err)
    for v, s in zip(a, snap):
        if v is not given or err in ("AssertionError", "TypeError", "ValueError"):
            unchanged(c, v, s, kernel=name, kind=err)
    c.state(name, how, err, nx, nv, d)


# ------------------------------------------------------------ leaks
def allocated():
    """Bytes in use, without what the interpreter keeps for speed or has not collected yet."""
    gc.collect()
    sys._clear_type_cache()     # keeps method names alive
    return ALLOC()


if IN_WORKER:
    ALLOC = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes
    ALLOC.restype = ctypes.c_size_t


def fresh(a):
    if isinstance(a, np.ndarray):
        return a.copy()
    if isinstance(a, list):
        return [fresh(v) for v in a]
    if isinstance(a, tuple):
        return tuple([fresh(v) for v in a])
    if isinstance(a, float):
        return a+0.
    return a


def growth(call, n):
    """Smallest growth in bytes of three rounds of n calls, after warming up."""
    for i in range(30):
        call()
    best = None
    for i in range(3):
        b = allocated()
        for j in range(n):
            call()
        g = allocated()-b
        best = g if best is None else min(g, best)
        if best <= 0:
            break
    return best


@scenario("T04", quick=300, thorough=10000)
def no_leaks(c):
    """Memory does not grow with the number of calls, whether they succeed or fail."""
    if c.idx % 5 == 4:
        k = c.choice(["point", "polygon", "mesh"])
        nv, d = 4, c.integers(0, 3)
        x = c.rng.normal(size=(2, 3))
        p = c.rng.normal(size=(nv, 2))
        ed = np.c_[np.arange(nv), (np.arange(nv)+1) % nv].astype(np.intc)
        out = c.choice([None, np.zeros((2, 2*d+1))])
        args = {"point": [x, p, np.ones(nv), 1., d, 0, 0., out], "polygon": [x, [p, p], 1., d, 0, 0., out],
                "mesh": [x, p, ed, np.zeros(nv, np.intc), np.ones(1), d, 0, 0., out]}[k]
        if c.chance(.4):
            args[c.integers(0, len(args)-1)] = c.choice(["bad", None, np.zeros((2, 2), "f4")])
        name, kw, f = k+"_potential", {}, getattr(X, k+"_potential")
    else:
        name = FUNCS[(c.idx-c.idx//5) % len(FUNCS)]
        f = getattr(C, name)
        kw = {}
        if name in ("identity_matrix", "random_vector"):
            args = [[], [3], [c.choice(["x", -2, None])]][c.integers(0, 2)] if name == "random_vector" else []
        elif c.chance(.5):
            args, kw = getattr(trafo, "W_"+name)(c)
            if name in ("vector_norm", "unit_vector") and c.chance(.5):
                a = np.array(args[0])
                s = a.shape if name == "unit_vector" else np.delete(a.shape, kw.get("axis", 0)).tolist()
                kw["out"] = np.zeros(s)
        else:
            args, kw = near_valid(c, name)
    if any(isinstance(a, Odd) for a in list(args)+list(kw.values())) or name == "random_vector" and c.idx % 2:
        args = [a for a in args if not isinstance(a, Odd)]
        kw = {k: v for k, v in kw.items() if not isinstance(v, Odd)}
    kind = []

    def call():
        try:
            f(*[fresh(a) for a in args], **{k: fresh(v) for k, v in kw.items()})
        except Exception as e:
            kind[:] = [type(e).__name__]
        else:
            kind[:] = ["value"]
    n = 100
    g = growth(call, n)
    c.note(function=name, args=[repr(a)[:200] for a in args], kwargs={k: repr(v)[:200] for k, v in kw.items()}, growth=g)
    c.ok(g < 8*n, "memory-does-not-grow", function=name, bytes_per_call=g/n, kind=kind)
    c.state(name, kind, len(args), sorted(kw))
