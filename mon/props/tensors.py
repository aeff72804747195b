"""U01-U04: reduced tensors, rotations, spherical harmonics, polygon areas."""
import itertools
import math

import numpy as np
from scipy import special

from electrode import utils

from .. import gen, jets, oracles
from ..core import scenario


def reduced(c, o, lead):
    k = c.integers(0, 4)
    s = tuple(lead)+(2*o+1,)
    if k == 0:
        return c.rng.integers(-50, 50, s), "int"
    if k == 1:
        return c.rng.normal(size=s)+1j*c.rng.normal(size=s), "complex"
    if k == 2:
        return c.rng.normal(size=s)*10**c.rng.uniform(-8, 8, s), "mixed"
    if k == 3:
        a = np.zeros(s)
        a[..., c.integers(0, 2*o)] = 1.
        return a, "unit"
    return c.rng.normal(size=s), "float"


@scenario("U01", quick=1500, thorough=40000)
def expand_select(c):
    o = c.integers(0, 5)
    lead = c.choice(gen.big([(), (1,), (4,), (3, 2), (2, 1, 3)], [(50,), (3, 40), (2, 3, 2, 4), (5, 1, 1, 7)]))
    d, kind = reduced(c, o, lead)
    c.note(order=o, lead=lead, kind=kind, reduced=d)
    c.state(o, lead, kind)
    keep = d.copy()
    t = utils.expand_tensor(d) if c.chance(.5) else utils.expand_tensor(d, o)
    c.same_array(d, keep, "input-unchanged")
    want = oracles.expand(d, o)
    scale = np.abs(d).sum(-1) if d.size else 0
    scale = np.reshape(scale, np.shape(scale)+(1,)*o) if d.size else None
    c.close(t, want, "expand-is-the-harmonic-tensor", rtol=1e-14, scale=scale)
    if o >= 2:
        for a, b in itertools.combinations(range(1, o+1), 2):
            c.same_array(np.swapaxes(t, -a, -b), t, "symmetric-in-every-pair")
            tr = np.trace(t, axis1=-a, axis2=-b)
            c.close(tr, np.zeros_like(tr), "traceless-in-every-pair", rtol=0,
                    atol=1e-13*np.abs(d).sum() if d.size else 0)
    back = utils.select_tensor(t, o) if len(lead) != 1 or c.chance(.5) else utils.select_tensor(t)
    c.same_array(back, d, "select-inverts-expand")


@scenario("U01", quick=600, thorough=15000)
def select_expand(c):
    """Starting from a complete tensor: derivatives of x -> Re (k.x)^o with k.k = 0."""
    o = c.integers(1, 5)
    n = c.choice([1, 2, 7])
    u = c.rng.normal(size=(n, 3))
    v = np.cross(u, c.rng.normal(size=(n, 3)))
    v *= np.linalg.norm(u, axis=1, keepdims=True)/np.linalg.norm(v, axis=1, keepdims=True)
    k = u+1j*v
    t = np.ones((n,), complex)
    for i in range(o):
        t = np.einsum("n...,ni->n...i", t, k)
    t = t.real.copy()
    c.note(order=o, n=n, k=k)
    c.state(o, n, round(float(t.ravel()[0]), 6))
    r = utils.select_tensor(t)
    c.equal(r.shape, (n, 2*o+1), "reduced-shape")
    names = jets.NAMES[o]
    for j, nm in enumerate(names):
        idx = tuple("xyz".index(a) for a in nm)
        c.same_array(r[:, j], t[(slice(None),)+idx], "select-takes-the-named-component", name=nm)
    c.close(utils.expand_tensor(r), t, "expand-inverts-select", rtol=1e-12, scale=np.abs(t).max()+1e-300)


@scenario("U01", quick=400, thorough=8000)
def names(c):
    o = c.integers(0, 5)
    idx = tuple(c.integers(0, 2) for _ in range(o))
    raw = "".join("xyz"[i] for i in idx)
    nm = "".join(sorted(raw))
    d = np.round(c.rng.normal(size=(3, 2*o+1))*1000)
    c.note(order=o, name=raw)
    c.state(raw)
    c.equal(tuple(utils.name_to_idx(raw)), idx, "name-to-idx")
    c.equal(utils.idx_to_name(idx), nm, "idx-to-name-sorted")
    c.equal(utils.idx_to_nidx(idx), int("0"+"".join(map(str, idx)), 3), "flat-index-base-3")
    t = oracles.expand(d, o)
    val = t[(slice(None),)+idx]
    r = utils.deriv_to_reduced_idx(raw)
    got = -d[:, r[0]]-d[:, r[1]] if isinstance(r, tuple) else d[:, r]
    c.same_array(got, val, "reduced-index-yields-the-derivative", name=raw)
    flat = utils.expand_tensor(d, o).reshape(3, -1)
    c.same_array(flat[:, utils.idx_to_nidx(idx)], val, "flat-index-addresses-the-component")
    j = c.integers(0, 2*o)
    n1 = utils.deriv_to_name(o, j)
    c.equal(n1, jets.NAMES[o][j], "documented-name-order")
    c.equal(tuple(utils.name_to_deriv(n1)), (o, j), "name-deriv-inverse")
    if o:
        (o2, j2), ax = utils.construct_derivative(o, j)
        c.equal(o2, o-1, "construct-lowers-order")
        c.equal("".join(sorted(jets.NAMES[o-1][j2]+"xyz"[ax])), n1, "construct-derives-the-name")
    for a, b in utils.find_laplace(idx):
        s = t[(slice(None),)+tuple(a)]+t[(slice(None),)+tuple(b)]+val
        c.same_array(s, np.zeros(3), "laplace-triples-cancel", name=raw, pair=(a, b))
    c.equal(bool(list(utils.find_laplace(idx))), max([idx.count(i) for i in range(3)]+[0]) >= 2,
            "laplace-found-iff-repeated-axis")


# ------------------------------------------------------------------ rotation
def contract(t, r, order):
    """t'_{i1..ik} = sum_j t_{j1..jk} r[j1,i1] ... over the last `order` axes."""
    n = t.ndim
    letters = "abcdefghijklm"
    src = letters[:n]
    dst = list(src)
    ops, subs = [t], [src]
    for i in range(n-order, n):
        new = letters[i].upper()
        dst[i] = new
        ops.append(r)
        subs.append(src[i]+new)
    return np.einsum(",".join(subs)+"->"+"".join(dst), *ops)


@scenario("U02", quick=1500, thorough=40000)
def rotate(c):
    o = c.integers(1, 5)
    n = c.choice(gen.big([1, 2, 5], [33, 200]))
    t = c.rng.normal(size=(n,)+(3,)*o)
    sym = c.chance(.5)
    if sym:
        t = oracles.expand(c.rng.normal(size=(n, 2*o+1)), o)
    kind = c.choice(["rotation", "rotation", "reflection", "general", "permutation"])
    if kind == "general":
        r = c.rng.normal(size=(3, 3))
    elif kind == "permutation":
        r = np.eye(3)[c.rng.permutation(3)]
    else:
        r = gen.rotation(c.rng)
        if kind == "reflection":
            r = r*[1, 1, -1]
    sub = c.integers(1, o) if c.chance(.3) else None
    c.note(order=o, kind=kind, sub=sub, r=r, tensor=t)
    c.state(o, n, kind, sub, sym)
    keep = t.copy()
    got = utils.rotate_tensor(t, r) if sub is None else utils.rotate_tensor(t, r, order=sub)
    c.same_array(t, keep, "input-unchanged")
    want = contract(t, r, o if sub is None else sub)
    sc = np.abs(t).max()*max(1, np.abs(r).sum(0).max())**o
    c.close(got, want, "each-index-contracted-once", rtol=1e-13, scale=sc)
    r2 = gen.rotation(c.rng)
    c.close(utils.rotate_tensor(utils.rotate_tensor(t, r), r2), utils.rotate_tensor(t, np.dot(r, r2)),
            "rotations-compose", rtol=1e-12, scale=sc)
    if kind != "general":
        c.close(utils.rotate_tensor(utils.rotate_tensor(t, r), r.T), t, "transpose-undoes", rtol=1e-12, scale=sc)
        if sym and o >= 2:
            g = utils.rotate_tensor(t, r)
            c.close(np.trace(g, axis1=-1, axis2=-2), np.zeros(g.shape[:-2]), "stays-traceless", rtol=0,
                    atol=1e-12*sc)
            c.close(utils.expand_tensor(utils.select_tensor(g)), g, "stays-representable", rtol=1e-12, scale=sc)


# ------------------------------------------------- real spherical harmonics
def real_ylm(l, m, th, ph):
    """Real spherical harmonics with Condon-Shortley phase (sign (-1)^m dropped nowhere)."""
    am = abs(m)
    n = math.sqrt((2*l+1)/(4*math.pi)*math.factorial(l-am)/math.factorial(l+am))
    p = special.lpmv(am, l, np.cos(th))        # includes (-1)^m
    if m == 0:
        return n*p
    return math.sqrt(2)*n*p*(np.cos(am*ph) if m > 0 else np.sin(am*ph))


@scenario("U03", quick=900, thorough=25000)
def harmonics(c):
    l = c.integers(0, 5)
    n = c.choice(gen.big([1, 2, 5], [33, 200]))
    d, kind = reduced(c, l, (n,))
    d = d.real
    x = c.rng.normal(size=(6, 3))
    r = np.linalg.norm(x, axis=1)
    th, ph = np.arccos(x[:, 2]/r), np.arctan2(x[:, 1], x[:, 0])
    c.note(l=l, n=n, kind=kind, reduced=d)
    c.state(l, n, kind, str(np.round(d.ravel()[:3], 3)))
    keep = d.copy()
    q = utils.cartesian_to_spherical_harmonics(d.T)
    c.same_array(d, keep, "input-unchanged")
    c.equal(np.shape(q), (2*l+1, n), "shape")
    t = oracles.expand(np.asarray(d, float), l)
    for i in range(n):
        f = np.empty(6)
        for j in range(6):
            v = t[i]
            for _ in range(l):
                v = v @ x[j]
            f[j] = v/math.factorial(l)
        g = sum(q[l+m, i]*r**l*real_ylm(l, m, th, ph) for m in range(-l, l+1))
        c.close(g, f, "same-field-as-the-cartesian-derivatives", rtol=1e-11,
                scale=np.abs(d[i]).sum()*r.max()**l)


# --------------------------------------------------------- areas, helpers
@scenario("U04", quick=800, thorough=20000)
def area_centroid(c):
    p, tag = gen.polygon(c.rng, 14)
    p = p+np.round(c.rng.uniform(-3, 3, 2), 2)
    s = 10**c.uniform(-3, 3) if c.chance(.3) else 1.
    p = p*s
    if c.chance(.4):
        p, tag = p[::-1], tag+"-cw"
    c.note(path=p, tag=tag)
    c.state(tag, round(s, 6), len(p))
    from shapely import geometry
    g = geometry.Polygon(p)
    want = g.area*(1 if geometry.LinearRing(p).is_ccw else -1)
    keep = np.array(p)
    a, ctr = utils.area_centroid(p)
    c.same_array(p, keep, "input-unchanged")
    sc = np.abs(p).max()**2
    c.close(a, want, "signed-area", rtol=1e-12, scale=sc)
    cw = np.array(g.centroid.coords[0])
    # own second oracle: fan of triangles about the first vertex
    q = p[1:]-p[0]
    tri = (q[:-1, 0]*q[1:, 1]-q[1:, 0]*q[:-1, 1])/2
    c2 = p[0]+(tri[:, None]*(q[:-1]+q[1:])/3).sum(0)/tri.sum()
    cond = sc*np.abs(p).max()/abs(want)
    c.close(ctr, cw, "centroid", rtol=1e-12, atol=1e-12*cond)
    c.close(ctr, c2, "centroid-by-triangles", rtol=1e-12, atol=1e-12*cond)
    k = c.integers(0, len(p)-1)
    a2, _ = utils.area_centroid(np.roll(p, k, 0))
    c.close(a2, a, "start-vertex-does-not-matter", rtol=1e-12, scale=sc)
    a3, c3 = utils.area_centroid(p[::-1])
    c.close(a3, -a, "reversal-flips-the-sign", rtol=1e-12, scale=sc)
    c.close(c3, ctr, "reversal-keeps-the-centroid", rtol=1e-11, atol=1e-12*cond)


@scenario("U04", quick=300, thorough=5000)
def norms_and_shapes(c):
    nd = c.integers(1, 4)
    sh = tuple(c.integers(1, 4) for _ in range(nd))
    a = c.rng.normal(size=sh)*10**c.uniform(-3, 3)
    ax = c.choice([None]+list(range(-nd, nd)))
    c.note(shape=sh, axis=ax)
    c.state(sh, ax)
    got = utils.norm(a) if ax is None else utils.norm(a, axis=ax)
    c.close(got, np.sqrt((a*a).sum(-1 if ax is None else ax)), "norm-along-the-axis", rtol=1e-12)
    # (l, n...) in, (n..., k) out
    k = c.integers(1, 3)
    b = np.atleast_2d(a)
    w = c.rng.normal(size=(b.shape[0], k))
    got = utils.shaper(lambda v, s: np.dot(v, w)*s, a, 2.)
    c.close(got, 2*np.einsum("i...,ik->...k", b, w), "shaper-maps-points", rtol=1e-12,
            scale=np.abs(a).max()*np.abs(w).max()*4)
