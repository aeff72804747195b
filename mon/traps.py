"""Systems of described electrodes and their oracle potentials."""
import numpy as np

from electrode.system import System

from . import gen, jets, oracles
from .jets import LD


def weighted_jet(x, descs, volts, order):
    tot = jets.Jet.const(np.zeros(len(x)), order)
    tri, w = [], []
    for d, v in zip(descs, volts):
        if v and d["kind"] == "poly" and not d.get("cover_nmax", 0):
            t = jets.fan(d["paths"])
            tri.append(t)
            w.append(np.full(len(t), LD(v)))
        elif v:
            tot = tot+jets.electrode_jet(x, d, order)*LD(v)
    if tri:
        tot = tot+jets.triangles_jet(x, np.concatenate(tri), np.concatenate(w), order)
    return tot


def weighted_tol(x, descs, volts, order):
    t = np.zeros(len(x))
    for d, v in zip(descs, volts):
        if v:
            t += abs(v)*oracles.tol(x, d, order)
    return t


def total_jet(x, descs, dcs, rfs, coeff, order):
    """dc + coeff^2 |grad rf|^2"""
    rf = weighted_jet(x, descs, rfs, order+1)
    p = jets.square_gradient(rf)*(LD(coeff)**2)
    return p+weighted_jet(x, descs, dcs, order)


def build_all(descs, dcs, rfs, names=None):
    from .props.electrostatics import build
    s = System()
    for i, d in enumerate(descs):
        e = build(d, dc=dcs[i], rf=rfs[i])
        e.name = names[i] if names else "e%d" % i
        s.append(e)
    return s


# ------------------------------------------------------------- trap shapes
def poly_desc(paths):
    return {"kind": "poly", "paths": [np.asarray(p, float) for p in paths]}


def annulus(r1, r2, n, phase=0., c=(0., 0.)):
    a = 2*np.pi*np.arange(n)/n+phase
    u = np.c_[np.cos(a), np.sin(a)]
    return [u*r2+c, (u*r1)[::-1]+c]


def sector(r1, r2, a0, a1, n=6):
    a = np.linspace(a0, a1, n)
    u = np.c_[np.cos(a), np.sin(a)]
    return np.r_[u*r2, (u*r1)[::-1]]


def ring_trap(c, scale=1.):
    """A surface ring trap: descs, rf pattern, dc pattern, approximate null."""
    r1 = c.uniform(.6, 1.4)
    r2 = r1*c.uniform(1.8, 4.)
    descs, rf = [], []
    k = c.choice([1, 1, 2, 3])
    if k == 1:
        descs.append(poly_desc(annulus(r1, r2, c.integers(8, 24), c.uniform(0, 1))))
        rf.append(1.)
    else:
        ph = c.uniform(0, 6)
        for i in range(k):
            descs.append(poly_desc([sector(r1, r2, ph+2*np.pi*i/k, ph+2*np.pi*(i+1)/k)]))
            rf.append(1.)
    # grounded or dc electrodes inside and around
    for i in range(c.integers(2, 5)):
        if c.chance(.3):
            p = gen.star(c.rng, 5, .2*r1, .6*r1)
        else:
            a = c.uniform(0, 2*np.pi)
            p = sector(r2*1.05, r2*c.uniform(1.5, 2.5), a, a+c.uniform(.3, 1.5), 4)
        descs.append(poly_desc([p]))
        rf.append(0.)
    z = (r1**(4/3.)*r2**(2/3.)+r1**(2/3.)*r2**(4/3.))**.5*.72
    # rf null on the axis: d/dz of z/sqrt(z^2+r^2) differences
    zs = np.linspace(.1*r1, 3*r2, 4000)
    g = r2**2/(zs**2+r2**2)**1.5-r1**2/(zs**2+r1**2)**1.5
    i = np.argmax(g > 0) if g[0] < 0 else np.argmax(g < 0)
    z = zs[i]
    for d in descs:
        d["paths"] = [p*scale for p in d["paths"]]
    return descs, rf, np.array([0, 0, z])*scale


def five_wire(c, scale=1.):
    a, b = c.uniform(.6, 1.2), c.uniform(.8, 2.)
    L = 12.
    b2 = b*c.uniform(.7, 1.3)
    descs = [poly_desc([gen.rect(-L, a/2, 2*L, b)]), poly_desc([gen.rect(-L, -a/2-b2, 2*L, b2)])]
    rf = [1., 1.]
    w = c.uniform(1., 2.)
    for i in range(-1, 2):
        descs.append(poly_desc([gen.rect((i-.5)*w, a/2+b, w, 3.)]))
        descs.append(poly_desc([gen.rect((i-.5)*w, -a/2-b2-3., w, 3.)]))
        rf += [0., 0.]
    descs.append(poly_desc([gen.rect(-L, -a/2, 2*L, a)]))
    rf.append(0.)
    y = a/2*b*0
    # rf null of two infinite rails by scanning the 2d field
    z = np.sqrt(a*(a+b+b2))/2
    for d in descs:
        d["paths"] = [p*scale for p in d["paths"]]
    return descs, rf, np.array([0, y, z])*scale


def stationary(x0, descs, dcs, rfs, coeff, coord=None, axis=(0, 1, 2), iters=40, maxstep=.3):
    """Newton's method on the oracle potential: (y, gradient, hessian) in coordinates coord."""
    C = np.eye(3) if coord is None else np.asarray(coord, float)
    ax = list(axis)
    y = np.array(x0, float)
    last = None
    for _ in range(iters):
        x = (C @ y)[None]
        if x[0, 2] <= 0:
            return None
        j = total_jet(x, descs, dcs, rfs, coeff, 2)
        g = C.T @ jets.full(j, 1)[0].astype(float)
        h = C.T @ jets.full(j, 2)[0].astype(float) @ C
        ga, ha = g[ax], h[np.ix_(ax, ax)]
        try:
            st = -np.linalg.solve(ha, ga)
        except np.linalg.LinAlgError:
            return None
        n = np.linalg.norm(st)
        m = maxstep*abs(x[0, 2])
        if n > m:
            st *= m/n
        y[ax] += st
        last = (g, h)
        if n < 1e-13*abs(x[0, 2])+1e-300:
            break
    else:
        if n > 1e-9*abs(x[0, 2]):
            return None
    return y, last[0], last[1]
