"""Oracles for electrostatic potentials and their error bounds."""
import itertools
import math

import numpy as np

from . import jets

EPS = 2.220446049250313e-16
_EX = (.5, 1.1, 2.2, 3.5, 5.2, 7.)


def polygon_tol(x, paths, o, factor=200., nmax=0, height=50., plane=False):
    """Rounding error bound (absolute, per point) of the order-o derivative of a polygon.

    The closed form cancels near edges, vertices and the plane; the bound was calibrated
    on the unchanged tree (worst observed error 2.6 of these units) and then multiplied
    by `factor`.
    """
    tot = np.zeros(len(x))
    for m in range(-nmax, nmax+1):
        z = x[:, 2]+2*m*height
        for p in paths:
            p = np.asarray(p, float)
            d = np.roll(p, 1, 0)

            def r(q):
                return np.sqrt(((x[:, None, :2]-q)**2).sum(-1)+z[:, None]**2)
            r1, r2 = r(d), r(p)
            l2 = ((p-d)**2).sum(1)
            with np.errstate(all="ignore"):
                b2 = np.maximum(((r1+r2)**2-l2)/4, np.maximum(z[:, None]**2, 1e-300))
                cond = (r1+r2)**2/4/b2+np.maximum(r1/r2, r2/r1) + \
                    (1 if plane else np.maximum(np.sqrt(b2)/np.abs(z[:, None]), 1))
                tot += (cond**_EX[o]/b2**(o/2.)).sum(1)
    return factor*EPS*tot


def point_tol(x, points, areas, o, factor=2e3, nmax=0, height=50.):
    tot = np.zeros(len(x))
    f = math.factorial(o+1)*4**o/6.
    for m in range(-nmax, nmax+1):
        z = x[:, 2]+2*m*height
        for p, a in zip(points, areas):
            r = np.sqrt((x[:, 0]-p[0])**2+(x[:, 1]-p[1])**2+z**2)
            tot += abs(a)*f/r**(o+2)
    return factor*EPS*tot


def tol(x, e, o, plane=False):
    n, h = e.get("cover_nmax", 0), e.get("cover_height", 50.)
    if e["kind"] == "poly":
        return polygon_tol(x, e["paths"], o, nmax=n, height=h, plane=plane)
    return point_tol(x, e["points"], e["areas"], o, nmax=n, height=h)


def expand(c, o):
    """Complete symmetric traceless tensor from the 2*o+1 reduced values (own algorithm).

    Solves for every monomial: the given names are knowns, Laplace relations the equations.
    """
    c = np.asarray(c)
    if o == 0:
        return c[..., 0]
    M = _solve(o)
    full = np.empty(c.shape[:-1]+(3,)*o, c.dtype)
    for idx in itertools.product(range(3), repeat=o):
        m = tuple(idx.count(a) for a in range(3))
        full[(Ellipsis,)+idx] = c @ M[m].astype(c.dtype)
    return full


_S = {}


def _solve(o):
    """For each monomial of degree o the row vector over the reduced names."""
    if o in _S:
        return _S[o]
    mons = [m for m in jets.MON if sum(m) == o]
    names = [jets.mono(n) for n in jets.NAMES[o]]
    A, B = [], []
    for i, n in enumerate(names):
        row = np.zeros(len(mons))
        row[mons.index(n)] = 1
        A.append(row)
        B.append(np.eye(2*o+1)[i])
    if o >= 2:
        for m in [m for m in jets.MON if sum(m) == o-2]:
            row = np.zeros(len(mons))
            for a in range(3):
                k = list(m)
                k[a] += 2
                row[mons.index(tuple(k))] = 1
            A.append(row)
            B.append(np.zeros(2*o+1))
    sol = np.linalg.lstsq(np.array(A), np.array(B), rcond=None)[0]
    assert np.abs(np.array(A) @ sol-np.array(B)).max() < 1e-9
    sol = np.round(sol)
    assert np.abs(np.array(A) @ sol-np.array(B)).max() < 1e-12
    _S[o] = {m: sol[i] for i, m in enumerate(mons)}
    return _S[o]
