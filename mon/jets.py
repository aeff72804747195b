"""Truncated power series in (dx, dy, dz) up to total degree 5, in long double.

Used as an oracle for potentials and all their Cartesian derivatives; shares no
formula with the code under test.
"""
import itertools
import math

import numpy as np

LD = np.longdouble
N = 5
MON = [m for d in range(N+1)
       for m in sorted(itertools.product(range(d+1), repeat=3), reverse=True) if sum(m) == d]
IDX = {m: i for i, m in enumerate(MON)}
NM = len(MON)
_PAIRS = [(i, j, IDX[tuple(a+b for a, b in zip(MON[i], MON[j]))])
          for i in range(NM) for j in range(NM) if sum(MON[i])+sum(MON[j]) <= N]
# per order and left monomial: contiguous work for the truncated product
_ROWS = []
for _o in range(N+1):
    rows = []
    for _i in range(NM):
        pk = [(j, k) for i, j, k in _PAIRS if i == _i and sum(MON[k]) <= _o]
        if pk:
            rows.append((_i, np.array([j for j, _ in pk]), np.array([k for _, k in pk])))
    _ROWS.append(rows)
ROWS_OF = [sum(1 for m in MON if sum(m) <= o) for o in range(N+1)]
PI = LD("3.14159265358979323846264338327950288")

NAMES = [[""]] + [s.split() for s in [
    "x y z",
    "xx xy xz yy yz",
    "xxy xxz yyz xyy xzz yzz xyz",
    "xxxy xxxz xxyy xxzz xyyy xzzz yyyz yyzz yzzz",
    "xxxyy xxxyz xxxzz xxyyy xxyyz xxyzz xxzzz xyyyz xyyzz yyyzz yyzzz"]]


def mono(name):
    return tuple(name.count(c) for c in "xyz")


def trim(order):
    return [m for m in MON if sum(m) <= order]


class Jet(object):
    """c has shape (number of monomials, npts or more axes); `o` is the degree that is carried."""
    __slots__ = ("c", "o")

    def __init__(self, c, o):
        self.c, self.o = c, o

    @staticmethod
    def const(v, o, n=None):
        v = np.atleast_1d(np.asarray(v, LD))
        c = np.zeros((ROWS_OF[o],) + v.shape, LD)
        c[0] = v
        return Jet(c, o)

    @staticmethod
    def var(v, axis, o):
        j = Jet.const(v, o)
        if o > 0:
            m = [0, 0, 0]
            m[axis] = 1
            j.c[IDX[tuple(m)]] = 1
        return j

    def __add__(self, b):
        if isinstance(b, Jet):
            o = min(self.o, b.o)
            return Jet(self.c[:ROWS_OF[o]]+b.c[:ROWS_OF[o]], o)
        b = np.asarray(b, LD)
        r = self.c.copy() if b.ndim < self.c.ndim and np.broadcast_shapes(b.shape, self.c[0].shape) == self.c[0].shape \
            else np.broadcast_to(self.c, (len(self.c),)+np.broadcast_shapes(b.shape, self.c[0].shape)).copy()
        r[0] += b
        return Jet(r, self.o)
    __radd__ = __add__

    def __neg__(self):
        return Jet(-self.c, self.o)

    def __sub__(self, b):
        return self + (-b)

    def __rsub__(self, b):
        return (-self) + b

    def __mul__(self, b):
        if not isinstance(b, Jet):
            return Jet(self.c*b, self.o)
        o = min(self.o, b.o)
        r = np.zeros((ROWS_OF[o],)+np.broadcast_shapes(self.c.shape[1:], b.c.shape[1:]), LD)
        for i, js, ks in _ROWS[o]:
            r[ks] += self.c[i]*b.c[js]
        return Jet(r, o)
    __rmul__ = __mul__

    def nil(self):
        r = self.c.copy()
        r[0] = 0
        return Jet(r, self.o)

    def series(self, coeffs):
        """sum_k coeffs[k] * nil(self)**k"""
        t = self.nil()
        r = Jet.const(coeffs[self.o], self.o)
        for k in range(self.o-1, -1, -1):
            r = r*t + coeffs[k]
        return r

    def power(self, p):
        """self**p for real p (constant term nonzero, positive if p is fractional)."""
        a = self.c[0]
        co, f = [], LD(1)
        for k in range(self.o+1):
            co.append(f*a**(LD(p)-k) if float(p) != int(p) or True else None)
            f = f*(LD(p)-k)/(k+1)
        return self.series(co)

    def inv(self):
        a = self.c[0]
        return self.series([(-1)**k/a**(k+1) for k in range(self.o+1)])

    def sqrt(self):
        a = self.c[0]
        s = np.sqrt(a)
        co, f = [], LD(1)
        for k in range(self.o+1):
            co.append(f*s/a**k)
            f = f*(LD(0.5)-k)/(k+1)
        return self.series(co)


def atan2_jet(num, den):
    """atan2(num, den) for jets (not both zero)."""
    n0, d0 = num.c[0], den.c[0]
    t0 = np.arctan2(n0, d0)
    # tan(theta-theta0) = (num*d0 - den*n0)/(num*n0 + den*d0)
    t = (num*d0 - den*n0)*(num*n0 + den*d0).inv()
    z = np.zeros_like(n0)
    r = t.series([z, z+1, z, z-LD(1)/3, z, z+LD(1)/5])
    r.c[0] = t0
    return r


def fold(jet, orders=None):
    """list over orders of (npts, 2*o+1) arrays of partial derivatives."""
    out = []
    for o in range(jet.o+1):
        cols = []
        for nm in NAMES[o]:
            m = mono(nm)
            cols.append(jet.c[IDX[m]]*math.factorial(m[0])*math.factorial(m[1])*math.factorial(m[2]))
        out.append(np.array(cols).T)
    return out


def full(jet, o):
    """(npts, 3, ..., 3) complete tensor of order o."""
    n = jet.c.shape[1]
    r = np.zeros((n,)+(3,)*o, LD)
    for idx in itertools.product(range(3), repeat=o):
        m = tuple(idx.count(a) for a in range(3))
        r[(slice(None),)+idx] = jet.c[IDX[m]]*math.factorial(m[0])*math.factorial(m[1])*math.factorial(m[2])
    return r


def triangles_jet(x, tri, w, order=N):
    """Sum over triangles (n, 3, 2) with weights w of their solid angles / (2 pi), at points with z != 0."""
    x = np.asarray(x, LD)
    tot = Jet.const(np.zeros(len(x)), order)
    step = max(1, 1024//max(len(x), 1))
    X, Y, Z = (Jet.var(x[:, a], a, order) for a in range(3))
    Z = Jet(Z.c[:, None], order)
    for s in range(0, len(tri), step):
        t = np.asarray(tri[s:s+step], LD)
        (a1, b1, r1), (a2, b2, r2), (a3, b3, r3) = [
            (a, b, (a*a+b*b+Z*Z).sqrt()) for a, b in [
                (Jet(X.c[:, None], order)-t[:, k, 0, None], Jet(Y.c[:, None], order)-t[:, k, 1, None]) for k in range(3)]]
        # triple product of (a,b,Z) vectors; rows differ only in a, b
        num = Z*(a1*b2-a2*b1+a2*b3-a3*b2+a3*b1-a1*b3)
        zz = Z*Z
        den = (r1*r2*r3 + (a1*a2+b1*b2+zz)*r3 + (a2*a3+b2*b3+zz)*r1 + (a3*a1+b3*b1+zz)*r2)
        r = atan2_jet(num, den)
        tot = tot+Jet((r.c*np.asarray(w[s:s+step], LD)[:, None]).sum(1), order)
    return tot*(1/PI)


def fan(paths):
    """Triangles of the fans over the paths from their first vertices."""
    out = [np.zeros((0, 3, 2), LD)]
    for p in paths:
        p = np.asarray(p, LD)
        if len(p) >= 3:
            out.append(np.array([np.broadcast_to(p[0], (len(p)-2, 2)), p[1:-1], p[2:]]).swapaxes(0, 1))
    return np.concatenate(out)


def polygon_jet(x, path, order=N):
    """Potential (per unit voltage) of a polygon in the z=0 plane, at points with z != 0."""
    t = fan([path])
    return triangles_jet(x, t, np.ones(len(t)), order)


def polygon_field_jet(x, path, order=N):
    """Like polygon_jet without the constant term, from the line integral over the boundary.

    The gradient of the solid angle is the Biot-Savart integral around the polygon: regular
    wherever x is not on the boundary itself, also in the plane z = 0.
    """
    x = np.asarray(x, LD)
    path = np.asarray(path, LD)
    X, Y, Z = (Jet.var(x[:, a], a, order-1) for a in range(3))
    g = [Jet.const(np.zeros(len(x)), order-1) for a in range(3)]
    d = []
    for v in path:
        a, b = X-v[0], Y-v[1]
        d.append((a, b, (a*a+b*b+Z*Z).sqrt()))
    for i in range(len(path)):
        (a1, b1, r1), (a2, b2, r2) = d[i-1], d[i]
        w = (r1+r2)*((r1*r2)*(r1*r2+a1*a2+b1*b2+Z*Z)).inv()
        g[0] = g[0] + Z*(b1-b2)*w
        g[1] = g[1] + Z*(a2-a1)*w
        g[2] = g[2] + (a1*b2-a2*b1)*w
    out = Jet.const(np.zeros(len(x)), order)
    for m, i in IDX.items():
        if 0 < sum(m) <= order:
            a = [k for k in range(3) if m[k]][0]
            k = list(m)
            k[a] -= 1
            out.c[i] = g[a].c[IDX[tuple(k)]]/m[a]
    return out*(-1/(2*PI))


def point_jet(x, p, area, order=N):
    x = np.asarray(x, LD)
    X, Y, Z = (Jet.var(x[:, a], a, order) for a in range(3))
    a, b = X-LD(p[0]), Y-LD(p[1])
    r2 = a*a+b*b+Z*Z
    r3 = r2.sqrt().inv()
    r3 = r3*r3*r3
    return Z*r3*(LD(area)/(2*PI))


def electrode_jet(x, e, order=N):
    """Oracle jet for a polygon/point electrode description.

    e: dict(kind='poly', paths=..) or dict(kind='point', points=.., areas=..), with
    cover_nmax, cover_height.
    """
    x = np.asarray(x, LD)
    n, H = e.get("cover_nmax", 0), LD(e.get("cover_height", 50.))
    tot = Jet.const(np.zeros(len(x)), order)
    for k in range(-n, n+1):
        xk = x.copy()
        xk[:, 2] = xk[:, 2]+2*k*H
        if e["kind"] == "poly":
            t = fan(e["paths"])
            tot = tot + triangles_jet(xk, t, np.ones(len(t)), order)
        else:
            for p, a in zip(e["points"], e["areas"]):
                tot = tot + point_jet(xk, p, a, order)
    return tot


def grad(jet, axis):
    """Partial derivative along `axis`, one order lower."""
    c = np.zeros((ROWS_OF[jet.o-1],)+jet.c.shape[1:], LD)
    for m, i in IDX.items():
        if m[axis] and sum(m) <= jet.o:
            k = list(m)
            k[axis] -= 1
            c[IDX[tuple(k)]] += jet.c[i]*m[axis]
    return Jet(c, jet.o-1)


def square_gradient(jet):
    """|grad phi|^2 as a jet of one order less."""
    tot = None
    for a in range(3):
        g = grad(jet, a)
        tot = g*g if tot is None else tot+g*g
    return tot
