"""G01 grids, G02 spherical harmonics, M01 analytic ion motion, A01 adjusting voltages, X01 xic files."""
import contextlib
import io
import os
import tempfile
import warnings

import numpy as np
from scipy import special
from scipy.integrate import solve_ivp

from electrode import grid as gr
from electrode import spherical_harmonics as sh
from electrode.adjust import Adjust
from electrode.mathieu import Mathieu
from electrode.system import System
from electrode.xic import xic_to_list

from .. import gen, jets, traps
from ..core import scenario


# ------------------------------------------------------------------ G01
def make_grid(c):
    shape = tuple(c.choice(gen.big([1, 1, 2, 3, 4, 5, 7, 10], [13, 24, 40])) for i in range(3))
    step = np.array([c.choice([1., .5, c.logu(1e-3, 10)]) for i in range(3)])
    center = c.choice([np.zeros(3), c.rng.normal(size=3)*10, np.round(c.rng.normal(size=3)*4)/4])
    kind = c.integers(0, 3)
    if kind == 0:
        args = (center, step, shape)
    elif kind == 1:
        args = (center.tolist(), step.tolist(), list(shape))
    elif kind == 2:
        args = (tuple(center.tolist()), tuple(step.tolist()), shape)
    else:
        args = (center, step, np.array(shape))
    c.note(center=center, step=step, shape=shape, args=kind)
    c.state(shape, kind)
    return gr.Grid(*args) if c.chance(.5) else gr.Grid(center=args[0], step=args[1], shape=args[2]), \
        center, step, shape


@scenario("G01", quick=400, thorough=8000)
def grid_maps(c):
    g, center, step, shape = make_grid(c)
    idx = np.indices(shape)
    pos = center[:, None, None, None]+step[:, None, None, None]*(
        idx-(np.array(shape)-1)[:, None, None, None]/2.)
    sc = np.abs(center).max()+(step*shape).max()
    tol = dict(rtol=1e-12, atol=1e-13*sc)
    mg = g.to_mgrid()
    c.close(mg, pos, "mesh", **tol)
    flat = pos.reshape(3, -1).T
    c.close(g.to_points(), flat, "points-in-c-order", **tol)
    xyz = g.to_xyz()
    c.equal([len(v) for v in xyz], list(shape), "axes-lengths")
    for k in range(3):
        sl = [0, 0, 0]
        sl[k] = slice(None)
        c.close(xyz[k], pos[(k,)+tuple(sl)], "axes", **tol)
    c.close(g.get_origin(), pos[:, 0, 0, 0], "origin", **tol)
    sl = g.to_slices()
    c.equal(len(sl), 3, "slices")
    c.close(np.mgrid[tuple(sl)], pos, "slices-mesh", **tol)
    ii = idx.reshape(3, -1).T
    c.close(g.indices_to_coordinates(ii), flat, "indices-to-coordinates", **tol)
    c.close(g.indices_to_coordinates(ii[0]), flat[0], "one-index", **tol)
    fi = c.rng.normal(size=(5, 3))*10
    x = g.indices_to_coordinates(fi)
    c.close(g.coordinates_to_indices(flat), ii.astype(float), "coordinates-to-indices", rtol=0,
            atol=1e-12*(sc/step.min()+10))
    c.close(g.coordinates_to_indices(x), fi, "inverse", rtol=0, atol=1e-12*(sc/step.min()+100))
    c.close(flat.mean(0), center, "centred", **tol)


@scenario("G01", quick=60, thorough=1000)
def unstructured(c):
    p = c.rng.normal(size=(3, c.integers(*gen.big((1, 20), (500, 3000)))))
    u = gr.UnstructuredGrid(p if c.chance(.5) else p.tolist())
    c.state(p.shape)
    c.note(points=p)
    c.same_array(u.to_points(), p.T, "points")
    c.equal(tuple(u.shape), (p.shape[1],), "shape")


@scenario("G01", quick=60, thorough=1000)
def spherical_grid(c):
    n = c.integers(1, 9)
    k = c.integers(1, 4)
    o = c.rng.normal(size=(k, 3))
    r = c.logu(1e-3, 10)
    g = gr.SphericalGrid(o if k > 1 or c.chance(.5) else o[0], r=r, n=n)
    c.note(n=n, origins=o, r=r)
    c.state(n, k)
    m = np.asarray(g.to_mgrid())
    c.equal(m.shape, (3, k, n, 2*n), "shape")
    c.equal(tuple(g.shape), (k, n, 2*n), "shape")
    th = np.arccos(special.roots_legendre(n)[0])[:, None]
    ph = np.pi/n*np.arange(2*n)[None]
    u = np.array(np.broadcast_arrays(np.sin(th)*np.cos(ph), np.sin(th)*np.sin(ph), np.cos(th)))
    want = o.T[:, :, None, None]+r*u[:, None]
    c.close(m, want, "points-on-spheres", rtol=0, atol=1e-12*(r+np.abs(o).max()))
    c.close(g.to_points(), want.reshape(3, -1).T, "points-in-c-order", rtol=0, atol=1e-12*(r+np.abs(o).max()))
    # a harmonic polynomial of low degree is found around every origin
    if n >= 2:
        e = c.rng.normal(size=3)
        f = np.einsum("i,ijkl->jkl", e, m)
        for j in range(k):
            a = g.spherical_harmonics.analysis(f[j])
            c.close(a[0, 0], np.sqrt(4*np.pi)*(e @ o[j]), "monopole", rtol=1e-9, atol=1e-10)
            c.close(a[0, 1], np.sqrt(4*np.pi/3)*r*e[2], "dipole", rtol=1e-9,
                    atol=1e-11*(1+np.abs(o).max()))


# ------------------------------------------------------------------ G02
def index_of(n, m, nmax):
    return (m, n) if m >= 0 else (nmax+m, nmax-1-n)


def ylm(n, m, theta, phi):
    """Spherical harmonic with Condon-Shortley phase by recursion in long double."""
    am = abs(m)
    x, s = np.cos(theta).astype(np.longdouble), np.sin(theta).astype(np.longdouble)
    p = np.ones_like(x)*np.sqrt(np.longdouble(1)/(4*np.pi))
    for k in range(1, am+1):        # normalised sectoral terms
        p = -p*s*np.sqrt(np.longdouble(2*k+1)/(2*k))
    if n > am:
        p0, p1 = p, x*np.sqrt(np.longdouble(2*am+3))*p
        for k in range(am+2, n+1):
            a = np.sqrt(np.longdouble(4*k*k-1)/(k*k-am*am))
            b = np.sqrt(np.longdouble((k-1)**2-am*am)/(4*(k-1)**2-1))
            p0, p1 = p1, a*(x*p1-b*p0)
        p = p1
    y = p.astype(float)*np.exp(1j*am*phi)
    return y if m >= 0 else (-1)**am*np.conj(y)


@scenario("G02", quick=150, thorough=3000)
def harmonics(c):
    nmax = c.choice([1, 2, 3, 4, 5, 6, 8, 11, 16, 20])
    if c.chance(.04):
        nmax = c.choice([c.integers(20, 70), 61])
    s = sh.SphericalHarmonics(nmax)
    th, ph = s.spherical_grid()
    c.equal((np.shape(th), np.shape(ph)), ((nmax, 2*nmax),)*2, "grid-shape")
    c.close(th[:, 0], np.arccos(special.roots_legendre(nmax)[0]), "theta-nodes", rtol=1e-9, atol=1e-12)
    c.close(ph[0], np.arange(2*nmax)*np.pi/nmax, "phi-nodes", rtol=1e-12)
    kind = c.choice(["one", "one", "sparse", "full", "real"]) if nmax <= 20 else c.choice(["one", "sparse"])
    a = np.zeros((nmax, nmax), complex)
    terms = []
    nm = [(n, m) for n in range(nmax) for m in range(-n, n+1)]
    if kind == "one":
        terms = [(nm[c.integers(0, len(nm)-1)], c.choice([1., 1j, -2.]))]
    elif kind == "sparse":
        terms = [(nm[c.integers(0, len(nm)-1)], complex(*c.rng.normal(size=2))) for i in range(3)]
    elif kind == "full":
        terms = [(q, complex(*c.rng.normal(size=2))) for q in nm]
    else:
        for n, m in nm:
            if m == 0:
                terms.append(((n, 0), c.rng.normal()))
            elif m > 0:
                v = complex(*c.rng.normal(size=2))
                terms += [((n, m), v), ((n, -m), (-1)**m*np.conj(v))]
    f = np.zeros((nmax, 2*nmax), complex)
    for (n, m), v in terms:
        a[index_of(n, m, nmax)] += v
        f += v*ylm(n, m, th, ph)
    c.note(nmax=nmax, kind=kind, terms=terms[:6])
    c.state(nmax, kind, terms[0][0])
    sc = np.abs(a).sum()*nmax
    got = s.synthesis(a.real.copy() if not a.imag.any() and c.chance(.5) else a)
    c.close(got, f, "synthesis", rtol=0, atol=1e-10*sc)
    an = s.analysis(f.real.copy() if kind == "real" else f)
    c.close(an, a, "analysis", rtol=0, atol=1e-10*sc)
    c.close(s.analysis(got), a, "analysis-of-synthesis", rtol=0, atol=1e-10*sc)
    if kind == "real":
        c.close(got.imag, np.zeros_like(got.imag), "real-synthesis", rtol=0, atol=1e-10*sc)
    seen = {}
    for n, m, p, q in s.indices():
        c.equal((int(p) % nmax, int(q) % nmax), tuple(k % nmax for k in index_of(n, m, nmax)), "layout")
        c.equal((int(s.n[p, q]), int(s.m[p, q])), (n, m), "layout-tables")
        seen[n, m] = 1
    c.equal(sorted(seen), sorted(nm), "all-indices")
    x = s.cartesian_grid(c.choice([1., 2.5]))
    r = np.sqrt(sum(np.square(v) for v in x))
    c.close(np.ptp(r), 0., "sphere", atol=1e-12)
    # arbitrary data on the grid is projected: analysing the synthesis changes nothing
    d = c.rng.normal(size=(nmax, 2*nmax))
    a1 = s.analysis(d)
    c.close(s.analysis(s.synthesis(a1)), a1, "projection", rtol=0, atol=1e-10*nmax**2)
    # the self tests on offer pass, and fail for a basis that is not orthonormal
    if nmax <= 6:
        s.check_orthogonality()
        s.check_identity()
        c.count("self-tests-pass")
        n, m, p, q = list(s.indices())[c.integers(0, nmax**2-1)]
        keep = s.ptmn.copy()
        s.ptmn[:, p, q] *= 1.01
        c.raises(AssertionError, s.check_orthogonality, "self-test-notices-wrong-norm")
        c.raises(AssertionError, s.check_identity, "self-test-notices-wrong-norm")
        s.ptmn[:] = keep


@scenario("G02", quick=200, thorough=5000)
def coordinates(c):
    shape = c.choice([(), (1,), (5,), (3, 4)])
    r = np.exp(c.rng.uniform(-3, 3, shape))
    th = c.rng.uniform(.01, np.pi-.01, shape)
    ph = c.rng.uniform(-np.pi+.001, np.pi-.001, shape)
    if c.chance(.3):
        th = np.full(shape, c.choice([0., np.pi, np.pi/2, 1e-6]))
    if c.chance(.2):
        ph = np.full(shape, c.choice([0., np.pi/2, -np.pi/2, 3.]))
    c.note(r=r, theta=th, phi=ph)
    c.state(shape, np.round(th, 1).ravel()[:2], np.round(ph, 1).ravel()[:2])
    x = sh.spherical_to_cartesian(r, th, ph)
    want = np.array([r*np.sin(th)*np.cos(ph), r*np.sin(th)*np.sin(ph), r*np.cos(th)])
    c.close(np.array(x), want, "to-cartesian", rtol=1e-12, scale=r)
    back = sh.cartesian_to_spherical(*want)
    c.close(back[0], r, "r", rtol=1e-12)
    c.close(back[1], th, "theta", rtol=1e-9, atol=2e-9)
    ok = np.sin(th) > 1e-5
    c.close(np.where(ok, back[2], 0), np.where(ok, ph, 0), "phi", rtol=1e-8, atol=1e-9)
    y = c.rng.normal(size=(3,)+shape)*10
    y2 = sh.spherical_to_cartesian(*sh.cartesian_to_spherical(*y))
    c.close(np.array(y2), y, "round-trip", rtol=1e-12, scale=np.abs(y).max(0))
    if (np.sin(th) > 1e-3).all():
        d = c.rng.normal(size=(3,)+shape)
        s = sh.derivatives_spherical_cartesian(list(d), r, th, ph)
        t = sh.derivatives_spherical_cartesian(s, r, th, ph, direction="to_cartesian")
        c.close(np.array(t), d, "vectors-round-trip", rtol=1e-8, scale=np.abs(d).max()*(1+1e-3/np.sin(th).min()))
        c.close(np.array(s[0]), (d*want/r).sum(0), "radial-component", rtol=1e-10, scale=np.abs(d).max())
        # the others are the rates of the angles along d
        h = 1e-6*r*np.sin(th)/(1+np.abs(d).max())
        p, q = (sh.cartesian_to_spherical(*(want+k*h*d)) for k in (1, -1))
        rates = sorted(((p[k]-q[k])/(2*h)).ravel().sum() for k in (1, 2))
        c.close(sorted(np.ravel(v).sum() for v in s[1:]), rates, "angular-rates", rtol=1e-4,
                atol=1e-4*np.abs(d).max()*np.size(r)/np.min(r*np.sin(th)))
        u = sh.derivatives_spherical_cartesian(
            sh.derivatives_spherical_cartesian(list(d), r, th, ph, "to_cartesian"), r, th, ph, "to_spherical")
        c.close(np.array(u), d, "vectors-round-trip-back", rtol=1e-8,
                scale=np.abs(d).max()*max(np.max(r), 1/np.min(r), 1)**2/np.sin(th).min())


# ------------------------------------------------------------------ M01
def solve(a, q, y0, t):
    """Independent integration of y'' = -(a - 2 q cos 2t) y from t[0]; columns y, y'."""
    s = solve_ivp(lambda t, y: [y[1], -(a-2*q*np.cos(2*t))*y[0]], [t[0], t[-1]], y0, method="DOP853",
                  rtol=1e-12, atol=1e-13, t_eval=t)
    return s.y


def trace(a, q):
    """cos(pi nu) from the even solution after one period."""
    return solve(a, q, [1., 0.], np.array([0., np.pi]))[0, -1]


def stable(c, zone=None):
    """(a, q, cos(pi nu)) well inside a stability zone."""
    while True:
        zone = zone or c.choice([1, 1, 1, 2])
        if zone == 1:
            a, q = c.uniform(-.4, .95), c.choice([c.uniform(.01, .9), c.uniform(.01, .4)])
            if c.chance(.25):
                a = 0.
            if c.chance(.1):
                q = -q
        else:
            a, q = c.uniform(1., 8.), c.uniform(.1, 2.)
        x = trace(a, q)
        if abs(x) < .99:
            return a, q, x, zone


@scenario("M01", quick=120, thorough=2500)
def floquet_solutions(c):
    a, q, x, zone = stable(c)
    M = Mathieu()
    tol = c.choice([1e-5, 1e-8])
    nc = c.choice([None, None, 12, 25])
    ng = c.choice([5, 5, 10])
    mode = c.choice(["det", "det", "det", "ivp"])
    kw = {}
    if nc is not None:
        kw["nc"] = nc
    if ng != 5:
        kw["ng"] = ng
    if tol != 1e-5:
        kw["tol_nu"] = tol
    if mode != "det" or c.chance(.3):
        kw["mode"] = mode
    c.note(a=a, q=q, kw=kw)
    c.state("%.2g" % a, "%.2g" % q, tol, nc, ng, mode)
    M.init_sol(a, q, **kw)
    # error of nu and what it does to the exponent's cosine
    err = {"det": tol, "ivp": 3e-3}[mode]
    amp = np.pi*max(np.sqrt(1-x*x), .02)
    c.close(np.cos(np.pi*M.nu), x, "exponent", rtol=0, atol=err*np.pi+1e-9)
    nu = np.arccos(x)/np.pi
    c.close(M.nu, nu, "exponent-value", rtol=0, atol=err*np.pi/amp+1e-8)
    if mode == "ivp":
        return
    T = np.linspace(0, c.choice([1., np.pi, 20.]), 40)
    y1, y2 = solve(a, q, [1., 0.], T), solve(a, q, [0., 1.], T)
    # the coefficients depend on nu with a condition like 1/sin(pi nu)
    k = 1/amp
    e = 60*k**2*err*(1+T[-1])+1e-8*k**2
    s1, s2 = np.abs(y1).max(1), np.abs(y2).max(1)
    g = [np.array([M.sol_y1(t, d) for t in T]) for d in range(3)]
    h = [np.array([M.sol_y2(t, d) for t in T]) for d in range(3)]
    c.close(g[0], y1[0], "even-solution", rtol=0, atol=e*max(s1))
    c.close(g[1], y1[1], "even-solution-derivative", rtol=0, atol=3*e*max(s1))
    c.close(h[0], y2[0], "odd-solution", rtol=0, atol=e*max(s2))
    c.close(h[1], y2[1], "odd-solution-derivative", rtol=0, atol=3*e*max(s2))
    # exact by construction, whatever the error of the exponent
    c.close(M.sol_y1(0.), 1., "even-initial-value", atol=1e-12*k)
    c.close(M.sol_y1(0., 1), 0., "even-initial-slope", atol=1e-9*k)
    c.close(M.sol_y2(0.), 0., "odd-initial-value", atol=1e-9*k)
    c.close(M.sol_y2(0., 1), 1., "odd-initial-slope", atol=1e-12*k)
    for nm, y in (("even", g), ("odd", h)):
        c.close(y[2], -(a-2*q*np.cos(2*T))*y[0], nm+"-equation", rtol=0,
                atol=e*20*max(max(s1), max(s2)))
    c.close(g[0]*h[1]-g[1]*h[0], np.ones(len(T)), "wronskian", rtol=0, atol=6*e*max(s1)*max(s2))
    c.close(M.sol_y1(T[7]), g[0][7], "scalar-time", rtol=1e-12)
    c.close(M.sol_y1(T), g[0], "array-time", rtol=0, atol=1e-9*max(s1))
    c.close(M.sol_y2(T, 1), h[1], "array-time", rtol=0, atol=1e-9*max(s2))
    # parity and higher derivatives against those of the equation
    t = T[c.integers(0, len(T)-1)]
    c.close(M.sol_y1(-t), M.sol_y1(t), "even", rtol=0, atol=1e-9*max(s1))
    c.close(M.sol_y2(-t), -M.sol_y2(t), "odd", rtol=0, atol=1e-9*max(s2))
    f, f1, f2 = a-2*q*np.cos(2*t), 4*q*np.sin(2*t), 8*q*np.cos(2*t)
    for nm, sol in (("even", M.sol_y1), ("odd", M.sol_y2)):
        y, yd, ydd = (sol(t, d) for d in range(3))
        c.close(sol(t, 3), -f1*y-f*yd, nm+"-third-derivative", rtol=0, atol=e*300*max(max(s1), max(s2)))
        c.close(sol(t, 4), -f2*y-2*f1*yd-f*ydd, nm+"-fourth-derivative", rtol=0,
                atol=e*4000*max(max(s1), max(s2)))
    # each derivative is that of the one below
    d, h = c.integers(0, 9), 2e-3
    for nm, sol, co in (("even", M.sol_y1, M.Cn[0]), ("odd", M.sol_y2, M.Cn[1])):
        m = len(co)//2
        size = [float(np.sum(np.abs(co)*np.abs(M.nu+2*np.arange(-m, m+1))**k)) for k in (d, d+1, d+5)]
        v = [sol(t+i*h, d) for i in (-2, -1, 1, 2)]
        c.close(sol(t, d+1), (8*(v[2]-v[1])-(v[3]-v[0]))/(12*h), nm+"-derivative-of-order-%d" % (d+1), rtol=0,
                atol=h**4/20*size[2]+1e-14*size[0]/h*(1+abs(t))*20+1e-12*size[1])
    # initial values anywhere
    t0 = c.choice([0., 0., c.uniform(-5, 5), 3.])
    y0 = c.choice([(0., 1.), (1., 0.), tuple(c.rng.normal(size=2))])
    A = np.asarray(M.init_value(y0, t0) if t0 or c.chance(.5) else M.init_value(y0))
    c.equal(A.shape, (2,), "two-coefficients")
    for d in (0, 1):
        c.close(A[0]*M.sol_y1(t0, d)+A[1]*M.sol_y2(t0, d), y0[d], "initial-values", rtol=0,
                atol=1e-7*k**2+(0 if t0 else 1e-9))


@scenario("M01", quick=120, thorough=2500)
def exponents(c):
    """All ways to find the exponent agree where they apply."""
    M = Mathieu()
    kind = c.choice(["stable", "stable", "small", "unstable", "adiabatic"])
    if kind == "stable":
        a, q, x, zone = stable(c)
        nu = np.arccos(x)/np.pi
        e = 1/np.sqrt(1-x*x)
        n = c.choice([20, 40, 80])
        got = M.nu_exp_det(np.double(a), np.double(q), n)
        c.close(got, nu, "determinant", rtol=0, atol=20*q*q*e/n**3+1e-9)
        for m, acc in (("RK45", 3e-2), ("Radau", 1e-2)):
            c.close(M.nu_exp_ivp(a, q, method=m), nu, "integration-"+m, rtol=0, atol=acc*e*(1+abs(a)+abs(q)))
        if c.chance(.3):
            c.close(M.nu_exp_ivp(a, q, nstep=c.choice([5, 50])), nu, "integration-steps", rtol=0,
                    atol=3e-2*e*(1+abs(a)+abs(q)))
        v, order = M.nu_tolerance(np.double(a), np.double(q), tol=1e-7)
        c.close(v, nu, "tolerance", rtol=0, atol=1e-6*e)
        c.close(v, M.nu_exp_det(np.double(a), np.double(q), order), "reported-order", rtol=1e-12)
    elif kind == "small":
        a, q = c.uniform(1e-3, .05), c.uniform(.01, .3)
        x = trace(a, q)
        nu = np.arccos(x)/np.pi
        c.close(np.cos(np.pi*M.nu_exp_d0ap(a, q)), x, "expansion", rtol=0, atol=4*q**6+2*a*q**4+1e-9)
        if c.chance(.5):
            M.init_sol(a, q, mode="d0ap")
            c.close(M.nu, M.nu_exp_d0ap(a, q), "mode", rtol=1e-12)
    elif kind == "adiabatic":
        q = c.uniform(.005, .1)
        a = c.uniform(-.2, 1.)*q**2
        nu = np.arccos(trace(a, q))/np.pi
        c.close(M.nu_exp_bla(a, q), nu, "adiabatic", rtol=1.5*q*q+1e-5)
    else:
        while True:
            a, q = c.uniform(-2, 5), c.uniform(.2, 3.)
            x = trace(a, q)
            if 1.05 < abs(x) < 1e3:
                break
        r = M.nu_exp_det(np.double(a), np.double(q), 40)
        c.ok(np.iscomplexobj(r), "unbounded-motion-is-flagged", nu=r)
        # the growth rate of the motion
        c.close(np.cosh(np.pi*np.real(r)), abs(x), "growth-rate", rtol=1e-2)
        c.ok(np.iscomplexobj(M.nu_exp_ivp(a, q, method="Radau")), "unbounded-motion-is-flagged")
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            v, order = M.nu_tolerance(np.double(a), np.double(q))
        c.ok(np.iscomplexobj(v), "unbounded-motion-is-flagged", nu=v)
        c.ok(any("unbounded" in str(i.message) for i in w), "unbounded-motion-warns")
        c.close(v, M.nu_exp_det(np.double(a), np.double(q), order), "reported-order", rtol=1e-12)
    c.note(kind=kind, a=a, q=q)
    c.state(kind, "%.2g" % a, "%.2g" % q)


@scenario("M01", quick=60, thorough=800)
def coefficients(c):
    """Fourier coefficients of the Floquet solutions: recurrence, scaling and sums."""
    a, q, x, zone = stable(c)
    nu = np.arccos(x)/np.pi
    # the exponent belongs to a class modulo 2 and a sign: any member does
    nu = c.choice([nu, nu, -nu, 2-nu, 2+nu])
    k = 1/max(np.sin(np.pi*abs(nu)), .1) if np.sin(np.pi*nu) else 10
    nc, ng = c.choice([4, 6, 10, 16]), c.choice([5, 8, 12])
    M = Mathieu()
    c.note(a=a, q=q, nu=nu, nc=nc, ng=ng)
    c.state(zone, nc, ng, "%.2g" % a, "%.2g" % q)
    rn, rp = M.coeff_ratio(a, q, nu, nc, ng)
    even, odd, cn = M.coeff_Cn(a, q, nu, nc, ng)
    n = np.arange(-nc, nc+1)
    c.equal((rn.shape, rp.shape), ((nc,), (nc,)), "one-ratio-per-coefficient")
    for v in (even, odd, cn):
        c.equal(v.shape, n.shape, "coefficients-both-sides")
    # C[n+1] = rp[n] C[n], C[n-1] = rn[n] C[n]
    c.close(cn[nc+1:], cn[nc:-1]*rp, "positive-ratios", rtol=1e-11, atol=0)
    c.close(cn[:nc], cn[1:nc+1]*rn, "negative-ratios", rtol=1e-11, atol=0)
    s = np.abs(cn).max()
    g = np.array([M.gn(i, a, q, nu) for i in n])
    c.close(g, (a-(nu+2*n)**2)/q, "recurrence-coefficient", rtol=1e-12, atol=0)
    inner = n[1:-1]
    res = g[1:-1]*cn[1:-1]-cn[2:]-cn[:-2]
    c.close(res, np.zeros(len(inner)), "recurrence", rtol=0, atol=s*(1e-7*k**2/abs(q)+1e-9*np.abs(g).max()))
    c.close(np.sum(even), 1, "even-scale", rtol=0, atol=1e-12*np.abs(even).sum()+1e-13)
    c.close(np.sum((nu+2*n)*odd), 1, "odd-scale", rtol=0, atol=1e-12*np.abs((nu+2*n)*odd).sum()+1e-13)
    for v in (even, odd):
        c.close(v*cn[nc], cn*v[nc], "same-solution", rtol=1e-11, atol=1e-13*s*np.abs(v).max())
    # the sums and the identities the recurrence implies for them
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        totn, totnu, totg, totgn, tots, totsnu = M.sum_c(a, q, nu, nc, ng)
    w = np.abs(even).sum()
    top = np.abs(g*n*even).sum()
    c.close(totn, np.sum(n*even), "sum-n", rtol=1e-10, atol=1e-11*top)
    c.close(totnu, np.sum((nu+2*n)*even), "sum-nu", rtol=1e-10, atol=1e-11*top)
    c.close(totg, np.sum(g*even), "sum-g", rtol=1e-10, atol=1e-11*top)
    c.close(totgn, np.sum(g*n*even), "sum-gn", rtol=1e-10, atol=1e-11*top)
    c.close(tots, np.sum(odd), "sum-odd", rtol=1e-10, atol=1e-11*np.abs(odd).sum())
    c.close(totsnu, 1, "sum-odd-nu", rtol=1e-9, atol=1e-11*np.abs((nu+2*n)*odd).sum())
    if nc >= 10:
        c.close(totg, 2., "identity-g", rtol=0, atol=1e-6*k**2*w*(1+1/abs(q)))
        c.close(totgn, 2*totn, "identity-gn", rtol=0, atol=1e-6*k**2*w*nc*(1+1/abs(q)))
        # two consistency figures are printed; both vanish
        f = [float(v) for v in out.getvalue().split()]
        c.equal(len(f), 2, "two-figures")
        c.close(f, [0., 0.], "printed-figures", rtol=0,
                atol=1e-6*k**2*w*nc*(1+1/abs(q))*max(1, abs(even[nc]/odd[nc])))


@scenario("M01", quick=15, thorough=150)
def calls(c):
    M = Mathieu()
    c.state(c.idx)
    k = c.idx % 3
    if k == 0:
        c.raises(AttributeError, lambda: M.sol_y1(1.), "needs-initialisation")
        c.raises(AttributeError, lambda: M.sol_y2(1.), "needs-initialisation")
    elif k == 1:
        c.raises(ValueError, lambda: M.init_sol(.01, .1, mode="nonsense"), "unknown-mode")
    else:
        # a second initialisation replaces the first
        a, q, x, z = stable(c, 1)
        b, p, y, z = stable(c, 1)
        M.init_sol(a, q)
        M.init_sol(b, p)
        N = Mathieu()
        N.init_sol(b, p)
        t = np.linspace(0, 9, 20)
        c.same_array(M.sol_y1(t), N.sol_y1(t), "fresh-after-init")
        c.same_array(M.sol_y2(t, 1), N.sol_y2(t, 1), "fresh-after-init")


# ------------------------------------------------------------------ A01
def adjustable(c):
    """A trap with a minimum, distinct modes and three groups of dc electrodes that span the forces."""
    for _ in range(25):
        descs, rf, x0 = traps.ring_trap(c)
        k = c.uniform(1.15, 1.6)
        stretch = np.array([k, 1/k]) if c.chance(.5) else np.array([1/k, k])
        turn = c.choice([0., c.uniform(0, 3.)])
        R = np.array([[np.cos(turn), -np.sin(turn)], [np.sin(turn), np.cos(turn)]])
        for d in descs:
            d["paths"] = [p*stretch @ R.T for p in d["paths"]]
        n = len(descs)
        free = [i for i in range(n) if not rf[i]]
        if len(free) < 3:
            continue
        c.rng.shuffle(free)
        groups = [[f] for f in free[:3]]
        for f in free[3:]:
            if c.chance(.5):
                groups[c.integers(0, 2)].append(f)
        F = np.array([sum(grad(descs[i], x0) for i in gp) for gp in groups]).T
        if np.linalg.cond(F) > 100:
            continue
        dcs = np.zeros(n)
        dcs[free] = c.rng.normal(size=len(free))*.01
        st = traps.stationary(x0, descs, dcs, np.array(rf), 1.)
        if st is None:
            continue
        y, g, h = st
        ew = np.linalg.eigvalsh(h)
        if ew[0] < .02*ew[2] or np.linalg.norm(y-x0) > .5*x0[2] or min(np.diff(ew)) < .02*ew[2]:
            continue
        F = np.array([sum(grad(descs[i], y) for i in gp) for gp in groups]).T
        if np.linalg.cond(F) < 200:
            # strong enough for the absolute tolerances of the minimiser
            k = 30/ew[0]*c.uniform(1, 10)
            return descs, np.array(rf), dcs*k, y, h*k, groups, np.sqrt(k)
    return None


def grad(desc, x, order=1):
    return jets.full(jets.electrode_jet(np.asarray(x, float)[None], desc, order), order)[0].astype(float)


@scenario("A01", quick=40, thorough=800)
def history(c):
    t = adjustable(c)
    if t is None:
        c.giveup("no adjustable trap")
    descs, rf, dcs, y, h, groups, coeff = t
    s = traps.build_all(descs, dcs, rf)
    s.rf_coeff = coeff
    names = [e.name for e in s]
    adj = Adjust(s)
    E = [[names[i] for i in gp] for gp in groups]
    give = c.chance(.5)
    order = c.choice([None, None, [0, 1, 2], [2, 0, 1]])
    x0, ax = adj.set_move_init(E_config=E, xm=y.copy() if give else None, axis_order=order) if give else (None, None)
    if not give:        # the default start is (0, 0, 0)
        try:
            x0, ax = adj.set_move_init(E_config=E, axis_order=order)
            there = np.linalg.norm(x0-y) < .2*y[2]
        except (ValueError, np.linalg.LinAlgError):
            there = False
        if not there:
            c.count("no-minimum-found-from-the-origin")
            try:
                xm = s.minimum(y+.01)
            except ValueError as e:
                c.giveup(str(e)[:100])
            x0, ax = adj.set_move_init(E_config=E, xm=xm, axis_order=order)
    tol = 1e-3*y[2]
    c.close(x0, y, "start-at-the-minimum", rtol=0, atol=tol)
    ew, ev = np.linalg.eigh(h)
    B = np.array(adj.basis)
    c.close(B @ B.T, np.eye(3), "basis-orthonormal", atol=1e-9)
    H = B @ h @ B.T
    c.close(H, np.diag(np.diag(H)), "basis-of-modes", rtol=0, atol=2e-2*ew[2])
    c.close(np.diag(H), adj.curves[0], "curvatures", rtol=2e-2, scale=ew[2])
    if order is None:
        c.ok((np.diff(B[:, 0]) <= 1e-9).all(), "ordered-by-first-component")
    c.equal([k for k, v in ax], ["axial", "radial1", "radial2"], "axis-names")
    # books
    now = dict(zip(names, dcs))
    init = {k: float(v) for k, v in now.items()}
    adj.set_volts(init, save=True)
    saved = {k: [v] for k, v in init.items()}
    nx = 1
    ops = []
    pending = None
    for step in range(c.integers(2, 6)):
        op = c.choice(["propose", "propose", "accept", "reject", "own", "set", "set-some"])
        if op == "accept" and pending is None:
            op = "propose"
        ops.append(op)
        base = {k: v[-1] for k, v in saved.items()}
        if op == "propose":
            axis, dis = c.integers(0, 2), y[2]*c.uniform(.005, .03)*c.choice([1, -1])
            l = c.choice([1., 200e-6])
            method = c.choice(["force", "force", "position"])
            same = c.chance(.3)
            kw = dict(axis=axis, l=l, dis=dis*l, same_scale=same, method=method)
            if c.chance(.15):       # the stated defaults
                kw = {}
                axis, l, dis, same, method = 1, 200e-6, 10e-9/200e-6, False, "force"
            xm = np.array(adj.xms[-1])
            curve = adj.curves[0 if same else -1][axis]
            s_now = {e.name: e.dc for e in s}
            try:
                dV, xs, fc, vc = adj.propose_move(**kw)
            except ValueError as e:     # Nelder-Mead found no minimum: voltages applied, nothing proposed
                c.giveup(str(e)[:100])
            F = np.array([sum(grad(descs[names.index(k)], xm if method == "force" else xm+dis*B[axis]) for k in gp)
                          for gp in E]).T
            if method == "force":
                want = curve*dis*B[axis]
            else:
                want = -jets.full(traps.total_jet((xm+dis*B[axis])[None], descs,
                                                  np.array([s_now[n] for n in names]), rf, coeff, 1), 1)[0].astype(float)
            c.close(F @ dV, want, "suggested-change-has-the-requested-effect", rtol=1e-6,
                    scale=np.linalg.norm(want)+1e-6*ew[2])
            cfg = {k: base[k]+d for gp, d in zip(E, dV) for k in gp}
            now = dict(now)
            now.update(cfg)
            pending = dict(dV=dV, xm=np.array(xs[0]))
            c.close(xs[1], np.array(xs[0])-xm, "reported-offset", rtol=0, atol=1e-12)
            hn = jets.full(traps.total_jet(np.array(xs[:1]), descs, np.array([now[n] for n in names]), rf, coeff, 2),
                           2)[0].astype(float)
            en, vn = np.linalg.eigh(hn)
            if en[0] > 0 and (min(np.diff(en)) > 1e-3*en[2]):
                Vn = vc+adj.basis
                c.close(Vn @ hn @ Vn.T, np.diag(np.square(fc+np.sqrt(adj.curves[0]))), "reported-frequency-changes",
                        rtol=0, atol=1e-4*en[2])
                c.close(Vn @ Vn.T, np.eye(3), "reported-axis-changes", atol=1e-9)
                c.ok((np.diff(Vn[:, 0]) <= 1e-9).all(), "ordered-by-first-component")
            st = traps.stationary(xs[0], descs, np.array([now[n] for n in names]), rf, coeff)
            if st is not None and np.linalg.norm(st[0]-xs[0]) < .2*y[2]:
                c.close(xs[0], st[0], "new-minimum", rtol=0,
                        atol=.03+.01*y[2])    # the simplex can stop short
            if method == "position" and all(s_now[k] == base[k] for k in names):
                g = jets.full(traps.total_jet((xm+dis*B[axis])[None], descs, np.array([now[n] for n in names]),
                                              rf, coeff, 1), 1)[0].astype(float)
                c.close(g, np.zeros(3), "stationary-at-the-requested-position", rtol=0,
                        atol=1e-6*(np.linalg.norm(want)+ew[2]*abs(dis)))
        elif op == "accept":
            before = len(adj.xms)
            adj.next_step(accept=True)
            # relative to the last record, as all changes
            cfg = {k: base[k]+d for gp, d in zip(E, pending["dV"]) for k in gp}
            now.update(cfg)
            for k in names:
                saved[k].append(cfg.get(k, base[k]))
            nx += 1
            c.equal(len(adj.xms), before+1, "one-position-more")
            c.close(adj.xms[-1], pending["xm"], "records-the-proposed-position", rtol=0, atol=1e-12)
            pending = None
            c.raises(AttributeError, lambda: adj.next_step(), "a-proposal-is-accepted-once")
        elif op == "reject":
            adj.next_step(accept=False)
            now = dict(base)
            pending = None
            c.raises(AttributeError, lambda: adj.next_step(), "a-rejected-proposal-is-gone")
        elif op == "own":
            dV = c.rng.normal(size=3)*.003*coeff**2
            try:
                adj.next_step(deltaV=dV)
            except ValueError as e:
                c.giveup(str(e)[:100])
            cfg = {k: base[k]+d for gp, d in zip(E, dV) for k in gp}
            now.update(cfg)
            for k in names:
                saved[k].append(cfg.get(k, base[k]))
            nx += 1
            pending = None
            st = traps.stationary(adj.xms[-1], descs, np.array([now[n] for n in names]), rf, coeff)
            if st is not None and np.linalg.norm(st[0]-adj.xms[-1]) < .2*y[2]:
                c.close(adj.xms[-1], st[0], "own-step-records-its-minimum", rtol=0, atol=.03+.01*y[2])
            hn = jets.full(traps.total_jet(np.array(adj.xms[-1:]), descs, np.array([now[n] for n in names]), rf, coeff, 2),
                           2)[0].astype(float)
            c.close(np.sort(adj.curves[-1]), np.linalg.eigvalsh(hn), "own-step-records-its-curvatures", rtol=1e-6, scale=ew[2])
        elif op == "set":
            cfg = {k: base[k]+c.rng.normal()*1e-3*coeff**2 for k in names}
            adj.set_volts(cfg, save=False)
            now.update(cfg)
        else:
            ks = [k for k in names if c.chance(.5)]
            cfg = {k: base[k]+c.rng.normal()*1e-3*coeff**2 for k in ks}
            adj.set_volts(cfg, save=True)
            now.update(cfg)
            for k in names:
                saved[k].append(cfg.get(k, base[k]))
        c.close([s[k].dc for k in names], [now[k] for k in names], "voltages-in-effect", rtol=1e-12, atol=1e-12,
                ops=ops)
        c.equal(sorted(adj.volts), sorted(names), "every-electrode-has-a-record")
        for k in names:
            c.close(adj.volts[k], saved[k], "recorded-voltages", rtol=1e-12, atol=1e-12, ops=ops, electrode=k)
        c.equal((len(adj.xms), len(adj.curves)), (nx, nx), "positions-and-curvatures-recorded", ops=ops)
        c.close([e.rf for e in s], rf, "rf-unchanged")
    c.note(ops=ops, groups=E, minimum=y)
    c.state(*ops, len(descs))
    if c.chance(.3):
        adj.next_step(accept=False)
        c.close([s[k].dc for k in names], [saved[k][-1] for k in names], "reject-restores", rtol=1e-12, atol=1e-12)


@scenario("A01", quick=12, thorough=100)
def needs_proposal(c):
    t = adjustable(c)
    if t is None:
        c.giveup("no adjustable trap")
    descs, rf, dcs, y, h, groups, coeff = t
    s = traps.build_all(descs, dcs, rf)
    s.rf_coeff = coeff
    adj = Adjust(s)
    adj.set_move_init(E_config=[["e%d" % i for i in g] for g in groups], xm=y)
    adj.set_volts({e.name: e.dc for e in s}, save=True)
    c.state(len(descs))
    c.raises(AttributeError, lambda: adj.next_step(), "nothing-proposed")
    c.close([e.dc for e in s], dcs, "voltages-unchanged", rtol=1e-12)
    c.equal([len(v) for v in adj.volts.values()], [1]*len(s), "records-unchanged")


# ------------------------------------------------------------------ X01
@scenario("X01", quick=400, thorough=10000)
def xic(c):
    text, want = [], []

    def noise():
        for i in range(c.choice([0, 0, 1, 2])):
            text.append(c.choice(["", "", "L METAL;", "(Symbol trap);", "9 trap;", "DS 0 1 1;", "B 100 200 300 400;",
                                  "5350 1;", "DF;", "E", "W 10 0 0 100 100;", "(P 1 2;)", "L P;"]))
    ending = c.choice(["\n", "\n", "\r\n", ""])
    for i in range(c.integers(*gen.big((0, 6), (20, 80)))):
        noise()
        n = c.integers(*gen.big((2, 9), (3, 60)))
        xy = c.rng.integers(-10**c.integers(1, 7), 10**c.integers(1, 7)+1, (n, 2)).tolist() if c.chance(.8) else \
            np.round(c.rng.normal(size=(n, 2))*1e4, 2).tolist()
        if c.chance(.4):  # vertices drawn twice in a row, or back at an earlier one
            for i in range(1, n):
                if c.chance(.4):
                    xy[i] = list(xy[c.choice([i-1, i-1, 0, c.integers(0, i)])])
        sep = c.choice([" ", "  ", "\t"])
        text.append("P"+c.choice([" ", "  "])+sep.join(map(str, xy[0])))
        for j, p in enumerate(xy[1:]):
            if c.chance(.05):
                text.append("")
            text.append(c.choice([" ", "   "])+sep.join(map(str, p))+(";" if j == n-2 else c.choice(["", "", " "])))
        want.append(np.array(xy, float)*1e-8)
    noise()
    lines = [t+ending for t in text]
    c.note(text=lines)
    c.state(len(want), tuple(len(w) for w in want), len(text)-sum(len(w) for w in want))
    src = c.choice(["list", "generator", "file"])
    if src == "list":
        got = xic_to_list(lines)
    elif src == "generator":
        got = xic_to_list(iter(lines))
    else:
        got = xic_to_list(io.StringIO("\n".join(text)))
    c.equal(len(got), len(want), "polygon-count")
    for g, w in zip(got, want):
        c.close(np.asarray(g), w, "vertices", rtol=1e-14)
    c.count("texts")
