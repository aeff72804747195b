"""S08-S09: voltage optimisation, shims and waveforms against linear programs of our own."""
import contextlib
import io
import itertools
import logging
import math

import numpy as np
from scipy import optimize as so

from electrode import pattern_constraints as pc
from electrode import system as module
from electrode.system import System

from .. import gen, jets, oracles, traps
from ..core import scenario
from .electrostatics import build
from .statics import random_coord

NAMES = [n for o in range(1, 4) for n in jets.NAMES[o]] + ["zz", "yyy", "xxx", "zzz", "zx", "yx", "", "zzzz", "xxyy", "xxxx",
                                                            "xyzz", "zzzzz", "xxxxx", "yyzzz", "xxyyz"]


def pattern(c, nmin=4, nmax=10):
    """A surface with n separately driven electrodes."""
    n = c.integers(*gen.big((nmin, nmax), (2*nmax, 3*nmax)))
    k = c.choice(["grid", "grid", "random", "points", "sectors", "square4"])
    descs = []
    if k == "square4":
        for x, y in ((0, 0), (-1, 0), (-1, -1), (0, -1)):
            descs.append(traps.poly_desc([gen.rect(x, y, 1, 1)]))
    elif k == "grid":
        w = int(math.ceil(math.sqrt(n)))
        for i in range(n):
            descs.append(traps.poly_desc([gen.rect(i % w-w/2., i//w-w/2., 1, 1)+c.rng.uniform(-.2, .2, 2)]))
    elif k == "sectors":
        ph = c.choice([0., c.uniform(0, 1)])
        for i in range(n):
            descs.append(traps.poly_desc([traps.sector(.2, 2.5, ph+2*np.pi*i/n, ph+2*np.pi*(i+1)/n, 4)]))
    elif k == "random":
        for i in range(n):
            descs.append(traps.poly_desc([gen.star(c.rng, 6, .3, 1.)+c.rng.uniform(-2, 2, 2)]))
    else:
        for i in range(n):
            descs.append({"kind": "point", "points": c.rng.uniform(-2, 2, (2, 2)), "areas": c.rng.uniform(.2, 1, 2),
                          "scale": 1.})
    return descs, k


def row(descs, x, name, rot=None):
    """Effect of unit voltages on the (rotated) partial derivative `name` at x."""
    o = len(name)
    out = np.empty(len(descs))
    idx = tuple("xyz".index(a) for a in name)
    for i, d in enumerate(descs):
        t = jets.full(jets.electrode_jet(np.asarray(x, float)[None], d, o), o)[0].astype(float)
        if rot is not None:
            for ax in range(o):
                t = np.tensordot(t, rot, (0, 0))      # cycles the axes, contracting each once
        out[i] = t[idx]
    return out


def lp(cost, A_eq, b_eq, A_ub, b_ub, n):
    r = so.linprog(cost, A_ub=A_ub if len(A_ub) else None, b_ub=b_ub if len(A_ub) else None,
                   A_eq=A_eq if len(A_eq) else None, b_eq=b_eq if len(A_eq) else None,
                   bounds=[(None, None)]*n, method="highs")
    return r


def solving(c, fn):
    """The interior point solver may stop undecided; an infeasibility claim is a verdict, though."""
    try:
        return fn()
    except ValueError as e:
        if "unknown" not in str(e):
            raise
        c.giveup(e)


class Problem(object):
    """Range and value constraints, kept both as objects of the tree and as our own rows."""

    def __init__(self, n):
        self.n, self.obj = n, []
        self.A, self.b, self.E, self.e = [], [], [], []

    def le(self, a, v):
        self.A.append(np.asarray(a, float))
        self.b.append(v)

    def eq(self, a, v):
        self.E.append(np.asarray(a, float))
        self.e.append(v)

    def rng(self, lo, hi, index=None):
        self.obj.append(pc.PatternRangeConstraint(min=lo, max=hi, index=index))
        for i in (range(self.n) if index is None else [index]):
            u = np.eye(self.n)[i]
            if lo is not None and lo == hi:
                self.eq(u, lo)
                continue
            if lo is not None:
                self.le(-u, -lo)
            if hi is not None:
                self.le(u, hi)

    def check(self, c, p, what, scale=1.):
        for a, v in zip(self.A, self.b):
            c.close(max(0., float(a @ p)-v), 0., what+"-inequality-holds", rtol=0, atol=1e-5*scale*max(1, np.abs(a).max()))
        for a, v in zip(self.E, self.e):
            c.close(float(a @ p), v, what+"-equality-holds", rtol=0, atol=1e-5*scale*max(1, np.abs(a).max()))


def add_value_constraints(c, P, descs, p_feas):
    """SingleValueConstraints (min/max/offset) that p_feas satisfies."""
    for _ in range(c.integers(0, 2)):
        x = np.r_[c.rng.normal(size=2)*.5, c.uniform(.6, 1.5)]
        nm = c.choice(["x", "y", "z", "xx", "zz", "xy", ""])
        a = row(descs, x, nm)
        v = float(a @ p_feas)
        k = c.choice(["min", "max", "both", "offset"])
        kw = {}
        if k in ("min", "both"):
            kw["min"] = v-c.uniform(0.01, .5)*np.abs(a).max()
            if v >= 0 and c.chance(.5):
                kw["min"] = c.choice([0, 0.])
            P.le(-a, -kw["min"])
        if k in ("max", "both"):
            kw["max"] = v+c.uniform(0.01, .5)*np.abs(a).max()
            if v <= 0 and kw.get("min") != 0 and c.chance(.5):
                kw["max"] = c.choice([0, 0.])
            P.le(a, kw["max"])
        if k == "offset":
            kw["offset"] = v
            P.eq(a, v)
        P.obj.append(pc.PotentialObjective(x=x, derivative=nm, **kw))


def objectives(c, descs, kmax, ck):
    """Independent objectives: (object, row, value)"""
    out = []
    x0 = np.r_[c.choice([0., .3]), c.choice([0., -.2]), c.uniform(.6, 1.4)]
    k = c.integers(1, kmax)
    names = list(c.rng.permutation(NAMES[:15]+NAMES[15:]))
    if c.chance(.3):
        names = ["x", "y"]+[m for m in names if m not in ("x", "y")]
    for nm in names:
        if len(out) == k:
            break
        nm = str(nm)
        if nm == "":
            continue
        x = x0 if c.chance(.7) else x0+c.rng.normal(size=3)*.1
        C = None
        if c.chance(.4):
            C, _ = random_coord(c)
        a = row(descs, x, nm, C)
        B = np.array([o[1]/np.abs(o[1]).max() for o in out]+[a/max(np.abs(a).max(), 1e-300)])
        if np.abs(a).max() < 1e-4 or np.linalg.svd(B)[1].min() < 2e-2:
            continue
        v = c.choice([1., 0., 0., c.rng.normal(), 10.])
        out.append([nm, a, v, x, C])
    return out


# ------------------------------------------------------------------ S08
@scenario("S08", quick=160, thorough=4000)
def optimize(c):
    descs, kind = pattern(c)
    n = len(descs)
    s = traps.build_all(descs, np.zeros(n), np.zeros(n))
    obs = objectives(c, descs, min(5, n-1), None)
    if not obs:
        return
    if not any(o[2] for o in obs):
        c.choice(obs)[2] = 1.
    P = Problem(n)
    lo, hi = -c.uniform(.5, 2), c.uniform(.5, 2)
    P.rng(lo, hi)
    if c.chance(.3):
        P.rng(None, c.uniform(.1, .5), c.integers(0, n-1))
    if c.chance(.2) and n > len(obs)+1:
        i = c.integers(0, n-1)
        P.rng(0., 0., i)
    feas = np.zeros(n)
    add_value_constraints(c, P, descs, feas)
    objs = []
    for nm, a, v, x, C in obs:
        if c.chance(.25):
            w = [c.choice([1., -1., .5]), c.choice([1., 2.]), c.choice([1., .3]), -.5, .2][:c.integers(2, 5)]
            names = [nm, "z", "xx", "y", "yz"]
            comp = [pc.PotentialObjective(x=x, derivative=mi, rotation=None if i else C, value=wi)
                    for i, (wi, mi) in enumerate(zip(w, names))]
            objs.append(pc.MultiPotentialObjective(components=comp, value=v))
            a[:] = w[0]*a+sum(wi*row(descs, x, mi) for wi, mi in zip(w[1:], names[1:]))
        else:
            objs.append(pc.PotentialObjective(x=x, derivative=nm, rotation=C, value=v))
    B = np.array([o[1] for o in obs])
    b = np.array([o[2] for o in obs])
    if np.abs(B).max(1).min() < 1e-4:
        return
    sv = np.linalg.svd(B/np.abs(B).max(1, keepdims=True))[1]
    if sv.min() < 2e-2:
        return
    E = list(P.E)+list(np.c_[B])
    # variables: p, k
    Aeq = [np.r_[e, 0.] for e in P.E]+[np.r_[B[i], -b[i]] for i in range(len(b))]
    beq = list(P.e)+[0.]*len(b)
    Aub = [np.r_[a, 0.] for a in P.A]
    r = lp(np.r_[np.zeros(n), -1.], Aeq, beq, Aub, P.b, n+1)
    if r.status != 0:
        c.count("problem-not-solvable")
        return
    best = -r.fun
    c.note(kind=kind, electrodes=n, objectives=[(o[0], o[2], o[4] is not None) for o in obs], best=best)
    c.state(kind, n, [(o[0], round(o[2], 3)) for o in obs])
    cons = P.obj+objs
    if c.chance(.5):
        cons = objs+P.obj
    p, k = solving(c, lambda: s.optimize(cons, verbose=False))
    c.equal(np.shape(p), (n,), "shape")
    P.check(c, p, "constraint", max(1, abs(lo), hi))
    sc = np.abs(B).sum(1)*max(abs(lo), hi)
    c.close(B @ p, k*b, "objectives-proportional-to-their-values", rtol=0, atol=2e-5*sc)
    c.close(k, best, "strength-is-maximal", rtol=2e-4, atol=3e-5*(1+np.abs(r.x[:n]).max()/np.abs(b).max()),
            scale=abs(best))


@scenario("S08", quick=30, thorough=600)
def solver_options(c):
    """Options given to optimize(), shims() and solve() are the ones that the solver works with."""
    from cvxopt import modeling, solvers
    descs, kind = pattern(c, 4, 9)
    n = len(descs)
    s = traps.build_all(descs, np.zeros(n), np.zeros(n))
    obs = objectives(c, descs, min(2, n-2), None)
    if not obs:
        return
    B = np.array([o[1] for o in obs])
    if np.abs(B).max(1).min() < 1e-4 or np.linalg.svd(B/np.abs(B).max(1, keepdims=True))[1].min() < 2e-2:
        return
    how = c.choice(["optimize", "shims", "solve"])
    given = c.choice([{"maxiters": 1}, {"maxiters": 1}, {"maxiters": 77, "feastol": 1e-6}, {"abstol": 1e-5}, {}])
    c.note(kind=kind, how=how, options=given)
    c.state(kind, n, how, sorted(given.items()), [o[0] for o in obs])
    seen = []
    real = modeling.op.solve

    def spy(self, *a, **k):
        seen.append(dict(solvers.options))
        return real(self, *a, **k)
    ctr = [pc.PatternRangeConstraint(min=-1., max=1.)]
    loud = how != "shims" and c.chance(.4)

    def run():
        if how == "shims":
            return s.shims([(o[3], o[4], o[0]) for o in obs], **given)
        if how == "optimize":
            return s.optimize(ctr+[pc.PotentialObjective(x=o[3], derivative=o[0], rotation=o[4], value=1.) for o in obs],
                              verbose=loud, **given)
        cost = pc.VoltageDerivativeConstraint(order=0, weight=1., norm="one")
        return s.solve([[pc.PatternRangeConstraint(min=-9., max=9.), cost]
                        + [pc.PotentialObjective(x=o[3], derivative=o[0], rotation=o[4], offset=.01*np.abs(B[i]).max())
                           for i, o in enumerate(obs)]], [], verbose=loud, **given)
    before = dict(solvers.options)
    modeling.op.solve = spy
    failed = None
    log = []
    h = logging.Handler()
    h.emit = lambda r: log.append(r.getMessage())
    lg = module.logger
    old = lg.level, lg.propagate
    lg.addHandler(h)
    lg.setLevel(logging.INFO)
    lg.propagate = False
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            run()
    except ValueError as e:
        failed = str(e)
    finally:
        modeling.op.solve = real
        lg.removeHandler(h)
        lg.setLevel(old[0])
        lg.propagate = old[1]
    if loud:
        size = {ln.split(":")[0]: int(ln.split(":")[1]) for ln in log if ":" in ln}
        for k in ("variables", "inequalities", "equalities"):
            c.ok(size.get(k, -1) > 0-(k == "equalities" and how == "optimize"), "verbose-states-the-size-of-the-problem", log=log)
    else:
        c.equal(log, [], "quiet-when-not-verbose")
    c.equal(dict(solvers.options), before, "options-restored")
    c.ok(seen, "solver-called")
    for o in seen:
        for k, v in given.items():
            c.equal(o.get(k), v, "options-reach-the-solver")
        c.equal(bool(o.get("show_progress", True)), loud, "quiet-when-not-verbose")
    if given.get("maxiters") == 1:
        c.ok(failed is not None, "an-unfinished-solution-is-refused")
        c.count("refused")
    elif failed is None:
        c.count("solved")


def another(c, descs):
    """Electrodes of the same number elsewhere."""
    out = []
    for d in descs:
        d = dict(d)
        k = "paths" if "paths" in d else "points"
        d[k] = [np.array(q)*c.choice([1., 1.2])+c.rng.uniform(-.4, .4, 2) for q in d[k]]
        out.append(d)
    return out


@scenario("S08", quick=40, thorough=1000)
@scenario("S09", quick=40, thorough=1000)
def reused_constraints(c):
    """Objective and constraint objects carry nothing from one call, or system, over to the next."""
    descs, kind = pattern(c, 4, 8)
    n = len(descs)
    s = traps.build_all(descs, np.zeros(n), np.zeros(n))
    names = [str(i) for i in c.rng.permutation(["x", "y", "z", "xx", "xy", "zz", "yyz", "xxx"])[:c.integers(1, 2)]]
    x = np.r_[c.rng.normal(size=2)*.3, c.uniform(.6, 1.3)]
    R = None if c.chance(.5) else random_coord(c)[0]
    how = c.choice(["optimize", "solve", "multi"])

    def fresh():
        o = [pc.PotentialObjective(x=x.copy(), derivative=nm, rotation=R, value=1.) for nm in names]
        if how == "multi":
            o = [pc.MultiPotentialObjective(components=o, value=1.)]
        if how == "solve":
            o = [pc.PotentialObjective(x=x.copy(), derivative=nm, rotation=R, value=1., offset=.1) for nm in names]
            return [[pc.PatternRangeConstraint(min=-3., max=3.)]+o]*1+[[]]+[[pc.VoltageDerivativeConstraint(order=0, weight=1., norm="one")]]
        return [pc.PatternRangeConstraint(min=-1., max=1.)]+o

    def run(s, k):
        if how == "solve":
            return s.solve([k[0]+k[2], k[0]+k[2]], k[1], verbose=False)
        return s.optimize(k, verbose=False)

    def parts(k):
        for i in k[0] if how == "solve" else k:
            for j in getattr(i, "components", [i]):
                if isinstance(j, pc.PotentialObjective):
                    yield j
    old = fresh()
    c.note(kind=kind, n=n, names=names, x=x, rotated=R is not None, how=how)
    steps = []
    for i in range(c.integers(2, 3)):
        k = c.choice(["same", "moved", "system", "point", "shorter"]) if i else "first"
        steps.append(k)
        if k == "moved":        # the electrodes of this system
            for e, d in zip(s, another(c, descs)):
                if hasattr(e, "paths"):
                    e.paths = [np.array(q) for q in d["paths"]]
                else:
                    e.points = np.array(d["points"])
        elif k == "system":
            descs = another(c, descs)
            s = traps.build_all(descs, np.zeros(len(descs)), np.zeros(len(descs)))
        elif k == "point":
            x = x+c.rng.normal(size=3)*.1
            for j in parts(old):
                j.x = x.copy()
        elif k == "shorter" and len(s) > 4:
            del s[c.integers(0, len(s)-1)]
        try:
            want = run(s, fresh())
        except ValueError:
            c.raises(ValueError, lambda: run(s, old), "same-outcome-as-with-new-objects")
            continue
        try:
            got = run(s, old)
        except ValueError as e:
            got = None
            c.ok(False, "same-outcome-as-with-new-objects", error=str(e), steps=steps)
        if got is not None:
            for a, b in zip(got, want):
                c.close(np.ravel(np.asarray(a, float)), np.ravel(np.asarray(b, float)), "same-as-with-new-objects", rtol=1e-6, atol=1e-6,
                        steps=steps)
    c.state(kind, n, names, how, steps)


@scenario("S08", quick=120, thorough=3000)
def shims(c):
    descs, kind = pattern(c, 4, 9)
    n = len(descs)
    s = traps.build_all(descs, np.zeros(n), np.zeros(n))
    obs = objectives(c, descs, min(4, n), None)
    if not obs:
        return
    B = np.array([o[1] for o in obs])
    extra = []
    spec = [(o[3], o[4], o[0]) for o in obs]
    if c.chance(.3) and len(obs) > 1:
        nm, a, v, x, C = obs[-1]
        extra = [pc.MultiPotentialObjective(components=[
            pc.PotentialObjective(x=x, derivative=nm, rotation=C, value=2.)])]
        B[-1] *= 2
        spec = spec[:-1]
    lo, hi = c.choice([(-1., 1.), (-1., 1.), (-.5, 2.)])
    cons = None
    if (lo, hi) != (-1., 1.) or c.chance(.3):
        cons = [pc.PatternRangeConstraint(min=lo, max=hi)]
    c.note(kind=kind, electrodes=n, objectives=[(o[0], o[4] is not None) for o in obs], limits=(lo, hi))
    c.state(kind, n, [o[0] for o in obs], lo, hi)
    v = solving(c, lambda: s.shims(spec, objectives=extra, constraints=cons))
    c.equal(np.shape(v), (len(obs), n), "shape")
    sc = np.abs(B).max(1)[:, None]*np.abs(v).max(1)[None]
    c.close(B @ v.T, np.eye(len(obs)), "unit-effect-and-no-cross-talk", rtol=0, atol=3e-4+3e-5*sc)
    for i in range(len(obs)):
        # the scaled vector reaches the largest strength that the limits allow
        Aeq = [np.r_[B[j], -(j == i)*1.] for j in range(len(obs))]
        Aub = [np.r_[u, 0.] for u in np.eye(n)]+[np.r_[-u, 0.] for u in np.eye(n)]
        r = lp(np.r_[np.zeros(n), -1.], Aeq, [0.]*len(obs), Aub, [hi]*n+[-lo]*n, n+1)
        if r.status == 0 and -r.fun > 1e-6:
            need = max(v[i].max()/hi, v[i].min()/lo)
            c.close(need, 1/(-r.fun), "least-effort", rtol=2e-3)


# ------------------------------------------------------------------ S09
@scenario("S09", quick=160, thorough=4000)
def waveforms(c):
    """solve(): feasible, and the objective is the optimum of our own linear program."""
    descs, kind = pattern(c, 3, 6)
    M = len(descs)
    N = c.integers(*gen.big((1, 6), (8, 12)))
    s = traps.build_all(descs, np.zeros(M), np.zeros(M))
    lim = c.uniform(1., 3.)
    nv = N*M

    def at(i, a):
        v = np.zeros(nv)
        v[i*M:(i+1)*M] = a
        return v
    A, b, E, e = [], [], [], []
    local, cost_terms = [], []
    feas = c.rng.uniform(-.5, .5, (N, M))
    if c.chance(.5):
        # a trend: the limits of its derivatives bind
        tt = np.linspace(-1, 1, N)[:, None]
        feas = feas*c.choice([.02, .2])+c.choice([-.3, .3])*tt+c.choice([-.15, 0, .15])*tt**2+c.choice([-.2, 0, .2])
    desc = []
    for i in range(N):
        x = np.array([.1*i, .05, .9])
        ci = []
        if i == 0 or c.chance(.8):
            ci.append(pc.PatternRangeConstraint(min=-lim, max=lim))
            for j in range(M):
                A += [at(i, np.eye(M)[j]), at(i, -np.eye(M)[j])]
                b += [lim, lim]
            bounded = True
        else:
            ci.append(pc.PatternRangeConstraint(min=-2*lim, max=2*lim))
            for j in range(M):
                A += [at(i, np.eye(M)[j]), at(i, -np.eye(M)[j])]
                b += [2*lim, 2*lim]
        for nm in c.rng.permutation(["x", "y", "z", "xx", "zz"])[:c.integers(0, min(2, M-1))]:
            a = row(descs, x, str(nm))
            v = float(a @ feas[i])
            k = c.choice(["offset", "min", "max"])
            desc.append((i, str(nm), k))
            if k == "offset":
                E.append(at(i, a))
                e.append(v)
            elif k == "min":
                v = 0. if v >= 0 and c.chance(.4) else v-c.uniform(.02, .3)*np.abs(a).max()
                A.append(at(i, -a))
                b.append(-v)
            else:
                v = 0. if v <= 0 and c.chance(.4) else v+c.uniform(.02, .3)*np.abs(a).max()
                A.append(at(i, a))
                b.append(v)
            ci.append(pc.PotentialObjective(x=x, derivative=str(nm), **{k: v}))
        if c.chance(.4) and M > 2:
            # penalise differences between neighbouring electrodes of this set
            o, w = c.integers(0, 2), c.uniform(.1, 2)
            norm = "one"
            ci.append(pc.VoltageDerivativeConstraint(order=o, weight=w, norm=norm))
            D = np.eye(M)
            for _ in range(o):
                D = D[1:]-D[:-1]
            cost_terms += [([at(i, r)], w) for r in D]
            desc.append((i, "local", o, w))
        if c.chance(.3):
            o, w = c.integers(0, 1), c.uniform(.1, 2)
            ci.append(pc.VoltageDerivativeConstraint(order=o, weight=w, norm="one"))
            D = np.eye(M)
            for _ in range(o):
                D = D[1:]-D[:-1]
            cost_terms += [([at(i, r)], w) for r in D]
            desc.append((i, "local", o, w))
        order = c.rng.permutation(len(ci))
        local.append([ci[k] for k in order])
    glob = []
    linear = np.zeros(nv)
    for _ in range(c.integers(0, 3)):
        delta = c.choice([1, 1, 2])
        o = c.integers(0, 2)
        if N-o*delta < 1:
            continue
        norm = c.choice(["one", "inf"])
        w = c.choice([0, c.uniform(.1, 2)])
        mx = None
        smooth = c.chance(.25) and N > delta+1 and o > 0
        rows = [[at(i, np.eye(M)[j]) for j in range(M)] for i in range(N)]
        for q in range(o):
            if smooth and q % 2 == 0:
                rows = rows[delta:0:-1]+rows+rows[-2:-2-delta:-1]
            rows = [[y-z for y, z in zip(rows[i+delta], rows[i])] for i in range(len(rows)-delta)]
        rows = [[y/delta**o for y in r] for r in rows]
        if not rows:
            continue
        if norm == "one" and c.chance(.35):
            # signed derivatives: the sums are linear and may be limited from both sides
            tots = [sum(r) for r in rows]
            vals = [float(q @ feas.ravel()) for q in tots]
            mx = c.choice([None, max(vals)+c.choice([.01, .1, .5])])
            mn = c.choice([None, min(vals)-c.choice([.01, .1, .5])])
            w = c.choice([0, 0, c.uniform(.1, 1.)])
            if not w and mx is None and mn is None:
                continue
            glob.append(pc.VoltageDerivativeConstraint(order=o, weight=w, max=mx, min=mn, delta=delta, norm=norm,
                                                       smooth=smooth, abs=False))
            desc.append(("global-signed", o, w, delta, mx is not None, mn is not None, smooth))
            for q in tots:
                linear += w*q
                if mx is not None:
                    A.append(q)
                    b.append(mx)
                if mn is not None:
                    A.append(-q)
                    b.append(-mn)
            continue
        if c.chance(.3):
            mx = max(sum(abs(y @ feas.ravel()) for y in r) if norm == "one" else
                     max(abs(y @ feas.ravel()) for y in r) for r in rows)*1.01+.05
        if not w and mx is None:
            continue
        glob.append(pc.VoltageDerivativeConstraint(order=o, weight=w, max=mx, delta=delta, norm=norm, smooth=smooth))
        desc.append(("global", o, norm, w, delta, mx, smooth))
        for r in rows:
            if w:
                if norm == "one":
                    cost_terms += [([y], w) for y in r]
                else:
                    cost_terms.append((r, w))
            if mx is not None:
                cost_terms.append((r, ("max", norm, mx)))
    # interior point solvers dislike flat objectives: most problems price every voltage
    if c.chance(.95) or not any(not isinstance(w, tuple) for r, w in cost_terms):
        glob.append(pc.VoltageDerivativeConstraint(order=0, weight=1.))
        cost_terms += [([at(i, np.eye(M)[j])], 1.) for i in range(N) for j in range(M)]
        desc.append(("global", 0, "one", 1.))
    c.note(kind=kind, sets=N, electrodes=M, terms=desc)
    c.state(kind, N, M, [d[1:] for d in desc])
    u, cv = solving(c, lambda: s.solve(local, glob, verbose=False))
    u = np.asarray(u)
    c.equal(u.shape, (N, M), "shape")
    uf = u.ravel()
    for a, v in zip(A, b):
        c.close(max(0., float(a @ uf)-v), 0., "inequality-holds", rtol=0, atol=2e-5*lim*max(1, np.abs(a).max()))
    for a, v in zip(E, e):
        c.close(float(a @ uf), v, "equality-holds", rtol=0, atol=2e-5*lim*max(1, np.abs(a).max()))
    # our LP: one auxiliary bound per term
    nt = sum(1 for r, w in cost_terms if not isinstance(w, tuple))
    ext = []
    cost = np.zeros(nv)
    Au, bu = [list(a) for a in A], list(b)
    aux = []
    rowsu = []
    val = float(linear @ uf)
    k = nv
    for r, w in cost_terms:
        if isinstance(w, tuple):
            _, norm, mx = w
            if norm == "inf":
                for y in r:
                    rowsu += [({}, y, mx), ({}, -y, mx)]
                c.close(max(0., max(abs(y @ uf) for y in r)-mx), 0., "derivative-limit-holds", rtol=0, atol=5e-5*lim)
            else:
                ks = []
                for y in r:
                    rowsu += [({k: -1.}, y, 0.), ({k: -1.}, -y, 0.)]
                    ks.append(k)
                    aux.append(0.)
                    k += 1
                rowsu.append(({q: 1. for q in ks}, np.zeros(nv), mx))
                c.close(max(0., sum(abs(y @ uf) for y in r)-mx), 0., "derivative-limit-holds", rtol=0, atol=1e-4*lim)
        else:
            for y in r:
                rowsu += [({k: -1.}, y, 0.), ({k: -1.}, -y, 0.)]
            aux.append(w)
            k += 1
            val += w*max(abs(y @ uf) for y in r)
    tot = k
    Au = [np.r_[a, np.zeros(tot-nv)] for a in A]
    for d, y, v in rowsu:
        z = np.r_[y, np.zeros(tot-nv)]
        for q, s_ in d.items():
            z[q] += s_
        Au.append(z)
        bu.append(v)
    Ae = [np.r_[a, np.zeros(tot-nv)] for a in E]
    r = lp(np.r_[linear, aux], Ae, e, Au, bu, tot)
    if r.status != 0:
        c.count("own-program-unsolved")
        return
    sc = (sum(w for q, w in cost_terms if not isinstance(w, tuple))+np.abs(linear).sum())*lim
    c.close(np.ravel(cv)[0], val, "objective-value-belongs-to-the-solution", rtol=1e-5, atol=2e-5*sc)
    c.close(val, r.fun, "objective-is-optimal", rtol=1e-4, atol=1e-4*sc)


@scenario("S09", quick=60, thorough=1000)
def infeasible(c):
    """Contradicting constraints are reported, not answered."""
    descs, kind = pattern(c, 3, 6)
    n = len(descs)
    s = traps.build_all(descs, np.zeros(n), np.zeros(n))
    x = np.r_[c.rng.normal(size=2)*.3, c.uniform(.6, 1.2)]
    nm = c.choice(["x", "y", "z", "xx", ""])
    a = row(descs, x, nm)
    top = np.abs(a).sum()
    if top < 1e-3:
        return
    which = c.choice(["solve", "optimize"])
    c.note(kind=kind, name=nm, which=which)
    c.state(kind, n, nm, which, round(float(x[0]), 5))
    rngc = pc.PatternRangeConstraint(min=-1, max=1)
    bad = pc.PotentialObjective(x=x, derivative=nm, offset=c.uniform(1.5, 3)*top)
    if which == "solve":
        c.raises(ValueError, lambda: s.solve([[rngc, bad]], [pc.VoltageDerivativeConstraint(order=0, weight=1.)],
                                             verbose=False), "infeasible-problem-is-refused")
    else:
        c.raises(ValueError, lambda: s.optimize([rngc, bad, pc.PotentialObjective(x=x, derivative="z", value=1.)],
                                                verbose=False), "infeasible-problem-is-refused")


@scenario("S09", quick=160, thorough=3000)
def constraint_rows(c):
    """get(): the linear functional of a potential objective, rotated or not."""
    descs, kind = pattern(c, 1, 6)
    n = len(descs)
    s = traps.build_all(descs, c.rng.normal(size=n), np.zeros(n))
    x = np.r_[c.rng.normal(size=2), c.uniform(.5, 2)]
    o = c.integers(0, 5)
    nm = "".join("xyz"[c.integers(0, 2)] for _ in range(o))
    C = None
    if c.chance(.6):
        C, _ = random_coord(c)
    c.note(kind=kind, name=nm, rotation=C, x=x)
    c.state(kind, n, nm, C is not None)
    if o == 5 and c.chance(.4):
        nm = "".join(c.rng.permutation(list(c.choice(["zzzzz", "yyyyy", "xxxxx", "xxxxy", "xxxxz", "yzzzz", "xyyyy", "yyyyz", "xzzzz"]))))
    p = pc.PotentialObjective(x=list(x) if c.chance(.5) else x, derivative=nm, rotation=C, value=1.)
    want = row(descs, x, nm, C)
    tol = np.array([float(oracles.tol(x[None], d, o)[0])*10 for d in descs])
    if (tol < 1e-4*np.abs(want).max()).all():
        got = p.get(s, None)
        c.close(np.ravel(got), want, "functional-of-the-unit-voltages", rtol=1e-9, atol=tol, scale=np.abs(want).max())
    # weighted sums of any number of components, at one or several points
    k = c.choice([1, 2, 3, 4, 5, 7])
    comp, tot, size = [], np.zeros(n), 0.
    for i in range(k):
        m = c.choice(["x", "y", "z", "xx", "zz", "xy", "xyz", "zzz", ""])
        y = x if c.chance(.5) else x+c.rng.normal(size=3)*.1
        Ci = random_coord(c)[0] if c.chance(.3) else None
        w = c.choice([1., -1., 0., float(c.rng.normal()), 10.])
        comp.append(pc.PotentialObjective(x=y, derivative=m, rotation=Ci, value=w))
        r = row(descs, y, m, Ci)
        tot += w*r
        size = max(size, np.abs(w*r).max())
    m = pc.MultiPotentialObjective(components=comp, value=c.choice([1., -3.]))
    c.close(np.ravel(m.get(s, None)), tot, "weighted-sum-of-components", rtol=1e-8, scale=size)
