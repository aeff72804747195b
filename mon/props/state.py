"""S11: results depend on the current state only, whatever happened before or at the same time."""
import copy
import pickle
import sys
import threading

import cvxopt.solvers
import numpy as np

from electrode import electrode as el
from electrode.system import System

from electrode import pattern_constraints as pc

from .. import gen, traps
from ..core import scenario
from . import optim
from .electro2 import any_electrode, some_points, snapshot

SLOTS = {
    "PolygonPixelElectrode": ("paths", "cover_nmax", "cover_height"),
    "PointPixelElectrode": ("points", "areas", "cover_nmax", "cover_height"),
    "GridElectrode": ("data", "origin", "spacing"),
    "CoverElectrode": ("height",),
}


def model_of(e):
    """Plain data that say what electrode this is (deep copies)."""
    k = type(e).__name__
    m = {"kind": k, "name": e.name, "dc": e.dc, "rf": e.rf}
    for a in SLOTS[k]:
        v = getattr(e, a)
        m[a] = [np.array(i) for i in v] if isinstance(v, list) else (np.array(v) if isinstance(v, np.ndarray) else v)
    return m


def fresh(m):
    """A new electrode from the data."""
    kw = {a: ([np.array(i) for i in v] if isinstance(v, list) else (np.array(v) if isinstance(v, np.ndarray) else v))
          for a, v in m.items() if a != "kind"}
    cls = getattr(el, m["kind"])
    if m["kind"] == "GridElectrode":
        return cls(data=kw.pop("data"), origin=kw.pop("origin"), spacing=kw.pop("spacing"), **kw)
    return cls(**kw)


def new(c):
    k, e, d = any_electrode(c, 2, kinds=("poly", "poly", "poly", "point", "cover", "grid"))
    e.name = c.choice(["a", "b", "c", "dc1", "rf", ""])
    e.dc, e.rf = c.choice([0., 1., gen.voltage(c.rng)]), c.choice([0., 1., c.rng.normal()])
    return e


QUERIES = ["dc", "rf", "pseudo", "total", "individual", "time", "names", "lookup", "modes", "orientations", "points"]


def query(s, q, x, order, t):
    if q in ("dc", "rf"):
        return s.electrical_potential(x, order, q)
    if q == "pseudo":
        return s.pseudo_potential(x, order)
    if q == "total":
        return s.potential(x, order)
    if q == "individual":
        return s.individual_potential(x, order)
    if q == "time":
        return s.time_potential(x, order, t)
    if q == "names":
        return (list(s.names), [float(v) for v in s.dcs], [float(v) for v in s.rfs])
    if q == "lookup":
        return [[i for i, e in enumerate(s) if e is s[n]] for n in sorted(set(e.name for e in s)) if n]
    if q == "orientations":
        return [[float(v) for v in e.orientations()] for e in s]
    if q == "points":
        s = System([e.to_points() if hasattr(e, "paths") else e for e in s])
        return s.individual_potential(x, order)
    if q == "modes":
        return np.linalg.eigvalsh(s.potential(x[0], 2)[0]) if len(s) else 0


def same(c, got, want, monitor, **kw):
    if isinstance(want, (tuple, list)):
        c.equal(repr(got), repr(want), monitor, **kw)
    else:
        # freshly built arrays may be laid out differently: allow rounding only
        sc = np.abs(want).max() if np.size(want) else 0
        c.close(got, want, monitor, rtol=1e-11, scale=sc, **kw)


@scenario("S11", quick=96, thorough=4000)
def histories(c):
    """Random operation sequences; after each step a fresh system answers the same."""
    s = System([new(c) for _ in range(c.integers(1, 4))])
    s.rf_coeff = 1.
    twins = []            # (system, models, rf_coeff) copies that must not change any more
    trace = []
    x = some_points(c, c.choice([1, 3, 8]))
    x[:, 2] = np.maximum(np.abs(x[:, 2]), .3)
    for step in range(c.integers(6, 20)):
        op = c.choice(["dc", "rf", "name", "query", "query", "cover", "paths", "scale", "replace", "append", "insert",
                       "del", "reverse", "swap", "deepcopy", "pickle", "copy-electrode", "dcs", "rfs", "with", "coeff",
                       "points", "grid", "slice"])
        n = len(s)
        e = s[c.integers(0, n-1)] if n else None
        if op in ("dc", "rf") and n:
            setattr(e, op, c.rng.normal())
        elif op == "name" and n:
            e.name = c.choice(["a", "b", "z", "rf"])
        elif op == "cover" and n and hasattr(e, "cover_nmax"):
            e.cover_nmax, e.cover_height = c.choice([0, 1, 2]), c.choice([9., 20.])
        elif op == "cover" and n and hasattr(e, "height"):
            e.height = c.uniform(5, 50)
        elif op == "paths" and n and hasattr(e, "paths"):
            k = c.integers(0, 3)
            if k == 0:
                e.paths = [p*c.uniform(.5, 1.5) for p in e.paths]
            elif k == 1:
                e.paths[0] = e.paths[0]+.1
            elif k == 2:
                e.paths[-1][:] = e.paths[-1]*1.1          # in place
            else:
                e.paths.append(gen.rect(5, 5, 1, 1))
        elif op == "points" and n and hasattr(e, "areas"):
            e.areas = e.areas*c.uniform(.5, 2)
            e.points = e.points+.05
        elif op == "grid" and n and hasattr(e, "data"):
            e.data[0][:] = e.data[0]*1.5
            e.spacing = np.asarray(e.spacing)*1.1
        elif op == "scale" and n:
            e.dc = e.dc*2
        elif op == "replace" and n:
            list.__setitem__(s, c.integers(0, n-1), new(c))
        elif op == "append":
            s.append(new(c))
        elif op == "insert":
            s.insert(c.integers(0, n), new(c))
        elif op == "del" and n > 1:
            list.__delitem__(s, c.integers(0, n-1))
        elif op == "reverse":
            s.reverse()
        elif op == "swap" and n > 1:
            a = list(s)
            i, j = c.integers(0, n-1), c.integers(0, n-1)
            list.__setitem__(s, i, a[j])
            list.__setitem__(s, j, a[i])
        elif op in ("deepcopy", "pickle"):
            t = copy.deepcopy(s) if op == "deepcopy" else pickle.loads(pickle.dumps(s, c.choice([2, 3, 4, 5])))
            c.equal(type(t), System, "copy-type")
            c.ok(all(a is not b for a, b in zip(t, s)), "copies-are-new-objects")
            c.equal([snapshot(a) for a in t], [snapshot(b) for b in s], "copy-equals-original")
            c.equal(t.rf_coeff, s.rf_coeff, "copy-keeps-the-rf-coefficient")
            if c.chance(.5):
                s, t = t, s
            twins.append((t, [model_of(a) for a in t], t.rf_coeff))
        elif op == "copy-electrode" and n:
            q = copy.deepcopy(e)
            q.dc = e.dc+1
            if hasattr(q, "paths"):
                q.paths[0] *= 2
            s.append(q)
        elif op == "dcs" and n:
            s.dcs = c.rng.normal(size=n)
        elif op == "rfs" and n:
            s.rfs = c.rng.normal(size=n)
        elif op == "with" and n:
            with s.with_voltages(dcs=c.rng.normal(size=n)):
                s.potential(x, 0)
        elif op == "coeff":
            s.rf_coeff = c.uniform(.5, 2)
        elif op == "slice" and n > 1:
            k = c.integers(0, n-1)
            t = System(list(s)[:k]+list(s)[k:])
            t.rf_coeff = s.rf_coeff
            s = t
        q = c.choice(QUERIES)
        order = c.integers(0, 2 if q not in ("pseudo", "total") else 1)
        if q in ("modes",) and any(isinstance(i, el.GridElectrode) for i in s):
            q, order = "total", min(order, 1)
        trace.append((op, q))
        if op == "query":
            x = some_points(c, c.choice([1, 2, 5, 17]))
            x[:, 2] = np.maximum(np.abs(x[:, 2]), .3)
        mods = [model_of(i) for i in s]
        before = [snapshot(i) for i in s]
        f = System([fresh(m) for m in mods])
        f.rf_coeff = s.rf_coeff
        t = c.uniform(0, 10)
        x0 = x.copy()
        got = query(s, q, x, order, t)
        c.same_array(x, x0, "points-unchanged")
        c.equal([snapshot(i) for i in s], before, "evaluation-does-not-change-the-system")
        same(c, got, query(f, q, x.copy(), order, t), "like-a-fresh-system", step=step, trace=trace[-6:])
        if q in ("total", "dc") and c.chance(.3):
            again = query(s, q, x, order, t)
            c.same_array(again, got, "repeatable")
            if isinstance(got, np.ndarray) and got.flags.writeable:
                got[...] = 7e7        # results belong to the caller
                same(c, query(s, q, x, order, t), again, "results-are-not-shared")
    for t, mods, k in twins:
        f = System([fresh(m) for m in mods])
        f.rf_coeff = k
        c.equal([snapshot(a) for a in t], [snapshot(a) for a in f], "copies-are-independent")
        if len(t):
            same(c, t.potential(x, 0), f.potential(x, 0), "copies-answer-for-their-own-state")
    c.note(trace=trace)
    c.state(trace)


@scenario("S11", quick=8, thorough=300)
def threads(c):
    """Concurrent evaluations of shared electrodes give the sequential values."""
    els = []
    for i in range(c.integers(2, 5)):
        k, e, d = any_electrode(c, 4, kinds=("poly", "poly", "point", "mesh", "grid"))
        e.dc, e.rf = c.rng.normal(), c.rng.normal()
        els.append(e)
    s = System(els)
    s.rf_coeff = .7
    n = c.choice([3, 50, 400])
    jobs = []
    for i in range(16):
        x = some_points(c, n)
        jobs.append((x, c.integers(0, 2), c.choice(["dc", "rf", "total", "individual"])))

    def run(j):
        x, o, q = j
        return query(s, q, x, o, 0.)
    want = [run(j) for j in jobs]
    old = sys.getswitchinterval()
    sys.setswitchinterval(c.choice([1e-6, 1e-5, 1e-4]))
    reps = 3 if c.tier == "quick" else 10
    out, errs = {}, []
    nt = 8
    bar = threading.Barrier(nt)

    def work(k):
        r = np.random.default_rng(c.pyseed+k)
        try:
            bar.wait()
            for rep in range(reps):
                for i in r.permutation(len(jobs)):
                    g = run(jobs[i])
                    if not np.array_equal(g, want[i], equal_nan=True):
                        out[(k, rep, int(i))] = float(np.abs(g-want[i]).max())
        except Exception as ex:
            errs.append(repr(ex))
    ts = [threading.Thread(target=work, args=(k,)) for k in range(nt)]
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    c.note(kinds=[type(e).__name__ for e in els], points=n, threads=nt, evaluations=nt*reps*len(jobs))
    c.state([type(e).__name__ for e in els], n, [(o, q) for _, o, q in jobs])
    c.count("concurrent-evaluations", nt*reps*len(jobs))
    c.equal(errs, [], "no-error-in-threads")
    c.ok(not out, "threads-get-the-sequential-values", "%d differ" % len(out), first=list(out.items())[:3])


@scenario("S11", quick=40, thorough=1000)
def optimisation_histories(c):
    """Voltages found do not depend on earlier solves, options, or on constraint objects being used before."""
    n = c.integers(4, 8)
    pats = [optim.pattern(c, n, n)[0] for i in range(2)]
    syss = []
    for d in pats:
        m = len(d)
        syss.append(traps.build_all(d, np.zeros(m), np.zeros(m)))
    names = [str(i) for i in c.rng.choice(["x", "y", "z", "xx", "xy", "zz", "yz"], 3, replace=False)]
    st = {"x": np.r_[c.rng.normal(size=2)*.3, c.uniform(.6, 1.4)], "names": names[:c.integers(1, 3)],
          "values": [1., 0., c.rng.normal()], "lim": (-1., c.uniform(.5, 2.)), "C": None}

    def remade():
        o = [pc.PatternRangeConstraint(min=st["lim"][0], max=st["lim"][1])]
        for nm, v in zip(st["names"], st["values"]):
            o.append(pc.PotentialObjective(x=st["x"].copy(), derivative=nm, value=v, rotation=st["C"]))
        return o
    shared = remade()

    def answer(s, cons):
        """strength, or the reason why there is none"""
        try:
            p, k = s.optimize(cons, verbose=False)
            return float(k)
        except ValueError as e:
            return str(e)
        except np.linalg.LinAlgError as e:
            return "singular"

    def twin(s):
        t = System()
        for e in s:
            t.append(fresh(model_of(e)))
        return t
    trace = []
    cvxopt.solvers.options.clear()
    for step in range(c.integers(3, 6)):
        s = c.choice(syss)
        act = c.choice(["options", "edit", "objective", "limits", "shims", "solve", "nothing"])
        trace.append(act)
        if act == "options":
            try:
                s.optimize(shared, verbose=False, maxiters=c.choice([1, 2, 3]), abstol=c.choice([1e-7, 1e-1]),
                           feastol=c.choice([1e-7, 1e-1]))
            except ValueError:
                pass
        elif act == "edit":
            e = c.choice(list(s))
            if hasattr(e, "paths"):
                e.paths = [np.asarray(p)+c.rng.uniform(-.1, .1, 2) for p in e.paths]
            else:
                e.points = e.points+c.rng.uniform(-.1, .1, e.points.shape)
        elif act == "objective":
            st["x"] = st["x"]+c.rng.normal(size=3)*[.1, .1, .03]
            st["values"] = [1.]+list(c.rng.normal(size=2))
            for o, v in zip(shared[1:], st["values"]):
                o.x, o.value = st["x"].copy(), v
        elif act == "limits":
            st["lim"] = (-c.uniform(.5, 2), c.uniform(.5, 2))
            shared[0].min, shared[0].max = st["lim"]
        elif act == "shims":
            try:
                s.shims([(st["x"], None, nm) for nm in st["names"]])
            except ValueError:
                pass
        elif act == "solve":
            try:
                s.solve([shared[:1]+[pc.PotentialObjective(x=st["x"], derivative=st["names"][0], value=.1)]
                         for i in range(2)], [pc.VoltageDerivativeConstraint(order=1, weight=1.)], verbose=False)
            except ValueError:
                pass
        got = answer(s, shared)
        # what a new interpreter would answer: new objects and the solver's defaults
        left = dict(cvxopt.solvers.options)
        cvxopt.solvers.options.clear()
        want = answer(twin(s), remade())
        cvxopt.solvers.options.clear()
        cvxopt.solvers.options.update(left)
        if isinstance(want, str):
            c.count("not-solvable")
            if "unknown" in want:
                continue
            c.ok(isinstance(got, str), "same-outcome-as-fresh", "%r, fresh: %r" % (got, want), trace=trace)
        else:
            c.ok(not isinstance(got, str), "same-outcome-as-fresh", "%r, fresh: %r" % (got, want), trace=trace)
            c.close(got, want, "same-strength-as-fresh", rtol=1e-4, atol=1e-5, trace=trace)
    cvxopt.solvers.options.clear()
    c.note(trace=trace, names=st["names"])
    c.state(trace, st["names"], len(pats[0]))
