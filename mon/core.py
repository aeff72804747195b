"""Case runner: seeded scenarios, monitors (oracles) and what they observed."""
import hashlib
import json
import os
import sys
import time
import traceback
import warnings
import zlib

import numpy as np

from . import registry

SCENARIOS = {}          # property id -> list of Scenario


class Violation(Exception):
    """Raised by a fatal monitor to stop the current case."""


class GaveUp(Exception):
    pass


class HarnessError(Exception):
    pass


class Scenario(object):
    def __init__(self, pid, name, fn, quick, thorough):
        self.pid, self.name, self.fn = pid, name, fn
        self.quick, self.thorough = quick, thorough


def scenario(pid, quick=50, thorough=None, name=None):
    """Register a scenario: one seeded workload observed by monitors."""
    def deco(fn):
        SCENARIOS.setdefault(pid, []).append(
            Scenario(pid, name or fn.__name__, fn, quick,
                     thorough if thorough is not None else 20*quick))
        return fn
    return deco


def jsonable(v, depth=0):
    if depth > 6:
        return repr(v)[:200]
    if isinstance(v, (np.generic,)):
        v = v.item()
    if isinstance(v, np.ndarray):
        if v.size > 400:
            return {"array_shape": list(v.shape), "head": jsonable(v.ravel()[:40], depth+1)}
        v = v.tolist()
    if isinstance(v, complex):
        return [repr(v)]
    if isinstance(v, dict):
        return {str(k): jsonable(x, depth+1) for k, x in list(v.items())[:60]}
    if isinstance(v, (list, tuple, set, frozenset)):
        return [jsonable(x, depth+1) for x in list(v)[:400]]
    if isinstance(v, float):
        return v if v == v and abs(v) != float("inf") else repr(v)
    if isinstance(v, (int, str, bool)) or v is None:
        return v
    return repr(v)[:300]


class Case(object):
    """One execution of a scenario and the monitors' record of it."""

    def __init__(self, run, sc, idx):
        self.run, self.sc, self.idx = run, sc, idx
        self.pid, self.tier = sc.pid, run.tier
        key = [run.seed & 0xffffffff, zlib.crc32(sc.pid.encode()),
               zlib.crc32(sc.name.encode()), idx]
        self.rng = np.random.default_rng(key)
        self.pyseed = int(self.rng.integers(2**31))
        self.info = {}
        self.sig = []
        self.events = 0
        self.armed = True

    # -- workload helpers ------------------------------------------------
    def choice(self, seq, p=None):
        seq = list(seq)
        return seq[int(self.rng.choice(len(seq), p=p))]

    def chance(self, p):
        return bool(self.rng.random() < p)

    def integers(self, lo, hi):
        """inclusive"""
        return int(self.rng.integers(lo, hi+1))

    def uniform(self, lo, hi):
        return float(self.rng.uniform(lo, hi))

    def logu(self, lo, hi):
        return float(np.exp(self.rng.uniform(np.log(lo), np.log(hi))))

    def note(self, **kw):
        """Describe the case (goes to samples and replay files)."""
        self.info.update(kw)

    def state(self, *key):
        """Contribute to the signature that tells distinct cases apart."""
        self.sig.append(tuple(str(k) for k in key))

    # -- monitors --------------------------------------------------------
    def count(self, monitor, n=1):
        self.events += n
        self.run.counters[monitor] = self.run.counters.get(monitor, 0) + int(n)

    def fail(self, monitor, msg, **data):
        self.run.violation(self, monitor, msg, data)
        raise Violation(msg)

    def giveup(self, msg):
        """A numeric solver stopped without an answer, as it documents it may: fine once in a while,
        a violation when it happens to more than a small share of a scenario's cases."""
        self.count("solver-gave-up")
        self.run.gaveup.append({
            "property": self.pid, "scenario": self.sc.name, "index": self.idx, "seed": self.run.seed,
            "tier": self.run.tier, "monitor": "solver-gives-up-too-often", "message": str(msg)[:300],
            "data": {}, "case": jsonable(self.info)})
        raise GaveUp(msg)

    def ok(self, cond, monitor, msg="", **data):
        self.count(monitor)
        if not bool(cond):
            self.fail(monitor, msg or "condition violated", **data)

    def equal(self, got, want, monitor, msg="", **data):
        self.count(monitor)
        try:
            same = bool(got == want)
        except Exception:
            same = False
        if not same:
            self.fail(monitor, msg or "not equal", got=got, want=want, **data)

    def same_array(self, got, want, monitor, msg="", **data):
        """Bit-for-bit equal values and equal shape."""
        got, want = np.asarray(got), np.asarray(want)
        self.count(monitor, max(1, got.size))
        if got.shape != want.shape or not np.array_equal(got, want, equal_nan=got.dtype.kind in "fc"
                                                         and want.dtype.kind in "fc"):
            self.fail(monitor, msg or "arrays differ", got=got, want=want, **data)

    def close(self, got, want, monitor, rtol=1e-9, atol=0., scale=None, msg="", **data):
        """|got - want| <= atol + rtol*max(|want|, scale), shapes equal, no NaN.

        `atol` and `scale` may be arrays that broadcast to `want`.
        """
        try:
            g = np.asarray(got)
            if g.dtype.kind not in "fciub":
                g = np.asarray(got, dtype=float)
        except Exception:
            self.fail(monitor, (msg or "") + ": result is not a numeric array", got=got)
        w = np.asarray(want)
        self.count(monitor, max(1, w.size))
        if g.shape != w.shape:
            self.fail(monitor, (msg or "") + ": shape %s instead of %s" % (g.shape, w.shape),
                      got=g, want=w, **data)
        if w.size == 0:
            return
        m = np.abs(w)
        if scale is not None:
            m = np.maximum(m, np.asarray(scale))
        with np.errstate(all="ignore"):
            err = np.abs(g - w)
            tol = np.asarray(atol) + rtol*m
            bad = ~((err <= tol) | ((g == w)))
            ratio = err/np.where(tol > 0, tol, np.inf)
        if self.run.calibrate and not bad.any():
            r = float(np.nanmax(ratio)) if ratio.size else 0.
            k = self.sc.name + ":" + monitor
            self.run.margins[k] = max(self.run.margins.get(k, 0.), r)
        if bad.any():
            i = np.unravel_index(int(np.argmax(np.where(bad, np.where(np.isfinite(ratio), ratio, np.inf), -1))),
                                 g.shape) if g.shape else ()
            self.fail(monitor, (msg or "values differ"), index=list(map(int, i)),
                      got=g[i], want=w[i], error=float(err[i]),
                      tolerance=float(np.broadcast_to(tol, g.shape)[i]),
                      bad=int(bad.sum()), of=int(bad.size), **data)

    def raises(self, exc, fn, monitor, msg="", **data):
        self.count(monitor)
        try:
            r = fn()
        except exc:
            return
        self.fail(monitor, msg or "expected an exception", returned=r, **data)


class Run(object):
    def __init__(self, pid, tier, seed, shard=0, nshards=1, tree=None, only=None,
                 deadline=None, calibrate=False):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.shard, self.nshards, self.tree = shard, nshards, tree
        self.only, self.deadline, self.calibrate = only, deadline, calibrate
        self.counters, self.sigs, self.samples = {}, set(), []
        self.violations, self.errors, self.known = [], [], []
        self.gaveup = []
        self.evaluations = 0
        self.margins = {}
        self.truncated = False
        self.scen = {}
        self.now = None

    def violation(self, case, monitor, msg, data):
        self.violations.append({
            "property": self.pid, "scenario": case.sc.name, "index": case.idx,
            "seed": self.seed, "tier": self.tier, "monitor": monitor, "message": msg,
            "data": jsonable(data), "case": jsonable(case.info)})

    def go(self, max_violations=3):
        t0 = time.time()
        order = []
        factor = float(os.environ.get("VERIF_FACTOR") or registry.FACTOR.get(self.pid, 1))
        for sc in SCENARIOS.get(self.pid, []):
            n = int((sc.quick if self.tier == "quick" else sc.thorough)*factor)
            for i in range(n):
                if i % self.nshards == self.shard:
                    order.append((i/float(n), sc, i))
        order.sort(key=lambda t: t[0])      # interleave the scenarios
        if self.only:
            sname, sidx = self.only
            order = [(0, s, sidx) for s in SCENARIOS.get(self.pid, []) if s.name == sname]
        for _, sc, i in order:
            if self.deadline and time.time() - t0 > self.deadline:
                self.truncated = True
                break
            self.one(sc, i)
            if len(self.violations) >= max_violations or len(self.errors) >= 3:
                break
        return self

    def one(self, sc, i):
        case = Case(self, sc, i)
        self.evaluations += 1
        if self.now is not None:        # which case ran, should the process crash
            os.pwrite(self.now, ("%s:%d:%s" % (sc.name, i, " "*20)).encode(), 0)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with np.errstate(all="ignore"):
                    np.random.seed(case.pyseed)
                    sc.fn(case)
        except (Violation, GaveUp):
            pass
        except Exception as e:
            self.exception(case, e)
        sig = hashlib.sha1(repr((sc.name, case.sig)).encode()).hexdigest()[:16]
        st = self.scen.setdefault(sc.name, [0, 0])
        st[0] += 1
        st[1] += case.events
        if case.events and case.sig:
            self.sigs.add(sig)
            if sum(1 for s in self.samples if s["scenario"] == sc.name) < 1:
                self.samples.append({"scenario": sc.name, "index": i,
                                     "signature": jsonable(case.sig[:8]),
                                     "case": jsonable(case.info),
                                     "monitor_events": case.events})

    def exception(self, case, e):
        tb = traceback.extract_tb(e.__traceback__)
        inside = [f for f in tb if self.tree and f.filename.startswith(self.tree)
                  or "cexpressions.pyx" in f.filename or f.filename.endswith(".pyx")]
        txt = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
        if inside and not isinstance(e, (MemoryError, HarnessError)):
            self.count_exc(case)
            self.violation(case, "no-exception-on-valid-input",
                           "%s: %s" % (type(e).__name__, str(e)[:300]), {"traceback": txt})
        elif isinstance(e, (TypeError, ValueError, IndexError)) and not isinstance(e, UnicodeError) and case.armed:
            # the oracle, which digests every well-formed answer, choked on what the tree returned
            self.violation(case, "well-formed-result",
                           "%s: %s" % (type(e).__name__, str(e)[:300]), {"traceback": txt})
        elif isinstance(e, AttributeError) and type(getattr(e, "obj", None)).__module__.startswith("electrode") \
                and not str(e.name).startswith("_"):
            self.violation(case, "public-attributes", str(e), {"traceback": txt})
        else:
            self.errors.append({"scenario": case.sc.name, "index": case.idx, "error": txt})

    def count_exc(self, case):
        case.count("no-exception-on-valid-input")

    def report(self):
        return {"evaluations": self.evaluations, "sigs": sorted(self.sigs),
                "counters": self.counters, "samples": self.samples,
                "violations": self.violations, "gaveup": self.gaveup, "errors": self.errors,
                "known": self.known, "margins": self.margins, "scen": self.scen,
                "truncated": self.truncated}
