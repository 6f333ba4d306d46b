"""Shared runtime-monitoring harness.

A property module (vf/props/<id>.py) registers *scenarios*.  A scenario is a
function `f(ctx)` that generates one workload case from `ctx.rng`, runs the real
fortuna code on it and lets monitors (`ctx.check`, `ctx.close`, ...) judge what
was observed.  Every case has its own RNG derived from (VERIF_SEED, scenario,
case index), so any case can be replayed alone.
"""
from __future__ import annotations

import hashlib
import json
import math
import traceback
import zlib
from collections import Counter

import numpy as np

REPO = "/repo"


class Scenario:
    def __init__(self, fn, quick, thorough, minimum):
        self.fn, self.name = fn, fn.__name__
        self.quick, self.thorough, self.minimum = quick, thorough, minimum

    def n(self, tier):
        return self.thorough if tier == "thorough" else self.quick


class Suite:
    """Registry of one property's scenarios."""

    def __init__(self, prop, level="exploration", rule="", assumptions=(), required=None):
        self.prop, self.level, self.rule = prop, level, rule
        self.assumptions = list(assumptions)
        self.required = dict(required or {})  # event name -> minimum count
        self.scenarios = []

    def scenario(self, quick=20, thorough=200, minimum=None):
        def deco(fn):
            self.scenarios.append(
                Scenario(fn, quick, thorough, minimum if minimum is not None else max(1, quick // 4))
            )
            return fn

        return deco

    def get(self, name):
        for s in self.scenarios:
            if s.name == name:
                return s
        raise KeyError(name)


class Violation(Exception):
    """Raised to abandon a case after a fatal monitor failure."""


def _jsonable(x, depth=0):
    if isinstance(x, (str, bool, int)) or x is None:
        return x
    if isinstance(x, float):
        return x if math.isfinite(x) else repr(x)
    if isinstance(x, dict):
        return {str(k): _jsonable(v, depth + 1) for k, v in list(x.items())[:40]}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [_jsonable(v, depth + 1) for v in list(x)[:60]]
    try:
        a = np.asarray(x)
        if a.dtype == object or a.dtype.kind not in "biufU":
            return repr(x)[:200]
        if a.size > 60:
            return {"shape": list(a.shape), "head": _jsonable(a.reshape(-1)[:20].tolist())}
        return _jsonable(a.tolist())
    except Exception:
        return repr(x)[:200]


class Ctx:
    def __init__(self, prop, scenario, i, seed, tier):
        self.prop, self.scenario, self.i, self.seed, self.tier = prop, scenario, i, seed, tier
        self.rng = np.random.default_rng([seed, zlib.crc32(f"{prop}/{scenario}".encode()), i])
        self.events = Counter()
        self.notes = {}
        self.keys = set()
        self.violations = []
        self.checks = 0

    # -- describing the case ---------------------------------------------------
    def note(self, **kw):
        self.notes.update({k: _jsonable(v) for k, v in kw.items()})

    def key(self, *objs):
        """Registers an observed outcome; distinct outcomes are counted."""
        h = hashlib.sha1()
        h.update(self.scenario.encode())
        for o in objs:
            if isinstance(o, (str, int, bool, float, tuple, type(None))):
                h.update(repr(o).encode())
            else:
                a = np.asarray(o)
                h.update(str(a.shape).encode())
                h.update(a.tobytes() if a.dtype != object else repr(a.tolist()).encode())
        self.keys.add(h.hexdigest()[:16])

    def event(self, name, n=1):
        self.events[name] += int(n)

    # -- oracles -----------------------------------------------------------------
    def check(self, cond, mech, msg="", fatal=False, **detail):
        self.checks += 1
        self.events["check:" + mech] += 1
        if not bool(cond):
            self.violations.append(dict(mech=mech, msg=str(msg)[:600], detail=_jsonable(detail)))
            if fatal:
                raise Violation(mech)
            return False
        return True

    def close(self, got, want, mech, msg="", rtol=1e-4, atol=1e-5, **detail):
        self.checks += 1
        self.events["check:" + mech] += 1
        try:
            g, w = np.asarray(got, dtype=np.float64), np.asarray(want, dtype=np.float64)
        except Exception as e:
            self.violations.append(dict(mech=mech, msg=f"not numeric: {e}; got={got!r}"[:400], detail=_jsonable(detail)))
            return False
        ok = g.shape == w.shape
        if ok and g.size:
            with np.errstate(all="ignore"):
                ok = bool(np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=False))
        if not ok:
            diff = ""
            if g.shape == w.shape and g.size:
                with np.errstate(all="ignore"):
                    d = np.abs(g - w)
                    k = int(np.nanargmax(np.where(np.isnan(d), np.inf, d)))
                diff = f" worst index {k}: got {g.reshape(-1)[k]} want {w.reshape(-1)[k]}"
            self.violations.append(
                dict(mech=mech, msg=f"{msg} shapes {g.shape} vs {w.shape}{diff}",
                     detail=_jsonable(dict(got=g, want=w, **detail)))
            )
        return ok

    def equal(self, got, want, mech, msg="", **detail):
        g, w = np.asarray(got), np.asarray(want)
        ok = g.shape == w.shape and bool(np.array_equal(g, w))
        return self.check(ok, mech, msg or f"got {_jsonable(g)} want {_jsonable(w)}", **detail)

    def raises(self, excs, fn, mech, msg=""):
        self.checks += 1
        self.events["check:" + mech] += 1
        try:
            fn()
        except excs:
            return True
        except Exception as e:
            self.violations.append(dict(mech=mech, msg=f"{msg}: raised {type(e).__name__}: {e}"[:500], detail={}))
            return False
        self.violations.append(dict(mech=mech, msg=f"{msg}: accepted silently", detail={}))
        return False

    # -- generators ------------------------------------------------------------------
    def choice(self, seq):
        return seq[int(self.rng.integers(len(seq)))]

    def integers(self, a, b):
        """inclusive bounds"""
        return int(self.rng.integers(a, b + 1))


def frames_in_repo(tb):
    return any(f.filename.startswith(REPO + "/fortuna") for f in traceback.extract_tb(tb))


def run_case(suite, scen, i, seed, tier):
    ctx = Ctx(suite.prop, scen.name, i, seed, tier)
    error = None
    try:
        scen.fn(ctx)
    except Violation:
        pass
    except Exception as e:  # noqa: BLE001
        tb = traceback.format_exc()
        if frames_in_repo(e.__traceback__):
            ctx.violations.append(
                dict(mech=f"exception:{scen.name}:{type(e).__name__}",
                     msg=f"valid use raised {type(e).__name__}: {e}"[:500],
                     detail={"traceback": tb[-1500:]})
            )
        elif isinstance(e, (AttributeError, TypeError, ValueError, IndexError, KeyError, ZeroDivisionError,
                            AssertionError, StopIteration)):
            # what the code under test returned cannot even be read by its documented interface
            ctx.violations.append(
                dict(mech=f"unusable-result:{scen.name}:{type(e).__name__}",
                     msg=f"the result could not be used as documented: {type(e).__name__}: {e}"[:500],
                     detail={"traceback": tb[-1500:]})
            )
        else:
            error = tb[-3000:]
    return dict(
        scenario=scen.name, i=i, checks=ctx.checks, events=dict(ctx.events), notes=ctx.notes,
        keys=sorted(ctx.keys), violations=ctx.violations, error=error,
    )


def dumps(o):
    return json.dumps(o, sort_keys=True)
