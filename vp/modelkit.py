"""Building MIMOSA models and judging points against all their active constraints and bounds."""
import contextlib
import copy
import math
import zlib

import numpy as np

from vp import synth
from vp.core import Violation, quiet, sut

with sut("importing mimosa"):
    from mimosa import MIMOSA
import pyomo.environ as pyo
from pyomo.contrib.preprocessing.plugins import detect_fixed_vars, equality_propagate, init_vars, var_aggregator
from pyomo.core.expr.visitor import identify_variables
from pyomo.environ import value

_TRANSFORMS = [
    var_aggregator.VariableAggregator,
    init_vars.InitMidpoint,
    detect_fixed_vars.FixedVarDetector,
    equality_propagate.FixedVarPropagator,
]


@contextlib.contextmanager
def no_presolve():
    """Pyomo's presolve transformations become no-ops, so that the full model can be examined."""
    saved = [(c, c._apply_to) for c in _TRANSFORMS]
    try:
        for c in _TRANSFORMS:
            c._apply_to = lambda self, *a, **k: None
        yield
    finally:
        for c, f in saved:
            c._apply_to = f


def resolved(cfg):
    """Input files named @unusual:kind:seed are generated."""
    sources = cfg.get("input", {}).get("variables", {}) if isinstance(cfg.get("input", {}), dict) else {}
    if not any(isinstance(s, dict) and str(s.get("file")).startswith("@unusual:") for s in sources.values()):
        return cfg
    cfg = copy.deepcopy(cfg)
    for s in cfg["input"]["variables"].values():
        if str(s.get("file")).startswith("@unusual:"):
            _, kind, seed = s["file"].split(":")
            s["file"] = synth.unusual(kind, int(seed))
    return cfg


def build(cfg, presolve=False, what="building a model"):
    cfg = resolved(cfg)
    with sut(what):
        if presolve:
            return MIMOSA(cfg)
        with no_presolve():
            return MIMOSA(cfg)


class Con:
    __slots__ = ("name", "body", "lower", "upper", "vars", "sig", "index", "eq")

    def __init__(self, con):
        self.name = con.parent_component().local_name
        self.index = con.index()
        self.body = con.body
        self.lower = None if con.lower is None else value(con.lower)
        self.upper = None if con.upper is None else value(con.upper)
        self.vars = list(identify_variables(con.body, include_fixed=True))
        self.sig = frozenset(v.parent_component().local_name for v in self.vars)
        self.eq = self.lower is not None and self.upper is not None and self.lower == self.upper


class Broken:
    """One violated constraint or bound instance."""

    def __init__(self, kind, sig, index, name, amount, tol):
        self.kind, self.sig, self.index, self.name, self.amount, self.tol = kind, sig, index, name, amount, tol

    def __repr__(self):
        return f"{self.kind} {self.name}[{self.index}] over {{{', '.join(sorted(self.sig))}}} off by {self.amount:.3g}"


class Judge:
    """All active constraints of a concrete model, evaluated at assigned points."""

    def __init__(self, m):
        self.m = m
        with sut("reading the constraints of the model"):
            self.cons = [Con(c) for c in m.component_data_objects(pyo.Constraint, active=True, descend_into=True)]
        self.vars = {v.local_name: v for v in m.component_objects(pyo.Var)}
        self.T = sorted(m.t)
        self.R = list(m.regions)

    def data(self):
        from vp.refmodel import Data

        m = self.m
        get = lambda p: np.array([[float(value(p[t, r])) for r in self.R] for t in self.T])
        with sut("reading baseline series from the model"):
            return Data(get(m.population), get(m.baseline_GDP), get(m.baseline_emissions))

    def assign(self, vals):
        """Assign reference arrays to all variables of the same name; names without reference values are returned."""
        missing = []
        for name, var in self.vars.items():
            arr = vals.get(name)
            if arr is None:
                missing.append(name)
                continue
            if arr.ndim == 2:
                for i, t in enumerate(self.T):
                    for j, r in enumerate(self.R):
                        var[t, r].set_value(float(arr[i, j]), skip_validation=True)
            else:
                for i, t in enumerate(self.T):
                    var[t].set_value(float(arr[i]), skip_validation=True)
        return missing

    def coarsest(self, name, t, r, rtol=1e-8):
        """The largest tolerance of the equations that mention one variable."""
        var = self.vars[name]
        wanted = id(var[self.T[t]] if r is None else var[self.T[t], self.R[r]])
        out = 0.0
        for c in self.cons:
            if c.eq and any(id(v) == wanted for v in c.vars):
                out = max(out, rtol * max(abs(v.value) for v in c.vars))
        return out

    def broken(self, rtol=1e-8, floor=1e-2):
        out = []
        for c in self.cons:
            scale = floor
            undefined = False
            for v in c.vars:
                x = v.value
                if x is None:
                    undefined = True
                    break
                ax = abs(x)
                if ax > scale:
                    scale = ax
            if undefined:
                out.append(Broken("undefined", c.sig, c.index, c.name, math.inf, 0))
                continue
            try:
                b = value(c.body)
            except (ZeroDivisionError, ValueError, OverflowError):
                b = math.nan
            if isinstance(b, complex):
                b = math.nan
            tol = rtol * scale
            off = 0.0
            if b != b:
                off = math.inf
            else:
                if c.lower is not None:
                    off = max(off, c.lower - b)
                if c.upper is not None:
                    off = max(off, b - c.upper)
            if off > tol:
                out.append(Broken("eq" if c.eq else "ineq", c.sig, c.index, c.name, off, tol))
        for name, var in self.vars.items():
            for idx in var:
                v = var[idx]
                x = v.value
                if x is None:
                    continue
                lb, ub = v.lb, v.ub
                tol = rtol * max(floor, abs(x))
                if lb is not None and x < lb - tol:
                    out.append(Broken("bound", frozenset([name]), idx, name, lb - x, tol))
                if ub is not None and x > ub + tol:
                    out.append(Broken("bound", frozenset([name]), idx, name, x - ub, tol))
        return out


# ------------------------------------------------------------------------------------------ fingerprints
def point_value(name, index, seed=0):
    """A pseudo-random number in [0.3, 1.5] that depends only on the variable's name and index."""
    h = zlib.crc32(f"{seed}|{name}|{index}".encode())
    return 0.3 + 1.2 * (h / 0xFFFFFFFF)


def fingerprint(m, seed=0):
    """Everything that makes up a built model, as comparable numbers: sets, parameter values, variable bounds and
    fixed values, and every active constraint and objective evaluated at a pseudo-random point."""
    out = {}
    with sut("reading the built model"):
        for s in ("t", "regions"):
            out["set", s, ()] = tuple(getattr(m, s))
        out["years", "", ()] = tuple(float(m.year(t)) for t in m.t)
        for p in m.component_objects(pyo.Param):
            for i in p:
                x = value(p[i]) if not p.mutable else value(p[i])
                out["param", p.local_name, i] = x
        saved = {}
        for v in m.component_data_objects(pyo.Var):
            name = v.parent_component().local_name
            i = v.index()
            out["bounds", name, i] = (v.lb, v.ub)
            out["fixed", name, i] = v.value if v.fixed else None
            saved[id(v)] = (v, v.value, v.stale)
            v.set_value(point_value(name, i, seed), skip_validation=True)
        for c in m.component_data_objects(pyo.Constraint, active=True):
            try:
                b = value(c.body)
            except (ZeroDivisionError, ValueError, OverflowError):
                b = math.nan
            key = ("constraint", c.parent_component().local_name, c.index())
            lo = None if c.lower is None else value(c.lower)
            up = None if c.upper is None else value(c.upper)
            out[key] = (b, lo, up)
        for o in m.component_data_objects(pyo.Objective, active=True):
            out["objective", o.local_name, ()] = (value(o.expr), o.sense == pyo.maximize)
        for v, x, stale in saved.values():
            v.set_value(x, skip_validation=True)
            v.stale = stale
    return out


def close(a, b, rtol=1e-9):
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(close(x, y, rtol) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a == b and type(a) is type(b) or (a == b)
    if isinstance(a, complex) or isinstance(b, complex):
        return abs(a - b) <= rtol * max(0.1, abs(a), abs(b))
    if a != a or b != b:
        return a != a and b != b
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= rtol * max(0.1, abs(a), abs(b))


def differences(fa, fb, rtol=1e-9, limit=4):
    """Readable differences between two fingerprints."""
    out = []
    for k in fa.keys() | fb.keys():
        if k not in fa or k not in fb:
            out.append(f"{k[0]} {k[1]}{list(k[2:])} only in {'the first' if k in fa else 'the second'}")
        elif not close(fa[k], fb[k], rtol):
            out.append(f"{k[0]} {k[1]}{list(k[2:])}: {fa[k]!r} against {fb[k]!r}")
        if len(out) >= limit:
            break
    return sorted(out)
