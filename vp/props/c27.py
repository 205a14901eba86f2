"""Constraint declarations: generated declarations become model constraints at every index with the declared meaning."""
import inspect
import random

import numpy as np
from hypothesis import strategies as st

from vp import conform, modelkit
from vp.conform import merge
from vp.core import Discard, Outcome, Sub, expect, sut

with sut("importing mimosa"):
    from mimosa import common
    import pyomo.environ as pyo
    from pyomo.core.expr.visitor import identify_variables

KINDS = ["global", "global init", "regional", "regional init", "global soft", "regional soft"]


def build(case):
    T, regions = case["T"], case["regions"]
    with sut("declaring and adding constraints"):
        m = pyo.AbstractModel()
        m.t = pyo.Set()
        m.regions = pyo.Set(ordered=True)
        m.p = pyo.Param(m.t, m.regions, initialize=lambda m, t, r: 1 + t + 10 * list(m.regions).index(r))
        out = []
        for k, dec in enumerate(case["decs"]):
            kind = dec["kind"]
            reg = "regional" in kind
            init = "init" in kind
            lhs, rhs = f"lhs{k}", f"rhs{k}"
            m.add_component(lhs, pyo.Var(*([m.regions] if init and reg else [] if init else [m.t, m.regions] if reg else [m.t])))
            m.add_component(rhs, pyo.Var(*([m.regions] if init and reg else [] if init else [m.t])))
            skip = {tuple(x) for x in dec["skip"]}

            def get(m, name, args):
                v = getattr(m, name)
                return v[args if len(args) > 1 else args[0]] if args else v

            def key(m, args):
                if init:
                    return ()
                return (args[0], list(m.regions).index(args[1])) if reg else (args[0],)

            def ignored(m, args, reg=reg, init=init, skip=skip):
                if init:
                    return False
                i = (args[0], list(m.regions).index(args[1])) if reg else (args[0], 0)
                return i in skip

            def left(m, *args, lhs=lhs, c=dec["c"]):
                v = getattr(m, lhs)
                return c * (v[args] if len(args) > 1 else v[args[0]] if args else v)

            def right(m, *args, rhs=rhs, init=init):
                v = getattr(m, rhs)
                return v[args[0]] if args else v

            if "soft" in kind:
                cls = common.GlobalSoftEqualityConstraint if not reg else common.RegionalSoftEqualityConstraint
                kw = {}
                if dec["abs"]:
                    kw = {"absolute_epsilon": dec["eps"]}
                    if not dec["explicit"]:
                        kw["epsilon"] = None
                elif dec["eps"] is not None:
                    kw = {"epsilon": dec["eps"]}
                if skip or dec["explicit"]:
                    kw["ignore_if"] = lambda m, *a, f=ignored: f(m, a)
                con = cls(left, right, name=dec["name"], **kw)
            else:
                op = dec["op"]

                def rule(m, *args, f=left, g=right, op=op, ig=ignored):
                    if ig(m, args):
                        return pyo.Constraint.Skip
                    a, b = f(m, *args), g(m, *args)
                    return a <= b if op == "<=" else a >= b if op == ">=" else a == b

                cls = {
                    "global": common.GlobalConstraint,
                    "global init": common.GlobalInitConstraint,
                    "regional": common.RegionalConstraint,
                    "regional init": common.RegionalInitConstraint,
                }[kind]
                kw = {"name": dec["name"]} if dec["name"] else {}
                if dec.get("doc"):
                    kw["doc"] = dec["doc"]
                con = cls(rule, **kw)
            out.append(con)
        for con in out:
            common.add_constraint(m, con.to_pyomo_constraint(m), con.name)
        inst = m.create_instance({None: {"t": {None: range(T)}, "regions": {None: list(regions)}}})
    return inst


def run(case):
    inst = build(case)
    T, regions = case["T"], case["regions"]
    rnd = random.Random(case["seed"])
    # every declaration: indices it covers and the allowed interval of lhs around rhs
    by_lhs = {}
    for con in inst.component_data_objects(pyo.Constraint, active=True):
        for v in identify_variables(con.body):
            if v.parent_component().local_name.startswith("lhs"):
                by_lhs.setdefault(id(v), []).append(con)
    total = 0
    labels = set()
    for k, dec in enumerate(case["decs"]):
        kind = dec["kind"]
        reg, init, soft = "regional" in kind, "init" in kind, "soft" in kind
        L, Rv = getattr(inst, f"lhs{k}"), getattr(inst, f"rhs{k}")
        idx = [None] if init and not reg else list(regions) if init else [(t, r) for t in range(T) for r in regions] if reg else list(range(T))
        skip = {tuple(x) for x in dec["skip"]} if not init else set()
        if dec["name"]:
            with sut("finding the named constraint"):
                want = [f"constraint_{dec['name']}_upperbound", f"constraint_{dec['name']}_lowerbound"] if soft else [f"constraint_{dec['name']}"]
                for w in want:
                    expect(inst.component(w) is not None, f"no component '{w}' for the declared constraint")
        for i in idx:
            if init:
                skipped = False
            else:
                skipped = ((i[0], regions.index(i[1])) if reg else (i, 0)) in skip
            var = L if i is None else L[i]
            rvar = Rv if i is None else Rv[i] if init else Rv[i[0] if reg else i]
            cons = by_lhs.get(id(var), [])
            for con in cons:
                if not soft and dec.get("doc"):
                    got = con.parent_component().doc
                    expect(got == dec["doc"], f"declaration {dec}: the description is {got!r} in the model")
            b = rnd.choice([1e-3, 0.4, 3.0, 1e4]) * (1 if soft and not dec["abs"] else rnd.choice([-1, 1]))
            rvar.set_value(b)
            if soft:
                eps = dec["eps"] if dec["eps"] is not None else 0.005
                width = eps if dec["abs"] else eps * b
                points = [(u, abs(u) < 1) for u in (-5, -1.02, -0.98, 0, 0.5, 0.98, 1.02, 5)]
                if not width:  # a tolerance of exactly zero: only equality is admitted
                    width, points = 1e-4 * abs(b), [(u, u == 0) for u, _ in points]
                vals = [((b + u * width) / dec["c"], ok) for u, ok in points]
            else:
                gap = 1e-4 * abs(b)
                vals = [((b + s * gap) / dec["c"], {"<=": s <= 0, ">=": s >= 0, "==": s == 0}[dec["op"]]) for s in (-3, 0, 3)]
            for x, ok in vals:
                var.set_value(x)
                tol = 1e-11 * max(1, abs(b))
                held = True
                for con in cons:
                    body = pyo.value(con.body)
                    lo, up = con.lower, con.upper
                    if lo is not None and body < pyo.value(lo) - tol or up is not None and body > pyo.value(up) + tol:
                        held = False
                total += 1
                want_ok = ok or skipped
                expect(
                    held == want_ok,
                    f"declaration {dec} at index {i}: left side {dec['c'] * x:.8g} against right side {b:g} is {'admitted' if held else 'excluded'}",
                )
        labels.add(kind + (" absolute" if soft and dec["abs"] else ""))
        if skip:
            labels.add(kind + " with ignored indices")
    return Outcome(total >= 6, sorted(labels))


@st.composite
def cases(draw):
    T = draw(st.integers(1, 5))
    regions = draw(st.lists(st.sampled_from(["WEU", "INDIA", "SEAS", "A", "x y"]), min_size=1, max_size=4, unique=True))
    decs = []
    n = draw(st.integers(1, 5))
    for k in range(n):
        kind = draw(st.sampled_from(KINDS))
        soft = "soft" in kind
        absolute = soft and draw(st.booleans())
        cells = [(t, r) for t in range(T) for r in range(len(regions) if "regional" in kind else 1)]
        skip = draw(st.lists(st.sampled_from(cells), max_size=3, unique=True)) if draw(st.booleans()) else []
        decs.append(
            {
                "kind": kind,
                "op": draw(st.sampled_from(["<=", ">=", "=="])),
                "c": draw(st.sampled_from([1, 2.5, -1.0, 0.1])),
                "name": f"rule_{k}_{draw(st.sampled_from(['a', 'init', 'upperbound']))}" if soft or draw(st.booleans()) else None,
                "abs": absolute,
                "eps": draw(st.sampled_from([0.001, 0.05, 0.3, 0.0])) if absolute else draw(st.sampled_from([None, 0.005, 0.02, 0.2, 0.0])),
                "skip": [list(s) for s in skip],
                "explicit": draw(st.booleans()),
                "doc": None if soft else draw(st.sampled_from([None, f"$$ x_{k} = y $$", "plain text"])),
            }
        )
    return {"T": T, "regions": regions, "decs": decs, "seed": draw(st.integers(0, 9999))}


# ------------------------------------------------------------- the declarations of the real modules
def recording(classes):
    """Every constraint declared while active, with the arguments it was declared with."""
    log, saved = [], []

    def wrap(cls):
        orig = cls.__init__
        sig = inspect.signature(orig)

        def init(self, *args, **kw):
            b = sig.bind(self, *args, **kw)
            b.apply_defaults()
            if not any(x[0] is self for x in log):
                log.append((self, {k: v for k, v in b.arguments.items() if k != "self"}))
            return orig(self, *args, **kw)

        saved.append((cls, "__init__" in cls.__dict__, orig))
        cls.__init__ = init

    for c in classes:
        wrap(c)

    def undo():
        for cls, own, orig in saved:
            if own:
                cls.__init__ = orig
            else:
                del cls.__init__

    return log, undo


CLASSES = [
    common.GlobalConstraint,
    common.GlobalInitConstraint,
    common.RegionalConstraint,
    common.RegionalInitConstraint,
    common.GlobalSoftEqualityConstraint,
    common.RegionalSoftEqualityConstraint,
]


def run_modules(case):
    log, undo = recording(CLASSES)
    try:
        m = modelkit.build(merge(case["cfg"], case["limits"])).concrete_model
    finally:
        undo()
    if not log:
        raise Discard()
    rs = np.random.RandomState(case["seed"])
    for v in m.component_data_objects(pyo.Var):
        v.set_value(float(rs.uniform(0.2, 1.5)), skip_validation=True)
    T, R = sorted(m.t), list(m.regions)
    existing = {}
    for comp in m.component_objects(pyo.Constraint, active=True):
        existing[comp.local_name] = {i: comp[i] for i in comp}

    def slack(con):
        """How far the point is inside the constraint: one or two signed numbers."""
        b = pyo.value(con.body)
        out = []
        if con.lower is not None:
            out.append(b - pyo.value(con.lower))
        if con.upper is not None:
            out.append(pyo.value(con.upper) - b)
        return out, b

    def same(a, b):
        return len(a) == len(b) and all(abs(x - y) <= 1e-9 * max(1e-3, abs(x), abs(y)) for x, y in zip(sorted(a), sorted(b)))

    judged = skipped = 0
    scratch = 0
    for obj, args in log:
        cls = type(obj).__name__
        reg, init, soft = "Regional" in cls, "Init" in cls, "Soft" in cls
        sets = ([] if init else [m.t]) + ([m.regions] if reg else [])
        if soft:
            lhs, rhs = args["rule_lhs"], args["rule_rhs"]
            eps, absolute, ig = args["epsilon"], args["absolute_epsilon"], args["ignore_if"]

            def upper(m, *i):
                if ig is not None and ig(m, *i):
                    return pyo.Constraint.Skip
                return lhs(m, *i) <= (rhs(m, *i) + absolute if absolute is not None else rhs(m, *i) * (1 + eps))

            def lower(m, *i):
                if ig is not None and ig(m, *i):
                    return pyo.Constraint.Skip
                return lhs(m, *i) >= (rhs(m, *i) - absolute if absolute is not None else rhs(m, *i) * (1 - eps))

            rules = [(upper, f"constraint_{args['name']}_upperbound"), (lower, f"constraint_{args['name']}_lowerbound")]
        else:
            rules = [(args["rule"], None if args["name"] is None else f"constraint_{args['name']}")]
        for rule, name in rules:
            scratch += 1
            own = pyo.Constraint(*sets, rule=rule)
            try:
                m.add_component(f"verif_scratch_{scratch}", own)
            except Exception:
                raise Discard()
            wanted = {i: slack(own[i]) for i in own}
            total = len(T) ** (not init) * len(R) ** reg
            skipped += total - len(wanted)
            if name is not None:
                expect(name in existing or not wanted, f"the declared constraint '{name}' is not in the model")
                pool = [existing.get(name, {})]
            else:
                pool = [e for e in existing.values() if set(e) == set(wanted)]
            found = None
            for e in pool:
                if set(e) != set(wanted):
                    continue
                try:
                    if all(same(slack(e[i])[0], wanted[i][0]) for i in wanted):
                        found = e
                        break
                except (ZeroDivisionError, ValueError):
                    continue
            if found is None and wanted:
                diff = sorted(set(wanted) ^ set(pool[0]), key=str)[:4] if len(pool) == 1 else ""
                expect(False, f"{cls} '{args['name']}' is not in the model as declared (indices that differ: {diff})")
            judged += len(wanted)
    return Outcome(judged > 50, ["some indices skipped by their rule"] if skipped else None)


@st.composite
def module_cases(draw):
    lim = {"emissions": {"inertia": {}}, "temperature": {}, "effort sharing": {}}
    e = lim["emissions"]
    e["carbonbudget"] = draw(st.sampled_from([False, "500 GtCO2"]))
    e["not positive after budget year"] = draw(st.booleans())
    e["non increasing emissions after 2100"] = draw(st.booleans())
    e["inertia"]["global"] = draw(st.sampled_from([False, -0.05]))
    e["inertia"]["regional"] = draw(st.sampled_from([False, -0.05]))
    lim["temperature"]["target"] = draw(st.sampled_from([False, "2 delta_degC"]))
    cfg = draw(conform.cfg(density=9))
    regimes = ["noregime", "equal_mitigation_costs", "equal_total_costs"]
    if cfg["model"]["emissiontrade module"] == "emissiontrade":
        regimes.append("per_cap_convergence")
    lim["effort sharing"]["regime"] = draw(st.sampled_from(regimes))
    return {"cfg": cfg, "limits": lim, "seed": draw(st.integers(0, 999))}


SUBS = [
    Sub("modules", module_cases(), run_modules, quick=60, thorough=1500, rule="more than 50 declared constraint instances found in the built model and compared at a random point"),
    Sub("declarations", cases(), run, quick=1500, thorough=40000, rule="at least six points judged on constraints of a generated declaration set"),
]
ASSUMPTIONS = ["relative tolerances are judged for positive right-hand sides (around negative ones the bounds would cross; no module declares such a case)"]
