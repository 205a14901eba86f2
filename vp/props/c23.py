"""Solving: reductions before it, restored variables after it, and the reported status."""
import logging
import os

import numpy as np
from hypothesis import strategies as st

from vp import conform, fakesolver, modelkit
from vp.conform import merge
from vp.core import Discard, Outcome, Sub, expect, quiet, sut

with sut("importing mimosa"):
    import pyomo.environ as pyo

fakesolver.install()
Plan = fakesolver.Plan


def objective(m):
    objs = list(m.component_data_objects(pyo.Objective, active=True))
    expect(len(objs) == 1, f"{len(objs)} active objectives")
    return objs[0]


def by_key(cons):
    return {(c.name, c.index): c for c in cons}


def own_vars(m):
    """The model's own variables (not those added by the reductions)."""
    return {v.local_name: v for v in m.component_objects(pyo.Var, descend_into=False)}


def residual(c):
    """(how far the constraint is from holding, its tolerance scale)."""
    scale = 1e-2
    for v in c.vars:
        scale = max(scale, abs(v.value))
    try:
        b = pyo.value(c.body)
    except (ZeroDivisionError, ValueError, OverflowError):
        return float("nan"), scale
    if isinstance(b, complex):
        return float("nan"), scale
    return b, scale


# ------------------------------------------------------------------------------------------- reductions
def copy_point(src, m, names=None):
    """Assign the values of the model src to the model m, and to the variables the reductions put in their place."""
    a, b = own_vars(src), own_vars(m)
    for n, v in b.items():
        for i in v:
            v[i].set_value(a[n][i].value, skip_validation=True)
    info = m.component("_var_aggregator_info")
    if info is not None:
        for z, members in info.z_to_vars.items():
            z.set_value(sum(v.value for v in members) / len(members), skip_validation=True)


def run_reductions(case):
    B = conform.Built(case["cfg"], case["pol"])
    if conform.spoiled(B.c, B.d, B.v) or any(x[2] > 0 for x in conform.configured_limits(B.c, B.d, B.v)):
        raise Discard()
    broken = B.broken_at(B.v)
    if broken:
        raise Discard()  # whether the full model admits it is decided by the other properties
    full = B.m
    m = modelkit.build(case["cfg"], presolve=True).concrete_model
    fixed = {(v.parent_component().name, v.index()): v.value for v in m.component_data_objects(pyo.Var) if v.fixed}
    copy_point(full, m)
    ov = own_vars(full)
    n = 0
    for (name, i), x in fixed.items():
        if name not in ov:
            continue
        want = ov[name][i].value
        expect(abs(x - want) <= 1e-8 * max(0.01, abs(want)), f"{name}[{i}] is fixed at {x!r} before solving, an admitted point has {want!r}")
        n += 1
    J = modelkit.Judge(m)
    now = J.broken(rtol=2e-8)
    expect(not now, f"a point admitted by the full model is excluded by the reduced one: {now[:4]}")
    o, p = objective(full), objective(m)
    a, b = pyo.value(o.expr), pyo.value(p.expr)
    expect(abs(a - b) <= 1e-9 * max(1e-3, abs(a)), f"the objective is {a!r} in the full and {b!r} in the reduced model")
    expect(o.sense == p.sense, "the reductions change the direction of optimisation")
    inactive = sum(1 for c in m.component_data_objects(pyo.Constraint) if not c.active)
    info = m.component("_var_aggregator_info")
    merged = len(info.z_to_vars) if info is not None else 0
    lab = [f"{k}={v}" for k, v in case["cfg"]["model"].items()]
    return Outcome(n > 0 and inactive > 0 or len(B.c.regions) == 1, lab + (["variables merged"] if merged else []))


# ------------------------------------------------------------------------------------------ after a solve
def link(m, links, seed):
    """Further equalities between pairs of the model's variables, as a user may add them; returns how many."""
    rs = np.random.RandomState(seed)
    T, R = sorted(m.t), list(m.regions)
    k = 0
    for kind in links:
        pairs = []
        if kind == "same abatement":
            pairs = [(m.relative_abatement[t, r], m.relative_abatement[t, R[0]]) for t in T[1:] for r in R[1:]]
        elif kind == "chain":
            t = T[1 + rs.randint(0, len(T) - 1)]
            v = getattr(m, ["utility", "GDP_net", "mitigation_costs"][rs.randint(0, 3)])
            order = [R[i] for i in rs.permutation(len(R))]
            pairs = [(v[t, a], v[t, b]) for a, b in zip(order, order[1:])]
        elif kind == "constant":
            r = R[rs.randint(0, len(R))]
            pairs = [(m.carbonprice[t, r], m.carbonprice[t + 1, r]) for t in T[1:-1]]
        for a, b in pairs:
            k += 1
            m.add_component(f"added_link_{k}", pyo.Constraint(expr=a - b == 0 if rs.randint(0, 2) else a == b))
    return k


def compare_with_full(mm, full, before, what):
    """The model's values after a solve, judged in the full model against what the solver was asked to satisfy."""
    m = mm.concrete_model
    red = by_key([modelkit.Con(c) for c in m.component_data_objects(pyo.Constraint, active=True)])
    J = modelkit.Judge(full)
    a, b = own_vars(m), own_vars(full)
    none = [f"{n}[{i}]" for n in b for i in b[n] if a[n][i].value is None]
    expect(not none, f"{what}: {none[:4]} have no value")
    for n, v in b.items():
        for i in v:
            v[i].set_value(a[n][i].value, skip_validation=True)
    gone = 0
    for c in J.cons:
        b_full, scale = residual(c)
        k = red.get((c.name, c.index))
        if k is None:
            gone += 1
            off = max(0.0, (c.lower - b_full) if c.lower is not None else 0.0, (b_full - c.upper) if c.upper is not None else 0.0)
            expect(off <= 1e-8 * scale, f"{what}: {c.name}[{c.index}], left out of the solved problem, is off by {off:.4g} in the returned values")
            continue
        b_red, s2 = residual(k)
        if b_full != b_full or b_red != b_red:
            continue
        x = min(b_full - c.lower if c.lower is not None else np.inf, c.upper - b_full if c.upper is not None else np.inf)
        y = min(b_red - k.lower if k.lower is not None else np.inf, k.upper - b_red if k.upper is not None else np.inf)
        expect(
            abs(x - y) <= 1e-7 * max(scale, s2, abs(b_full)) or (x >= 0 and y >= 0),
            f"{what}: {c.name}[{c.index}] has slack {y:.6g} in the solved problem and {x:.6g} in the returned values",
        )
    for n, v in b.items():
        for i in v:
            x = v[i].value
            if x == before.get((n, i)):
                continue
            lb, ub = v[i].lb, v[i].ub
            t = 1e-8 * max(0.01, abs(x))
            expect(
                (lb is None or x >= lb - t) and (ub is None or x <= ub + t),
                f"{what}: {n}[{i}] = {x:.6g} is outside its bounds [{lb}, {ub}] though the solver kept to all bounds it was given",
            )
    o, p = pyo.value(objective(full).expr), pyo.value(objective(m).expr)
    expect(abs(o - p) <= 1e-8 * max(1e-3, abs(o)), f"{what}: the objective was {p!r} in the solved problem, the returned values give {o!r}")
    return gone


# the arguments of solve(), and the name IPOPT knows them by
OPTION = {"halt_on_ampl_error": "halt_on_ampl_error", "ipopt_maxiter": "max_iter", "ipopt_output_file": "output_file"}


class Log(logging.Handler):
    """What is logged while it is installed."""

    def __init__(self):
        super().__init__(logging.INFO)
        self.lines = []

    def emit(self, record):
        self.lines.append(record.getMessage())

    def __enter__(self):
        self.was = logging.root.manager.disable, logging.root.level
        logging.disable(logging.NOTSET)
        logging.root.setLevel(logging.INFO)
        logging.root.addHandler(self)
        return self

    def __exit__(self, *exc):
        logging.root.removeHandler(self)
        logging.root.setLevel(self.was[1])
        logging.disable(self.was[0])


def compare_log(lines, m, outcome, what):
    """The status and the final value that a log file shows (docs/run.md)."""
    status = [x.split(":", 1)[1].strip() for x in lines if x.startswith("Status:")]
    final = [x.split(":", 1)[1].strip() for x in lines if x.startswith("Final NPV:")]
    if outcome == "raises":
        expect("ok" not in status and not final, f"{what}: the solver crashed, the log says {lines}")
        return
    want = fakesolver.STATUS[outcome][0].value
    expect(status == [want], f"{what}: the solver's status is {want}, the log says {lines}")
    if outcome == "ok":
        x = pyo.value(m.NPV[max(m.t)])
        expect(len(final) == 1 and abs(float(final[0].replace(",", "")) - x) <= 1e-3 * max(1e-9, abs(x)), f"{what}: the final NPV is {x!r}, the log says {lines}")
    else:
        expect(not final, f"{what}: the solve failed with {want}, the log has a final value: {lines}")


def run_solve(case):
    mm = modelkit.build(case["cfg"], presolve=not case["links"])
    full = modelkit.build(case["cfg"]).concrete_model
    m = mm.concrete_model
    added = 0
    if case["links"]:
        if not hasattr(mm, "preprocessing"):
            raise Discard()
        added = link(m, case["links"], case["seed"])
        link(full, case["links"], case["seed"])
        with sut("preprocessing"):
            mm.preprocessing()
    fixed = {(v.parent_component().name, v.index()): v.value for v in m.component_data_objects(pyo.Var) if v.fixed}
    gone, labels = 0, set()
    os.environ.pop("NEOS_EMAIL", None)
    for k, outcome in enumerate(case["outcomes"]):
        Plan.outcome = outcome
        Plan.values = fakesolver.random_values(case["seed"] + k)
        Plan.calls = 0
        before = {(n, i): v[i].value for n, v in own_vars(m).items() for i in v}
        what = f"solve {k + 1} ({', '.join(case['outcomes'][: k + 1])})"
        kw = dict(case["options"][k])
        neos = case["neos"][k]
        if neos:
            kw.update(use_neos=True, neos_email=f"someone{k}@example.org")
        error = None
        try:
            with quiet(), Log() as log:
                mm.solve(**kw)
        except Exception as exc:
            error = exc
        expect(Plan.calls == 1, f"{what}: the solver was called {Plan.calls} times")
        if neos:
            expect(Plan.email == kw["neos_email"], f"{what}: the e-mail address known to the NEOS server is {Plan.email!r}, not {kw['neos_email']!r}")
        else:
            want = {OPTION[o]: str(x) for o, x in case["options"][k].items() if o in OPTION}
            want.setdefault("halt_on_ampl_error", "no")
            got = {o: Plan.options.get(o) for o in OPTION.values()}
            for o in OPTION.values():
                expect(got[o] == want.get(o), f"{what}: with the options {kw} the solver's {o} is {got[o]!r}, not {want.get(o)!r}")
            expect(Plan.tee == kw.get("verbose", True), f"{what}: with the options {kw} the solver's output is {'' if Plan.tee else 'not '}shown")
            if case["options"][k]:
                labels.add("options")
        status = getattr(mm.status, "value", mm.status)
        labels.add(outcome)
        compare_log(log.lines, m, outcome, what)
        if outcome == "ok":
            expect(error is None, f"{what}: a successful solve raises {type(error).__name__}: {str(error)[:200]}")
            expect(mm.status == fakesolver.SolverStatus.ok, f"{what}: a successful solve is reported as {status}")
            gone += compare_with_full(mm, full, before, what)
            for key, x in fixed.items():
                c = m.find_component(key[0])
                expect(abs(c[key[1]].value - x) <= 1e-12 * max(1, abs(x)), f"{what}: {key[0]}[{key[1]}], fixed at {x!r}, is {c[key[1]].value!r} after the solve")
        else:
            expect(error is not None, f"{what}: no error though the solver's status is '{outcome}'")
            if outcome == "raises":
                expect(mm.status != fakesolver.SolverStatus.ok, f"{what}: reported as successful though the solver crashed")
            else:
                if outcome in ("warning", "infeasible"):  # the solver's last iterate is kept
                    gone += compare_with_full(mm, full, before, what)
                want = fakesolver.STATUS[outcome][0]
                expect(mm.status == want, f"{what}: reported status {status}, the solver's is {want.value}")
    if added:
        labels.add("merged by added equalities")
    if gone:
        labels.add("equalities eliminated")
    if any(case["neos"]):
        labels.add("neos")
    return Outcome(gone > 0 or any(o != "ok" for o in case["outcomes"]), sorted(labels))


@st.composite
def solve_cases(draw):
    cfg = draw(conform.cfg(density=6, rhi=4))
    if draw(st.integers(0, 2)) == 0:
        conform.set_path(cfg, ("economics", "GDP", "savings rate"), 0)
    cfg["emissions"]["carbonbudget"] = draw(st.sampled_from([False, "700 GtCO2"]))
    cfg["effort sharing"]["regime"] = draw(st.sampled_from(["noregime", "noregime", "equal_mitigation_costs", "equal_total_costs"]))
    outs = ["ok", "ok", "warning", "infeasible", "error", "aborted", "unknown", "raises"]
    links = []
    if draw(st.integers(0, 2)) == 0:
        links = draw(st.lists(st.sampled_from(["same abatement", "chain", "constant"]), min_size=1, max_size=2, unique=True))
        if len(cfg["regions"]) == 1:
            links = []
    outcomes = draw(st.lists(st.sampled_from(outs), min_size=1, max_size=4))
    options = st.fixed_dictionaries(
        {},
        optional={
            "verbose": st.booleans(),
            "ipopt_maxiter": st.sampled_from([0, 1, 10, 3000]),
            "halt_on_ampl_error": st.sampled_from(["yes", "no"]),
            "ipopt_output_file": st.sampled_from(["ipopt.out", "runs/a b.txt"]),
        },
    )
    return {
        "cfg": cfg,
        "links": links,
        "outcomes": outcomes,
        "seed": draw(st.integers(0, 10**6)),
        "neos": [draw(st.integers(0, 7)) == 0 for _ in outcomes],
        "options": [draw(st.one_of(st.just({}), options)) for _ in outcomes],
    }


@st.composite
def reduction_cases(draw):
    cfg = draw(conform.cfg(density=4))
    if draw(st.integers(0, 2)) == 0:
        conform.set_path(cfg, ("economics", "GDP", "savings rate"), 0)
    if draw(st.integers(0, 3)) == 0:  # bounds that nearly coincide are still two bounds
        conform.set_path(cfg, ("economics", "MAC", "gamma"), draw(st.sampled_from(["1 USD2005/tCO2", "0.02 USD2005/tCO2"])))
    if draw(st.booleans()):
        cfg["emissions"]["carbonbudget"] = "9000 GtCO2"
        cfg["emissions"]["inertia"] = {"regional": -0.9, "global": -0.9}
    pol = draw(conform.policy())
    pol["amax"] = min(pol["amax"], 0.7)
    if pol["bal"]:
        pol["bal"] = 0.0003
        cfg["economics"]["MAC"]["rel_mitigation_costs_min_level"] = -0.5
    return {"cfg": cfg, "pol": pol}


SUBS = [
    Sub("reductions", reduction_cases(), run_reductions, quick=130, thorough=4000, rule="a point admitted by the full model judged in the reduced one, with variables fixed or constraints eliminated (or one region)"),
    Sub("solve", solve_cases(), run_solve, quick=160, thorough=4000, rule="a sequence of solves with eliminated equalities or a failing solver"),
]
ASSUMPTIONS = [
    "the solver is a stand-in that returns values within the bounds it is given for every variable written to the problem file, and none of the others",
    "IPOPT itself is not available here and not part of the property",
]
