"""Horizon, regions and parameter values of built models."""
import math

import numpy as np
from hypothesis import strategies as st
from pyomo.environ import value

from vp import conf, conform, modelkit, refmodel
from vp.conform import configured_limits, merge, owners, set_path
from vp.core import Discard, Outcome, Sub, expect, sut

# ---------------------------------------------------------------------------------------------------- horizon


def run_horizon(case):
    t = case["time"]
    cfg = merge(conform.OFF, {"time": t, "model": case["model"]})
    cfg["regions"] = {r: None for r in case["regions"]}
    m = modelkit.build(cfg).concrete_model
    with sut("reading the horizon of the model"):
        steps = sorted(m.t)
        years = [float(m.year(i)) for i in steps]
        regions = list(m.regions)
        last = int(value(m.tf))
        E = {(i, r) for i, r in m.regional_emissions}
        G = list(m.global_emissions)
        begin = float(value(m.beginyear))
        step = float(value(m.dt))
        y2100 = int(value(m.year2100)) if hasattr(m, "year2100") else None
    expect(regions == case["regions"], f"model regions {regions}, configured {case['regions']}")
    expect(steps == list(range(len(steps))), f"time steps {steps}")
    want = [t["start"] + i * t["dt"] for i in range(len(steps))]
    expect(np.allclose(years, want, rtol=0, atol=1e-9), f"model years {years[:4]}... instead of {want[:4]}...")
    expect(begin == t["start"] and abs(step - t["dt"]) < 1e-12, f"first year {begin:g}, step {step:g}; configured {t}")
    expect(last == steps[-1], f"last step is {last}, the horizon has steps up to {steps[-1]}")
    expect(years[-1] >= t["end"] - 1e-9, f"last model year {years[-1]:g} does not reach the end year {t['end']}")
    expect(len(years) < 2 or years[-2] < t["end"] - 1e-9, f"model continues after {years[-2]:g} though the end year is {t['end']}")
    expect(E == {(i, r) for i in steps for r in regions} and sorted(G) == steps, "variables do not cover every year and region")
    if y2100 is not None:  # the last step that is not after 2100
        y = t["start"] + y2100 * t["dt"]
        expect(2100 - t["dt"] - 1e-6 < y < 2100 + 1e-6, f"the step of the year 2100 is {y2100}, which is the year {y:g}; steps of {t['dt']} from {t['start']}")
    exact = abs(years[-1] - t["end"]) < 1e-9
    return Outcome(True, ["end on the grid" if exact else "end between steps", f"{len(regions)} regions"])


@st.composite
def horizon_cases(draw):
    start = draw(st.integers(2010, 2060))
    dt = draw(st.sampled_from([0.5, 0.7, 1.4, 2.8, 1, 1, 2, 2.5, 3, 4, 5, 5, 6, 7, 7.5, 9, 10, 10, 11, 12.5, 15, 17, 20]))
    n = draw(st.sampled_from([15, 30, 60])) if dt in (0.7, 1.4, 2.8) else draw(st.integers(1, 25))  # not exact in binary
    end = int(math.floor(start + n * dt - draw(st.sampled_from([0, 0, 1, 2, 3, 0.5])) * (1 if dt > 3 else 0)))
    end = min(2300, max(start + 1, end))
    return {
        "time": {"start": start, "end": end, "dt": dt},
        "regions": draw(st.lists(st.sampled_from(conf.REGIONS), min_size=1, max_size=4, unique=True)),
        "model": {k: draw(st.sampled_from(v)) for k, v in conform.DIMS.items()},
    }


# ---------------------------------------------------------------------------------------- every scalar setting
def run_settings(case):
    """All scalar settings at generic values: the reference equations with exactly these values must hold."""
    B = conform.Built(case["cfg"], case["pol"])
    broken = [x for x in B.broken_at(B.v) if x.kind in ("eq", "undefined")]
    broken = [x for x in broken if not (x.kind == "undefined" and "C17" in owners(x))]
    expect(not broken, f"equations with the configured values do not hold: {broken[:3]}")
    entries = configured_limits(B.c, B.d, B.v)
    near = any(abs(e[2]) <= 2e-6 for e in entries)
    lab = []
    if not near:
        over = [e for e in entries if e[2] > 0]
        got = [x for x in B.broken_at(B.v) if x.kind in ("ineq", "bound") and "C11" in owners(x)]
        expect(bool(over) == bool(got), f"limits {over[:3]} are exceeded by the trajectory, the model reports {got[:3]}")
        lab.append("limits exceeded" if over else "within limits")
    price = (B.v["carbonprice"] / (2 * B.c.gamma)).max()
    return Outcome(True, lab + (["price cap met"] if price > 1 else []))


def f(lo, hi):
    return st.integers(1, 999).map(lambda k: float(f"{lo + (hi - lo) * k / 1000:.6g}"))


@st.composite
def generic_cfg(draw, reach=None):
    cfg = draw(conform.cfg(reach=reach, density=3))
    for path, s in (
        (("economics", "PRTP"), f(0.001, 0.08)),
        (("economics", "elasmu"), f(1.05, 1.9)),
        (("economics", "inequal_aversion"), f(0.05, 0.95)),
        (("economics", "GDP", "alpha"), f(0.1, 0.6)),
        (("economics", "GDP", "depreciation of capital"), f(0.01, 0.12)),
        (("economics", "GDP", "savings rate"), f(0.1, 0.4)),
        (("economics", "MAC", "beta"), f(1.2, 3.9)),
        (("economics", "MAC", "gamma"), f(900, 3000).map(lambda x: f"{x} USD2005/tCO2")),
        (("economics", "MAC", "LBD_rate"), f(0.7, 0.98)),
        (("economics", "MAC", "LBD_scaling"), f(15, 90).map(lambda x: f"{x} GtCO2")),
        (("economics", "MAC", "LOT_rate"), f(0.001, 0.05)),
        (("economics", "damages", "scale factor"), f(0.3, 1.8)),
        (("temperature", "initial"), f(0.9, 1.5).map(lambda x: f"{x} delta_degC")),
        (("temperature", "TCRE"), f(0.4, 1.1).map(lambda x: f"{x} delta_degC/TtCO2")),
        (("emissions", "carbonbudget"), f(100, 3000).map(lambda x: f"{x} GtCO2")),
        (("emissions", "global min level"), f(-30, 3).map(lambda x: f"{x} GtCO2/yr")),
        (("emissions", "regional min level"), f(-9, -0.2).map(lambda x: f"{x} GtCO2/yr")),
        (("emissions", "inertia", "global"), f(-0.1, -0.01)),
        (("emissions", "inertia", "regional"), f(-0.1, -0.01)),
        (("temperature", "target"), f(1.5, 3.5).map(lambda x: f"{x} delta_degC")),
    ):
        if path[0] in ("emissions", "temperature") and path[1] not in ("initial", "TCRE") and draw(st.integers(0, 1)):
            continue
        set_path(cfg, path, draw(s))
    return cfg


# -------------------------------------------------------------------------------------------- custom parameters
def numbers_of(m):
    """Values of every parameter: name -> {index: value}."""
    from pyomo.environ import Param

    out = {}
    with sut("reading the parameters of the model"):
        for p in m.component_objects(Param):
            out[p.local_name] = {i: value(p[i]) for i in p}
    return out


SCALARS = [
    (("economics", "PRTP"), f(0.001, 0.08)),
    (("economics", "elasmu"), f(1.05, 1.9)),
    (("economics", "GDP", "alpha"), f(0.1, 0.6)),
    (("economics", "GDP", "depreciation of capital"), f(0.01, 0.12)),
    (("economics", "GDP", "savings rate"), f(0.1, 0.4)),
    (("economics", "MAC", "beta"), f(1.2, 3.9)),
    (("economics", "MAC", "gamma"), f(900, 3000).map(lambda x: f"{x} USD2005/tCO2")),
    (("economics", "MAC", "LBD_rate"), f(0.7, 0.98)),
    (("economics", "MAC", "LOT_rate"), f(0.001, 0.05)),
    (("economics", "MAC", "rel_mitigation_costs_min_level"), f(-0.4, -0.01)),
    (("economics", "damages", "scale factor"), f(0.3, 1.8)),
    (("temperature", "initial"), f(0.9, 1.5).map(lambda x: f"{x} delta_degC")),
    (("temperature", "TCRE"), f(0.4, 1.1).map(lambda x: f"{x} delta_degC/TtCO2")),
    (("temperature", "target"), f(1.5, 3.5).map(lambda x: f"{x} delta_degC")),
    (("emissions", "carbonbudget"), f(100, 3000).map(lambda x: f"{x} GtCO2")),
    (("emissions", "inertia", "regional"), f(-0.1, -0.01)),
    (("emissions", "regional min level"), f(-9, -0.2).map(lambda x: f"{x} GtCO2/yr")),
]


def run_custom(case):
    base = case["cfg"]
    target = merge(base, {})
    for path, v in case["set"]:
        set_path(target, path, v)
    regional = case["regional"]
    if regional:
        for k, r in enumerate(target["regions"]):
            target["regions"][r] = {"economics": {"init_capital_factor": 1.7 + 0.1 * k}, "mortality": {"older_b": 0.01 * (k + 1)}}
    A = modelkit.build(target).concrete_model
    plain_model = modelkit.build(base)
    plain = plain_model.concrete_model
    a, b = numbers_of(A), numbers_of(plain)
    expect(set(a) == set(b), f"parameters differ between two values of the same settings: {sorted(set(a) ^ set(b))}")
    # which parameters carry the changed settings themselves (others may be derived from them)
    wanted = []
    for path, v in case["set"]:
        q = refmodel.quantity(v) if isinstance(v, str) else v
        before = plain_model.params
        for k in path:
            before = before[k]
        before = refmodel.quantity(before) if isinstance(before, str) else before
        if before is False or abs(before - q) > 1e-6 * abs(q):  # otherwise the setting did not change at all
            wanted.append((path, q))
    mapping, carried = {}, set()
    for name in a:
        if None in a[name] and len(a[name]) == 1:
            x, y = a[name][None], b[name][None]
            for path, q in wanted:
                if x != y and not isinstance(x, str) and abs(x - q) <= 1e-9 * max(1, abs(q)):
                    mapping[name] = {None: x}
                    carried.add(tuple(path))
        elif regional and a[name] != b[name] and all(not isinstance(i, tuple) for i in a[name]):
            mapping[name] = dict(a[name])
            carried.add(("regional",))
    missing = [p for p, q in wanted if tuple(p) not in carried]
    expect(not missing, f"settings {missing} do not appear under any parameter of the model")
    custom = merge(base, {})
    custom["simulation"] = {"custom_mapping": mapping}
    C = modelkit.build(custom, what="building with custom parameter values").concrete_model
    diff = modelkit.differences(modelkit.fingerprint(A), modelkit.fingerprint(C))
    expect(not diff, f"custom values {sorted(mapping)} and the settings {case['set']} give different models: {diff}")
    return Outcome(bool(mapping), [".".join(p) for p, _ in case["set"]] + (["regional"] if regional else []))


FORMS = ["Robust-Linear", "Robust-Quadratic", "Robust-Logistic"]


def loaded(m, params):
    """Parameters that take their values from the configuration or the data files: name -> {index: value}."""
    from pyomo.environ import Param

    out = {}
    with sut("reading the parameters of the model"):
        for p in m.component_objects(Param):
            doc = p.doc(params) if callable(p.doc) else str(p.doc)
            if "::" in doc and doc.split("::")[0] in ("", "regional", "timeandregional"):
                out[p.local_name] = {i: value(p[i]) for i in p}
    return out


def run_any_custom(case):
    """Custom values for parameters of every kind: these change to exactly what is given, no other does."""
    conform.build_earlier(case["cfg"], case["before"])
    mm = modelkit.build(case["cfg"])
    plain = loaded(mm.concrete_model, mm.params)
    names = sorted(n for n, d in plain.items() if d and all((isinstance(x, (int, float)) and not isinstance(x, bool)) or x in FORMS for x in d.values()))
    if not names:
        raise Discard()
    rs = np.random.RandomState(case["seed"])
    mapping = {}
    for k in case["which"]:
        n = names[k % len(names)]
        mapping[n] = {i: FORMS[rs.randint(3)] if isinstance(x, str) else float(f"{(x * rs.uniform(1.1, 1.9) if x and x == x else rs.uniform(0.1, 0.9)):.8g}") for i, x in plain[n].items()}
    cfg = merge(case["cfg"], {"simulation": {"simulationmode": case["on"]}})
    cfg["simulation"]["custom_mapping"] = mapping
    m = modelkit.build(cfg, what=f"building with custom values for {sorted(mapping)}").concrete_model
    got = numbers_of(m)
    for n, d in plain.items():
        want = mapping.get(n, d)
        for i in d:
            g = got[n].get(i)
            same = g == want[i] or (g != g and want[i] != want[i]) or (isinstance(g, float) and isinstance(want[i], (int, float)) and abs(g - want[i]) <= 1e-12 * abs(want[i]))
            expect(same, f"with custom values for {sorted(mapping)}, parameter {n}{'' if i is None else f'[{i}]'} is {g!r} instead of {'the custom' if n in mapping else 'its own'} {want[i]!r}")
    kinds = {"global" if None in mapping[n] else "by year and region" if isinstance(next(iter(mapping[n])), tuple) else "regional" for n in mapping}
    return Outcome(True, sorted(kinds) + ["combined damages"] * bool(case["cfg"].get("economics", {}).get("damages", {}).get("coacch_combined_slr_nonslr_damages")))


@st.composite
def any_custom_cases(draw):
    cfg = draw(conform.cfg(force={"damage module": ["COACCH", "COACCH", "nodamage"]}, density=6, rhi=3, always=(("economics", "damages", "coacch_combined_slr_nonslr_damages"),)))
    return {
        "cfg": cfg,
        "which": draw(st.lists(st.integers(0, 60), min_size=1, max_size=4)),
        "on": draw(st.booleans()),
        "seed": draw(st.integers(0, 10**6)),
        "before": draw(conform.earlier()),
    }


@st.composite
def custom_cases(draw):
    chosen = draw(st.lists(st.sampled_from(range(len(SCALARS))), min_size=1, max_size=4, unique=True))
    cfg = draw(conform.cfg(force={"damage module": ["COACCH"]}, density=9, rhi=3))
    cfg["regions"] = {r: None for r in cfg["regions"]}
    return {"cfg": cfg, "set": [[list(SCALARS[i][0]), draw(SCALARS[i][1])] for i in chosen], "regional": draw(st.booleans())}


SUBS = [
    Sub("horizon", horizon_cases(), run_horizon, quick=120, thorough=3000, rule="a built model whose years, steps, regions and index sets were compared"),
    Sub("settings", conform.with_earlier(st.fixed_dictionaries({"cfg": generic_cfg(), "pol": conform.policy()})), conform.after_earlier(run_settings), quick=110, thorough=3500, rule="a model with generic values for all scalar settings judged at the reference trajectory"),
    Sub("custom values", custom_cases(), run_custom, quick=60, thorough=1500, rule="custom values and settings compared as whole models"),
    Sub("any custom value", any_custom_cases(), run_any_custom, quick=80, thorough=2500, rule="custom values given for one to four parameters, all parameters of the model compared"),
]
ASSUMPTIONS = ["custom values are given in the form the model data take: {None: value} for scalars, {region: value} for regional parameters"]
