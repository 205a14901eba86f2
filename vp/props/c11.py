"""Limits on emissions and temperature: the verdict of the built model against the configured limits."""
import numpy as np
from hypothesis import strategies as st

from vp import conform
from vp.conform import Built, configured_limits, merge, owners
from vp.core import Discard, Outcome, Sub, expect

PID = "C11"
CLEAR = 2e-6  # relative distance from a limit below which no verdict is expected


def verdict(B, v, what):
    """Compare the model's verdict on trajectory v with the configured limits."""
    entries = configured_limits(B.c, B.d, v)
    over = [e for e in entries if e[2] > 0]
    clear = [e for e in over if e[2] > CLEAR]
    if len(over) != len(clear) or any(abs(e[2]) <= CLEAR for e in entries if e[2] <= 0):
        if not clear:
            raise Discard()
    got = [x for x in B.broken_at(v) if x.kind in ("ineq", "bound") and PID in owners(x)]
    if clear:
        show = [(k, B.c.years[i[0]]) + tuple(B.c.regions[j] for j in i[1:]) for k, i, _ in clear[:4]]
        expect(got, f"{what}: a trajectory breaking the configured limits {show} is admitted")
    else:
        expect(not got, f"{what}: a trajectory within all configured limits is excluded by {got[:4]}")
    return clear


def between(vals, k, u, upper):
    """A limit broken by exactly k of the values (upper limit if upper), well separated from all of them."""
    s = np.sort(np.asarray(vals, float).ravel())
    if upper:
        s = s[::-1]
    sign = 1 if upper else -1
    gap = 1e-3 * max(1e-2, abs(s[0]))
    if k == 0:
        return float(s[0] + sign * gap * (0.1 + u))
    if len(s) == 1:
        return float(s[0] - sign * gap * (0.1 + u))
    if abs(s[0] - s[1]) < 1e-4 * max(1e-2, abs(s[0])):
        raise Discard()
    return float(s[1] + (s[0] - s[1]) * (0.1 + 0.8 * u))


# ----------------------------------------------------------------- a numeric limit placed next to the trajectory
KINDS = ["budget", "target", "global inertia", "regional inertia", "global min", "regional min"]


def run_numeric(case):
    B = Built(case["cfg"], case["pol"])
    v, c, d = B.v, B.c, B.d
    off = verdict(B, v, "no limits configured")
    if off:
        raise Discard()
    win = [t for t, y in enumerate(c.years) if y >= 2100]
    kind, k, u = case["kind"], case["k"], case["u"]
    E, G = v["regional_emissions"], v["global_emissions"]
    unit = case["unit"]
    scale = {"Gt": 1.0, "Mt": 1e3, "Tt": 1e-3}[unit]
    early = False
    if kind in ("budget", "target"):
        if not win:  # no year from 2100 on: the limit must not bite however tight
            arr, k = (v["cumulative_emissions"], 0)
            L = float(0.5 * v["cumulative_emissions"].max()) if kind == "budget" else float(c.T0 + 0.01)
        else:
            arr = v["cumulative_emissions"] if kind == "budget" else v["temperature"]
            L = between(arr[win], k, u, True)
            early = bool((arr[: win[0]] > L * (1 + 1e-5) + 1e-5).any())
        lim = {"emissions": {"carbonbudget": f"{L * scale!r} {unit}CO2"}} if kind == "budget" else {"temperature": {"target": f"{L!r} delta_degC"}}
    elif kind == "global inertia":
        L = between((G[1:] - G[:-1]) / (c.dt * d.emi[0].sum()), k, u, False)
        lim = {"emissions": {"inertia": {"global": L}}}
    elif kind == "regional inertia":
        L = between((E[1:] - E[:-1]) / (c.dt * d.emi[0]), k, u, False)
        lim = {"emissions": {"inertia": {"regional": L}}}
    elif kind == "global min":
        L = between(G, k, u, False)
        lim = {"emissions": {"global min level": f"{L * scale!r} {unit}CO2/yr"}}
    else:
        L = between(E, k, u, False)
        lim = {"emissions": {"regional min level": f"{L * scale!r} {unit}CO2/yr"}}
    if "inertia" in kind and L > 0:
        raise Discard()
    full = merge(case["cfg"], lim)
    B2 = Built(full, None)
    clear = verdict(B2, v, f"{kind} {lim}")
    return Outcome(True, [f"{kind} {'broken once' if len(clear) == 1 else 'kept' if not clear else 'broken'}"] + (["broken before 2100 only"] if early and not clear else []))


@st.composite
def numeric_cases(draw):
    kind = draw(st.sampled_from(KINDS))
    reach = draw(st.sampled_from([2100, 2101, 2110, 2130, None]))
    if kind in ("budget", "target") and draw(st.integers(0, 5)) > 0:
        reach = reach or 2110
    return {
        "cfg": draw(conform.cfg(reach=reach, density=9)),
        "pol": draw(conform.policy()),
        "kind": kind,
        "k": draw(st.integers(0, 1)),
        "u": draw(st.sampled_from([0.02, 0.5, 0.97])),
        "unit": draw(st.sampled_from(["Gt", "Gt", "Mt", "Tt"])),
    }


# ------------------------------------------------------- budget and target at the edges of the window they apply in
def run_edge(case):
    """Cumulative emissions rise up to one time step near 2100 and fall from there on, so that with the limit between
    two neighbouring steps it is the first (or no) year from 2100 on that decides."""
    B = Built(case["cfg"], case["pol"])
    c, d = B.c, B.d
    T, R = d.gdp.shape
    win = [t for t, y in enumerate(c.years) if y >= 2100]
    if not win or win[0] < 2 or win[-1] == win[0] and case["at"] == "first year":
        raise Discard()
    peak = win[0] - 1 if case["at"] == "year before" else win[0]
    rs = np.random.RandomState(case["pol"]["seed"] + 11)
    up, down = 0.6 * rs.rand(T, 1), 1.03 + 0.4 * case["deep"] * rs.rand(T, 1)

    up[peak] = 0.995  # so that also trapezoidal accumulation peaks there

    def a_rule(t, v, base):
        return np.clip((up if t <= peak else down)[t] + 0 * base, 0, 2.45)

    v = B.simulate(a_rule=a_rule)
    if not (v["GDP_net"] > 0).all() or not (v["cumulative_emissions"] >= 0).all():
        raise Discard()
    arr = v["cumulative_emissions"] if case["kind"] == "budget" else v["temperature"]
    inside = arr[peak + 1 :].max() if peak + 1 < T else arr[:peak].max()
    if arr[peak] - inside < 1e-3 * abs(arr[peak]):
        raise Discard()
    L = float(inside + (arr[peak] - inside) * case["u"])
    lim = {"emissions": {"carbonbudget": f"{L!r} GtCO2"}} if case["kind"] == "budget" else {"temperature": {"target": f"{L!r} delta_degC"}}
    clear = verdict(Built(merge(case["cfg"], lim), None), v, f"{case['kind']} {lim}, exceeded in {c.years[peak]:g} only")
    return Outcome(True, f"{case['kind']}: exceeded in the {case['at']} {'from' if case['at'] == 'first year' else 'up to'} 2100, {'broken' if clear else 'kept'}, 2100 {'on' if 2100 in c.years else 'off'} the grid")


@st.composite
def edge_cases(draw):
    cfg = draw(conform.cfg(reach=2110, rhi=2, density=9))
    at = draw(st.sampled_from(["year before", "first year", "first year"]))
    if draw(st.sampled_from([True, True, False])):  # 2100 is a model year
        dt = draw(st.sampled_from([5, 8, 10, 10, 16, 20]))
        start = 2100 - dt * draw(st.integers(2, 6))
    else:
        dt = draw(st.sampled_from([7, 10, 12.5, 15, 9]))
        start = 2097 - int(dt * draw(st.integers(2, 5)))
    cfg["time"] = {"start": max(2010 + (2100 - start) % dt if dt == int(dt) else 2010, start), "end": int(2100 + dt * draw(st.integers(1, 4))), "dt": dt}
    return {
        "cfg": cfg,
        "pol": {**draw(conform.policy()), "shape": "zero"},
        "kind": draw(st.sampled_from(["budget", "target"])),
        "at": at,
        "u": draw(st.sampled_from([0.1, 0.5, 0.9])),
        "deep": draw(st.sampled_from([0.2, 1, 1, 3])),
    }


# -------------------------------------------------------------------------- rules without a number of their own
def run_rule(case):
    """Emission paths steered so that a yes/no rule is kept, broken at one index, or broken outside its window only."""
    kind, flag, where = case["kind"], case["flag"], case["where"]
    lim = {"emissions": {}}
    if kind == "non increasing":
        lim["emissions"]["non increasing emissions after 2100"] = flag
    elif kind == "net zero":
        lim["emissions"]["not positive after budget year"] = flag
        lim["emissions"]["carbonbudget"] = "100 TtCO2" if case["budget"] else False
    B = Built(merge(case["cfg"], lim), case["pol"])
    c, d = B.c, B.d
    T, R = d.gdp.shape
    yr = c.years
    rs = np.random.RandomState(case["pol"]["seed"] + 5)
    decay = 1 - 0.05 * rs.rand(T, R) - 0.002
    below = 0.02 + 0.1 * rs.rand(T)
    win = [t for t in range(T) if (yr[t] >= 2100 if kind == "net zero" else t > 0 and yr[t - 1] > 2100)]
    hit = (win[case["i"] % len(win)], case["r"] % R) if win else None
    if kind == "nonnegative":
        hit = (T - 1 if case["i"] % 2 else 1 + case["i"] % (T - 1), 0)

    def a_rule(t, v, base):
        prev = v["regional_emissions"][t - 1]
        if kind == "non increasing":
            if t in win:
                f = decay[t].copy()
                if where == "inside" and t == hit[0]:
                    f[hit[1]] = 1.02
                target = prev * np.where(prev > 0, f, 2 - f)
            else:  # growth up to 2100 (and into the first year after it) is allowed
                target = np.minimum(prev * 1.03, base * 0.999) if where == "outside" else prev * decay[t]
        elif kind == "net zero":
            positive = t not in win or (where == "inside" and t == hit[0])
            target = base * (0.3 if positive else -below[t])
        else:
            target = base * ((-1.44 if t >= hit[0] else 0.01) if where == "inside" else 0.5)
        return np.clip(1 - target / base, 0, 2.45)

    v = B.simulate(a_rule=a_rule)
    if not (v["GDP_net"] > 0).all():
        raise Discard()
    clear = verdict(B, v, f"{kind} {lim['emissions']}")
    lab = f"{kind} {'on' if flag else 'off'}{'' if case['budget'] or kind != 'net zero' else ' without budget'}: {where} {'broken' if clear else 'kept'}"
    return Outcome(bool(win) or kind == "nonnegative", lab)


@st.composite
def rule_cases(draw):
    kind = draw(st.sampled_from(["non increasing", "non increasing", "net zero", "net zero"]))
    return {
        "cfg": draw(conform.cfg(reach=draw(st.sampled_from([2110, 2125, 2140])), density=9)),
        "pol": {**draw(conform.policy()), "shape": "zero"},
        "kind": kind,
        "flag": draw(st.sampled_from([True, True, False])),
        "budget": draw(st.sampled_from([True, True, False])),
        "where": draw(st.sampled_from(["inside", "outside", "nowhere"])),
        "i": draw(st.integers(0, 20)),
        "r": draw(st.integers(0, 3)),
    }


@st.composite
def negative_cases(draw):
    return {
        **draw(rule_cases()),
        "cfg": draw(conform.cfg(density=9)),
        "kind": "nonnegative",
        "where": draw(st.sampled_from(["inside", "inside", "inside", "nowhere"])),
    }


# ------------------------------------------------------------------------------------------ limits of exactly zero
def run_zero(case):
    """A limit whose value is zero is a limit: minimum levels of zero forbid negative emissions, a budget of zero
    forbids any cumulative emissions from 2100 on."""
    kind = case["kind"]
    key = {"budget": "carbonbudget", "global min": "global min level", "regional min": "regional min level"}[kind]
    B = Built(merge(case["cfg"], {"emissions": {key: case["zero"] + ("CO2" if kind == "budget" else "CO2/yr")}}), case["pol"])
    c, d = B.c, B.d
    T, R = d.gdp.shape
    rs = np.random.RandomState(case["pol"]["seed"] + 3)
    level = 0.05 + 0.9 * rs.rand(T, R)
    hit = (1 + case["i"] % (T - 1), case["r"] % R)

    def a_rule(t, v, base):
        f = level[t].copy()
        if case["below"] and t == hit[0]:
            if kind == "global min":
                f = -0.3 * f
            else:
                f[hit[1]] *= -0.3
        return np.clip(1 - f, 0, 2.45)

    v = B.simulate(a_rule=a_rule)
    if not (v["GDP_net"] > 0).all() or not (v["cumulative_emissions"] >= 0).all():
        raise Discard()
    clear = verdict(B, v, f"{key} of zero")
    return Outcome(kind != "budget" or c.years[-1] >= 2100, f"{kind} of zero {'broken' if clear else 'kept'}")


@st.composite
def zero_cases(draw):
    return {
        "cfg": draw(conform.cfg(reach=draw(st.sampled_from([None, 2100, 2110])), density=9)),
        "pol": {**draw(conform.policy()), "shape": "zero"},
        "kind": draw(st.sampled_from(["budget", "global min", "regional min", "regional min"])),
        "zero": draw(st.sampled_from(["0 Gt", "0 Mt", "0.0 Gt", "0 Gt"])),
        "below": draw(st.booleans()),
        "i": draw(st.integers(0, 20)),
        "r": draw(st.integers(0, 3)),
    }


# ----------------------------------------------------------------------------- several limits at once, any values
def run_mixture(case):
    B = Built(merge(case["cfg"], case["limits"]), case["pol"])
    clear = verdict(B, B.v, f"limits {case['limits']}")
    return Outcome(True, sorted({k for k, _, _ in clear}) or ["all kept"])


@st.composite
def mixture_cases(draw):
    lim = {"emissions": {"inertia": {}}, "temperature": {}}
    e = lim["emissions"]
    e["carbonbudget"] = draw(st.sampled_from([False, "0 GtCO2", "200 GtCO2", "1.5 TtCO2", "900000 MtCO2"]))
    e["global min level"] = draw(st.sampled_from([False, "-20 GtCO2/yr", "0 GtCO2/yr", "1500 MtCO2/yr"]))
    e["regional min level"] = draw(st.sampled_from([False, "0 GtCO2/yr", "-10 GtCO2/yr", "-0.5 GtCO2/yr", "20 MtCO2/yr"]))
    e["not positive after budget year"] = draw(st.booleans())
    e["non increasing emissions after 2100"] = draw(st.booleans())
    e["inertia"]["global"] = draw(st.sampled_from([False, -0.05, -0.01, 0]))
    e["inertia"]["regional"] = draw(st.sampled_from([False, -0.05, -0.02, 0]))
    lim["temperature"]["target"] = draw(st.sampled_from([False, "1.3 delta_degC", "2 delta_degC"]))
    return {"cfg": draw(conform.unusual_emissions(conform.cfg(reach=draw(st.sampled_from([None, 2100, 2120])), density=9))), "pol": draw(conform.policy()), "limits": lim}


# ----------------------------------------------------------------------------------------------- default settings
DEFAULT_LIMITS = {
    "emissions": {
        "carbonbudget": False,
        "global min level": "-20 GtCO2/yr",
        "regional min level": "-10 GtCO2/yr",
        "not positive after budget year": True,
        "non increasing emissions after 2100": True,
        "inertia": {"global": False, "regional": -0.05},
    },
    "temperature": {"target": False},
}


def run_known(case):
    """Partly reversible damages together with a carbon budget."""
    B = Built(merge(case["cfg"], {"emissions": {"carbonbudget": "500 GtCO2"}, "economics": {"damages": {"percentage reversible": case["rev"]}}}), None)
    return Outcome(True)


FAR = [c for c in conform.corners("C09") if c["cfg"]["time"]["end"] > 2105]  # far horizons, few and many regions
NUMERIC = [
    {"cfg": c["cfg"], "pol": c["pol"], "kind": kind, "k": (i + j) % 2, "u": 0.5, "unit": ["Gt", "Mt", "Tt"][(i + j) % 3], "before": []}
    for i, c in enumerate(FAR)
    for j, kind in enumerate(KINDS)
    if (i + j // 2) % 2 == 0
]
YES_NO = [
    {"cfg": c["cfg"], "pol": {**c["pol"], "shape": "zero"}, "kind": kind, "flag": True, "budget": True, "where": where, "i": [-1, 0, 1, 20][(i + j) % 4] % 21, "r": i, "before": []}
    for i, c in enumerate(FAR)
    for j, (kind, where) in enumerate([("non increasing", "inside"), ("net zero", "inside"), ("non increasing", "outside"), ("net zero", "outside")])
    if where == "inside" or i % 2
]

SUBS = [
    Sub("numeric limits", conform.with_earlier(numeric_cases()), conform.after_earlier(run_numeric), quick=170, thorough=4500, rule="the limit was placed within 0.1% of the trajectory's own extreme (or between its two most extreme values) and judged", examples=NUMERIC),
    Sub("window edges", conform.with_earlier(edge_cases()), conform.after_earlier(run_edge), quick=90, thorough=1500, rule="a trajectory beyond the limit in exactly one year, the last before 2100 or the first from 2100 on"),
    Sub("yes-no rules", conform.with_earlier(rule_cases()), conform.after_earlier(run_rule), quick=150, thorough=3500, rule="the horizon has a year inside the rule's window", examples=YES_NO),
    Sub("cumulative emissions below zero", conform.with_earlier(negative_cases()), conform.after_earlier(run_rule), quick=40, thorough=800, rule="a trajectory whose cumulative emissions fall below zero from one step on, often the last only, or never"),
    Sub("limits of zero", conform.with_earlier(zero_cases()), conform.after_earlier(run_zero), quick=50, thorough=1200, rule="a limit of exactly zero that the trajectory breaks in one year or region, or keeps"),
    Sub("mixtures", conform.with_earlier(mixture_cases()), conform.after_earlier(run_mixture), quick=80, thorough=2500, rule="verdict on a trajectory clearly inside or outside all limits"),
    Sub("partly reversible damages", st.fixed_dictionaries({"cfg": conform.cfg(density=9), "rev": st.sampled_from([1])}), run_known, quick=24, thorough=48, rule="model with carbon budget built"),
]
ASSUMPTIONS = [
    "trajectories closer than 2e-6 (relative) to a limit are not judged",
    "percentage reversible < 1 combined with a budget is a recorded known finding and not generated",
]
