"""Effort sharing: trajectories steered to meet, just meet or miss each sharing rule, judged on the built model."""
import numpy as np
from hypothesis import strategies as st
from pyomo.environ import value

from vp import conform, refmodel
from vp.conform import Built, merge, owners
from vp.core import Discard, Outcome, Sub, expect, sut

PID = "C17"


def verdict(B, v):
    return [x for x in B.broken_at(v) if x.kind in ("ineq", "bound", "eq") and PID in owners(x)]


def positive(B, v):
    if not (v["GDP_net"] > 0).all():
        raise Discard()


def spread(rs, R, size):
    """Relative deviations of the regions from the common level, the largest exactly `size`."""
    e = rs.uniform(-1, 1, R)
    e[rs.randint(R)] = rs.choice([-1, 1])
    return e * size


def split(rs, R, size):
    """Two regions on opposite sides of any common level."""
    i, j = rs.permutation(R)[:2]
    e = np.zeros(R)
    e[i], e[j] = size, -size
    return e


# ----------------------------------------------------------------------------- equal mitigation / total costs
def run_equal(case):
    regime = case["regime"]
    total = regime == "equal_total_costs"
    cfg = merge(case["cfg"], {"effort sharing": {"regime": regime}})
    B = Built(cfg, case["pol"])
    c, d = B.c, B.d
    T, R = d.gdp.shape
    rs = np.random.RandomState(case["pol"]["seed"] + 11)
    inside = [t for t in range(1, T) if not total or c.years[t] <= 2100]
    outside = [t for t in range(1, T) if t not in inside]
    where = case["where"]
    if where == "inside" and not inside or where == "outside" and not outside:
        raise Discard()
    hit = {"inside": inside, "outside": outside}.get(where)
    hit = hit[int(case["at"] * (len(hit) - 1) + 0.5)] if hit else None
    size = np.zeros((T, R))
    for t in range(T):
        size[t] = spread(rs, R, case["near"])
    if hit is not None:
        size[hit] = split(rs, R, case["far"])
    level = np.zeros(T)
    base = 0.004 + 0.01 * rs.rand(T)
    free = conform.make_policy(c, d, case["pol"])["bal_rule"]
    trade = c.trade != "notrade"

    def other(t, v):
        return v["damage_costs"][t] + v["financial_transfer"][t] / v["GDP_gross"][t] if total else np.zeros(R)

    def bal_rule(t, v):
        if t == 0 or not trade:
            return np.zeros(R)
        if t not in inside and t != hit:
            return free(t, v)
        Y, area, oth = v["GDP_gross"][t], v["area_under_MAC"][t], other(t, v)
        cost = area + oth * Y
        level[t] = cost.sum() / (Y * (1 + size[t])).sum()
        b = level[t] * (1 + size[t]) * Y - cost
        b[-1] = -b[:-1].sum()
        return b

    def a_rule(t, v, basel):
        if trade or t not in inside and t != hit:
            return B.pol["a"][t]
        oth, Y = other(t, v), v["GDP_gross"][t]
        level[t] = (oth.max() if total else 0) * 1.05 + base[t]
        L = v["learning_factor"][t] * c.kappa * c.gamma
        goal = (level[t] * (1 + size[t]) - oth) * Y / np.maximum(v["baseline"][t], 1e-12)
        return (np.maximum(goal, 0) * (c.beta + 1) / np.maximum(L, 1e-12)) ** (1 / (c.beta + 1))

    if total:
        start = level_zero(B)
        level[0] = start
    v = B.simulate(bal_rule=bal_rule, a_rule=a_rule)
    positive(B, v)
    x = v["rel_mitigation_costs"] + (v["damage_costs"] + v["rel_financial_transfer"] if total else 0)
    v["effort_sharing_common_level"] = level
    for t in inside + ([hit] if hit is not None else []):
        if level[t] <= 1e-6 or np.abs(x[t] / level[t] - 1 - size[t]).max() > 1e-7:
            raise Discard()
    got = verdict(B, v)
    broken = where == "inside"
    if broken:
        lo, hi = x[hit].min(), x[hit].max()
        assert hi / lo > 1.005 / 0.995 * 1.0005
        expect(got, f"{regime}: relative costs {lo:.6g} to {hi:.6g} at {c.years[hit]:g} share no common level within 0.5% but are admitted")
    else:
        expect(not got, f"{regime}: costs within {case['near'] * 100:.2g}% of a common level in all years{' up to 2100' if total else ''} are excluded by {got[:3]}")
    lab = f"{regime} {'by trade' if trade else 'by abatement'}: {where} {'broken' if broken else 'kept'}"
    return Outcome(R > 1, [lab] + ([f"{c.transfer}"] if total else []))


def level_zero(B):
    """At the first year nothing is paid: damages are zero there by definition."""
    return 0.0


@st.composite
def equal_cases(draw):
    regime = draw(st.sampled_from(["equal_mitigation_costs", "equal_total_costs"]))
    trade = draw(st.sampled_from(["emissiontrade", "emissiontrade", "notrade", "globalcostpool"]))
    total = regime == "equal_total_costs"
    cfg = draw(conform.cfg(force={"emissiontrade module": [trade]}, reach=draw(st.sampled_from([None, None, 2100, 2125, 2150])), rlo=2, density=7))
    at = draw(st.sampled_from([0, 0.3, 0.7, 1]))
    if total and draw(st.booleans()):  # 2100 is a model year, and often the year that matters
        start, dt = draw(st.sampled_from([(2020, 5), (2020, 8), (2020, 10), (2025, 7.5), (2020, 20), (2040, 12), (2040, 15), (2030, 14)]))
        cfg["time"] = {"start": start, "end": 2100 + int(dt * draw(st.sampled_from([0, 1, 2, 3]))), "dt": dt}
        at = draw(st.sampled_from([1, 1, 0, at]))
    dam = cfg.get("economics", {}).get("damages", {})
    if dam.get("scale factor", 1) < 0:
        dam["scale factor"] = 0.5
    return {
        "cfg": cfg,
        "pol": {**draw(conform.policy()), "shape": draw(st.sampled_from(["rise", "hump", "flat"]))},
        "regime": regime,
        "where": draw(st.sampled_from(["inside", "inside", "outside" if total and cfg["time"]["end"] > 2110 else "nowhere", "nowhere"])),
        "at": at,
        "near": draw(st.sampled_from([0, 0.003, 0.0049])),
        "far": draw(st.sampled_from([0.0055, 0.01, 0.05])),
    }


# ------------------------------------------------------------------------------------- per-capita convergence
def run_percap(case):
    cfg = merge(case["cfg"], {"effort sharing": {"regime": "per_cap_convergence", "percapconv_year": case["year"]}})
    B = Built(cfg, case["pol"])
    c, d = B.c, B.d
    T, R = d.gdp.shape
    share = refmodel.percap_share(c, d)
    expect(abs(share.sum(1) - 1).max() < 1e-9 and share.min() >= 0 and share.max() <= 1 + 1e-12, "reference shares")
    with sut("reading the emission shares of the model"):
        got = np.array([[value(B.m.percapconv_share[t, r]) for r in B.J.R] for t in B.J.T], float)
    off = abs(got - share)
    i = np.unravel_index(off.argmax(), off.shape)
    expect(off.max() <= 1e-9, f"emission share of {c.regions[i[1]]} in {c.years[i[0]]:g} is {got[i]:.6g}, converging linearly it is {share[i]:.6g} (convergence year {case['year']})")
    expect(abs(got.sum(1) - 1).max() <= 1e-9 and got.min() >= 0 and got.max() <= 1 + 1e-12, "emission shares do not add up to one or leave [0, 1]")
    rs = np.random.RandomState(case["pol"]["seed"] + 13)
    gap = np.zeros((T, R))
    for t in range(1, T):
        gap[t] = conform.zero_sum(spread(rs, R, 1.0))
        m = abs(gap[t]).max()
        gap[t] *= case["near"] / m if m > 0 else 0
    where = case["where"]
    if where == "inside" and R > 1:
        hit = 1 + int(case["at"] * (T - 2) + 0.5)
        gap[hit] = split(rs, R, case["far"])
    else:
        where, hit = "nowhere", None

    def bal_rule(t, v):
        if t == 0 or R == 1:
            return np.zeros(R)
        E = v["regional_emissions"][t]
        b = (E - share[t] * E.sum() - gap[t]) * refmodel.soft_min(v["global_carbonprice"][t])
        b[-1] = -b[:-1].sum()
        return b

    v = B.simulate(bal_rule=bal_rule)
    positive(B, v)
    err = abs(v["regional_emission_allowances"][1:] - share[1:] * v["global_emissions"][1:, None] - gap[1:]).max()
    if err > 1e-6:
        raise Discard()
    got = verdict(B, v)
    if where == "inside":
        expect(got, f"allowances {case['far']:g} GtCO2 away from the converging share of global emissions at {c.years[hit]:g} are admitted")
    else:
        expect(not got, f"allowances equal to the converging shares of global emissions are excluded by {got[:3]}")
    yr = case["year"]
    kind = "off" if yr is False else "before start" if yr <= c.years[0] else "beyond horizon" if yr > c.years[-1] else "within horizon"
    return Outcome(R > 1, [f"convergence {kind}", f"{where} {'broken' if where == 'inside' else 'kept'}"])


@st.composite
def percap_cases(draw):
    cfg = draw(conform.cfg(force={"emissiontrade module": ["emissiontrade"]}, rlo=draw(st.sampled_from([1, 2, 2, 3])), density=7))
    return {
        "cfg": cfg,
        "pol": {**draw(conform.policy()), "shape": draw(st.sampled_from(["rise", "hump", "flat"]))},
        "year": draw(st.sampled_from([False, 2020, 2020, 2024.5, 2030, 2037, 2050, 2050, 2080, 2100, 2150])),
        "where": draw(st.sampled_from(["inside", "nowhere"])),
        "at": draw(st.sampled_from([0, 0.3, 0.7, 1])),
        "near": draw(st.sampled_from([0, 0.0005, 0.0009])),
        "far": draw(st.sampled_from([0.0013, 0.01, 0.2])),
    }


# ------------------------------------------------------------------------------------------------- no regime
def run_none(case):
    B = Built(merge(case["cfg"], {"effort sharing": {"regime": "noregime"}}), case["pol"])
    v = B.v
    got = verdict(B, v)
    expect(not got, f"without a regime an arbitrary distribution of costs is excluded by {got[:3]}")
    return Outcome(B.d.gdp.shape[1] > 1, f"noregime {case['cfg']['model']['emissiontrade module']}")


PERCAP = [
    {"cfg": c["cfg"], "pol": {**c["pol"], "shape": "rise"}, "year": year, "where": where, "at": at, "near": 0.0005, "far": 0.01, "before": []}
    for i, c in enumerate(conform.corners("C15", force={"emissiontrade module": ["emissiontrade"]}))
    for year, where, at in [[(2050, "inside", 1), (2037, "nowhere", 1), (2150, "inside", 0.7), (False, "inside", 0.3), (2200, "nowhere", 0)][i % 5]]
    if len(c["cfg"]["regions"]) > 1
]

SUBS = [
    Sub("equal costs", conform.with_earlier(equal_cases()), conform.after_earlier(run_equal), quick=170, thorough=4000, rule="at least two regions, costs steered exactly to the intended deviation from a common level"),
    Sub("per-capita convergence", conform.with_earlier(percap_cases()), conform.after_earlier(run_percap), quick=120, thorough=3000, rule="at least two regions, allowances steered exactly to the intended distance from the converging share", examples=PERCAP),
    Sub("no regime", conform.with_earlier(st.fixed_dictionaries({"cfg": conform.cfg(density=9), "pol": conform.policy()})), conform.after_earlier(run_none), quick=50, thorough=1200, rule="at least two regions"),
]
ASSUMPTIONS = [
    "levels are positive: the behaviour of a relative tolerance around a negative level is not asserted",
    "per-capita convergence is judged with the emission trading module, which defines the allowances",
]
