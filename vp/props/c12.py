"""Mitigation costs: equations by conformance, plus the two limits (price cap, minimum cost level) at their edges."""
import numpy as np
from hypothesis import strategies as st

from vp import conform
from vp.conform import Built, merge, owners, spoiled
from vp.core import Discard, Outcome, Sub, expect

PID = "C12"
RULE = "model built, reference trajectory admitted, and at least two single-quantity shifts judged"


def restrictions(B, v, name):
    return [x for x in B.broken_at(v) if x.kind in ("ineq", "bound") and PID in owners(x) and name in x.sig]


def run_level(case):
    """The minimum relative cost level placed just below the lowest (kept) or between the two lowest (broken once)."""
    B = Built(case["cfg"], case["pol"])
    v = B.v
    rel = v["rel_mitigation_costs"][1:].ravel()
    s = np.sort(rel)
    gap = max(1e-7, 1e-3 * abs(s[0]))
    if case["k"] == 0:
        L = s[0] - gap
    else:
        if len(s) < 2 or s[1] - s[0] < 10 * gap:
            raise Discard()
        L = s[0] + (s[1] - s[0]) * case["u"]
    if case["k"] == 0 and s[0] >= 0:
        L = 0.0
        if s[0] < 1e-9 and (s < 0).any():
            raise Discard()
    if not -2 <= L <= 0:
        raise Discard()
    cfg = merge(case["cfg"], {"economics": {"MAC": {"rel_mitigation_costs_min_level": float(L)}}})
    B2 = Built(cfg, None)
    got = restrictions(B2, v, "rel_mitigation_costs")
    lo = int(v["rel_mitigation_costs"][1:].argmin()) + len(B.c.regions)
    where = f"{B.c.years[lo // len(B.c.regions)]:g}, {B.c.regions[lo % len(B.c.regions)]}"
    if case["k"]:
        expect(got, f"relative mitigation costs of {s[0]:.6g} ({where}) are admitted although the minimum level is {L:.6g}")
    else:
        expect(not got, f"a trajectory with all relative mitigation costs above the minimum level {L:.6g} is excluded by {got[:3]}")
    return Outcome(True, f"lowest {'negative' if s[0] < 0 else 'positive'}, {'below' if case['k'] else 'above'} the level")


@st.composite
def level_cases(draw):
    return {
        "cfg": draw(conform.cfg(rlo=2, density=9, force={"emissiontrade module": ["emissiontrade", "globalcostpool"]})),
        "pol": {**draw(conform.policy()), "bal": draw(st.sampled_from([0.001, 0.01, 0.03]))},
        "k": draw(st.integers(0, 1)),
        "u": draw(st.sampled_from([0.1, 0.5, 0.9])),
    }


def run_cap(case):
    """One abatement level chosen so that one region's carbon price in one year is f times its cap of twice gamma."""
    B = Built(case["cfg"], case["pol"])
    T, R = B.d.gdp.shape
    t = max(1, min(T - 1, int(round(case["t"] * (T - 1)))))
    r = case["r"] % R
    base = B.pol["a"] * 0.5
    goal = 2 * B.c.gamma * case["f"]

    def at(x):
        a = base.copy()
        a[t, r] = x
        return B.simulate(a=a)

    lo, hi = 0.0, 2.49
    if at(hi)["carbonprice"][t, r] < goal:
        raise Discard()
    for _ in range(22):
        mid = 0.5 * (lo + hi)
        if at(mid)["carbonprice"][t, r] < goal:
            lo = mid
        else:
            hi = mid
    v = at(lo)
    if abs(v["carbonprice"][t, r] / goal - 1) > 1e-4:
        raise Discard()
    others = np.array(v["carbonprice"])
    others[t, r] = 0
    if others.max() > 1.9 * B.c.gamma or not (v["GDP_net"] > 0).all():
        raise Discard()
    got = restrictions(B, v, "carbonprice")
    where = f"{B.c.years[t]:g}, {B.c.regions[r]}"
    if case["f"] > 1:
        expect(got, f"a carbon price of {case['f']} times its cap 2 gamma is admitted ({where})")
    else:
        expect(not got, f"a carbon price of {case['f']} times its cap 2 gamma ({where}) is excluded by {got[:3]}")
        zero_abatement_kept = [x for x in B.broken_at(v) if x.kind == "bound" and x.sig == {"relative_abatement"}]
        expect(not zero_abatement_kept, f"an abatement of {lo:.4g} below 2.5 is excluded by {zero_abatement_kept[:2]}")
    return Outcome(True, f"price {case['f']} of the cap")


@st.composite
def cap_cases(draw):
    return {
        "cfg": draw(conform.cfg(density=5, always=(("economics", "MAC", "gamma"),))),
        "pol": {**draw(conform.policy()), "amax": draw(st.sampled_from([0.05, 0.3, 0.7]))},
        "t": draw(st.sampled_from([0.001, 0.5, 0.999])),
        "r": draw(st.integers(0, 3)),
        "f": draw(st.sampled_from([0.98, 0.999, 1.001, 1.02])),
    }


SUBS = [
    Sub(
        "equations",
        conform.equation_cases(PID, always=(("economics", "MAC", "beta"), ("economics", "MAC", "gamma"), ("economics", "MAC", "LBD_rate"), ("economics", "MAC", "LOT_rate"))),
        lambda case: conform.judge_equations(PID, case),
        quick=220,
        thorough=5000,
        rule=RULE,
        examples=conform.corners(PID, always=(("economics", "MAC", "beta"), ("economics", "MAC", "gamma"), ("economics", "MAC", "LBD_rate"), ("economics", "MAC", "LOT_rate"))),
    ),
    Sub("minimum cost level", conform.with_earlier(level_cases()), conform.after_earlier(run_level), quick=50, thorough=1200, rule="the level lies just below the lowest relative cost or between the two lowest"),
    Sub("price cap", cap_cases(), run_cap, quick=40, thorough=1000, rule="one carbon price within 2% of its cap, all others well below"),
]
ASSUMPTIONS = ["baseline population, GDP and emissions are read from the model (C06 decides them)"]
