"""Emission trading: equations by conformance, plus the payment levels of the cost pool at their edges."""
import numpy as np
from hypothesis import strategies as st

from vp import conform
from vp.conform import Built, merge
from vp.core import Discard, Outcome, Sub, expect

PID = "C15"
RULE = "model built, reference trajectory admitted, and at least two single-quantity shifts judged"
EDGE = 1e-4


def run_levels(case):
    """Regions pay between (1 - spread) and (1 + spread) times their own area; the level lies just outside of all these
    shares (nothing is excluded) or between the two outermost (exactly the outermost share is excluded)."""
    B = Built(case["cfg"], {**case["pol"], "bal": 0})
    rs = np.random.RandomState(case["pol"]["seed"] + 5)
    T, R = B.d.gdp.shape
    e = case["spread"] * (2 * rs.rand(T, R) - 1)

    def bal_rule(t, v):
        area = v["area_under_MAC"][t]
        live = area > 1e-5 * v["GDP_gross"][t]
        if t == 0 or live.sum() < 2:
            return np.zeros(R)
        x = np.where(live, area * e[t], 0.0)
        x -= np.where(live, area, 0.0) * x.sum() / area[live].sum()
        x[np.argmax(area)] -= x.sum()
        return x

    v = B.simulate(bal_rule=bal_rule)
    if not (v["GDP_net"] > 0).all() or not (v["mitigation_costs"] >= 0).all():
        raise Discard()
    live = v["area_under_MAC"] > 1e-5 * v["GDP_gross"]
    live[0] = False
    share = np.where(live, v["mitigation_costs"] / np.where(live, v["area_under_MAC"], 1), 1.0)
    cfg = merge(case["cfg"], {"economics": {"emission trade": {}}})
    levels = cfg["economics"]["emission trade"]
    broken = None
    for side, name in ((1, "min rel payment level"), (-1, "max rel payment level")):
        mode = case["low" if side == 1 else "high"]
        if mode == "off":
            if case["false"]:
                levels[name] = False
            continue
        s = np.sort(side * share[1:].ravel())
        if s[0] > side - EDGE:
            raise Discard()
        if mode == "outside":
            L = side * (s[0] - EDGE * abs(s[0]))
        else:
            if len(s) < 2 or s[1] - s[0] < 10 * EDGE:
                raise Discard()
            L = side * (s[0] + (s[1] - s[0]) * case["u"])
            t, r = np.unravel_index((side * share[1:]).argmin(), share[1:].shape)
            broken = f"{B.c.regions[r]} pays {share[1 + t, r]:.6g} of its own area in {B.c.years[1 + t]:g}, the {name} is {L:.6g}"
        if (side == 1 and not 0 < L <= 1) or (side == -1 and L < 1):
            raise Discard()
        levels[name] = float(L)
    B2 = Built(cfg, None)
    got = [x for x in B2.broken_at(v) if x.kind in ("ineq", "bound") and "mitigation_costs" in x.sig]
    if broken:
        expect(got, f"{broken}: admitted")
    else:
        expect(not got, f"all shares are within the payment levels {levels}, but excluded by {got[:3]}")
    return Outcome(bool(live.any()), f"{case['low']}/{case['high']}")


@st.composite
def level_cases(draw):
    low, high = draw(st.sampled_from([("outside", "off"), ("between", "off"), ("off", "outside"), ("off", "between"), ("outside", "outside"), ("between", "outside"), ("outside", "between"), ("off", "off")]))
    return {
        "cfg": draw(conform.cfg(rlo=2, density=8, force={"emissiontrade module": ["globalcostpool"]})),
        "pol": {**draw(conform.policy()), "shape": draw(st.sampled_from(["rise", "noise", "flat"])), "amax": draw(st.sampled_from([0.3, 0.7, 1.0]))},
        "low": low,
        "high": high,
        "false": draw(st.booleans()),
        "spread": draw(st.sampled_from([0.05, 0.3, 0.8])),
        "u": draw(st.sampled_from([0.1, 0.5, 0.9])),
    }


SUBS = [
    Sub(
        "equations",
        conform.equation_cases(PID, force={"emissiontrade module": ["emissiontrade", "globalcostpool", "emissiontrade", "globalcostpool", "notrade"]}),
        lambda case: conform.judge_equations(PID, case),
        quick=210,
        thorough=6000,
        rule=RULE,
        examples=conform.corners(PID, force={"emissiontrade module": ["emissiontrade", "globalcostpool", "emissiontrade", "globalcostpool", "notrade"]}),
    ),
    Sub("payment levels", conform.with_earlier(level_cases()), conform.after_earlier(run_levels), quick=60, thorough=1500,
        rule="the payment level lies just outside of all regions' shares of their own cost area or between the two outermost"),
]
ASSUMPTIONS = ["baseline population, GDP and emissions are read from the model (C06 decides them)"]
