import numpy as np
from hypothesis import strategies as st

from vp import conform
from vp.conform import Built, merge
from vp.core import Discard, Outcome, Sub, expect

PID = "C13"
RULE = "model built, reference trajectory admitted, and at least two single-quantity shifts judged"

OPTS = (("economics", "damages", "quantile"), ("economics", "damages", "coacch_slr_withadapt"), ("economics", "damages", "coacch_combined_slr_nonslr_damages"), ("economics", "damages", "scale factor"))


@st.composite
def function_cases(draw):
    """Regions with damage functions of their own, of any form, given in the configuration."""
    case = draw(conform.equation_cases(PID, force={"damage module": ["COACCH"]}, always=OPTS, rhi=3))
    d = case["cfg"].get("economics", {}).get("damages", {})
    q, ad = d.get("quantile", 0.5), "Ad" if d.get("coacch_slr_withadapt", True) else "NoAd"
    num = lambda lo, hi: draw(st.floats(lo, hi).map(lambda v: float(f"{v:.3g}")))
    for r in case["cfg"]["regions"]:
        own = {}
        for pre, a in (("NoSLR_", "NoSLR_a (q={})"), (f"SLR-{ad}_", f"SLR-{ad}_a (q={{}})")):
            form = draw(st.sampled_from(["Linear", "Quadratic", "Logistic", "Logistic"]))
            own[pre + "form"] = draw(st.sampled_from(["Robust-", "OLS-", ""])) + form
            own[pre + "b1"] = num(-4, 12)
            own[pre + "b2"] = num(0.1, 200) if form == "Logistic" else num(-1, 1.5)
            own[pre + "b3"] = num(*draw(st.sampled_from([(-1, 4), (-1, 4), (-30, -1) if "SLR-" in pre else (-6, -1)])))  # steep ones reach the cap of the exponent
            if draw(st.booleans()):
                own[a.format(q)] = num(0.2, 2)
        if draw(st.booleans()):
            own[f"combined_b2_{ad}-q{q}"] = num(-0.5, 1)
        case["cfg"]["regions"][r] = {"COACCH": own, **({"mortality": {"young_c": num(-1, 1), "oldest_a": num(-3, 3)}} if draw(st.booleans()) else {})}
    return case


def run_range(case):
    """The scale factor brings the largest sea-level damages to a given level within the range the variable is given."""
    B = Built(case["cfg"], case["pol"])
    x = B.v["damage_costs_slr"]
    i = np.unravel_index(np.argmax(np.abs(x)), x.shape)
    top, goal = float(x[i]), case["goal"]
    k = goal / top if abs(top) > 1e-4 else 0
    other = x * k
    if not k or abs(k) > 3000 or other.max() > 0.7 - 1e-3 or other.min() < -0.5 + 1e-3:
        raise Discard()
    cfg = merge(case["cfg"], {"economics": {"damages": {"scale factor": k}}})
    B = Built(cfg, case["pol"])
    got = [b for b in B.broken_at(B.v) if "damage_costs_slr" in b.sig]
    expect(not got, f"sea-level damages of up to {goal:.3g} of GDP (scale factor {k:.4g}) are excluded by {got[:3]}")
    return Outcome(True, f"up to {goal:.2g} of GDP")


@st.composite
def range_cases(draw):
    cfg = draw(conform.cfg(force={"damage module": ["COACCH"], "financialtransfer module": ["notransfer"]}, reach=2100, rhi=2, density=9))
    cfg = merge(cfg, {"economics": {"damages": {"ignore damages": True, "scale factor": 1, "coacch_combined_slr_nonslr_damages": False, "coacch_slr_withadapt": draw(st.booleans())}}})
    return {"cfg": cfg, "pol": draw(conform.policy()), "goal": draw(st.sampled_from([0.69, 0.66, 0.55, -0.49, -0.47, -0.45, -0.3]))}


SUBS = [
    Sub(
        "equations",
        conform.equation_cases(PID, always=OPTS),
        lambda case: conform.judge_equations(PID, case),
        quick=200,
        thorough=5000,
        rule=RULE,
        examples=conform.corners(PID, always=OPTS),
    ),
    Sub("configured functions", function_cases(), lambda case: conform.judge_equations(PID, case), quick=80, thorough=2500, rule=RULE),
    Sub("large damages", range_cases(), run_range, quick=24, thorough=800, rule="the largest sea-level damage of the run is brought to between -49% and 69% of GDP"),
]
ASSUMPTIONS = ["baseline population, GDP and emissions are read from the model (C06 decides them)"]
