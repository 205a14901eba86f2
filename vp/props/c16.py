"""Damage transfers: equations by conformance, plus the limit of own damages at its edge."""
import numpy as np
from hypothesis import strategies as st

from vp import conform
from vp.conform import Built, owners
from vp.core import Discard, Outcome, Sub, expect

PID = "C16"
RULE = "model built, reference trajectory admitted, and at least two single-quantity shifts judged"


def run_own(case):
    """One region receives f times its own damages in one year, another region pays for it."""
    B = Built(case["cfg"], case["pol"])
    T, R = B.d.gdp.shape
    t0 = max(1, min(T - 1, int(round(case["t"] * (T - 1)))))
    r, p = case["r"] % R, (case["r"] + 1 + case["p"] % (R - 1)) % R
    rule = B.pol["ft_rule"]

    def ft_rule(t, v):
        if t != t0:
            return rule(t, v)
        own = v["damage_costs"][t] * v["GDP_gross"][t]
        x = np.where(own > 0, 0.0, -own * 1.01)
        x[r] = -case["f"] * own[r]
        x[p] = 0
        x[p] = -x.sum()
        return x

    v = B.simulate(ft_rule=ft_rule)
    own = v["damage_costs"] * v["GDP_gross"]
    if own[t0, r] < 1e-6 * v["GDP_gross"][t0, r] or not (v["GDP_net"] > 0).all():
        raise Discard()
    slack = v["financial_transfer"] + own
    slack[t0, r] = 1
    if (slack < 1e-6 * abs(own)).any():  # someone else's limit is broken as well
        raise Discard()
    got = [x for x in B.broken_at(v) if x.kind in ("ineq", "bound") and PID in owners(x)]
    where = f"{B.c.regions[r]} in {B.c.years[t0]:g}"
    if case["f"] > 1:
        expect(got, f"{where} receives {case['f']} times its own damages and this is admitted")
    else:
        expect(not got, f"{where} receives {case['f']} times its own damages, which is excluded by {got[:3]}")
    return Outcome(True, f"receives {case['f']} of own damages")


@st.composite
def own_cases(draw):
    return {
        "cfg": draw(conform.cfg(rlo=2, density=6, force={"financialtransfer module": ["globaldamagepool"], "damage module": ["COACCH"]})),
        "pol": {**draw(conform.policy()), "amax": draw(st.sampled_from([0.05, 0.3, 1.0]))},
        "t": draw(st.sampled_from([0.001, 0.5, 0.999])),
        "r": draw(st.integers(0, 3)),
        "p": draw(st.integers(0, 3)),
        "f": draw(st.sampled_from([0.9, 0.999, 1.001, 1.02, 1.5])),
    }


SUBS = [
    Sub(
        "equations",
        conform.equation_cases(PID, force={"financialtransfer module": ["globaldamagepool", "globaldamagepool", "notransfer"], "damage module": ["COACCH", "COACCH", "nodamage"]}),
        lambda case: conform.judge_equations(PID, case),
        quick=220,
        thorough=5000,
        rule=RULE,
        examples=conform.corners(PID, force={"financialtransfer module": ["globaldamagepool", "globaldamagepool", "notransfer"], "damage module": ["COACCH", "COACCH", "nodamage"]}),
    ),
    Sub("own damages", conform.with_earlier(own_cases()), conform.after_earlier(run_own), quick=80, thorough=2000, rule="one region receives between 0.9 and 1.5 times its own (positive) damages, all others keep their limit"),
]
ASSUMPTIONS = ["baseline population, GDP and emissions are read from the model (C06 decides them)"]
