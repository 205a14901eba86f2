"""Production and accumulation: equations by conformance, plus the calibrated productivity as reported."""
import numpy as np
from hypothesis import strategies as st
from pyomo.environ import value

from vp import conform, refmodel
from vp.conform import Built
from vp.core import Discard, Outcome, Sub, expect, sut

PID = "C14"
RULE = "model built, reference trajectory admitted, and at least two single-quantity shifts judged"



def run_productivity(case):
    """The productivity the model holds (and saves) is baseline GDP over the Cobb-Douglas output of the baseline."""
    B = Built(case["cfg"], None)
    p = B.m.component("TFP")
    if p is None:
        raise Discard()
    with sut("reading the productivity"):
        got = np.array([[float(value(p[t, r])) for r in B.c.regions] for t in B.J.T])
    want = refmodel.tfp(B.c, B.d)
    off = abs(got - want) > 1e-9 * abs(want)
    where = [f"{B.c.regions[j]} in {B.c.years[i]:g}: {got[i, j]:.8g} instead of {want[i, j]:.8g}" for i, j in np.argwhere(off)[:3]]
    expect(not off.any(), f"productivity of {where}")
    return Outcome(B.c.alpha > 0 and B.c.n > 2)


productivity_cases = st.fixed_dictionaries(
    {"cfg": conform.cfg(density=4, always=(("economics", "GDP", "alpha"), ("economics", "GDP", "depreciation of capital"), ("economics", "GDP", "savings rate")))}
)
SUBS = [
    Sub(
        "equations",
        conform.equation_cases(PID, always=(("economics", "GDP", "alpha"), ("economics", "GDP", "depreciation of capital"), ("economics", "GDP", "savings rate"))),
        lambda case: conform.judge_equations(PID, case),
        quick=250,
        thorough=6000,
        rule=RULE,
        examples=conform.corners(PID, always=(("economics", "GDP", "alpha"), ("economics", "GDP", "depreciation of capital"), ("economics", "GDP", "savings rate"))),
    ),
    Sub("productivity", conform.with_earlier(productivity_cases), conform.after_earlier(run_productivity), quick=50, thorough=1500, rule="capital share above zero and at least three years"),
]
ASSUMPTIONS = ["baseline population, GDP and emissions are read from the model (C06 decides them)"]
