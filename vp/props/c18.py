from vp import conform
from vp.core import Sub

PID = "C18"
RULE = "model built, reference trajectory admitted, and at least two single-quantity shifts judged"

SUBS = [
    Sub(
        "equations",
        conform.equation_cases(PID, always=(("economics", "elasmu"), ("economics", "inequal_aversion"))),
        lambda case: conform.judge_equations(PID, case),
        quick=250,
        thorough=6000,
        rule=RULE,
        examples=conform.corners(PID, always=(("economics", "elasmu"), ("economics", "inequal_aversion"))),
    ),
]
ASSUMPTIONS = ["baseline population, GDP and emissions are read from the model (C06 decides them)"]
