from vp import conform
from vp.core import Sub

PID = "C10"
RULE = "model built, reference trajectory admitted, and at least two single-quantity shifts judged"

SUBS = [
    Sub(
        "equations",
        conform.equation_cases(PID, always=(("temperature", "initial"), ("temperature", "TCRE"))),
        lambda case: conform.judge_equations(PID, case),
        quick=250,
        thorough=6000,
        rule=RULE,
        examples=conform.corners(PID, always=(("temperature", "initial"), ("temperature", "TCRE"))),
    ),
]
ASSUMPTIONS = ["baseline population, GDP and emissions are read from the model (C06 decides them)"]
