"""The discounted sum and the objective built on it."""
from hypothesis import strategies as st

from vp import conform
from vp.core import Outcome, Sub, expect, sut

with sut("importing mimosa"):
    import pyomo.environ as pyo

PID = "C19"
RULE = "model built, reference trajectory admitted, and at least two single-quantity shifts judged"


def run_objective(case):
    """On two documented trajectories the objective is their discounted sum, with the better one preferred."""
    B = conform.Built(case["cfg"], case["pol"])
    with sut("reading the objectives of the model"):
        objs = list(B.m.component_data_objects(pyo.Objective, active=True))
    expect(len(objs) == 1, f"{len(objs)} active objectives")
    obj = objs[0]
    welfare = case["cfg"]["model"]["objective module"] == "utility"
    got, want = [], []
    for v in (B.v, B.simulate(a=0.5 * B.pol["a"])):
        B.J.assign(v)
        with sut("evaluating the objective"):
            got.append(float(pyo.value(obj.expr)) * (1 if (obj.sense == pyo.maximize) == welfare else -1))
        want.append(float(v["NPV"][-1]))
    for g, w in zip(got, want):
        expect(abs(g - w) <= 1e-8 * max(1e-3, abs(w)), f"the objective of a {case['cfg']['time']} run is {g:.9g} ({'maximised' if welfare else 'minimised'}), the discounted sum is {w:.9g}")
    n = B.c.n
    late = sum(y > 2100 for y in B.c.years)
    return Outcome(want[0] != want[1], [case["cfg"]["model"]["objective module"], "beyond 2100" if late else "until 2100"] + ["more than ten steps beyond 2100"] * (late > 10) + ["30 or more steps"] * (n >= 30))


@st.composite
def objective_cases(draw):
    cfg = draw(conform.cfg(rhi=3, density=5, always=(("economics", "PRTP"),)))
    if draw(st.booleans()):  # a long run with short steps
        start = draw(st.sampled_from([2010, 2020, 2035]))
        cfg["time"] = {"start": start, "end": draw(st.integers(2120, 2200)), "dt": draw(st.sampled_from([2, 2.5, 3, 5, 5, 7]))}
    return {"cfg": cfg, "pol": draw(conform.policy())}


SUBS = [
    Sub(
        "equations",
        conform.equation_cases(PID, always=(("economics", "PRTP"),)),
        lambda case: conform.judge_equations(PID, case),
        quick=250,
        thorough=6000,
        rule=RULE,
        examples=conform.corners(PID, always=(("economics", "PRTP"),)),
    ),
    Sub("objective", conform.with_earlier(objective_cases()), conform.after_earlier(run_objective), quick=100, thorough=3000, rule="two trajectories of different discounted sums, the objective evaluated on both"),
]
ASSUMPTIONS = ["baseline population, GDP and emissions are read from the model (C06 decides them)"]
