"""Every combination of modules builds one closed, consistent model."""
import itertools

import numpy as np
from hypothesis import strategies as st
from scipy.sparse import csr_matrix
from scipy.sparse.csgraph import maximum_bipartite_matching

from vp import conform, modelkit
from vp.conform import merge
from vp.core import Discard, Outcome, Sub, expect, sut

with sut("importing mimosa"):
    import pyomo.environ as pyo
    from mimosa.common import get_all_time_region_params, get_all_variables

POLICY = {"relative_abatement", "import_export_mitigation_cost_balance", "financial_transfer", "effort_sharing_common_level"}
# quantities without meaning in the first year
FROM_SECOND_YEAR = conform.LATE
REGIMES = ["noregime", "equal_mitigation_costs", "equal_total_costs", "per_cap_convergence"]
COMBOS = [
    dict(zip(conform.DIMS, x), **{"regime": g})
    for x in itertools.product(*conform.DIMS.values())
    for g in REGIMES
    if g != "per_cap_convergence" or x[1] == "emissiontrade"
]


def outputs(m):
    with sut("listing the outputs of the model"):
        return sorted(v.name for v in get_all_variables(m) + get_all_time_region_params(m))


def undetermined(m, J):
    """Reported outputs that no assignment of equations to unknowns can determine once the policy is given."""
    cols, rows, cc = {}, [], []
    for name, v in J.vars.items():
        if name in POLICY:
            continue
        for i in v:
            if not v[i].fixed:
                cols[id(v[i])] = (len(cols), name, i)
    eqs = [c for c in J.cons if c.eq]
    for k, c in enumerate(eqs):
        for v in c.vars:
            if id(v) in cols:
                rows.append(k)
                cc.append(cols[id(v)][0])
    M = csr_matrix((np.ones(len(rows)), (rows, cc)), shape=(len(eqs), len(cols)))
    mt = maximum_bipartite_matching(M, perm_type="row")
    first = lambda i: (i[0] if isinstance(i, tuple) else i) == 0
    return [f"{n}[{i}]" for j, n, i in cols.values() if mt[j] < 0 and not (first(i) and n in FROM_SECOND_YEAR)]


def run(case):
    combo = COMBOS[case["combo"]]
    modules = {k: v for k, v in combo.items() if k != "regime"}
    extra = {"model": modules, "effort sharing": {"regime": combo["regime"]}}
    cfg = merge(case["cfg"], extra)
    mm = modelkit.build(cfg, what=f"building {combo}")
    m = mm.concrete_model
    objs = list(m.component_data_objects(pyo.Objective, active=True))
    expect(len(objs) == 1, f"{combo}: {len(objs)} active objectives")
    names = outputs(m)
    expect(len(names) == len(set(names)), f"{combo}: output names are not unique")
    other = merge(case["other"], extra)
    m2 = modelkit.build(other, presolve=case["presolve"], what=f"building {combo} with other regions and options").concrete_model
    names2 = outputs(m2)
    expect(names == names2, f"{combo}: outputs depend on regions or unrelated options: {sorted(set(names) ^ set(names2))}")
    J = modelkit.Judge(m)
    free = undetermined(m, J)
    expect(not free, f"{combo}: no equation determines {free[:5]} for a given policy")
    labels = [f"{k}={v}" for k, v in combo.items()]
    if combo["regime"] == "noregime":
        B = conform.Built(cfg, {"seed": 0, "shape": "zero", "amax": 0.3, "bal": 0, "ft": 0})
        if not conform.spoiled(B.c, B.d, B.v):
            broken = B.broken_at(B.v)
            expect(not broken, f"{combo}: the no-policy trajectory is excluded by {broken[:4]}")
            labels.append("no-policy trajectory admitted")
    return Outcome(True, labels)


@st.composite
def cases(draw):
    a = draw(conform.cfg(density=9, rhi=3))
    b = draw(conform.cfg(density=9, rhi=3))
    if draw(st.booleans()):  # same regions, other order
        b["regions"] = dict(reversed(list(a["regions"].items())))
    for c in (a, b):
        if c["time"]["end"] - c["time"]["start"] > 12 * c["time"]["dt"]:
            c["time"]["end"] = int(c["time"]["start"] + 12 * c["time"]["dt"])
    return {"combo": draw(st.integers(0, len(COMBOS) - 1)), "cfg": a, "other": b, "presolve": draw(st.integers(0, 3)) == 0}


CFG0 = merge(conform.OFF, {"time": {"start": 2020, "end": 2050, "dt": 10}, "regions": {"WEU": None, "INDIA": None}, "model": {}})
CFG0["economics"] = {}  # the documented default for the lowest relative mitigation costs
CFG1 = merge(conform.OFF, {"time": {"start": 2025, "end": 2060, "dt": 5}, "regions": {"USA": None}, "model": {}})
ALL = [{"combo": i, "cfg": CFG0, "other": CFG1, "presolve": False} for i in range(len(COMBOS))]

SUBS = [
    Sub("combinations", cases(), run, quick=60, thorough=4000, rule="a module combination built twice, its outputs compared and its equations matched to unknowns", examples=ALL),
]
ASSUMPTIONS = [
    "determinacy is structural (a matching of equations to unknowns exists); the value of each output is decided by C09-C19",
    "per-capita convergence applies to the emission trading module only, which defines allowances",
]
