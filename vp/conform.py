"""Conformance of built models with the reference equations: generators, attribution and judgements.

A case is {"cfg": user settings, "pol": policy parameters, ...}.  A policy fixes abatement, trade payments and
damage transfers; the reference model turns it into one full trajectory.  The built model must admit exactly
that trajectory: every equality holds at it, and shifting any single defined quantity breaks a constraint.
"""
import json
import math

import numpy as np
from hypothesis import strategies as st

from vp import conf, modelkit, refmodel
from vp.core import Discard, Outcome, Violation, expect, sut

# ------------------------------------------------------------------------------------- attribution
# variable names appearing in an equation -> the properties it belongs to
EQUATIONS = [
    ("C09", "baseline GDP_net"),
    ("C09", "baseline"),
    ("C09", "baseline regional_emissions relative_abatement"),
    ("C09", "regional_emissions relative_abatement"),
    ("C09", "regional_emissions"),
    ("C09", "baseline regional_emission_reduction regional_emissions"),
    ("C09", "global_emissions regional_emissions"),
    ("C09", "global_emissions"),
    ("C09", "cumulative_emissions global_emissions"),
    ("C09", "cumulative_emissions"),
    ("C09", "cumulative_emissions emission_relative_cumulative"),
    ("C09", "emission_relative_cumulative"),
    ("C10", "cumulative_emissions temperature"),
    ("C10", "temperature"),
    ("C10", "slr_thermal"),
    ("C10", "slr_cumgsic"),
    ("C10", "slr_cumgis"),
    ("C10", "slr_thermal temperature"),
    ("C10", "slr_cumgsic temperature"),
    ("C10", "slr_cumgis temperature"),
    ("C10", "slr_cumgis slr_cumgsic slr_thermal total_SLR"),
    ("C12", "LBD_factor cumulative_emissions"),
    ("C12", "LOT_factor"),
    ("C12", "LBD_factor LOT_factor learning_factor"),
    ("C12", "carbonprice learning_factor relative_abatement"),
    ("C12", "carbonprice"),
    ("C12", "area_under_MAC baseline learning_factor relative_abatement"),
    ("C12", "baseline learning_factor mitigation_costs relative_abatement"),
    ("C12 C15", "baseline import_export_mitigation_cost_balance learning_factor mitigation_costs relative_abatement"),
    ("C12 C15", "area_under_MAC import_export_mitigation_cost_balance mitigation_costs"),
    ("C12", "GDP_gross mitigation_costs rel_mitigation_costs"),
    ("C12", "GDP_gross global_rel_mitigation_costs mitigation_costs"),
    ("C12", "global_emission_reduction_per_cost_unit mitigation_costs regional_emission_reduction"),
    ("C12", "global_cost_per_emission_reduction_unit mitigation_costs regional_emission_reduction"),
    ("C13", "damage_costs damage_costs_non_slr damage_costs_slr"),
    ("C13", "damage_costs_non_slr temperature"),
    ("C13", "damage_costs_non_slr"),
    ("C13", "damage_costs_slr total_SLR"),
    ("C13", "damage_costs_slr"),
    ("C13", "damage_costs"),
    ("C13", "mortality_oldest temperature"),
    ("C13", "mortality_older temperature"),
    ("C13", "mortality_young temperature"),
    ("C13", "mortality_cost_oldest mortality_oldest"),
    ("C14", "GDP_gross capital_stock"),
    ("C14", "GDP_gross"),
    ("C14", "capital_stock investments"),
    ("C14", "capital_stock"),
    ("C14", "GDP_net investments"),
    ("C14", "GDP_net consumption"),
    ("C13 C14", "GDP_gross GDP_net damage_costs mitigation_costs"),
    ("C14", "GDP_gross GDP_net mitigation_costs"),
    ("C13 C14 C16", "GDP_gross GDP_net damage_costs financial_transfer mitigation_costs"),
    ("C14 C16", "GDP_gross GDP_net financial_transfer mitigation_costs"),
    ("C15", "carbonprice global_carbonprice"),
    ("C15", "import_export_mitigation_cost_balance"),
    ("C15", "area_under_MAC mitigation_costs"),
    ("C15", "global_carbonprice import_export_emission_reduction_balance import_export_mitigation_cost_balance"),
    ("C15", "import_export_emission_reduction_balance paid_for_emission_reductions regional_emission_reduction"),
    ("C15", "global_emission_reduction_per_cost_unit mitigation_costs paid_for_emission_reductions"),
    ("C15", "baseline paid_for_emission_reductions regional_emission_allowances"),
    ("C16", "financial_transfer"),
    ("C16", "GDP_gross financial_transfer rel_financial_transfer"),
    ("C18", "consumption utility"),
    ("C18", "utility yearly_welfare"),
    ("C18", "consumption yearly_welfare"),
    ("C18", "consumption utility yearly_welfare"),
    ("C19", "NPV"),
    ("C19", "NPV yearly_welfare"),
    ("C19", "GDP_gross NPV damage_costs mitigation_costs"),
]
LIMITS = [
    ("C09", "relative_abatement"),
    ("C10", "slr_thermal"),
    ("C10", "slr_cumgsic"),
    ("C10", "slr_cumgis"),
    ("C10", "total_SLR"),
    ("C09 C11", "cumulative_emissions"),
    ("C10 C11", "temperature"),
    ("C09 C11", "global_emissions"),
    ("C09 C11", "regional_emissions"),
    ("C12", "carbonprice"),
    ("C12", "rel_mitigation_costs"),
    ("C12", "mitigation_costs"),
    ("C12", "area_under_MAC"),
    ("C13", "damage_costs"),
    ("C13", "damage_costs_slr"),
    ("C13", "damage_costs_non_slr"),
    ("C14", "capital_stock"),
    ("C14", "GDP_gross"),
    ("C14", "GDP_net"),
    ("C14", "investments"),
    ("C14", "consumption"),
    ("C15", "area_under_MAC mitigation_costs"),
    ("C15", "import_export_mitigation_cost_balance"),
    ("C15", "import_export_emission_reduction_balance"),
    ("C15", "paid_for_emission_reductions"),
    ("C15 C17", "regional_emission_allowances"),
    ("C16", "GDP_gross damage_costs financial_transfer"),
    ("C16", "financial_transfer"),
    ("C17", "effort_sharing_common_level rel_mitigation_costs"),
    ("C17", "damage_costs effort_sharing_common_level rel_mitigation_costs"),
    ("C17", "damage_costs effort_sharing_common_level rel_financial_transfer rel_mitigation_costs"),
    ("C17", "global_emissions regional_emission_allowances"),
    ("C09", "baseline"),
    ("C09", "regional_emission_reduction"),
    ("C09", "emission_relative_cumulative"),
    ("C12", "LBD_factor"),
    ("C12", "LOT_factor"),
    ("C12", "learning_factor"),
    ("C12", "global_rel_mitigation_costs"),
    ("C12", "global_emission_reduction_per_cost_unit"),
    ("C12", "global_cost_per_emission_reduction_unit"),
    ("C13", "mortality_oldest"),
    ("C13", "mortality_older"),
    ("C13", "mortality_young"),
    ("C13", "mortality_cost_oldest"),
    ("C15", "global_carbonprice"),
    ("C16", "rel_financial_transfer"),
    ("C17", "effort_sharing_common_level"),
    ("C18", "utility"),
    ("C18", "yearly_welfare"),
    ("C19", "NPV"),
]


def _nearest(table, sig):
    best, props = -1.0, set()
    for owners, names in table:
        names = frozenset(names.split())
        j = len(names & sig) / len(names | sig)
        if j > best + 1e-12:
            best, props = j, set(owners.split())
        elif abs(j - best) <= 1e-12:
            props |= set(owners.split())
    return props


_cache = {}


def owners(broken):
    key = (broken.kind == "eq", broken.sig)
    if key not in _cache:
        _cache[key] = _nearest(EQUATIONS if broken.kind == "eq" else LIMITS, broken.sig)
    return _cache[key]


# --------------------------------------------------------------------------------------- generators
DTS = [0.5, 0.75, 1, 2, 2.5, 4, 5, 5, 7, 8, 10, 10, 12.5, 15, 20, 3.3]
# settings without effect on the reference trajectory: every limit switched off
OFF = {
    "emissions": {
        "carbonbudget": False,
        "global min level": False,
        "regional min level": False,
        "not positive after budget year": False,
        "non increasing emissions after 2100": False,
        "inertia": {"global": False, "regional": False},
    },
    "temperature": {"target": False},
    "effort sharing": {"regime": "noregime"},
    "economics": {"MAC": {"rel_mitigation_costs_min_level": -2}},
}


def merge(a, b):
    out = json.loads(json.dumps(a))
    for k, v in b.items():
        out[k] = merge(out[k], v) if isinstance(v, dict) and isinstance(out.get(k), dict) else v
    return out


@st.composite
def horizon(draw, reach=None):
    start = draw(st.sampled_from([2020, 2020, 2010, 2015, 2025, 2033, 2040]))
    if reach is None and draw(st.integers(0, 7)) == 0:  # far into the future
        dt = draw(st.sampled_from([7.5, 10, 12.5, 15, 20]))
        end = draw(st.one_of(st.integers(2150, 2300), st.integers(2260, 2300)))
    elif reach is None and draw(st.integers(0, 13)) == 5:  # many short steps
        dt = draw(st.sampled_from([1, 2, 2.5, 3]))
        end = start + dt * draw(st.integers(30, 42))
        end = int(min(2300, end))
    elif reach is None:
        dt = draw(st.sampled_from(DTS))
        n = draw(st.integers(2, 14))
        end = start + dt * (n - 1) - draw(st.sampled_from([0, 0, 0, 0.4, 0.9])) * dt
        end = int(min(2300, max(start + 1, end)))
    else:
        dt = draw(st.sampled_from([5, 5, 7, 8, 10, 10, 12.5, 15, 20, 4, 9]))
        end = draw(st.integers(reach, draw(st.sampled_from([2200, 2200, 2200, 2300]))))
        if dt < 6:
            end = min(end, 2150)
    return {"start": start, "end": end, "dt": dt}


@st.composite
def region_list(draw, lo=1, hi=4):
    return draw(st.lists(st.sampled_from(conf.REGIONS), min_size=lo, max_size=hi, unique=True))


DIMS = {
    "damage module": ["COACCH", "nodamage"],
    "emissiontrade module": ["notrade", "emissiontrade", "globalcostpool"],
    "financialtransfer module": ["notransfer", "globaldamagepool"],
    "welfare module": ["welfare_loss_minimising", "cost_minimising", "inequal_aversion_general"],
    "objective module": ["utility", "globalcosts"],
}
OPTIONS = [
    (("economics", "PRTP"), [0, 0.001, 0.015, 0.05, 0.2]),
    (("economics", "elasmu"), [0.2, 0.5, 0.9, 1.001, 1.2, 1.5, 2, 3]),
    (("economics", "inequal_aversion"), [0, 0.1, 0.3, 0.5, 0.9, 1.2, 1.5]),
    (("economics", "GDP", "alpha"), [0, 0.1, 0.3, 0.5, 0.9]),
    (("economics", "GDP", "depreciation of capital"), [0, 0.02, 0.05, 0.1, 0.3]),
    (("economics", "GDP", "savings rate"), [0, 0.05, 0.21, 0.5]),
    (("economics", "MAC", "beta"), [0.5, 1, 2, 3, 4.5]),
    (("economics", "MAC", "gamma"), ["50 USD2005/tCO2", "800 USD2010/tCO2", "2601 USD2005/tCO2", "9000 USD2005/tCO2"]),
    (("economics", "MAC", "LBD_rate"), [0.6, 0.82, 0.95, 1.0]),
    (("economics", "MAC", "LBD_scaling"), ["40 GtCO2", "10 GtCO2", "0.5 TtCO2"]),
    (("economics", "MAC", "LOT_rate"), [0, 0.01, 0.1]),
    (("economics", "MAC", "regional calibration factor"), None),
    (("economics", "damages", "scale factor"), [0, 0.5, 1, 2, -0.5, 5, -3]),
    (("economics", "damages", "ignore damages"), [True, False]),
    (("economics", "damages", "quantile"), [0.025, 0.05, 0.16, 0.25, 0.33, 0.5, 0.67, 0.75, 0.84, 0.95, 0.975]),
    (("economics", "damages", "coacch_slr_withadapt"), [True, False]),
    (("economics", "damages", "coacch_combined_slr_nonslr_damages"), [True, False]),
    (("emissions", "baseline carbon intensity"), [True, False]),
    (("emissions", "cumulative_emissions_trapz"), [True, False]),
    (("temperature", "initial"), ["0.8 delta_degC", "1.16 delta_degC", "1.5 delta_degC", "0.3 delta_degC"]),
    (("temperature", "TCRE"), ["0.3 delta_degC/(TtCO2)", "0.62 delta_degC/(TtCO2)", "1.4 delta_degC/TtCO2", "4.5 delta_degC/TtCO2"]),
    (("SSP",), ["SSP1", "SSP2", "SSP3", "SSP4", "SSP5"]),
]


def set_path(d, path, val):
    for k in path[:-1]:
        d = d.setdefault(k, {})
    d[path[-1]] = val


@st.composite
def cfg(draw, force=None, reach=None, rlo=1, rhi=4, density=4, always=()):
    """User settings: horizon, regions, modules and a random subset of the scalar options; limits are off."""
    out = json.loads(json.dumps(OFF))
    out["time"] = draw(horizon(reach))
    if rhi >= 4 and draw(st.integers(0, 13)) == 3:  # many regions, a few long steps
        out["regions"] = {r: None for r in draw(region_list(6, draw(st.sampled_from([8, 12, 26, 26]))))}
        if draw(st.integers(0, 2)) == 0:
            out["regions"] = {r: None for r in draw(st.permutations(conf.REGIONS))}
        start, dt = draw(st.sampled_from([2020, 2020, 2015, 2030])), 20 if reach else draw(st.sampled_from([5, 10, 12.5, 20, 20]))
        n = math.ceil((reach - start) / dt) + draw(st.integers(0, 1)) if reach else draw(st.integers(1, 5))
        out["time"] = {"start": start, "end": int(min(2300, start + n * dt)), "dt": dt}
    else:
        out["regions"] = {r: None for r in draw(region_list(rlo, rhi))}
    out["model"] = {}
    for k, vals in DIMS.items():
        out["model"][k] = draw(st.sampled_from((force or {}).get(k, vals)))
    for path, vals in OPTIONS:
        if path in always or draw(st.integers(0, density)) == 0:
            if vals is None:
                vals = conf.LEAVES[path]["values"]
            set_path(out, path, draw(st.sampled_from(vals)))
    if draw(st.integers(0, 7)) == 0:  # a region-specific override
        r = draw(st.sampled_from(list(out["regions"])))
        out["regions"][r] = draw(
            st.sampled_from([{"economics": {"init_capital_factor": 2.5}}, {"mortality": {"older_b": 0.3}}])
        )
    return out


@st.composite
def policy(draw, trade=True):
    return {
        "seed": draw(st.integers(0, 10**6)),
        "shape": draw(st.sampled_from(["rise", "noise", "hump", "late", "flat", "zero"])),
        "amax": draw(st.sampled_from([0.05, 0.3, 0.7, 1.0, 1.3, 1.8])),
        "bal": draw(st.sampled_from([0, 0.001, 0.01, 0.01, 0.08])),
        "ft": draw(st.sampled_from([0, 0.3, 0.9])),
    }


def abatement(c, pol):
    rs = np.random.RandomState(pol["seed"])
    T, R = c.n, len(c.regions)
    x = np.linspace(0, 1, T)[:, None]
    level = 0.3 + 0.7 * rs.rand(1, R)
    noise = 0.85 + 0.3 * rs.rand(T, R)
    shape = {
        "rise": x,
        "noise": rs.rand(T, R),
        "hump": 4 * x * (1 - 0.8 * x) / 1.25,
        "late": np.maximum(0, 2 * x - 1),
        "flat": np.ones((T, 1)) * 0.6,
        "zero": np.zeros((T, 1)),
    }[pol["shape"]]
    a = np.clip(shape * level * noise * pol["amax"], 0, 2.4)
    a[0] = 0
    return a


def zero_sum(x):
    x = np.array(x, float)
    x -= x.mean()
    x[-1] = -(x[:-1].sum())
    return x


def make_policy(c, d, pol):
    """Feasible policy in the reference model: zero-sum payments and transfers within own damages."""
    rs = np.random.RandomState(pol["seed"] + 1)
    T, R = d.gdp.shape
    w = rs.randn(T, R)
    share = rs.rand(T, R)
    payer = rs.randint(0, R, size=T)

    def bal_rule(t, v):
        if t == 0 or R == 1 or c.trade == "notrade":
            return np.zeros(R)
        return zero_sum(w[t] * pol["bal"] * v["GDP_gross"][t].sum() / R)

    def ft_rule(t, v):
        if t == 0 or R == 1 or c.transfer == "notransfer":
            return np.zeros(R)
        own = v["damage_costs"][t] * v["GDP_gross"][t]
        x = -own * np.where(own > 0, pol["ft"] * share[t], 1.0 + 0.01)
        x[payer[t]] = 0
        x[payer[t]] = -x.sum()
        return x

    return {
        "a": abatement(c, pol),
        "bal": np.zeros((T, R)),
        "ft": np.zeros((T, R)),
        "bal_rule": bal_rule,
        "ft_rule": ft_rule,
        "common": 0.01 * rs.rand(T),
    }


def spoiled(c, d, v):
    """Names of limits (other than the configured C11 ones) the reference trajectory itself violates."""
    out = []
    m = 1e-11
    if (v["cumulative_emissions"] < -m).any():
        out.append("cumulative_emissions")
    if (v["carbonprice"] > 2 * c.gamma * (1 + m)).any():
        out.append("carbonprice")
    if (v["rel_mitigation_costs"][1:] < c.rel_min - m).any() or (v["rel_mitigation_costs"][0] < -m).any():
        out.append("rel_mitigation_costs")
    if (v["total_SLR"] < 0).any() or (v["slr_thermal"] < 0).any() or (v["slr_cumgsic"] < 0).any() or (v["slr_cumgis"] < 0).any():
        out.append("slr")
    if (v["damage_costs_slr"] > 0.7).any() or (v["damage_costs_slr"] < -0.5).any():
        out.append("damage_costs_slr")
    if c.transfer == "globaldamagepool":
        own = v["damage_costs"] * v["GDP_gross"]
        if (v["financial_transfer"] < -own - m * (1 + abs(own))).any():
            out.append("financial_transfer")
    if (v["relative_abatement"] > 2.5).any() or (v["relative_abatement"] < 0).any():
        out.append("relative_abatement")
    return out


YEAR = 2100


def configured_limits(c, d, v):
    """Every (limit, index, relative excess) of the configured emission and temperature limits; positive = broken."""
    out = []
    yr = c.years
    E, G, C, Tm = v["regional_emissions"], v["global_emissions"], v["cumulative_emissions"], v["temperature"]
    e0 = d.emi[0]
    T, R = E.shape
    rel = lambda x, ref: x / max(1e-3, abs(ref))
    for t in range(T):
        out.append(("nonnegative", (t,), rel(-C[t], C[t]) if C[t] != 0 else -1))
        if yr[t] >= YEAR:
            if c.budget is not False:
                out.append(("budget", (t,), rel(C[t] - c.budget, C[t])))
            if c.T_target is not False:
                out.append(("target", (t,), rel(Tm[t] - c.T_target, Tm[t])))
            if c.budget is not False and c.net_zero:
                out.append(("net zero", (t,), rel(G[t], 1)))
        if c.glob_min is not False:
            out.append(("global min", (t,), rel(c.glob_min - G[t], G[t])))
        for r in range(R):
            if c.reg_min is not False:
                out.append(("regional min", (t, r), rel(c.reg_min - E[t, r], E[t, r])))
            if t > 0:
                if c.inertia_reg is not False:
                    out.append(("regional inertia", (t, r), rel(c.dt * c.inertia_reg * e0[r] - (E[t, r] - E[t - 1, r]), e0[r])))
                if c.non_increasing and yr[t - 1] > YEAR:
                    out.append(("non increasing", (t, r), rel(E[t, r] - E[t - 1, r], E[t, r])))
        if t > 0 and c.inertia_glob is not False:
            out.append(("global inertia", (t,), rel(c.dt * c.inertia_glob * e0.sum() - (G[t] - G[t - 1]), e0.sum())))
    return out


class Built:
    """A model built from a case together with its reference trajectory."""

    def __init__(self, case_cfg, pol, positive=True, lookup=None):
        self.mm = modelkit.build(case_cfg)
        self.m = self.mm.concrete_model
        self.J = modelkit.Judge(self.m)
        self.c = refmodel.Cfg(case_cfg, lookup)
        expect(
            len(self.J.T) == self.c.n and self.J.R == self.c.regions,
            f"model has {len(self.J.T)} steps and regions {self.J.R}, configured are {self.c.n} and {self.c.regions}",
        )
        self.d = self.J.data()
        self.pol = make_policy(self.c, self.d, pol) if pol is not None else None
        if self.pol is not None:
            self.v = self.simulate()
            if positive and not (self.v["GDP_net"] > 0).all():
                raise Discard()

    def simulate(self, bump=None, **over):
        return refmodel.simulate(self.c, self.d, {**self.pol, **over}, bump)

    def broken_at(self, v):
        self.J.assign(v)
        return self.J.broken()


# ------------------------------------------------------------------- what each property can be bumped in
BUMPS = {
    "C09": "baseline regional_emissions regional_emission_reduction global_emissions cumulative_emissions emission_relative_cumulative",
    "C10": "temperature slr_thermal slr_cumgsic slr_cumgis total_SLR",
    "C12": "LBD_factor LOT_factor learning_factor carbonprice area_under_MAC mitigation_costs rel_mitigation_costs global_rel_mitigation_costs "
    "global_emission_reduction_per_cost_unit global_cost_per_emission_reduction_unit relative_abatement",
    "C13": "damage_costs damage_costs_non_slr damage_costs_slr mortality_oldest mortality_older mortality_young mortality_cost_oldest GDP_net",
    "C14": "GDP_gross GDP_net capital_stock investments consumption",
    "C15": "import_export_mitigation_cost_balance global_carbonprice import_export_emission_reduction_balance paid_for_emission_reductions "
    "regional_emission_allowances mitigation_costs",
    "C16": "financial_transfer rel_financial_transfer GDP_net",
    "C18": "utility yearly_welfare",
    "C19": "NPV",
}
LATE = {
    "global_emission_reduction_per_cost_unit",
    "global_cost_per_emission_reduction_unit",
    "import_export_emission_reduction_balance",
    "paid_for_emission_reductions",
    "regional_emission_allowances",
}


@st.composite
def bump_list(draw, pid, k):
    out = []
    names = BUMPS[pid].split()
    start = draw(st.integers(0, len(names) - 1))
    for i in range(k):
        out.append(
            {
                "var": names[(start + i) % len(names)],
                "t": draw(st.sampled_from([0, 0.001, 0.001, 0.999, 0.3, 0.6])),
                "r": draw(st.integers(0, 3)),
                "rel": draw(st.sampled_from([-0.1, -0.003, 0.003, 0.1])),
            }
        )
    return out


def apply_bump(B, b):
    """The trajectory with one quantity shifted, everything downstream following it; None when not applicable."""
    name = b["var"]
    var = B.J.vars.get(name)
    if var is None:
        return None
    T, R = B.d.gdp.shape
    last = T - 1
    t = 0 if b["t"] == 0 else min(last, max(1, int(round(b["t"] * last))))
    if name in LATE:
        t = max(1, t)
    arr = B.v[name]
    r = b["r"] % R if arr.ndim == 2 else None
    x = arr[t] if r is None else arr[t, r]
    delta = b["rel"] * max(abs(x), 0.05)
    if name == "relative_abatement":
        if t > 0:
            return None
        a = B.pol["a"].copy()
        a[0, r] = 0.4
        return B.simulate(a=a), t, r, 0.4
    if name == "import_export_mitigation_cost_balance":
        rule = B.pol["bal_rule"]

        def shifted(tt, v):
            out = np.array(rule(tt, v), float)
            if tt == t:
                out[r] += delta
            return out

        return B.simulate(bal_rule=shifted), t, r, delta
    return B.simulate(bump=(name, t, r, delta)), t, r, delta


def describe(v, B):
    return f"{[x for x in v[:4]]}"


def judge_equations(pid, case):
    """The reference trajectory is admitted, and each single shift of a defined quantity is excluded."""
    build_earlier(case["cfg"], case.get("before", []))
    B = Built(case["cfg"], case["pol"])
    base = B.broken_at(B.v)
    mine = [x for x in base if x.kind == "eq" and pid in owners(x)]
    expect(not mine, f"the documented trajectory is not admitted: {mine[:5]}")
    labels = [f"{k}={v}" for k, v in case["cfg"]["model"].items()]
    if case.get("before"):
        labels.append("other models built before")
    if not spoiled(B.c, B.d, B.v):
        mine = [x for x in base if x.kind in ("ineq", "bound") and pid in owners(x)]
        expect(not mine, f"the documented trajectory is restricted by something not configured: {mine[:5]}")
        labels.append("no limit touched")
    base_keys = {(x.name, x.index, x.kind) for x in base}
    done = 0
    for b in case["bumps"]:
        try:
            res = apply_bump(B, b)
        except Discard:
            continue
        if res is None:
            continue
        v, t, r, delta = res
        now = B.broken_at(v)
        new = [x for x in now if x.kind == "eq" or (x.name, x.index, x.kind) not in base_keys]
        where = f"{b['var']}[{B.c.years[t]:g}{'' if r is None else ', ' + B.c.regions[r]}]"
        if not new and B.J.coarsest(b["var"], t, r) > 0.1 * abs(delta):
            labels.append("shift lost in rounding")  # extreme settings: the terms of its equation are 10^7 times as large
            continue
        expect(new, f"a trajectory with {where} shifted by {delta:.4g} away from its defining relation is admitted")
        done += 1
        labels.append(f"shift {b['var']} {'t=0' if t == 0 else 't>0'}")
    zero = case["pol"]["shape"] == "zero"
    return Outcome(done >= 2 and not (zero and pid in ("C12", "C15")), labels)


OTHER_LIMITS = [
    (("emissions", "carbonbudget"), "600 GtCO2"),
    (("emissions", "inertia"), {"regional": -0.02, "global": -0.03}),
    (("emissions", "global min level"), "-3 GtCO2/yr"),
    (("emissions", "regional min level"), "-1 GtCO2/yr"),
    (("emissions", "non increasing emissions after 2100"), True),
    (("emissions", "not positive after budget year"), True),
    (("temperature", "target"), "1.7 delta_degC"),
    (("effort sharing", "regime"), "equal_mitigation_costs"),
    (("effort sharing", "regime"), "equal_total_costs"),
    (("effort sharing", "percapconv_year"), 2075),
    (("effort sharing", "percapconv_year"), False),
    (("economics", "MAC", "rel_mitigation_costs_min_level"), -0.3),
]


def with_earlier(cases):
    """Cases in which other models are, now and then, built before."""
    return st.tuples(cases, earlier()).map(lambda x: {**x[0], "before": x[1]})


def after_earlier(run):
    def run_after(case):
        build_earlier(case["cfg"], case.get("before", []))
        return run(case)

    return run_after


@st.composite
def earlier(draw, always=()):
    """Changes of a configuration, one for every model that is built earlier in the same process; mostly none."""
    out = []
    for _ in range(max(0, draw(st.integers(0, 5)) - 3)):
        kind = draw(st.sampled_from(["option", "option", "own option", "time", "module", "regions", "limit"]))
        change = {}
        if kind == "limit":
            path, val = draw(st.sampled_from(OTHER_LIMITS))
            set_path(change, path, val)
            out.append(change)
            continue
        if kind == "time":
            change["time"] = draw(horizon())
        elif kind == "module":
            k = draw(st.sampled_from(sorted(DIMS)))
            change["model"] = {k: draw(st.sampled_from(DIMS[k]))}
        elif kind == "regions":
            change["regions"] = draw(st.sampled_from(["reversed", "fewer", "override"]))
        else:
            path, vals = draw(st.sampled_from([o for o in OPTIONS if kind == "option" or not always or o[0] in always]))
            set_path(change, path, draw(st.sampled_from(conf.LEAVES[path]["values"] if vals is None else vals)))
        out.append(change)
    return out


def build_earlier(case_cfg, changes):
    """What was built before in the process must not matter."""
    for change in changes:
        change = dict(change)
        regions = change.pop("regions", None)
        other = merge(case_cfg, change)
        rs = list(other["regions"])
        if regions == "reversed":
            other["regions"] = {r: other["regions"][r] for r in reversed(rs)}
        elif regions == "fewer" and len(rs) > 1:
            other["regions"] = {r: other["regions"][r] for r in rs[1:]}
        elif regions == "override":
            other["regions"][rs[0]] = {"economics": {"init_capital_factor": 3.5}, "MAC": {"kappa": 0.7}}
        try:
            modelkit.build(other)
        except (Violation, Discard):
            pass  # judged elsewhere


@st.composite
def unusual_emissions(draw, cfgs):
    """Now and then a database in which some regions have no or negative baseline emissions."""
    out = draw(cfgs)
    if draw(st.integers(0, 6)) == 2:
        source = dict(conf.LEAVES[("input", "variables", "emissions")]["default"])
        source["file"] = f"@unusual:{draw(st.sampled_from(['negative', 'zero', 'late', 'early']))}:{draw(st.integers(0, 5))}"
        out["input"] = {"variables": {"emissions": source}}
    return out


def equation_cases(pid, k=8, **kw):
    return st.fixed_dictionaries({"cfg": unusual_emissions(cfg(**kw)), "pol": policy(), "bumps": bump_list(pid, k), "before": earlier(kw.get("always", ()))})


CORNERS = [  # horizon, regions (first, number), which of each module's alternatives, SSP
    ((2020, 2300, 10), (0, 1), 0, "SSP2"),
    ((2020, 2300, 20), (5, 3), 1, "SSP3"),
    ((2015, 2298, 12.5), (9, 2), 2, "SSP1"),
    ((2010, 2045, 1), (2, 2), 3, "SSP5"),
    ((2020, 2100, 2), (12, 1), 4, "SSP4"),
    ((2025, 2150, 5), (17, 2), 5, "SSP2"),
    ((2020, 2110, 20), (0, 26), 6, "SSP2"),
    ((2033, 2034, 10), (20, 2), 7, "SSP3"),
    ((2040, 2100, 7.5), (22, 4), 8, "SSP1"),
    ((2020, 2300, 15), (25, 1), 9, "SSP5"),
    ((2020, 2100, 20), (13, 12), 11, "SSP4"),
]


def corners(pid, k=9, force=None, always=()):
    """A few fixed cases at the edges of the horizons and numbers of regions, whatever the seed."""
    out = []
    opts = dict(OPTIONS)
    names = BUMPS[pid].split()
    for i, ((start, end, dt), (first, n), j, ssp) in enumerate(CORNERS):
        c = json.loads(json.dumps(OFF))
        c["time"] = {"start": start, "end": end, "dt": dt}
        c["regions"] = {conf.REGIONS[(first + q) % len(conf.REGIONS)]: None for q in range(n)}
        c["model"] = {}
        for q, (dim, vals) in enumerate(DIMS.items()):
            vals = (force or {}).get(dim, vals)
            pick = (j % 6 == 1 and j < 9) if dim == "damage module" and len(vals) == 2 else j >> (q % 3)
            c["model"][dim] = vals[pick % len(vals)]
        c["SSP"] = ssp
        for path in always:
            vals = opts[path] or conf.LEAVES[path]["values"]
            set_path(c, path, vals[(2 * i + len(path)) % len(vals)])
        pol = {"seed": 100 + i, "shape": ["rise", "noise", "hump", "late"][i % 4], "amax": [0.3, 0.7][i % 2], "bal": 0.001, "ft": 0.3}
        bumps = [{"var": names[(i * k + q) % len(names)], "t": [0.999, 0.001, 0.5, 0][q % 4], "r": q, "rel": [0.003, -0.1][q % 2]} for q in range(k)]
        out.append({"cfg": c, "pol": pol, "bumps": bumps, "before": []})
    return out
