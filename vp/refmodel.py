"""Independent reference of MIMOSA's documented equations: simulates the full state for a given policy.

Written from the documentation of the components; works on plain numpy arrays.  The policy (relative
abatement, trade payments, damage transfers, common effort level) is exogenous; everything else follows.
"""
import functools
import math
import os

import numpy as np
import pandas as pd

from vp import conf
from vp.core import REPO, Discard, steps

PI = math.pi


def soft_min(x, scale=1.0):
    u = 25.0 * np.asarray(x, float) / scale
    return x * (np.arctan(u) / PI + 0.5) + scale / (25.0 * PI)


def soft_max(x, m, scale=1.0):
    return m - soft_min(m - x, scale)


# ---------------------------------------------------------------------------------------- quantities
FACTORS = {
    "GtCO2": 1.0, "MtCO2": 1e-3, "TtCO2": 1e3, "tCO2": 1e-9,
    "GtCO2/yr": 1.0, "MtCO2/yr": 1e-3, "TtCO2/yr": 1e3,
    "delta_degC": 1.0,
    "delta_degC/TtCO2": 1e-3, "delta_degC/(TtCO2)": 1e-3, "delta_degC/GtCO2": 1.0,
    "kUSD2005/tCO2": 1.0, "USD2005/tCO2": 1e-3, "USD2010/tCO2": 1.11e-3, "trillion USD2005/GtCO2": 1.0,
}


def quantity(text):
    if text is False:
        return False
    num, unit = text.split(" ", 1)
    return float(num) * FACTORS[unit]


# -------------------------------------------------------------------------------------- regional data
@functools.lru_cache(None)
def table(name):
    path = os.path.join(REPO, "mimosa/inputdata/regionalparams", name)
    return pd.read_csv(path).set_index("region")


@functools.lru_cache(None)
def coacch_region(region):
    m = pd.read_csv(os.path.join(REPO, "mimosa/inputdata/regions/IMAGE26_COACCH.csv"))
    rows = m[m["IMAGE26"] == region]["COACCH"]
    return list(rows)


def coacch(region, col):
    vals = [table("COACCH.csv").loc[r, col] for r in coacch_region(region)]
    try:
        return float(np.mean([float(v) for v in vals]))
    except ValueError:
        return vals[0]


class Cfg:
    """Scalar settings of a (partial) configuration in model units."""

    def __init__(self, user, lookup=None):
        """lookup(category, parameter, region) replaces the shipped regional parameter files when given."""
        p = conf.expected(user)
        self.user = user
        self.p = p
        self.start, self.end, self.dt = p["time"]["start"], p["time"]["end"], p["time"]["dt"]
        self.n = steps(self.start, self.end, self.dt)
        self.years = [self.start + i * self.dt for i in range(self.n)]
        self.regions = list(p["regions"])
        e = p["economics"]
        self.PRTP, self.elasmu, self.inequal_aversion = e["PRTP"], e["elasmu"], e["inequal_aversion"]
        self.alpha, self.dk, self.sr = e["GDP"]["alpha"], e["GDP"]["depreciation of capital"], e["GDP"]["savings rate"]
        mac = e["MAC"]
        self.beta, self.gamma = mac["beta"], quantity(mac["gamma"])
        self.LBD_rate, self.LBD_scaling, self.LOT_rate = mac["LBD_rate"], quantity(mac["LBD_scaling"]), mac["LOT_rate"]
        self.kappa_name = mac["regional calibration factor"]
        self.rel_min = mac["rel_mitigation_costs_min_level"]
        d = e["damages"]
        self.scale, self.ignore = d["scale factor"], d["ignore damages"]
        self.quantile, self.withadapt, self.combined = d["quantile"], d["coacch_slr_withadapt"], d["coacch_combined_slr_nonslr_damages"]
        em = p["emissions"]
        self.budget = quantity(em["carbonbudget"])
        self.glob_min, self.reg_min = quantity(em["global min level"]), quantity(em["regional min level"])
        self.net_zero, self.non_increasing = em["not positive after budget year"], em["non increasing emissions after 2100"]
        self.use_ci, self.trapz = em["baseline carbon intensity"], em["cumulative_emissions_trapz"]
        self.inertia_glob, self.inertia_reg = em["inertia"]["global"], em["inertia"]["regional"]
        self.regime, self.conv_year = p["effort sharing"]["regime"], p["effort sharing"]["percapconv_year"]
        t = p["temperature"]
        self.T0, self.TCRE, self.T_target = quantity(t["initial"]), quantity(t["TCRE"]), quantity(t["target"])
        m = p["model"]
        self.damage, self.trade = m["damage module"], m["emissiontrade module"]
        self.transfer, self.welfare, self.objective = m["financialtransfer module"], m["welfare module"], m["objective module"]
        reg = self.regions
        over = p["regions"]

        def regional(cat, col, default):
            out = []
            for r in reg:
                try:
                    out.append(over[r][cat][col])
                except (KeyError, TypeError):
                    out.append(default(r) if lookup is None else lookup(cat, col, r))
            return out

        base = lambda r: r
        self.kappa = np.array(regional("MAC", self.kappa_name, lambda r: float(table("mac.csv").loc[base(r), self.kappa_name])))
        self.k0 = np.array(regional("economics", "init_capital_factor", lambda r: float(table("economics.csv").loc[base(r), "init_capital_factor"])))
        if self.damage == "COACCH":
            q = self.quantile
            ad = "Ad" if self.withadapt else "NoAd"
            C = lambda col: regional("COACCH", col, lambda r: coacch(r, col))
            if self.combined:
                self.noslr = [("Robust-Quadratic", b1, b2, 0, 1) for b1, b2 in zip(C(f"combined_b1_{ad}-q{q}"), C(f"combined_b2_{ad}-q{q}"))]
                self.slr = [("Robust-Linear", 0, 0, 0, 0) for r in reg]
            else:
                self.noslr = list(zip(C("NoSLR_form"), C("NoSLR_b1"), C("NoSLR_b2"), C("NoSLR_b3"), C(f"NoSLR_a (q={q})")))
                s = f"SLR-{ad}_"
                self.slr = list(zip(C(s + "form"), C(s + "b1"), C(s + "b2"), C(s + "b3"), C(s + f"a (q={q})")))
            self.mort = {
                g: [np.array(regional("mortality", f"{g}_{k}", lambda r: float(table("mortality.csv").loc[base(r), f"{g}_{k}"]))) for k in "abc"]
                for g in ("oldest", "older", "young")
            }


def dam_form(x, f):
    form, b1, b2, b3, a = f
    if "Linear" in form:
        return a * b1 * x / 100
    if "Quadratic" in form:
        return a * (b1 * x + b2 * x**2) / 100
    if "Logistic" in form:
        return a * (b1 / (1 + b2 * math.exp(soft_max(-b3 * x, 10, 0.1))) - b1 / (1 + b2)) / 100
    raise AssertionError(form)


def crra(x, eta):
    return (soft_min(x) ** (1 - eta) - 1) / (1 - eta)


class Data:
    """Exogenous series: arrays (T, R)."""

    def __init__(self, pop, gdp, emi):
        self.pop, self.gdp, self.emi = map(np.asarray, (pop, gdp, emi))


def tfp(c, d):
    T, R = d.gdp.shape
    K = c.k0 * d.gdp[0]
    out = np.zeros((T, R))
    for t in range(T):
        if t > 0:
            K = K + ((1 - c.dk) ** c.dt - 1) * K + c.dt * c.sr * d.gdp[t - 1]
        out[t] = d.gdp[t] / (d.pop[t] ** (1 - c.alpha) * K**c.alpha)
    return out


def cum_baseline(c, d):
    g = d.emi.sum(axis=1)
    out = np.zeros(len(g))
    for t in range(1, len(g)):
        out[t] = out[t - 1] + c.dt * (g[t] + g[t - 1]) / 2
    return out


def percap_share(c, d):
    """The documented convergence of emission shares to population shares."""
    init = d.emi[0] / d.emi[0].sum()
    out = np.zeros(d.emi.shape)
    for t in range(c.n):
        pop = d.pop[t] / d.pop[t].sum()
        if c.conv_year is False:
            out[t] = init
            continue
        if c.years[t] >= c.conv_year:
            w = 1.0
        else:
            w = (c.years[t] - c.years[0]) / (c.conv_year - c.years[0])
        out[t] = w * pop + (1 - w) * init
    return out


def simulate(c, d, pol, bump=None):
    """The unique trajectory for a policy.  `bump` = (variable, t, r or None, delta) overrides one equation:
    the variable is shifted by delta at that index and everything downstream follows from the shifted value."""
    T, R = d.gdp.shape
    a = pol["a"]
    bal = pol["bal"] if c.trade != "notrade" else np.zeros((T, R))
    ft = np.array(pol["ft"], float) if c.transfer == "globaldamagepool" else np.zeros((T, R))
    v = {}
    reg = lambda: np.zeros((T, R))
    glo = lambda: np.zeros(T)
    for n in REG_VARS:
        v[n] = reg()
    for n in GLO_VARS:
        v[n] = glo()
    v["relative_abatement"] = np.array(a, float)
    v["import_export_mitigation_cost_balance"] = np.array(bal, float)
    v["financial_transfer"] = np.array(ft, float)
    v["effort_sharing_common_level"] = np.array(pol.get("common", np.zeros(T)), float)
    TFP = tfp(c, d)
    cumb = cum_baseline(c, d)

    def put(name, t, x):
        if bump is not None and bump[0] == name and bump[1] == t:
            if bump[2] is None:
                x = x + bump[3]
            else:
                x = np.array(x, float)
                x[bump[2]] += bump[3]
        v[name][t] = x
        return v[name][t]

    CI = d.emi / d.gdp
    lograte = math.log(c.LBD_rate) / math.log(2)
    soft1 = soft_min
    for t in range(T):
        # ---- sea level (previous step's temperature)
        if t == 0:
            put("slr_thermal", 0, 0.0920666936642 + 0.024076141150722 * (c.T0 * 0.5 - 0.0920666936642))
            put("slr_cumgsic", 0, 0.015)
            put("slr_cumgis", 0, 0.006)
        else:
            Tp = v["temperature"][t - 1]
            th, gs, gi = v["slr_thermal"][t - 1], v["slr_cumgsic"][t - 1], v["slr_cumgis"][t - 1]
            put("slr_thermal", t, th * (1 - 0.024076141150722) ** (c.dt / 10) + 0.024076141150722 * c.dt / 10 * Tp * 0.5)
            put("slr_cumgsic", t, gs + 0.0008 * c.dt * (0.26 - gs) / 0.26 * (Tp + 1))
            put("slr_cumgis", t, gi + c.dt / 10 / 100 * (1.11860082 * Tp + 0.6) * (1 - gi / 7.3))
        put("total_SLR", t, v["slr_thermal"][t] + v["slr_cumgsic"][t] + v["slr_cumgis"][t])

        def invest(G):
            put("investments", t, c.sr * G)
            return v["investments"][t]

        def step(G):
            """Everything at t for a guess of net GDP; returns the implied net GDP."""
            base = put("baseline", t, CI[t] * G if c.use_ci else d.emi[t])
            if "a_rule" in pol and t > 0:
                v["relative_abatement"][t] = pol["a_rule"](t, v, base if c.use_ci else d.emi[t])
            emis = d.emi[0] if t == 0 else (1 - v["relative_abatement"][t]) * (base if c.use_ci else d.emi[t])
            put("regional_emissions", t, emis)
            put("regional_emission_reduction", t, v["baseline"][t] - v["regional_emissions"][t])
            put("global_emissions", t, d.emi[0].sum() if t == 0 else v["regional_emissions"][t].sum())
            if t == 0:
                put("cumulative_emissions", 0, 0.0)
            else:
                g = v["global_emissions"]
                inc = c.dt * (g[t] + g[t - 1]) / 2 if c.trapz else c.dt * g[t]
                put("cumulative_emissions", t, v["cumulative_emissions"][t - 1] + inc)
            cum = v["cumulative_emissions"][t]
            put("emission_relative_cumulative", t, 1.0 if t == 0 else cum / cumb[t])
            put("temperature", t, c.T0 + c.TCRE * cum)
            temp = v["temperature"][t]
            # economy
            if t == 0:
                K = put("capital_stock", 0, c.k0 * d.gdp[0])
                Y = put("GDP_gross", 0, d.gdp[0])
            else:
                # capital at t responds to the investments of t:  K_t (2 - (1-dk)^dt) = K_{t-1} + dt I_t
                I = invest(G)
                K = put("capital_stock", t, (v["capital_stock"][t - 1] + c.dt * I) / (2 - (1 - c.dk) ** c.dt))
                Y = put("GDP_gross", t, TFP[t] * d.pop[t] ** (1 - c.alpha) * soft1(K, 10.0) ** c.alpha)
            # damages
            if c.damage == "COACCH":
                x0 = v["total_SLR"][0]
                put("damage_costs_non_slr", t, np.array([c.scale * (dam_form(temp - 0.6, f) - dam_form(c.T0 - 0.6, f)) for f in c.noslr]))
                put("damage_costs_slr", t, np.array([c.scale * (dam_form(v["total_SLR"][t], f) - dam_form(x0, f)) for f in c.slr]))
                put("damage_costs", t, v["damage_costs_non_slr"][t] + v["damage_costs_slr"][t])
                for grp in ("oldest", "older", "young"):
                    ma, mb, mc = c.mort[grp]
                    put(f"mortality_{grp}", t, ma + mb * temp + mc * temp**2)
                put("mortality_cost_oldest", t, v["mortality_oldest"][t] * d.pop[t] * 1e4 * 1.3)
            else:
                put("damage_costs", t, np.zeros(R))
            # mitigation
            put("LBD_factor", t, soft1((cumb[t] - cum) / c.LBD_scaling + 1.0) ** lograte)
            put("LOT_factor", t, 1 / (1 + c.LOT_rate) ** t)
            put("learning_factor", t, v["LBD_factor"][t] * v["LOT_factor"][t])
            L = v["learning_factor"][t] * c.kappa * c.gamma
            at = v["relative_abatement"][t]
            put("carbonprice", t, L * at**c.beta)
            area = L * at ** (c.beta + 1) / (c.beta + 1) * v["baseline"][t]
            put("area_under_MAC", t, area)
            if "ft_rule" in pol:
                ft[t] = pol["ft_rule"](t, v)
            put("financial_transfer", t, ft[t])
            if c.trade == "emissiontrade":
                put("global_carbonprice", t, (v["carbonprice"][t] * d.pop[t]).sum() / d.pop[t].sum())
            if "bal_rule" in pol:
                v["import_export_mitigation_cost_balance"][t] = pol["bal_rule"](t, v)
            put("mitigation_costs", t, area + v["import_export_mitigation_cost_balance"][t])
            dam = 0.0 if c.ignore else v["damage_costs"][t]
            return put("GDP_net", t, v["GDP_gross"][t] * (1 - dam) - v["mitigation_costs"][t] - v["financial_transfer"][t])

        G = d.gdp[0].copy() if t == 0 else v["GDP_net"][t - 1] * d.gdp[t] / d.gdp[t - 1]
        G = solve_fixed(step, G)
        step(G)
        put("investments", t, c.sr * v["GDP_net"][t])
        put("consumption", t, (1 - c.sr) * v["GDP_net"][t])
        with np.errstate(all="ignore"):
            put("rel_mitigation_costs", t, v["mitigation_costs"][t] / v["GDP_gross"][t])
            put("global_rel_mitigation_costs", t, v["mitigation_costs"][t].sum() / v["GDP_gross"][t].sum())
            put("rel_financial_transfer", t, v["financial_transfer"][t] / v["GDP_gross"][t])
            red, cost = v["regional_emission_reduction"][t].sum(), v["mitigation_costs"][t].sum()
            if t > 0:
                put("global_emission_reduction_per_cost_unit", t, red / soft1(cost))
                put("global_cost_per_emission_reduction_unit", t, cost / soft1(red))
        # trade
        if c.trade == "emissiontrade":
            if t > 0:
                put("import_export_emission_reduction_balance", t, v["import_export_mitigation_cost_balance"][t] / soft1(v["global_carbonprice"][t]))
                put("paid_for_emission_reductions", t, v["regional_emission_reduction"][t] + v["import_export_emission_reduction_balance"][t])
                put("regional_emission_allowances", t, v["baseline"][t] - v["paid_for_emission_reductions"][t])
        elif c.trade == "globalcostpool":
            if t > 0:
                put("paid_for_emission_reductions", t, v["mitigation_costs"][t] * v["global_emission_reduction_per_cost_unit"][t])
                put("import_export_emission_reduction_balance", t, v["paid_for_emission_reductions"][t] - v["regional_emission_reduction"][t])
        # welfare
        cons, pop = v["consumption"][t], d.pop[t]
        with np.errstate(all="ignore"):
            if c.welfare == "welfare_loss_minimising":
                put("utility", t, crra(cons / pop, c.elasmu))
                put("yearly_welfare", t, (pop * v["utility"][t]).sum())
            elif c.welfare == "cost_minimising":
                put("utility", t, cons / pop)
                put("yearly_welfare", t, pop.sum() * crra(cons.sum() / pop.sum(), c.elasmu))
            else:
                g, e = c.inequal_aversion, c.elasmu
                put("utility", t, pop * soft1(cons / pop) ** (1 - g))
                put("yearly_welfare", t, pop.sum() * soft1(v["utility"][t].sum() / pop.sum()) ** ((1 - e) / (1 - g)) / (1 - e))
        if t == 0:
            put("NPV", 0, 0.0)
        else:
            disc = math.exp(-c.PRTP * (c.years[t] - c.years[0]))
            if c.objective == "utility":
                flow = v["yearly_welfare"][t]
            else:
                flow = v["mitigation_costs"][t].sum() + (v["damage_costs"][t] * v["GDP_gross"][t]).sum()
            put("NPV", t, v["NPV"][t - 1] + c.dt * disc * flow)
    for n, x in v.items():
        if not np.all(np.isfinite(x)):
            raise Discard()
    v["_TFP"], v["_cumb"] = TFP, cumb
    return v


def solve_fixed(f, x):
    """Fixed point of f, by damped iteration with Anderson-free fallback."""
    for damp in (1.0, 0.5, 0.2):
        y = np.array(x, float)
        for _ in range(400):
            with np.errstate(all="ignore"):
                fy = np.array(f(y), float)
            if not np.all(np.isfinite(fy)):
                break
            new = y + damp * (fy - y)
            if np.max(np.abs(fy - y) / (1e-9 + np.abs(fy))) < 2e-15:
                return fy
            if np.max(np.abs(new - y) / (1e-9 + np.abs(new))) < 1e-14 and np.max(np.abs(fy - y) / (1e-9 + np.abs(fy))) < 1e-13:
                return fy
            y = new
    raise Discard()


REG_VARS = [
    "baseline", "regional_emissions", "regional_emission_reduction", "damage_costs", "damage_costs_non_slr", "damage_costs_slr",
    "mortality_oldest", "mortality_older", "mortality_young", "mortality_cost_oldest", "carbonprice", "area_under_MAC",
    "mitigation_costs", "rel_mitigation_costs", "GDP_gross", "GDP_net", "capital_stock", "investments", "consumption",
    "rel_financial_transfer", "import_export_emission_reduction_balance", "paid_for_emission_reductions",
    "regional_emission_allowances", "utility", "relative_abatement", "import_export_mitigation_cost_balance", "financial_transfer",
]
GLO_VARS = [
    "global_emissions", "cumulative_emissions", "emission_relative_cumulative", "temperature", "slr_thermal", "slr_cumgsic",
    "slr_cumgis", "total_SLR", "LBD_factor", "LOT_factor", "learning_factor", "global_rel_mitigation_costs",
    "global_emission_reduction_per_cost_unit", "global_cost_per_emission_reduction_unit", "global_carbonprice",
    "yearly_welfare", "NPV", "effort_sharing_common_level",
]
