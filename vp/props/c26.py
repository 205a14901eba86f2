"""The social-cost-of-carbon pathway against the optimisation model and the reference climate and damages."""
import glob
import os

import numpy as np
from hypothesis import strategies as st

from vp import conform, modelkit, refmodel
from vp.conform import merge, set_path
from vp.core import Discard, Outcome, Sub, expect, quiet, sut
from vp.props import c21

with sut("importing mimosa"):
    import pyomo.environ as pyo
    from mimosa.socialcostofcarbon.scc import SCC

PATHWAY = {
    "regional_emissions", "global_emissions", "cumulative_emissions", "temperature", "slr_thermal", "slr_cumgsic", "slr_cumgis",
    "total_SLR", "damage_costs", "damage_costs_non_slr", "damage_costs_slr",
}


def supplied(case, regions):
    rs = np.random.RandomState(case["seed"])
    n = len(case["years"])
    out = {}
    for r in regions:
        x = rs.uniform(0.5, 8) + np.cumsum(rs.uniform(-1, 0.9, n))
        out[r] = [float(f"{v:.6g}") for v in x]
    return out


def table(df, regions, n, what):
    with sut(f"reading {what} of the pathway"):
        arr = np.array([[float(x) for x in df.loc[r]] for r in regions]).T
    expect(arr.shape == (n, len(regions)), f"{what} of the pathway has {arr.shape[0]} years, the model {n}")
    return arr


def series(s, n, what):
    with sut(f"reading {what} of the pathway"):
        arr = np.array([float(x) for x in s])
    expect(arr.shape == (n,), f"{what} of the pathway has {arr.shape} values, the model {n} years")
    return arr


def compare(name, got, want, years, regions=None, rtol=1e-8, floor=1e-6):
    tol = rtol * np.maximum(np.abs(want), floor)
    bad = ~(np.abs(got - want) <= tol)
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        where = f"{years[i[0]]:g}" + (f", {regions[i[1]]}" if len(i) > 1 else "")
        expect(False, f"{name} of the pathway in {where} is {got[i]:.10g} instead of {want[i]:.10g}")


def earlier_pathways(case, use):
    """Pathways computed before in the process, for other settings and with other emissions in the same file."""
    def compute(cfg):
        with quiet():
            try:
                SCC(cfg)
            except Exception:
                pass  # judged elsewhere

    for change in case.get("before", []):
        change = {k: v for k, v in change.items() if k != "regions"}
        compute(merge(use, change))
        compute(merge({k: v for k, v in use.items() if k != "simulation"}, change))
    if case.get("rewrite") and case["form"] in ("file", "pattern"):
        path = glob.glob(use["simulation"]["constraint_variables"]["regional_emissions"])[0]
        with open(path) as fh:
            final = fh.read()
        head, *rows = final.splitlines()
        with open(path, "w") as fh:
            fh.write(head + "\n" + "".join(",".join(r.split(",")[:3] + [repr(0.5 * float(x) + 1) for x in r.split(",")[3:]]) + "\n" for r in rows))
        compute(use)
        with open(path, "w") as fh:
            fh.write(final)
        later = os.stat(path).st_mtime_ns + 2 * 10**9  # however coarse the clock of the file system
        os.utime(path, ns=(later, later))


def run(case):
    cfg = modelkit.resolved(case["cfg"])
    regions = list(cfg["regions"])
    data, use = None, merge(cfg, {})
    if case["form"] != "none":
        data = supplied(case, regions)
        sub = {"pins": ["regional_emissions"], "years": case["years"], "form": case["form"], "seed": case["seed"]}
        use["simulation"] = {"constraint_variables": c21.supply(sub, {"regional_emissions": data}, regions), "simulationmode": case["on"]}
    earlier_pathways(case, use)
    with sut("computing the damage pathway"):
        out = SCC(use).output
    m = modelkit.build(cfg).concrete_model
    c = refmodel.Cfg(cfg)
    J = modelkit.Judge(m)
    d = J.data()
    years, n, R = c.years, c.n, len(regions)
    E = table(out["regional_emissions"], regions, n, "regional emissions")
    lab = [case["form"]]
    if data is None:
        compare("baseline emissions", E, d.emi, years, regions)
        judged = set(range(n))
    else:
        judged = set()
        for j, r in enumerate(regions):
            spline, last = c21.reference(case["years"], data[r])
            for t, y in enumerate(years):
                if y < case["years"][0] or (y > last and last < 2100):
                    continue
                want = float(spline(y))
                expect(
                    abs(E[t, j] - want) <= 1e-8 * max(1, abs(want)),
                    f"emissions of {r} in {y:g} are {E[t, j]:.10g}, the supplied data (years {case['years']}) give {want:.10g}",
                )
                judged.add(t)
        lab.append("data years" if any(y in case["years"] for y in years) else "between data years")
    # ---- climate and damages of these emissions
    G = series(out["global_emissions"], n, "global emissions")
    compare("global emissions", G, E.sum(axis=1), years, floor=1e-3)
    cum = np.concatenate([[0.0], np.cumsum(c.dt * (G[1:] + G[:-1]) / 2)])
    T = series(out["temperature"], n, "temperature")
    compare("temperature", T, c.T0 + c.TCRE * cum, years, floor=1e-2)
    v = {"regional_emissions": E, "global_emissions": G, "cumulative_emissions": cum, "temperature": T}
    th, gs, gi = [0.0920666936642 + 0.024076141150722 * (c.T0 * 0.5 - 0.0920666936642)], [0.015], [0.006]
    for t in range(1, n):
        Tp = T[t - 1]
        th.append(th[-1] * (1 - 0.024076141150722) ** (c.dt / 10) + 0.024076141150722 * c.dt / 10 * Tp * 0.5)
        gs.append(gs[-1] + 0.0008 * c.dt * (0.26 - gs[-1]) / 0.26 * (Tp + 1))
        gi.append(gi[-1] + c.dt / 10 / 100 * (1.11860082 * Tp + 0.6) * (1 - gi[-1] / 7.3))
    v["slr_thermal"], v["slr_cumgsic"], v["slr_cumgis"] = map(np.array, (th, gs, gi))
    slr = v["total_SLR"] = v["slr_thermal"] + v["slr_cumgsic"] + v["slr_cumgis"]
    dT = table(out["damages_temperature"], regions, n, "temperature damages")
    dS = table(out["damages_slr"], regions, n, "sea-level damages")
    dA = table(out["damages_total"], regions, n, "total damages")
    with np.errstate(all="ignore"):
        wT = np.array([[c.scale * (refmodel.dam_form(T[t] - 0.6, f) - refmodel.dam_form(c.T0 - 0.6, f)) for f in c.noslr] for t in range(n)])
        wS = np.array([[c.scale * (refmodel.dam_form(slr[t], f) - refmodel.dam_form(slr[0], f)) for f in c.slr] for t in range(n)])
    if not (np.isfinite(wT).all() and np.isfinite(wS).all()):
        raise Discard()
    compare("temperature damages", dT, wT, years, regions, floor=1e-3)
    compare("sea-level damages", dS, wS, years, regions, floor=1e-3)
    compare("total damages", dA, wT + wS, years, regions, floor=1e-3)
    compare("absolute damages", table(out["damages_absolute"], regions, n, "absolute damages"), (wT + wS) * d.gdp, years, regions, floor=1e-3)
    compare("GDP", table(out["gdp"], regions, n, "GDP"), d.gdp, years, regions)
    # ---- the same in the optimisation model
    v["damage_costs_non_slr"], v["damage_costs_slr"], v["damage_costs"] = dT, dS, dA
    J.assign(v)
    wrong = []
    for con in J.cons:
        if not con.eq or not con.sig <= PATHWAY:
            continue
        if data is not None and con.sig in ({"regional_emissions"}, {"global_emissions"}):
            continue  # first-year emissions of the model are those of the baseline
        b = pyo.value(con.body)
        scale = max([1e-2] + [abs(x.value) for x in con.vars])
        if not abs(b - con.lower) <= 1e-8 * scale:
            wrong.append(f"{con.name}[{con.index}] off by {b - con.lower:.3g}")
    expect(not wrong, f"the pathway does not satisfy the equations of the optimisation model: {wrong[:3]}")
    lab.append("scaled" if c.scale != 1 else "unscaled")
    return Outcome(np.abs(dA).max() > 1e-6 and len(judged) > 1, lab)


@st.composite
def cases(draw):
    cfg = draw(conform.unusual_emissions(conform.cfg(force={"damage module": ["COACCH"]}, reach=draw(st.sampled_from([None, None, None, 2100, 2150])), density=3)))
    set_path(cfg, ("emissions", "cumulative_emissions_trapz"), True)
    start = cfg["time"]["start"]
    end = max(2100, cfg["time"]["end"])
    kind = draw(st.sampled_from(["coarse", "grid", "long", "shifted"]))
    if kind == "coarse":
        years = list(range(min(2010, start), 2101, 15))
        years[-1] = 2100
    elif kind == "grid":
        dt = max(cfg["time"]["dt"], 5)
        years = [start + i * dt for i in range(int(np.ceil((end - start) / dt)) + 1)]
        years = [int(y) if y == int(y) else y for y in years]
    elif kind == "long":
        years = list(range(2005, 2156, 25))
    else:
        years = [start, start + 7, start + 18, start + 31]
    return {
        "cfg": cfg,
        "form": draw(st.sampled_from(["none", "none", "table", "file", "pattern"])),
        "years": years,
        "on": draw(st.booleans()),
        "before": draw(conform.earlier()),
        "rewrite": draw(st.booleans()),
        "seed": draw(st.integers(0, 10**6)),
    }


# ------------------------------------------------------------------ emissions supplied for some regions only
def run_partial(case):
    cfg = modelkit.resolved(case["cfg"])
    regions = list(cfg["regions"])
    data = supplied(case, regions)
    missing = regions[case["seed"] % len(regions)]
    given = {r: x for r, x in data.items() if r != missing}
    sub = {"pins": ["regional_emissions"], "years": case["years"], "form": case["form"], "seed": case["seed"]}
    use = merge(cfg, {"simulation": {"constraint_variables": c21.supply(sub, {"regional_emissions": given}, list(given))}})
    try:
        with quiet():
            out = SCC(use).output
    except Exception:
        return Outcome(True, "refused")
    # accepted: then the given regions must have what was given for them
    E = out["regional_emissions"]
    m = modelkit.build(cfg).concrete_model
    years = [float(m.year(t)) for t in sorted(m.t)]
    for r in given:
        spline, last = c21.reference(case["years"], given[r])
        for t, y in enumerate(years):
            if case["years"][0] <= y and (y <= last or last >= 2100):
                x, want = float(E.loc[r].iloc[t]), float(spline(y))
                expect(abs(x - want) <= 1e-8 * max(1, abs(want)), f"no emissions are supplied for {missing}; those supplied for {r} are not used: {x:.8g} instead of {want:.8g} in {y:g}")
    return Outcome(True, "accepted")


@st.composite
def partial_cases(draw):
    c = draw(cases())
    r = list(c["cfg"]["regions"])
    if len(r) == 1:
        c["cfg"]["regions"]["ME" if r != ["ME"] else "USA"] = None
    c["form"] = draw(st.sampled_from(["table", "file"]))
    return c


SUBS = [
    Sub("pathway", cases(), run, quick=220, thorough=6000, rule="a pathway with damages compared with the reference and with the equations of the optimisation model"),
    Sub("partial supply", partial_cases(), run_partial, quick=40, thorough=800, rule="emissions supplied for all regions but one"),
]
ASSUMPTIONS = [
    "model years before the supplied data, or after data that end before 2100 are not judged for the emissions themselves",
    "the optimisation model is compared in its trapezoidal variant (the pathway always cumulates by trapezoids)",
]
