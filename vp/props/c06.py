"""Input time series: generated databases read back against an independent interpolation and continuation model."""
import json
import os

import numpy as np
from hypothesis import strategies as st
from scipy.interpolate import CubicSpline

from vp import conf, modelkit, synth
from vp.core import Outcome, Sub, Violation, expect, quiet, steps, sut

with sut("importing mimosa"):
    from mimosa.common.data import DataStore
    from pyomo.environ import value

VARS = {
    "GDP": ("currency_unit", {"billion USD2005/yr": 1e-3, "billion US$2010/yr": 1.11e-3, "trillion USD2005/yr": 1.0, "million US$2005/yr": 1e-6}),
    "emissions": ("emissionsrate_unit", {"Mt CO2/yr": 1e-3, "GtCO2/yr": 1.0, "kt CO2/yr": 1e-6, "tCO2/yr": 1e-9}),
    "population": ("population_unit", {"million": 1e-3, "billion": 1.0, "thousand": 1e-6}),
}
TARGETS = {
    "GDP": {"currency_unit": 1.0, "billion USD2005/yr": 1e3, "trillion USD2010/yr": 1 / 1.11},
    "emissions": {"emissionsrate_unit": 1.0, "MtCO2/yr": 1e3, "emissions_unit/yr": 1.0},
    "population": {"population_unit": 1.0, "million": 1e3},
}
YEARS = [
    [2010, 2020, 2030, 2040, 2050, 2060, 2070, 2080, 2090, 2100],
    [2010, 2015, 2020, 2030, 2050, 2070, 2100],
    [2010, 2020, 2050, 2080, 2100],
    [2010] + list(range(2011, 2020, 4)) + [2025, 2040, 2060, 2065, 2090, 2100],
]


def series(kind, shape, seed, n, start):
    rs = np.random.RandomState(seed)
    x = np.linspace(0, 1, n)
    base = {
        "grow": 1 + 3 * x,
        "peak": 1 + 2 * x - 2.4 * x**2,
        "fall": 2 - 1.7 * x,
        "noise": 1 + rs.rand(n),
        "flat": np.ones(n) * 1.3,
        "negative": 1 - 1.6 * x,
    }[shape]
    vals = base * (1 + 0.05 * rs.rand(n)) * start
    if shape == "flat":
        vals = np.ones(n) * 1.3 * start
    return [float(f"{v:.9g}") for v in vals]


def continued(years, vals):
    """Yearly rate of the last data interval, reduced linearly to zero over the 50 years after 2100, in 10-year steps."""
    rate = (vals[-1] - vals[-2]) / (years[-1] - years[-2])
    ys, vs = list(years), list(vals)
    for t in range(2100, 2350, 10):
        vs.append(vs[-1] + 10 * rate * max(0.0, 1 - (t - 2100) / 50.0))
        ys.append(t + 10)
    return np.array(ys, float), np.array(vs, float)


def reference(years, vals, factor, at):
    ys, vs = continued(years, [v * factor for v in vals])
    return CubicSpline(ys, vs)(np.asarray(at, float))


def write(files, into=None):
    """Writes the generated databases and returns their paths (into: an earlier database to overwrite)."""
    paths = []
    for f in files:
        years = YEARS[f["years"]]
        head = ["Model", "Scenario", "Region", "Variable", "Unit"]
        head = [{"lower": h.lower(), "upper": h.upper(), "title": h}[f["case"]] for h in head] + years
        rows = []
        for r in f["rows"]:
            vals = series(r["kind"], r["shape"], r["seed"], len(years), r["start"])
            rows.append([r["model"], r["scenario"], r["region"], r["variable"], r["unit"]] + vals)
        if into is not None:
            mtime = os.stat(into).st_mtime_ns
            synth.write_csv(head, rows, name=os.path.basename(into))
            os.utime(into, ns=(mtime + 2 * 10**9,) * 2)  # later, however coarse the clock of the file system
            return [into]
        paths.append(synth.write_csv(head, rows))
    return paths


def lookup(f, src, region):
    region = region[:-1] if region.endswith("#") else region
    return [
        r
        for r in f["rows"]
        if (r["model"], r["scenario"], r["region"], r["variable"]) == (src["model"], src["scenario"], region, src["variable"])
    ]


def horizon(h):
    n = steps(h["start"], h["end"], h["dt"])
    return [h["start"] + i * h["dt"] for i in range(n)]


def run(case):
    paths = write(case["files"])
    labels, judged, made = set(), 0, []
    files = list(case["files"])
    for read in case["reads"]:
        if "rewrite" in read:
            k = read["rewrite"] % len(files)
            files[k] = dict(files[k], rows=[dict(r, seed=(r["seed"] + read["by"]) % 10**6) for r in files[k]["rows"]])
            write([files[k]], into=paths[k])
            labels.add("database rewritten")
            continue
        params = {
            "time": dict(read["time"]),
            "regions": {r: None for r in read["regions"]},
            "SSP": "SSP2",
            "input": {"variables": {}},
        }
        missing = ambiguous = False
        for var, src in read["vars"].items():
            f = files[src["file"]]
            params["input"]["variables"][var] = {
                "variable": src["variable"], "unit": src["unit"], "scenario": src["scenario"], "model": src["model"], "file": paths[src["file"]],
            }
            for r in read["regions"]:
                n = len(lookup(f, src, r))
                missing, ambiguous = missing or n == 0, ambiguous or n > 1
        years = horizon(read["time"])
        if missing or ambiguous:
            try:
                with quiet():
                    store = DataStore(params)
                    got = [float(store.interp_data(y, r, v)) for v in read["vars"] for r in read["regions"] for y in years]
            except Exception:
                labels.add("missing row rejected" if missing else "ambiguous row rejected")
                judged += 1
                continue
            raise Violation(f"a read with {'a missing' if missing else 'an ambiguous'} row gives values: {read['vars']} regions {read['regions']} -> {got[:3]}")
        with sut("reading generated input data"):
            store = DataStore(params)
            got = {(v, r): [float(store.interp_data(y, r, v)) for y in years] for v in read["vars"] for r in read["regions"]}
        made.append((store, years, got))
        for var, src in read["vars"].items():
            f = files[src["file"]]
            dy = YEARS[f["years"]]
            for r in read["regions"]:
                row = lookup(f, src, r)[0]
                vals = series(row["kind"], row["shape"], row["seed"], len(dy), row["start"])
                factor = VARS[row["kind"]][1][row["unit"]] * TARGETS[row["kind"]][src["unit"]]
                want = reference(dy, vals, factor, years)
                scale = max(abs(v * factor) for v in vals)
                g = np.array(got[var, r])
                i = int(abs(g - want).argmax())
                expect(
                    abs(g - want).max() <= 1e-8 * scale,
                    f"{var} of {r} in {years[i]:g} reads {g[i]:.9g}, the data give {want[i]:.9g} (row {row['model']}/{row['scenario']}/{row['region']}/{row['variable']} in {row['unit']} to {src['unit']})",
                )
                judged += 1
        if years[-1] > 2100:
            labels.add("beyond the data")
        if any(y in dy for y in years):
            labels.add("data years hit")
        if any(r.endswith("#") for r in read["regions"]):
            labels.add("marked region")
    for store, years, got in made[:-1]:  # the earlier ones once more
        with sut("asking an earlier data store again"):
            again = {(v, r): [float(store.interp_data(y, r, v)) for y in years] for v, r in got}
        expect(again == got, "the series of a data store change when others are made later")
    if len(case["reads"]) > 1:
        labels.add("several reads")
    return Outcome(judged >= 3, sorted(labels))


NAMES = {
    "GDP": ["GDP|PPP", "GDP|MER"],
    "emissions": ["Emissions|CO2", "Emissions|CO2|Energy"],
    "population": ["Population", "Population|Urban"],
}
MODELS = ["IMAGE", "IMAGE 3.0"]
SCENARIOS = ["SSP2-Ref", "SSP2-Ref-SPA0", "SSP1-Ref"]


@st.composite
def file_spec(draw, regions):
    rows = []
    for kind in VARS:
        unit = draw(st.sampled_from(sorted(VARS[kind][1])))
        for var in NAMES[kind]:
            for model in MODELS:
                for sc in SCENARIOS:
                    for r in regions:
                        rows.append(
                            {
                                "kind": kind, "model": model, "scenario": sc, "region": r, "variable": var,
                                "unit": unit, "seed": 0, "shape": "grow", "start": 1.0,
                            }
                        )
    shapes = draw(st.lists(st.sampled_from(["grow", "peak", "fall", "noise", "flat", "negative"]), min_size=3, max_size=7))
    base = draw(st.integers(0, 10**6))
    units = {k: draw(st.lists(st.sampled_from(sorted(VARS[k][1])), min_size=1, max_size=3)) for k in VARS}
    for i, r in enumerate(rows):
        r["seed"] = (base + 7919 * i) % 10**6
        r["shape"] = shapes[i % len(shapes)]
        r["start"] = [0.5, 3.0, 40.0, 1000.0][(base + i) % 4]
        r["unit"] = units[r["kind"]][i % len(units[r["kind"]])]
        if r["kind"] != "emissions" and r["shape"] == "negative":
            r["shape"] = "fall"
    for k in draw(st.lists(st.integers(0, len(rows) - 1), max_size=3, unique=True)):  # some rows missing, some doubled
        if draw(st.booleans()):
            rows[k] = None
        else:
            rows.append(dict(rows[k], seed=rows[k]["seed"] + 1) if rows[k] else None)
    rows = [r for r in rows if r]
    for k in draw(st.lists(st.integers(0, len(rows) - 1), max_size=2, unique=True)):  # a row under nearly the right name
        key = draw(st.sampled_from(["region", "scenario", "variable", "model"]))
        name = rows[k][key]
        near = draw(st.sampled_from([name.lower(), name.upper(), name + " 2", name[:-1] or "B", " " + name]))
        if near not in {r[key] for r in rows}:
            rows[k] = dict(rows[k], **{key: near})
    order = draw(st.sampled_from(["as is", "reversed"]))
    if order == "reversed":
        rows.reverse()
    return {"years": draw(st.integers(0, len(YEARS) - 1)), "case": draw(st.sampled_from(["title", "title", "lower", "upper"])), "rows": rows}


@st.composite
def cases(draw):
    regions = draw(st.lists(st.sampled_from(["WEU", "WEUR", "CHN", "Rest of World", "A"]), min_size=1, max_size=3, unique=True))
    files = [draw(file_spec(regions)) for _ in range(draw(st.sampled_from([1, 1, 2])))]
    reads = []
    for _ in range(draw(st.integers(1, 5))):
        if reads and draw(st.integers(0, 5)) == 0:  # a database gets other numbers, and an earlier read is done again
            done = [r for r in reads if "rewrite" not in r]
            reads.append({"rewrite": draw(st.integers(0, len(files) - 1)), "by": draw(st.integers(1, 1000))})
            reads.append(json.loads(json.dumps(draw(st.sampled_from(done)))))
            continue
        if reads and draw(st.integers(0, 2)) == 0:  # an earlier read once more, with one thing changed
            again = json.loads(json.dumps(draw(st.sampled_from([r for r in reads if "rewrite" not in r]))))
            change = draw(st.sampled_from(["shift", "step", "end", "unit", "regions", "name", "name", "name", "nothing"]))
            tm = again["time"]
            if change == "shift":
                by = draw(st.sampled_from([-5, -3, 1, 5, 10, 20]))
                if tm["start"] + by >= 2010 and tm["end"] + by <= 2300:
                    tm["start"], tm["end"] = tm["start"] + by, tm["end"] + by
            elif change == "step":
                tm["dt"] = draw(st.sampled_from([1, 2.5, 5, 7, 10, 20]))
            elif change == "end":
                tm["end"] = draw(st.integers(tm["start"] + 1, 2300))
            elif change == "unit":
                for kind, v in again["vars"].items():
                    v["unit"] = draw(st.sampled_from(sorted(TARGETS[kind])))
            elif change == "name":  # the same name spelled differently
                v = again["vars"][draw(st.sampled_from(sorted(again["vars"])))]
                key = draw(st.sampled_from(["model", "scenario", "variable"]))
                v[key] = draw(st.sampled_from([v[key].upper(), v[key].lower(), v[key].upper(), v[key].lower(), v[key] + " ", v[key].swapcase()]))
            elif change == "regions":
                again["regions"] = draw(st.permutations(again["regions"]))
            reads.append(again)
            continue
        start = draw(st.sampled_from([2010, 2015, 2020, 2023, 2040]))
        vars_ = {}
        for kind in draw(st.permutations(sorted(VARS))):
            vars_[kind] = {
                "file": draw(st.integers(0, len(files) - 1)),
                "model": draw(st.sampled_from(MODELS)),
                "scenario": draw(st.sampled_from(SCENARIOS)),
                "variable": draw(st.sampled_from(NAMES[kind])),
                "unit": draw(st.sampled_from(sorted(TARGETS[kind]))),
            }
        rs = draw(st.lists(st.sampled_from(regions + [regions[0] + "#"] + (["WE", "Nowhere"] if draw(st.integers(0, 9)) == 0 else [])), min_size=1, max_size=3, unique=True))
        reads.append(
            {
                "time": {"start": start, "end": draw(st.integers(start + 1, 2300)), "dt": draw(st.sampled_from([1, 2.5, 5, 5, 7, 10, 10, 20]))},
                "regions": rs,
                "vars": vars_,
            }
        )
    return {"files": files, "reads": reads}


# ---------------------------------------------------------------------- the series the built model works with
def run_model(case):
    paths = write(case["files"])
    read = case["reads"][0]
    f = case["files"][0]
    cfg = {"time": read["time"], "regions": {r: None for r in read["regions"]}, "input": {"variables": {}}}
    for var, src in read["vars"].items():
        src["file"] = 0
        if any(len(lookup(f, src, r)) != 1 for r in read["regions"]):
            from vp.core import Discard

            raise Discard()
        cfg["input"]["variables"][var] = {
            "variable": src["variable"], "unit": src["unit"], "scenario": src["scenario"], "model": src["model"], "file": paths[0],
        }
    m = modelkit.build(cfg, what="building a model on generated data").concrete_model
    years = horizon(read["time"])
    dy = YEARS[f["years"]]
    for var, par in (("GDP", "baseline_GDP"), ("emissions", "baseline_emissions"), ("population", "population")):
        src = read["vars"][var]
        with sut(f"reading {par}"):
            P = getattr(m, par)
            got = {r: np.array([float(value(P[t, r])) for t in sorted(m.t)]) for r in read["regions"]}
        for r in read["regions"]:
            row = lookup(f, src, r)[0]
            vals = series(row["kind"], row["shape"], row["seed"], len(dy), row["start"])
            factor = VARS[row["kind"]][1][row["unit"]] * TARGETS[row["kind"]][src["unit"]]
            want = reference(dy, vals, factor, years)
            expect(len(want) == len(got[r]), f"{len(got[r])} model years instead of {len(want)}")
            i = int(abs(got[r] - want).argmax())
            expect(
                abs(got[r] - want).max() <= 1e-8 * max(abs(v * factor) for v in vals),
                f"model {var} of {r} in {years[i]:g} is {got[r][i]:.9g}, the configured data give {want[i]:.9g}",
            )
    return Outcome(True, "beyond the data" if years[-1] > 2100 else "within the data")


@st.composite
def model_cases(draw):
    case = draw(cases())
    regions = draw(st.lists(st.sampled_from(conf.REGIONS), min_size=1, max_size=3, unique=True))
    f = draw(file_spec(regions))
    for r in f["rows"]:
        r["shape"] = "noise" if r["shape"] == "negative" else r["shape"]
        if r["shape"] == "peak":
            r["shape"] = "grow"
    read = case["reads"][0]
    read["regions"] = regions
    for v in read["vars"].values():
        v["file"] = 0
    for k, v in read["vars"].items():
        v["unit"] = VARS[k][0]
    read["time"]["dt"] = max(5, read["time"]["dt"])
    return {"files": [f], "reads": [read]}


# ------------------------------------------------------------------------------------------ incomplete series
def run_gap(case):
    """A series with a missing value: no number is invented for it."""
    import math

    from vp import synth

    years = list(range(2010, 2101, 10))
    rows = []
    for k, (name, unit) in enumerate((("GDP|PPP", "billion US$2005/yr"), ("Emissions|CO2", "Mt CO2/yr"), ("Population", "million"))):
        for r in ("CAN", "USA"):
            vals = [1000.0 + 10 * k + j for j in range(len(years))]
            if r == "USA" and name == case["variable"]:
                for g in case["gaps"]:
                    vals[g] = ""
            rows.append(["IMAGE", "S", r, name, unit] + vals)
    path = synth.write_csv(["Model", "Scenario", "Region", "Variable", "Unit"] + years, rows)
    src = {v: {"variable": n, "unit": u, "scenario": "S", "model": "IMAGE", "file": path} for v, n, u in [("GDP", "GDP|PPP", "currency_unit"), ("emissions", "Emissions|CO2", "emissionsrate_unit"), ("population", "Population", "population_unit")]}
    cfg = {"time": {"start": 2020, "end": 2090, "dt": 10}, "regions": {r: None for r in case["regions"]}, "input": {"variables": src}}
    mm = None
    try:
        with quiet():
            mm = modelkit.build(cfg)
    except Exception:
        pass
    if "USA" not in case["regions"]:
        expect(mm is not None, "a model of Canada is rejected because a series of the USA has a gap")
    elif mm is not None:
        m = mm.concrete_model
        par = {"GDP|PPP": m.baseline_GDP, "Emissions|CO2": m.baseline_emissions, "Population": m.population}[case["variable"]]
        base = 1.0 + 0.01 * ["GDP|PPP", "Emissions|CO2", "Population"].index(case["variable"])
        for t in m.t:
            x = float(value(par[t, "USA"]))
            want = base + (1 + t) * 1e-3
            expect(math.isnan(x) or abs(x - want) < 1e-6, f"{case['variable']} of the USA in {m.year(t):g} is {x:.6g} although its series 1+... (linear, {want:.6g} here) has gaps at {[years[g] for g in case['gaps']]}")
    return Outcome("USA" in case["regions"], "rejected" if mm is None else "not a number")


gap_cases = st.fixed_dictionaries({
    "variable": st.sampled_from(["GDP|PPP", "Emissions|CO2", "Population"]),
    "gaps": st.lists(st.integers(0, 9), min_size=1, max_size=2, unique=True),
    "regions": st.sampled_from([["USA"], ["CAN", "USA"], ["USA", "CAN"], ["CAN"]]),
})


# ----------------------------------------------------------------------------------------- the shipped database
def run_shipped(case):
    import pandas as pd

    path = os.path.join(modelkit_repo(), "mimosa/inputdata/data", case["file"])
    global _db
    try:
        db = _db[path]
    except KeyError:
        db = _db[path] = pd.read_csv(path)
    cfg = {"time": case["time"], "regions": {r: None for r in case["regions"]}, "SSP": case["SSP"]}
    if case["file"] != "data_IMAGE_SSP.csv":
        for v, name, unit in (("GDP", "GDP|PPP", "currency_unit"), ("emissions", "Emissions|CO2", "emissionsrate_unit"), ("population", "Population", "population_unit")):
            cfg.setdefault("input", {}).setdefault("variables", {})[v] = {
                "variable": name, "unit": unit, "scenario": "{SSP}-Ref-SPA0-V17", "model": "IMAGE", "file": "inputdata/data/" + case["file"],
            }
    m = modelkit.build(cfg).concrete_model
    years = horizon(case["time"])
    units = {"Mt CO2/yr": 1e-3, "million": 1e-3, "billion US$2005/yr": 1e-3, "billion US$2010/yr": 1.11e-3, "billion USD2010/yr": 1.11e-3, "billion USD2005/yr": 1e-3}
    for name, par in (("GDP|PPP", "baseline_GDP"), ("Emissions|CO2", "baseline_emissions"), ("Population", "population")):
        for r in case["regions"]:
            sel = db[(db["Model"] == "IMAGE") & (db["Scenario"] == f"{case['SSP']}-Ref-SPA0-V17") & (db["Region"] == r) & (db["Variable"] == name)]
            assert len(sel) == 1
            cols = [c for c in db.columns if c.isdigit() and int(c) >= 2010]
            ys, vals = [int(c) for c in cols], [float(sel.iloc[0][c]) for c in cols]
            want = reference(ys, vals, units[sel.iloc[0]["Unit"]], years)
            with sut(f"reading {par}"):
                got = np.array([float(value(getattr(m, par)[t, r])) for t in sorted(m.t)])
            i = int(abs(got - want).argmax())
            expect(
                abs(got - want).max() <= 1e-8 * abs(want).max(),
                f"{name} of {r} in {case['SSP']} in {years[i]:g} is {got[i]:.9g} in the model and {want[i]:.9g} in the data",
            )
    return Outcome(True, [case["SSP"], case["file"]])


_db = {}


def modelkit_repo():
    from vp.core import REPO

    return REPO


@st.composite
def shipped_cases(draw):
    start = draw(st.sampled_from([2010, 2015, 2020, 2020, 2025, 2037]))
    return {
        "file": draw(st.sampled_from(["data_IMAGE_SSP.csv", "data_IMAGE_SSP.csv", "data_IMAGE_SSP_harmonised_2020.csv"])),
        "SSP": draw(st.sampled_from(["SSP1", "SSP2", "SSP3", "SSP4", "SSP5"])),
        "regions": draw(st.lists(st.sampled_from(conf.REGIONS), min_size=1, max_size=4, unique=True)),
        "time": {"start": start, "end": draw(st.sampled_from([2050, 2100, 2150, 2200, 2300])), "dt": draw(st.sampled_from([5, 10, 7.5]))},
    }


SUBS = [
    Sub("read histories", cases(), run, quick=500, thorough=12000, rule="at least three series (or rejected reads) compared in one history of reads from generated databases"),
    Sub("built models", model_cases(), run_model, quick=40, thorough=800, rule="a model built on a generated database, its three series compared"),
    Sub("incomplete series", gap_cases, run_gap, quick=40, thorough=300, rule="a model that needs a series with missing values"),
    Sub("shipped data", shipped_cases(), run_shipped, quick=40, thorough=800, rule="a model built on the shipped database, its three series compared"),
]
ASSUMPTIONS = [
    "generated databases end in 2100, as the shipped ones do (the documented levelling-off is anchored at 2100)",
    "first-model-year values before the first data year are outside the domain (they fail loudly)",
    "between two data years 'the cubic interpolation' is the not-a-knot cubic spline through data and continuation",
]
