"""Saved output: the written table and settings against the model's own values and settings."""
import csv
import json
import math
import os
import re
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from vp import conf, conform, modelkit, synth
from vp.conform import merge
from vp.core import Outcome, Sub, expect, quiet, sut

with sut("importing mimosa"):
    import pyomo.environ as pyo
    from mimosa import MIMOSA
    from mimosa.export import save_output


def half_ulp(x):
    """Half a unit in the sixth significant digit."""
    return 0.0 if x == 0 or not math.isfinite(x) else 0.5000001 * 10.0 ** (math.floor(math.log10(abs(x)) + 1e-12) - 5)


def scatter(m, seed, size):
    """Every variable gets a value of its own, of widely varying magnitude."""
    rs = np.random.RandomState(seed)
    n = 0
    for v in m.component_objects(pyo.Var, descend_into=False):
        kind = rs.randint(0, 4)
        for i in v:
            x = rs.uniform(-1, 1) * 10.0 ** (rs.uniform(-size, size) if kind else rs.uniform(-1, 3))
            if rs.randint(0, 25) == 0:
                x = float(rs.choice([0.0, 1.0, -2020.0, 123456.5, 1e-300, 999999.6, -0.1]))
            v[i].set_value(x, skip_validation=True)
            n += 1
    return n


# What the values of a quantity are physically measured in (the others have no unit, or none that their equations settle)
PHYSICAL = {
    "GtCO2/yr": "regional_emissions baseline regional_emission_reduction global_emissions paid_for_emission_reductions "
    "regional_emission_allowances import_export_emission_reduction_balance baseline_emissions",
    "GtCO2": "cumulative_emissions",
    "trillion*usd/yr": "mitigation_costs area_under_MAC GDP_gross GDP_net investments consumption "
    "import_export_mitigation_cost_balance baseline_GDP",
    "GtCO2/usd/trillion": "global_emission_reduction_per_cost_unit baseline_carbon_intensity",
    "usd*trillion/GtCO2": "global_cost_per_emission_reduction_unit",
    "degC_above_PI": "temperature",
    "m": "slr_thermal slr_cumgsic slr_cumgis total_SLR",
    "fraction_of_GDP": "damage_costs_non_slr damage_costs_slr rel_mitigation_costs",
    "fraction_of_baseline_emissions": "relative_abatement",
    "billion*people": "population",
}


def exponents(unit):
    out = {}
    for sign, name in re.findall(r"(^|[*/])\s*([^*/]+)", unit):
        out[name.strip()] = out.get(name.strip(), 0) + (-1 if sign == "/" else 1)
    return out


PHYSICAL = {v: exponents(u) for u, names in PHYSICAL.items() for v in names.split()}


def expected_rows(m):
    """(variable, region) -> (unit, values at every step)."""
    out = {}
    T, R = sorted(m.t), list(m.regions)
    comps = [c for c in m.component_objects(pyo.Var, descend_into=False)]
    comps += [c for c in m.component_objects(pyo.Param, descend_into=False) if c.index_set().dimen == 2]
    for c in comps:
        if c.local_name.startswith("_"):
            continue
        u = pyo.units.get_units(c)
        unit = "" if u is None else re.sub("/a(?![a-zA-Z])", "/yr", str(u))
        sets = [x.local_name for x in c.index_set().subsets()] if c.is_indexed() else []
        if c.index_set().dimen == 2:
            for r in R:
                out[c.local_name, r] = (unit, [float(pyo.value(c[t, r])) for t in T])
        elif sets == ["regions"]:  # the same in every year
            for r in R:
                out[c.local_name, r] = (unit, [float(pyo.value(c[r])) for t in T])
        elif not sets:
            out[c.local_name, "Global"] = (unit, [float(pyo.value(c)) for t in T])
        else:
            out[c.local_name, "Global"] = (unit, [float(pyo.value(c[t])) for t in T])
    return out


def read_table(path):
    with open(path, newline="", encoding="utf8") as fh:
        rows = list(csv.reader(fh))
    return rows[0], rows[1:]


def judge_table(path, m, what):
    want = expected_rows(m)
    with sut("reading the years of the model"):
        years = [float(m.year(t)) for t in sorted(m.t)]
    header, rows = read_table(path)
    expect(set(header[:3]) == {"Variable", "Region", "Unit"}, f"{what}: first columns {header[:3]}")
    cv, cr, cu = (header.index(k) for k in ("Variable", "Region", "Unit"))
    try:
        cols = [float(h) for h in header[3:]]
    except ValueError:
        cols = None
    expect(
        cols is not None and len(cols) == len(years) and all(abs(a - b) <= half_ulp(b) for a, b in zip(cols, years)),
        f"{what}: year columns {header[3:]}, model years {years}",
    )
    seen = set()
    for row in rows:
        key = (row[cv], row[cr])
        expect(key in want, f"{what}: row {key} is no variable or parameter of the model")
        expect(key not in seen, f"{what}: two rows for {key}")
        seen.add(key)
        unit, vals = want[key]
        expect(row[cu] == unit, f"{what}: {key} has unit {row[cu]!r}, the model's is {unit!r}")
        if row[cv] in PHYSICAL:
            expect(exponents(row[cu]) == PHYSICAL[row[cv]], f"{what}: {key} is reported in {row[cu]!r}")
        expect(len(row) == len(header), f"{what}: row {key} has {len(row)} cells for {len(header)} columns")
        for y, x, cell in zip(years, vals, row[3:]):
            try:
                ok = float(cell) == x or abs(float(cell) - x) <= half_ulp(x)
            except ValueError:
                ok = False
            expect(ok, f"{what}: {key} in {y:g} is written as {cell!r}, the model's value is {x!r}")
    missing = sorted(set(want) - seen)
    expect(not missing, f"{what}: no row for {missing[:5]}")
    return len(rows)


def tree(folder):
    out = {}
    for d, _, files in os.walk(folder):
        for f in files:
            p = os.path.join(d, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, folder)] = fh.read()
    return out


def values_of(m):
    return {(v.parent_component().name, v.index()): v.value for v in m.component_data_objects(pyo.Var, descend_into=True)}


def jsonable(x):
    return json.loads(json.dumps(x))


def save(mm, case, name, folder):
    kw = {}
    if case["hash"]:
        kw["hash_suffix"] = True
    with sut("saving"):
        if case["via"] == "model":
            if case["folder"] == "default":
                mm.save(name, **kw)
            else:
                mm.save(name, folder=folder, **kw)
        else:
            save_output(mm.params, mm.concrete_model, name, folder=folder, **kw)


OTHERS = [  # each differs from every generated configuration in one setting
    {"economics": {"PRTP": 0.0371}},
    {"economics": {"MAC": {"beta": 3.03}}},
    {"economics": {"damages": {"scale factor": 1.0371}}},
    {"emissions": {"carbonbudget": "711 GtCO2"}},
    {"temperature": {"TCRE": "0.6371 delta_degC/TtCO2"}},
    {"temperature": {"initial": "1.1371 delta_degC"}},
    {"SSP": None},
    # one after the other: the same values in other places
    [{"emissions": {"inertia": {"global": -0.0371, "regional": -0.0473}}}, {"emissions": {"inertia": {"global": -0.0473, "regional": -0.0371}}}],
    [{"economics": {"PRTP": 0.0371, "GDP": {"savings rate": 0.0473}}}, {"economics": {"PRTP": 0.0473, "GDP": {"savings rate": 0.0371}}}],
]


def run(case):
    cfg = case["cfg"]
    mm = modelkit.build(cfg, presolve=case["presolve"])
    m = mm.concrete_model
    root = tempfile.mkdtemp(dir=synth.scratch())
    back = os.getcwd()
    os.chdir(root)  # a relative output folder lands in the scratch directory
    try:
        rel = {"default": "output", "flat": "results", "nested": "a/b c/results.v2", "absolute": os.path.join(root, "abs")}[case["folder"]]
        via_default = case["folder"] == "default" and case["via"] == "model"
        folder = os.path.join(root, "output" if via_default else rel)
        if case["existing"]:
            os.makedirs(folder)
            for n in ("other.csv", case["name"] + ".txt", case["name"] + "0.csv", case["name"] + ".params.json"):
                with open(os.path.join(folder, n), "w") as fh:
                    fh.write("keep me")
        before_params = jsonable(mm.params)
        files = {}
        for k in range(2):
            if case["scatter"] or k or not case["presolve"]:
                scatter(m, case["seed"] + k, case["size"])
            vals = values_of(m)
            old = tree(root)
            save(mm, case, case["name"], rel)
            now = tree(root)
            gone = set(old) - set(now)
            expect(not gone, f"saving removed {sorted(gone)}")
            changed = {p for p in now if old.get(p) != now[p]}
            fresh = set(now) - set(old)
            if case["hash"]:
                table = [p for p in (fresh if k == 0 else changed) if p.endswith(".csv")]
                expect(len(table) == 1, f"saving wrote {sorted(changed)}")
                path = table[0]
                expect(
                    os.path.basename(path).startswith(case["name"] + "_") and len(os.path.basename(path)) > len(case["name"]) + 5,
                    f"table saved as {path}, requested name {case['name']} with a settings hash",
                )
                expect(os.path.dirname(os.path.join(root, path)) == os.path.normpath(folder), f"saved in {path}, requested folder {rel}")
            else:
                path = os.path.relpath(os.path.join(folder, case["name"] + ".csv"), root)
                expect(path in now, f"no {path} after saving; new files: {sorted(fresh)}")
            sett = path + ".params.json"
            expect(sett in now, f"no settings file beside the table; new files: {sorted(fresh)}")
            extra = changed - {path, sett}
            expect(not extra, f"saving {path} also wrote {sorted(extra)}")
            if k:
                expect(not fresh, f"saving the same run again wrote other files: {sorted(fresh)}")
            expect(values_of(m) == vals, "saving changed values of the model")
            expect(jsonable(mm.params) == before_params, "saving changed the settings of the model")
            rows = judge_table(os.path.join(root, path), m, f"save {k + 1}")
            files = {"table": path, "settings": now[sett]}
        saved = json.loads(files["settings"])
        d = conf.diff(jsonable(mm.params), saved)
        expect(d is None, f"saved settings differ from those of the run: {d}")
        # settings hash: same settings same name, other settings another name
        if case["hash"]:
            m2 = modelkit.build(cfg)
            scatter(m2.concrete_model, 1, 2)
            old = tree(root)
            save(m2, case, case["name"], rel)
            fresh = set(tree(root)) - set(old)
            expect(not fresh, f"the same settings are saved under another name: {sorted(fresh)}")
            change = OTHERS[case["other"]]
            for extra in change if isinstance(change, list) else [change]:
                other = merge(cfg, extra)
                if other.get("SSP", "") is None:
                    other["SSP"] = "SSP3" if mm.params["SSP"] != "SSP3" else "SSP1"
                mo = modelkit.build(other)
                scatter(mo.concrete_model, 1, 2)
                old = tree(root)
                save(mo, case, case["name"], rel)
                fresh = set(tree(root)) - set(old)
                expect(len(fresh) == 2, f"a run with other settings is saved under the name of an earlier one: new files {sorted(fresh)}; changed settings {extra}")
    finally:
        os.chdir(back)
        shutil.rmtree(root, True)
    again = modelkit.build(saved, what="building from saved settings")
    d = conf.diff(jsonable(mm.params), jsonable(again.params))
    expect(d is None, f"saved settings, loaded again, differ from those of the run: {d}")
    plain = m if not case["presolve"] else modelkit.build(cfg).concrete_model
    diff = modelkit.differences(modelkit.fingerprint(plain), modelkit.fingerprint(again.concrete_model))
    expect(not diff, f"the model built from the saved settings differs from that of the run: {diff}")
    lab = [case["folder"], case["via"], "after presolve" if case["presolve"] else "full model", "hash" if case["hash"] else "plain name"]
    return Outcome(rows >= 20, lab + ["existing files"] * case["existing"] + ["simulation"] * ("simulation" in cfg))


@st.composite
def cases(draw):
    cfg = draw(conform.cfg(density=5))
    cfg["emissions"]["carbonbudget"] = draw(st.sampled_from([False, "700 GtCO2", "0.9 TtCO2"]))
    cfg["effort sharing"]["regime"] = draw(st.sampled_from(["noregime", "equal_mitigation_costs"]))
    if draw(st.integers(0, 3)) == 0:
        y0 = cfg["time"]["start"]
        cfg["simulation"] = draw(
            st.sampled_from(
                [
                    {"custom_mapping": {"MAC_scaling_factor": {x: 1.25 for x in cfg["regions"]}}},
                    {"simulationmode": True, "deactivated_constraints": ["LBD"]},
                    {
                        "simulationmode": True,
                        "constraint_variables": {"relative_abatement": {str(y0 + 30 * k): {x: 0.1 * k for x in cfg["regions"]} for k in range(4)}},
                    },
                ]
            )
        )
    return {
        "cfg": cfg,
        "presolve": draw(st.booleans()),
        "scatter": draw(st.integers(0, 5)) > 0,
        "seed": draw(st.integers(0, 10**6)),
        "size": draw(st.sampled_from([2, 6, 12])),
        "folder": draw(st.sampled_from(["default", "flat", "nested", "absolute"])),
        "existing": draw(st.booleans()),
        "name": draw(st.sampled_from(["run1", "run.v2", "run 3", "Größe-1", "UPPER (b)", " padded", "baseline_SSP2_1.5"])),
        "hash": draw(st.booleans()),
        "other": draw(st.integers(0, len(OTHERS) - 1)),
        "via": draw(st.sampled_from(["model", "function"])),
    }


def run_keys(case):
    """Settings with keys that are not text: what is saved must rebuild the same model."""
    cfg = json.loads(json.dumps(case["cfg"]))
    mapping = {}
    for name, pairs in case["mapping"].items():
        mapping[name] = {(tuple(k) if isinstance(k, list) else k): x for k, x in pairs}
    if mapping:
        cfg["simulation"] = {"custom_mapping": mapping}
    if case["years"]:
        var = {y: {r: 0.1 * i for r in cfg["regions"]} for i, y in enumerate(case["years"])}
        cfg["simulation"] = {"simulationmode": True, "constraint_variables": {"relative_abatement": var}}
    with sut("building a model"), modelkit.no_presolve():
        mm = MIMOSA(cfg)
    scatter(mm.concrete_model, 1, 2)
    folder = tempfile.mkdtemp(dir=synth.scratch())
    with sut("saving"):
        mm.save("run", folder=folder)
    with open(os.path.join(folder, "run.csv.params.json")) as fh:
        saved = json.load(fh)
    shutil.rmtree(folder, True)
    again = modelkit.build(saved, what="building from saved settings")
    diff = modelkit.differences(modelkit.fingerprint(mm.concrete_model), modelkit.fingerprint(again.concrete_model))
    expect(not diff, f"the model built from the saved settings differs from that of the run: {diff}")
    return Outcome(True, "year keys" if case["years"] else "parameter keys")


@st.composite
def key_cases(draw):
    cfg = draw(conform.cfg(force={"damage module": ["COACCH"]}, density=12, rhi=3))
    if draw(st.booleans()):
        s = cfg["time"]["start"]
        step = draw(st.sampled_from([10, 25, 30]))
        return {"cfg": cfg, "mapping": {}, "years": [s - 5 + step * i for i in range(6)]}
    names = draw(st.lists(st.sampled_from(["MAC_scaling_factor", "init_capitalstock_factor", "mort_older_b"]), min_size=1, max_size=2, unique=True))
    mapping = {n: [[r, draw(st.sampled_from([0.3, 1.1, 1.9]))] for r in cfg["regions"]] for n in names}
    return {"cfg": cfg, "mapping": mapping, "years": []}


SUBS = [
    Sub("saved files", cases(), run, quick=150, thorough=4000, rule="a table of 20 or more rows compared cell by cell, settings reloaded and the model rebuilt"),
    Sub("setting keys", key_cases(), run_keys, quick=24, thorough=600, rule="settings with year or region keys saved, reloaded and the model rebuilt"),
]
ASSUMPTIONS = ["the units of rates, stocks, costs, temperatures and sea levels are additionally held against a table of what these quantities physically are", "names are plain file names; the unit of a row is the text of the unit the model declares, with 'yr' for Pint's 'a'"]
