"""Models of one process are independent of each other, and of the order of their regions."""
import copy
import json
import os
import pickle
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from vp import conf, conform, fakesolver, modelkit, synth
from vp.conform import merge, set_path
from vp.core import Discard, Outcome, Sub, Violation, expect, quiet, sut

with sut("importing mimosa"):
    import pyomo.environ as pyo
    from mimosa import MIMOSA

fakesolver.install()
Plan = fakesolver.Plan


def state(m):
    """Fingerprint of a model plus the current values of its variables."""
    out = modelkit.fingerprint(m)
    for v in m.component_data_objects(pyo.Var):
        out["value", v.parent_component().name, v.index()] = v.value
    for c in m.component_data_objects(pyo.Constraint):
        out["active", c.parent_component().name, c.index()] = bool(c.active)
    return out


def in_fork(fn):
    """The result of fn() computed in a process of its own."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            try:
                payload = ("ok", fn())
            except Violation as exc:
                payload = ("violation", str(exc))
            except BaseException as exc:
                payload = ("error", repr(exc))
            with os.fdopen(wfd, "wb") as fh:
                pickle.dump(payload, fh)
        finally:
            os._exit(0)
    os.close(wfd)
    with os.fdopen(rfd, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("no answer from the fork")
    kind, val = pickle.loads(data)
    if kind == "violation":
        raise Violation(val)
    if kind == "error":
        raise RuntimeError(val)
    return val


def modify(mm, kind, seed):
    m = mm.concrete_model
    rs = np.random.RandomState(seed)
    T, R = sorted(m.t), list(m.regions)
    t, r = T[rs.randint(len(T))], R[rs.randint(len(R))]
    if kind == "values":
        for v in m.component_data_objects(pyo.Var):
            if not v.fixed:
                v.set_value(float(rs.uniform(0.1, 2)), skip_validation=True)
    elif kind == "fix":
        m.relative_abatement[t, r].fix(0.77)
        m.temperature[t].fix(9.9)
    elif kind == "bounds":
        m.relative_abatement[t, r].setub(0.123)
        m.global_emissions.setlb(-77)
    elif kind == "deactivate":
        cons = list(m.component_objects(pyo.Constraint))
        for i in rs.randint(0, len(cons), 3):
            cons[i].deactivate()
    elif kind == "delete":
        cons = list(m.component_objects(pyo.Constraint))
        m.del_component(cons[rs.randint(len(cons))])
    elif kind == "constrain":
        m.constraint_added = pyo.Constraint(m.t, rule=lambda m, t: m.temperature[t] <= 1.234)
    elif kind == "settings":

        def spoil(d):
            for k in list(d):
                if isinstance(d[k], dict):
                    spoil(d[k])
                elif isinstance(d[k], bool):
                    d[k] = not d[k]
                elif isinstance(d[k], (int, float)):
                    d[k] = d[k] + 1
                elif isinstance(d[k], str):
                    d[k] = "spoiled"

        spoil(mm.params)
    elif kind == "sense":
        for o in m.component_data_objects(pyo.Objective):
            o.set_value(m.temperature[0])
    elif kind == "years":
        m.year = lambda t: 1900 + t


class Files:
    """The input files a history uses, in numbered versions; each version written has a later time than the last."""

    def __init__(self, cfgs):
        text = json.dumps(cfgs)
        self.used = [k for k in (SIMFILE, DATABASE, MAPPING, ECONOMICS) if k in text]
        self.clock = 1_600_000_000
        folder = tempfile.mkdtemp(dir=synth.scratch())
        self.paths = {k: os.path.join(folder, k.strip("@") + ".csv") for k in self.used}
        self.version = None
        self.write(0)

    def fill(self, cfg):
        text = json.dumps(cfg)
        for k, path in self.paths.items():
            text = text.replace(k, path)
        return json.loads(text)

    def write(self, version):
        if version == self.version:
            return
        self.version = version
        if SIMFILE in self.used:
            years = range(2015, 2156, 20)
            with open(self.paths[SIMFILE], "w") as fh:
                fh.write("Variable,Unit,Region," + ",".join(map(str, years)) + "\n")
                for j, r in enumerate(conf.REGIONS):
                    fh.write(f"relative_abatement,,{r}," + ",".join(f"{0.1 * k + 0.01 * j + 0.005 * version:.4f}" for k in range(len(years))) + "\n")
        if len(self.used) > (SIMFILE in self.used):
            import pandas as pd

            from vp.core import REPO

            data = os.path.join(REPO, "mimosa/inputdata")
        if DATABASE in self.used:
            db = pd.read_csv(os.path.join(data, "data/data_IMAGE_SSP_harmonised_2020.csv"))
            db = db[(db["Model"] == "IMAGE") & db["Variable"].isin(["GDP|PPP", "Population", "Emissions|CO2"])].copy()
            cols = [c for c in db.columns if c.isdigit()]
            db[cols] = db[cols] * (1 + 0.05 * version)
            db.to_csv(self.paths[DATABASE], index=False)
        if MAPPING in self.used:
            table = pd.read_csv(os.path.join(data, "regions/IMAGE26_COACCH.csv"))
            table["COACCH"] = np.roll(table["COACCH"].values, 5 + 3 * version)
            table.to_csv(self.paths[MAPPING], index=False)
        if ECONOMICS in self.used:
            table = pd.read_csv(os.path.join(data, "regionalparams/economics.csv"))
            table["init_capital_factor"] += 0.3 + 0.1 * version
            table.to_csv(self.paths[ECONOMICS], index=False)
        self.clock += 10
        for path in self.paths.values():
            if os.path.exists(path):
                os.utime(path, (self.clock, self.clock))


def elsewhere():
    """A folder holding files of the same relative names as the shipped ones, with other numbers."""
    final = os.path.join(os.environ.get("VERIF_SCRATCH") or synth.scratch(), "elsewhere")
    if not os.path.isdir(final):
        import pandas as pd

        from vp.core import REPO

        folder = tempfile.mkdtemp(dir=synth.scratch())
        src = os.path.join(REPO, "mimosa/inputdata")
        for sub in ("regionalparams", "regions", "data", "config"):
            for root in (folder, os.path.join(folder, "inputdata")):
                os.makedirs(os.path.join(root, sub), exist_ok=True)
            for name in sorted(os.listdir(os.path.join(src, sub))):
                path = os.path.join(src, sub, name)
                if sub == "config":
                    text = open(path, encoding="utf8").read().replace("default: 0.", "default: 0.1").replace("= 1.11", "= 1.2")
                elif not name.endswith(".csv"):
                    continue
                else:
                    table = pd.read_csv(path, nrows=400)
                    if sub == "regions":
                        for c in table.columns[1:]:
                            table[c] = np.roll(table[c].values, 3)
                    else:
                        num = table.select_dtypes("number").columns
                        table[num] = table[num] * 1.07
                    text = table.to_csv(index=False)
                for root in (folder, os.path.join(folder, "inputdata")):
                    with open(os.path.join(root, sub, name), "w", encoding="utf8") as fh:
                        fh.write(text)
                with open(os.path.join(folder, name), "w", encoding="utf8") as fh:
                    fh.write(text)
        try:
            os.rename(folder, final)
        except OSError:  # another process was faster
            shutil.rmtree(folder)
    return final


SIMFILE, DATABASE, MAPPING, ECONOMICS = "@@simulation@@", "@@database@@", "@@mapping@@", "@@economics@@"


def run(case):
    home = os.getcwd()
    try:
        return run_history(case)
    finally:
        os.chdir(home)


def run_history(case):
    files = Files(case["cfgs"])
    cfgs = [files.fill(c) for c in case["cfgs"]]

    def reference(i):
        with sut("building a model first thing in a process"):
            return state(MIMOSA(copy.deepcopy(cfgs[i])).concrete_model)

    version, used = 0, []
    for op in case["ops"]:
        if op["do"] == "build" and (op["cfg"] % len(cfgs), version) not in used:
            used.append((op["cfg"] % len(cfgs), version))
        elif op["do"] == "rewrite" and files.used:
            version += 1
    refs = {}
    for i, v in used:
        files.write(v)
        refs[i, v] = in_fork(lambda: reference(i))
    version = 0
    files.write(0)
    models, states, done, log, changed = [], [], set(), [], 0
    for k, op in enumerate(case["ops"]):
        do = op["do"]
        touched = None
        if do == "build":
            i = op["cfg"] % len(cfgs)
            log.append(f"build {i}")
            with sut(f"after [{'; '.join(log[:-1])}], building model {i}"):
                mm = MIMOSA(cfgs[i])
            got = state(mm.concrete_model)
            diff = modelkit.differences(refs[i, version], got)
            expect(not diff, f"after [{'; '.join(log[:-1])}], building configuration {i} gives another model than first thing in a process (first: clean, second: now): {diff}")
            models.append(mm)
            states.append(got)
            touched = len(models) - 1
        elif do == "rewrite":
            if not files.used:
                continue
            log.append("new numbers in the input files")
            version += 1
            files.write(version)
        elif do == "folder":
            log.append("another working directory")
            os.chdir(elsewhere())
        elif do == "refused":
            log.append("refused configuration")
            bad = copy.deepcopy(cfgs[op["cfg"] % len(cfgs)])
            set_path(bad, [("economics", "elasmu"), ("regions", "NOWHERE"), ("nothing",), ("emissions", "carbonbudget")][op["seed"] % 4], {"x": [1]} if op["seed"] % 4 < 3 else "3 m")
            try:
                with quiet():
                    MIMOSA(bad)
            except Exception:
                pass
        elif do == "scc":
            log.append("social cost of carbon")
            c = merge(cfgs[op["cfg"] % len(cfgs)], {"model": {"damage module": "COACCH"}})
            try:
                from mimosa.socialcostofcarbon.scc import SCC

                with quiet():
                    SCC(c)
            except Exception:
                pass  # C26 decides what it gives
        elif not models:
            continue
        else:
            j = op["cfg"] % len(models)
            mm = models[j]
            touched = j
            if do == "modify":
                log.append(f"{op['kind']} of model {j}")
                modify(mm, op["kind"], op["seed"])
                changed += 1
            elif do == "solve":
                log.append(f"solve model {j}")
                Plan.outcome = ["ok", "ok", "warning", "error"][op["seed"] % 4]
                Plan.values = fakesolver.random_values(op["seed"])
                try:
                    with quiet():
                        mm.solve()
                except Exception:
                    pass  # C23 decides
                changed += 1
            elif do == "save":
                log.append(f"save model {j}")
                folder = tempfile.mkdtemp(dir=synth.scratch())
                try:
                    with quiet():
                        mm.save("run", folder=folder, hash_suffix=bool(op["seed"] % 2))
                except Exception:
                    pass  # C22 decides
                shutil.rmtree(folder, True)
                touched = None
        done.add(do if do != "modify" else op["kind"])
        for j, mm in enumerate(models):
            if j == touched:
                states[j] = state(mm.concrete_model)
                continue
            diff = modelkit.differences(states[j], state(mm.concrete_model))
            expect(not diff, f"after [{'; '.join(log)}], model {j} has changed (first: before the last step, second: after): {diff}")
    return Outcome(len(models) >= 2 and (changed > 0 or len(used) > 1), sorted(done))


VARIANTS = [
    {"SSP": "SSP1"},
    {"SSP": "SSP5"},
    {"economics": {"damages": {"quantile": 0.95}}},
    {"economics": {"damages": {"coacch_slr_withadapt": False}}},
    {"economics": {"damages": {"coacch_combined_slr_nonslr_damages": True}}},
    {"economics": {"PRTP": 0.031, "elasmu": 1.4}},
    {"economics": {"MAC": {"gamma": "1200 USD2005/tCO2", "beta": 2.2}}},
    {"economics": {"GDP": {"savings rate": 0}}},
    {"emissions": {"carbonbudget": "650 GtCO2"}},
    {"emissions": {"carbonbudget": "800 GtCO2", "inertia": {"regional": -0.05, "global": -0.04}}},
    {"temperature": {"target": "1.9 delta_degC"}},
    {"effort sharing": {"regime": "equal_mitigation_costs"}},
    {"effort sharing": {"regime": "equal_total_costs"}},
    {"effort sharing": {"regime": "per_cap_convergence", "percapconv_year": 2060}, "model": {"emissiontrade module": "emissiontrade"}},
    {"model": {"emissiontrade module": "globalcostpool"}},
    {"model": {"emissiontrade module": "emissiontrade"}},
    {"model": {"financialtransfer module": "globaldamagepool"}},
    {"model": {"welfare module": "cost_minimising"}},
    {"model": {"welfare module": "inequal_aversion_general"}},
    {"model": {"objective module": "globalcosts"}},
    {"model": {"damage module": "nodamage"}},
    {"time": {"start": 2025, "end": 2080, "dt": 11}},
    {"time": {"start": 2015, "end": 2150, "dt": 15}},
    {"simulation": {"simulationmode": True, "deactivated_constraints": ["LBD"]}},
    {"simulation": {"custom_mapping": {"MAC_scaling_factor": "per region"}}},
    {"simulation": {"simulationmode": True, "constraint_variables": {"relative_abatement": "per region"}}},
    {"simulation": {"simulationmode": True, "constraint_variables": {"relative_abatement": "@@simulation@@"}}},
    {"regionsmappings": [{"regionstype1": "IMAGE26", "regionstype2": "COACCH", "conversiontable": "@@mapping@@"}], "model": {"damage module": "COACCH"}},
    {
        "regional_parameter_files": {
            "economics": {"filename": "@@economics@@", "regionstype": "IMAGE26"},
            "MAC": {"filename": "inputdata/regionalparams/mac.csv", "regionstype": "IMAGE26"},
            "COACCH": {"filename": "inputdata/regionalparams/COACCH.csv", "regionstype": "COACCH"},
            "mortality": {"filename": "inputdata/regionalparams/mortality.csv", "regionstype": "IMAGE26"},
        }
    },
    {
        "input": {
            "variables": {
                v: {"variable": n, "unit": u, "scenario": "{SSP}-Ref-SPA0-V17", "model": "IMAGE", "file": "@@database@@"}
                for v, n, u in (("GDP", "GDP|PPP", "currency_unit"), ("emissions", "Emissions|CO2", "emissionsrate_unit"), ("population", "Population", "population_unit"))
            }
        }
    },
    {
        "input": {
            "variables": {
                v: {"variable": n, "unit": u, "scenario": "{SSP}-Ref-SPA0-V17", "model": "IMAGE", "file": "inputdata/data/data_IMAGE_SSP_harmonised_2020.csv"}
                for v, n, u in (("GDP", "GDP|PPP", "currency_unit"), ("emissions", "Emissions|CO2", "emissionsrate_unit"), ("population", "Population", "population_unit"))
            }
        }
    },
    {"regions": {"WEU": {"MAC": {"kappa_rel_abatement_0.75_2050": 1.9}, "mortality": {"older_b": 0.4}}, "INDIA": {"economics": {"init_capital_factor": 3.1}}}},
    {"regions": {"USA": None, "WEU": None, "CHN": None}},
    {"regions": {"INDIA": None}},
]


FROM_FILES = [v for v in VARIANTS if "@@" in json.dumps(v)]


def variant(base, v):
    v = json.loads(json.dumps(v))
    out = json.loads(json.dumps(base))
    if "regions" in v:
        out["regions"] = v.pop("regions")
    out = merge(out, v)
    sim = out.get("simulation", {})
    years = [out["time"]["start"] + 35 * k for k in range(5)]
    if sim.get("custom_mapping"):
        sim["custom_mapping"] = {"MAC_scaling_factor": {r: 1.0 + 0.2 * k for k, r in enumerate(out["regions"])}}
    if isinstance((sim.get("constraint_variables") or {}).get("relative_abatement"), (dict, list)) or (sim.get("constraint_variables") or {}).get("relative_abatement") == "per region":
        sim["constraint_variables"] = {"relative_abatement": {str(y): {r: 0.1 * k + 0.05 * j for j, r in enumerate(out["regions"])} for k, y in enumerate(years)}}
    if out.get("effort sharing", {}).get("regime") == "per_cap_convergence":
        out["model"]["emissiontrade module"] = "emissiontrade"
    return out


@st.composite
def small_cfg(draw):
    base = draw(conform.cfg(density=9, rhi=3))
    dt = draw(st.sampled_from([10, 20, 15, 7.5]))
    start = draw(st.sampled_from([2020, 2025]))
    base["time"] = {"start": start, "end": int(start + dt * draw(st.integers(2, 6)) + draw(st.sampled_from([0, 2]))), "dt": dt}
    return base


@st.composite
def cases(draw):
    base = draw(small_cfg())
    cfgs = [base]
    for _ in range(draw(st.integers(1, 2))):
        v = draw(st.one_of(st.sampled_from(VARIANTS), st.sampled_from(FROM_FILES)) if draw(st.integers(0, 3)) == 0 else st.sampled_from(VARIANTS))
        c = variant(cfgs[draw(st.integers(0, len(cfgs) - 1))], v)
        if draw(st.integers(0, 2)) == 0:
            c = variant(c, draw(st.sampled_from(VARIANTS)))
        cfgs.append(c)
    kinds = ["build", "build", "modify", "modify", "solve", "save", "scc", "refused", "folder"]
    if "@@" in json.dumps(cfgs):
        kinds = kinds + ["rewrite"] * 3
    ops = [{"do": "build", "cfg": draw(st.integers(0, 2)), "seed": 0}]
    for _ in range(draw(st.integers(2, 6))):
        do = draw(st.sampled_from(kinds))
        op = {"do": do, "cfg": draw(st.integers(0, 4)), "seed": draw(st.integers(0, 10**5))}
        if do == "modify":
            op["kind"] = draw(st.sampled_from(["values", "fix", "bounds", "deactivate", "delete", "constrain", "settings", "sense", "years"]))
        ops.append(op)
    ops.append({"do": "build", "cfg": draw(st.integers(0, 2)), "seed": 0})
    return {"cfgs": cfgs, "ops": ops}


@st.composite
def file_cases(draw):
    """Histories around a model built from files that change in between."""
    base = draw(small_cfg())
    cfg = base
    for v in draw(st.sampled_from([[v] for v in FROM_FILES] + [FROM_FILES])):
        cfg = variant(cfg, v)
    cfgs = [cfg, variant(base, draw(st.sampled_from(VARIANTS)))]
    if "COACCH" in json.dumps(cfg.get("regionsmappings", "")) and draw(st.booleans()):  # the other one with the shipped tables
        cfgs[1] = json.loads(json.dumps(cfg))
        del cfgs[1]["regionsmappings"]
    ops = [{"do": "build", "cfg": 0, "seed": 0}]
    for _ in range(draw(st.integers(1, 2))):
        for _ in range(draw(st.integers(0, 2))):
            do = draw(st.sampled_from(["build", "solve", "save", "refused"]))
            ops.append({"do": do, "cfg": draw(st.integers(0, 3)), "seed": draw(st.integers(0, 10**5))})
        ops.append({"do": "rewrite", "cfg": 0, "seed": 0})
        ops.append({"do": "build", "cfg": 0, "seed": 0})
    return {"cfgs": cfgs, "ops": ops}


# --------------------------------------------------------------------------------------------- region order
def run_order(case):
    a = case["cfg"]
    names = list(a["regions"])
    order = [names[i] for i in np.random.RandomState(case["seed"]).permutation(len(names))]
    if order == names:
        order = names[1:] + names[:1]
    b = json.loads(json.dumps(a))
    b["regions"] = {r: a["regions"][r] for r in order}
    ma = modelkit.build(a, presolve=case["presolve"])
    mb = modelkit.build(b, presolve=case["presolve"])
    expect(list(mb.concrete_model.regions) == order, f"regions {list(mb.concrete_model.regions)}, configured {order}")
    fa, fb = modelkit.fingerprint(ma.concrete_model), modelkit.fingerprint(mb.concrete_model)
    del fa["set", "regions", ()], fb["set", "regions", ()]
    diff = modelkit.differences(fa, fb)
    expect(not diff, f"regions {names} and {order} give different models: {diff}")
    lab = [f"{k}={v}" for k, v in a["model"].items()] + [f"{len(names)} regions"]
    if case["presolve"]:
        # a solve that returns the same values for the same variables must leave the same values everywhere
        m = [ma, mb]
        vals = []
        for mm in m:
            Plan.outcome = "ok"
            Plan.values = lambda vs: [modelkit.point_value(v.parent_component().local_name, v.index(), case["seed"]) for v in vs]
            with sut("solving"):
                mm.solve()
            vals.append({(v.parent_component().name, v.index()): v.value for v in mm.concrete_model.component_data_objects(pyo.Var)})
        diff = modelkit.differences({("value",) + k: x for k, x in vals[0].items()}, {("value",) + k: x for k, x in vals[1].items()})
        expect(not diff, f"regions {names} and {order} give different values after the same solution: {diff}")
        lab.append("solved")
    return Outcome(len(names) > 1, lab)


@st.composite
def order_cases(draw):
    cfg = draw(conform.cfg(density=5, rlo=2, rhi=5))
    cfg["time"]["end"] = int(min(cfg["time"]["end"], cfg["time"]["start"] + 9 * cfg["time"]["dt"]))
    for _ in range(draw(st.integers(0, 2))):
        v = draw(st.sampled_from([x for x in VARIANTS if "regions" not in x and "time" not in x and x not in FROM_FILES]))
        cfg = variant(cfg, v)
    over = [None, None, {"economics": {"init_capital_factor": 2.2}}, {"mortality": {"older_b": 0.3, "young_a": 0.1}}, {"MAC": {"kappa_rel_abatement_0.75_2050": 1.7}}]
    cfg["regions"] = {r: draw(st.sampled_from(over)) for r in cfg["regions"]}
    cfg["time"]["end"] = max(cfg["time"]["end"], cfg["time"]["start"] + 1)
    return {"cfg": cfg, "seed": draw(st.integers(0, 10**5)), "presolve": draw(st.booleans())}


SUBS = [
    Sub("histories", cases(), run, quick=120, thorough=4000, rule="two or more models built in one process with changes, solves or other configurations between them", isolate=True),
    Sub("changed files", file_cases(), run, quick=30, thorough=800, rule="a model built again after its input files were rewritten", isolate=True),
    Sub("region order", order_cases(), run_order, quick=100, thorough=3000, rule="two or more regions in two orders, whole models compared"),
]
ASSUMPTIONS = [
    "two models are the same when sets, parameters, bounds, fixed values and all constraints and objectives at a generic point agree",
    "an input file that is rewritten has a later modification time",
]
