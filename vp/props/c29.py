"""Components that users add (docs/extending): declared parameters get the referred values, rules and variables join the model."""
import copy
import json
import math
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from vp import conf, conform, modelkit, refmodel, synth
from vp.conform import set_path
from vp.core import Outcome, Sub, expect, quiet, sut
from vp.props.c08 import generic_cfg
from vp.props.c22 import judge_table, scatter

with sut("importing mimosa"):
    import pyomo.environ as pyo
    from mimosa import MIMOSA
    from mimosa.common import AbstractModel, Any, Constraint, GlobalConstraint, GlobalInitConstraint, Param, RegionalConstraint, RegionalInitConstraint, Var, add_constraint, quant

FILES = {"economics": "economics.csv", "MAC": "mac.csv", "mortality": "mortality.csv", "COACCH": "COACCH.csv"}
SERIES = {"population": "population", "GDP": "baseline_GDP", "emissions": "baseline_emissions"}
SHAPES = {"tr": ("t", "regions"), "t": ("t",), "r": ("regions",), "": ()}
RULE = {"tr": RegionalConstraint, "t": GlobalConstraint, "r": RegionalInitConstraint, "": GlobalInitConstraint}
LEAF = [p for p, s in conf.LEAVES.items() if s["type"] in ("float", "int", "bool", "enum", "str", "quantity")]


# ----------------------------------------------------------------------------------------- references
def dynamic(how):
    """A reference that depends on other settings, and what it is for given settings."""
    return {
        "calibration": lambda p: f"regional::MAC.{p['economics']['MAC']['regional calibration factor']}",
        "quantile": lambda p: f"regional::COACCH.NoSLR_a (q={p['economics']['damages']['quantile']})",
        "branch": lambda p: "::economics.PRTP" if p["economics"]["damages"]["coacch_slr_withadapt"] else "::economics.elasmu",
        "module": lambda p: "::economics.MAC.gamma" if p["model"]["damage module"] == "COACCH" else "::economics.MAC.LBD_scaling",
        "series": lambda p: "timeandregional::GDP" if p["emissions"]["cumulative_emissions_trapz"] else "timeandregional::population",
    }[how]


DYNAMIC_SHAPE = {"calibration": "r", "quantile": "r", "branch": "", "module": "", "series": "tr"}


def shape_of(p):
    return {"setting": "", "regional": "r", "series": "tr"}.get(p["kind"]) if p["kind"] in ("setting", "regional", "series") else DYNAMIC_SHAPE[p["how"]] if p["kind"] == "dynamic" else p["shape"]


def doc_of(p):
    if p["kind"] == "setting":
        return "::" + ".".join(p["path"])
    if p["kind"] == "regional":
        return f"regional::{p['cat']}.{p['col']}"
    if p["kind"] == "series":
        return f"timeandregional::{p['name']}"
    if p["kind"] == "dynamic":
        return dynamic(p["how"])
    if p["kind"] == "bad":
        return p["doc"]
    return p.get("doc", "")


def number(p, cfg):
    """Whether its value is a number for sure (and may be used in equations)."""
    doc = doc_of(p)
    doc = doc(conf.expected(cfg)) if callable(doc) else doc
    if doc.startswith("::"):
        spec = conf.get(conf.DECL, doc[2:].split("."))
        return spec["type"] in ("float", "quantity") and conf.get(conf.expected(cfg), doc[2:].split(".")) is not False
    if doc.startswith("regional::"):
        cat, col = doc[len("regional::"):].split(".", 1)
        return col not in refmodel.table(FILES[cat]) or refmodel.table(FILES[cat])[col].dtype.kind in "if"
    return True


def twin_value(k):
    return 0.5 + 0.125 * k


def twin_file(twin):
    """The parameter file of a category with one more column, named like a column of another category's file."""
    t = refmodel.table(FILES[twin["to"]])
    cols = [c for c in t.columns if not c.startswith("Unnamed")]
    rows = [[r] + ["" if t.loc[r, c] != t.loc[r, c] else float(t.loc[r, c]) for c in cols] + [twin_value(k)] for k, r in enumerate(conf.REGIONS)]
    return synth.write_csv(["region"] + cols + [twin["col"]], rows)


def referred(doc, cfg, base, c):
    """index -> value of what a reference refers to."""
    T, R = sorted(base.t), list(base.regions)
    if doc.startswith("::"):
        path = tuple(doc[2:].split("."))
        spec, v = conf.LEAVES[path], conf.get(conf.expected(cfg), path)
        return {None: refmodel.quantity(v) if spec["type"] == "quantity" else v}
    if doc.startswith("regional::"):
        cat, col = doc[len("regional::"):].split(".", 1)
        out = {}
        twin = cfg.get("twin")
        for r in R:
            try:
                out[r] = cfg["regions"][r][cat][col]
                continue
            except (KeyError, TypeError):
                pass
            if twin and [cat, col] == [twin["to"], twin["col"]]:
                out[r] = twin_value(conf.REGIONS.index(r))
                continue
            if cat == "COACCH":
                vals = [refmodel.table("COACCH.csv").loc[x, col] for x in refmodel.coacch_region(r)]
                out[r] = ("one of", vals) if any(isinstance(v, str) for v in vals) else float(np.mean(vals))
            else:
                x = refmodel.table(FILES[cat]).loc[r, col]
                out[r] = x if isinstance(x, str) else float(x)
        return out
    comp = getattr(base, SERIES[doc[len("timeandregional::"):]])
    return {(t, r): float(pyo.value(comp[t, r])) for t in T for r in R}


def agrees(got, want):
    if isinstance(want, tuple):
        return any(agrees(got, w) for w in want[1])
    if isinstance(want, bool) or isinstance(got, bool):
        return isinstance(want, (bool, int)) and isinstance(got, (bool, int, float)) and bool(got) == bool(want) and got == want
    if isinstance(want, str) or isinstance(got, str):
        return got == want
    if want is None or got is None:
        return got is want
    return abs(got - want) <= 1e-9 * max(abs(want), 1e-12)


# ------------------------------------------------------------------------------------------ the component
def right_side(m, v, params, t=None, r=None, val=lambda x: x):
    """The equation of an added variable, on the model (val: identity) or at its current values (val: pyo.value)."""
    if v["shape"] == "tr":
        x = 0.7 * val(m.GDP_net[t, r]) - 0.1 * val(m.temperature[t])
        if v["lag"] and t > 0:
            x = x + 0.3 * val(m.regional_emissions[t - 1, r]) * val(m.dt)
    elif v["shape"] == "t":
        x = val(m.global_emissions[t]) * 0.5 + sum(val(m.damage_costs[t, s]) if hasattr(m, "damage_costs") else val(m.consumption[t, s]) for s in m.regions)
        if v["lag"] and t > 0:
            x = x - val(m.temperature[t - 1])
    elif v["shape"] == "r":
        x = val(m.regional_emissions[val(m.tf), r]) if v["lag"] else val(m.consumption[0, r]) * 2
    else:
        x = val(m.cumulative_emissions[val(m.tf)]) * 1.5
    for p in params:
        comp = getattr(m, p["name_"])
        sh = shape_of(p)
        if sh == "":
            x = x + val(comp)
        elif sh == "r":
            x = x + (val(comp[r]) if r is not None else sum(val(comp[s]) for s in m.regions))
        elif sh == "tr":
            if t is not None and r is not None:
                x = x + val(comp[t, r])
            elif t is not None:
                x = x + sum(val(comp[t, s]) for s in m.regions)
    return x


def applies(m, v, t, r):
    k = v["when"]
    if k == "later":
        return m.year(t) > v["year"] if t is not None else True
    if k == "first":
        return t == 0 if t is not None else True
    if k == "one region":
        return r == sorted(m.regions)[0] if r is not None else True
    return True


def extended(case, params):
    """A MIMOSA with the generated component, as docs/extending describes it."""

    class Extended(MIMOSA):
        def get_abstract_model(self):
            m = super().get_abstract_model()
            for p in params:
                kw = {"doc": doc_of(p)} if doc_of(p) else {}
                if not p["num"]:
                    kw["within"] = Any
                if p["kind"] == "fixed":
                    kw["initialize"] = p["value"]
                setattr(m, p["name_"], Param(*[getattr(m, s) for s in SHAPES[shape_of(p)]], **kw))
            rules = []
            usable = [p for p in params if p["num"]]
            for k, v in enumerate(case["vars"]):
                kw = {}
                if v["unit"]:
                    kw["units"] = quant.unit(v["unit"])
                if v["bounds"]:
                    kw["bounds"] = tuple(v["bounds"])
                name = f"zz_var{k}"
                setattr(m, name, Var(*[getattr(m, s) for s in SHAPES[v["shape"]]], **kw))
                rules.append(RULE[v["shape"]](rule_of(v, name, usable), f"zz_rule{k}"))
            for c in rules:
                add_constraint(m, c.to_pyomo_constraint(m), c.name)
            return m

    return Extended


def rule_of(v, name, usable):
    def body(m, t=None, r=None):
        if not applies(m, v, t, r):
            return Constraint.Skip
        x = getattr(m, name)
        idx = tuple(i for i in (t, r) if i is not None)
        x = x[idx if len(idx) > 1 else idx[0]] if idx else x
        y = right_side(m, v, usable, t, r)
        return x == y if v["sense"] == "==" else x <= y if v["sense"] == "<=" else x >= y

    return {
        "tr": lambda m, t, r: body(m, t, r),
        "t": lambda m, t: body(m, t),
        "r": lambda m, r: body(m, None, r),
        "": lambda m: body(m),
    }[v["shape"]]


def run(case):
    cfg = json.loads(json.dumps(case["cfg"]))
    if case.get("twin"):
        files = json.loads(json.dumps(conf.get(conf.DECL, ["regional_parameter_files"])["default"]))
        files[case["twin"]["to"]]["filename"] = twin_file(case["twin"])
        cfg["regional_parameter_files"] = files
    plain = json.loads(json.dumps(cfg))
    params = [dict(p, name_=f"zz_param{k}", num=True) for k, p in enumerate(case["params"])]
    mapping = {}
    for p in params:
        if p["kind"] in ("setting", "dynamic", "regional"):
            p["num"] = number(p, plain)
        if p["kind"] == "given":
            mapping[p["name_"]] = {r: p["value"] + k for k, r in enumerate(plain["regions"])} if p["shape"] == "r" else {None: p["value"]}
    if mapping:
        cfg.setdefault("simulation", {})["custom_mapping"] = mapping
    cls = extended(case, params)
    bad = [p for p in params if p["kind"] == "bad"]
    if bad:
        try:
            with quiet(), modelkit.no_presolve():
                cls(cfg)
        except Exception:
            return Outcome(True, ["reference that leads nowhere"])
        expect(False, f"a parameter declared with {[p['doc'] for p in bad]} builds without error")
    base = modelkit.build(plain).concrete_model
    with sut("building the extended model"):
        with modelkit.no_presolve():
            mm = cls(cfg)
    m = mm.concrete_model
    c = None
    lab = set()
    exp = conf.expected(plain)
    for p in params:
        comp = getattr(m, p["name_"])
        doc = doc_of(p)
        if p["kind"] == "given":
            want = {r: p["value"] + k for k, r in enumerate(plain["regions"])} if p["shape"] == "r" else {None: p["value"]}
        elif p["kind"] == "fixed":
            want = {i: p["value"] for i in (list(m.regions) if p["shape"] == "r" else [None])}
        else:
            doc = doc(exp) if callable(doc) else doc
            want = referred(doc, dict(plain, twin=case.get("twin")), base, c)
        with sut(f"reading a parameter declared with {doc!r}"):
            got = {i: (pyo.value(comp[i]) if i is not None else comp.value) for i in want}
            known = set(comp)
        wrong = [i for i in want if not agrees(got[i], want[i])]
        expect(not wrong, f"parameter declared with {doc!r}: {[(i, got[i], want[i]) for i in wrong[:2]]} (index, value, referred value)")
        expect(known <= set(want), f"parameter declared with {doc!r} has values at {sorted(map(str, known - set(want)))[:3]}")
        lab.add(p["kind"])
    # what was there before is unchanged
    fa, fb = modelkit.fingerprint(base), modelkit.fingerprint(m)
    added = {k for k in fb if "zz_" in str(k[1])}
    diff = modelkit.differences(fa, {k: x for k, x in fb.items() if k not in added})
    expect(not diff, f"the added component changes the rest of the model (first: without, second: with it): {diff}")
    # the new rules hold exactly where declared
    rs = np.random.RandomState(case["seed"])
    for v in m.component_data_objects(pyo.Var):
        v.set_value(float(rs.uniform(0.2, 3)), skip_validation=True)
    usable = [p for p in params if p["num"]]
    judge = modelkit.Judge(m)
    judge.cons = [x for x in judge.cons if any(s.startswith("zz_") for s in x.sig)]
    judge.vars = {n: x for n, x in judge.vars.items() if n.startswith("zz_")}
    T, R = sorted(m.t), list(m.regions)
    exact = {}
    for k, v in enumerate(case["vars"]):
        comp = getattr(m, f"zz_var{k}")
        for t in T if "t" in v["shape"] else [None]:
            for r in R if "r" in v["shape"] else [None]:
                i = (t, r) if v["shape"] == "tr" else t if v["shape"] == "t" else r if v["shape"] == "r" else None
                with sut("evaluating the added equation"):
                    exact[k, i, t, r] = right_side(m, v, usable, t, r, lambda x: float(pyo.value(x)))
                comp[i].set_value(exact[k, i, t, r], skip_validation=True)
                comp[i].setlb(None), comp[i].setub(None)
    off = judge.broken()
    expect(not off, f"values that satisfy every added equation break {off[:2]}")
    keys = sorted(exact, key=str)
    for j in rs.permutation(len(keys))[:6]:
        k, i, t, r = keys[j]
        v = case["vars"][k]
        x = getattr(m, f"zz_var{k}")[i]
        size = max(1.0, abs(exact[keys[j]]))
        for sign in (-1, 1):
            x.set_value(exact[keys[j]] + sign * 0.01 * size, skip_validation=True)
            off = judge.broken()
            must = applies(m, v, t, r) and v["sense"] in ("==", "<=" if sign > 0 else ">=")
            where = f"{v['shape'] or 'scalar'} rule, {v['sense']}, at {i}"
            if must:
                expect(off, f"the added {where}: a value {'above' if sign > 0 else 'below'} its right side is admitted")
            else:
                expect(not off, f"the added {where}: excluded by {off[:2]} though the rule admits it (or is skipped)")
        x.set_value(exact[keys[j]], skip_validation=True)
    # bounds, and the saved output
    with sut("building the extended model"):
        ms = cls(copy.deepcopy(cfg))
    s = ms.concrete_model
    for k, v in enumerate(case["vars"]):
        b = tuple(v["bounds"] or (None, None))
        with sut("reading the added variables"):
            got = [(d.lb, d.ub) for d in getattr(s, f"zz_var{k}").values()]
        n = (len(T) if "t" in v["shape"] else 1) * (len(R) if "r" in v["shape"] else 1)
        expect(len(got) == n and set(got) == {b}, f"added variable over {SHAPES[v['shape']]} has {len(got)} members with bounds {sorted(map(str, set(got)))}, declared {n} with {b}")
        lab.add(f"variable over {v['shape'] or 'nothing'}")
    scatter(s, case["seed"], 4)
    folder = tempfile.mkdtemp(dir=synth.scratch())
    try:
        with sut("saving the extended model"):
            ms.save("run", folder=folder)
        judge_table(os.path.join(folder, "run.csv"), s, "saved extended model")
    finally:
        shutil.rmtree(folder, True)
    return Outcome(len(params) > 0 and len(case["vars"]) > 0, sorted(lab))


BAD = ["::economics.NOPE", "::nothing", "::economics", "::economics.PRTP.x", "regional::economics.nothing", "regional::nothing.init_capital_factor", "timeandregional::nothing", "regional::MAC.kappa"]


def complete(cat):
    table = refmodel.table(FILES[cat])
    return sorted(c for c in table.columns if not table[c].isna().any())


@st.composite
def param(draw):
    kind = draw(st.sampled_from(["setting", "setting", "setting", "regional", "regional", "series", "dynamic", "given", "fixed"]))
    p = {"kind": kind}
    if kind == "setting":
        p["path"] = list(draw(st.sampled_from(LEAF)))
    elif kind == "regional":
        p["cat"] = draw(st.sampled_from(sorted(FILES)))
        p["col"] = draw(st.sampled_from(complete(p["cat"])))
    elif kind == "series":
        p["name"] = draw(st.sampled_from(sorted(SERIES)))
    elif kind == "dynamic":
        p["how"] = draw(st.sampled_from(sorted(DYNAMIC_SHAPE)))
    else:
        p["shape"] = draw(st.sampled_from(["", "r"]))
        p["value"] = draw(st.sampled_from([0, 1.25, -3.5, 400, 0.001]))
        p["doc"] = draw(st.sampled_from(["", "share of something", "see economics.PRTP", "a : b"]))
    return p


FREE = {  # other values for settings that generic configurations leave alone, all harmless to the model
    ("emissions", "global min level"): ["-25 GtCO2/yr", "-3000 MtCO2/yr", "-0.5 TtCO2/yr"],
    ("emissions", "regional min level"): ["-12 GtCO2/yr", "-9000 MtCO2/yr"],
    ("economics", "damages", "percentage reversible"): [1.0],
    ("temperature", "TCRE"): ["0.62 delta_degC/TtCO2", "0.00055 delta_degC/GtCO2"],
    ("economics", "MAC", "gamma"): ["1800 USD2005/tCO2", "1500 USD2010/tCO2", "2.1 kUSD2005/tCO2"],
    ("economics", "MAC", "LBD_scaling"): ["35 GtCO2", "52000 MtCO2"],
    ("effort sharing", "percapconv_year"): [2050, 2071],
}


@st.composite
def cases(draw):
    cfg = draw(generic_cfg(reach=draw(st.sampled_from([2050, 2090, 2130]))))
    for path, vals in FREE.items():
        if draw(st.integers(0, 3)) == 0:
            set_path(cfg, path, draw(st.sampled_from(vals)))
    params = draw(st.lists(param(), min_size=1, max_size=5))
    for p in params:
        if p["kind"] == "regional" and not p["col"].endswith("form") and draw(st.integers(0, 2)) == 0:
            r = draw(st.sampled_from(sorted(cfg["regions"])))
            over = dict(cfg["regions"][r] or {})
            over[p["cat"]] = dict(over.get(p["cat"]) or {}, **{p["col"]: draw(st.sampled_from([0.25 if p["cat"] == "economics" else 0.0, 0.5, 2.75]))})
            cfg["regions"][r] = over
    twin = None
    if draw(st.integers(0, 3)) == 0:  # two files with a column of the same name
        cat = draw(st.sampled_from(sorted(FILES)))
        twin = {"to": draw(st.sampled_from([c for c in sorted(FILES) if c not in (cat, "COACCH")])), "col": draw(st.sampled_from([c for c in complete(cat) if not c.endswith("form")]))}
        both = [{"kind": "regional", "cat": c, "col": twin["col"]} for c in draw(st.permutations([cat, twin["to"]]))]
        params = draw(st.permutations(params[:3] + both))
    if draw(st.integers(0, 7)) == 0:
        params.append({"kind": "bad", "shape": "r", "doc": draw(st.sampled_from(BAD))})
        bad = params[-1]["doc"]
        params[-1]["shape"] = "" if bad.startswith("::") else "tr" if bad.startswith("time") else "r"
    var = st.fixed_dictionaries(
        {
            "shape": st.sampled_from(["tr", "tr", "t", "r", ""]),
            "lag": st.booleans(),
            "when": st.sampled_from(["always", "always", "later", "first", "one region"]),
            "year": st.integers(2020, 2100),
            "sense": st.sampled_from(["==", "==", "<=", ">="]),
            "unit": st.sampled_from(["", "currency_unit", "fraction_of_GDP", "emissionsrate_unit", "billion people"]),
            "bounds": st.sampled_from([None, None, [0, None], [-2.5, 1e6], [None, 30]]),
        }
    )
    return {"cfg": cfg, "params": params, "twin": twin, "vars": draw(st.lists(var, min_size=1, max_size=3)), "seed": draw(st.integers(0, 10**6))}


SUBS = [
    Sub("added components", cases(), run, quick=100, thorough=3000, rule="a model extended by at least one parameter and one variable with its rule, or by a reference that leads nowhere"),
]
ASSUMPTIONS = ["the component is added to the abstract model that MIMOSA.get_abstract_model returns, with the classes that mimosa.common exports"]
