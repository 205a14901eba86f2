"""Regional parameters: generated parameter files, conversion tables and overrides against a reference lookup."""
import json
import math
import os

import numpy as np
from hypothesis import strategies as st

from vp import conf, conform, refmodel, synth
from vp.conform import owners
from vp.core import Discard, Outcome, Sub, Violation, expect, quiet, sut

with sut("importing mimosa"):
    from mimosa.common.regional_params import RegionalParamStore

TEXTS = ["Robust-Linear", "OLS-Quadratic", "Logistic (0.5)", "none"]


# ------------------------------------------------------------------------------------ the store on its own
def reference(case, cat, param, region):
    """Value(s) the region may have: ('value', v), ('one of', [...]) or ('error',)."""
    over = case["regions"].get(region)
    if isinstance(over, dict) and isinstance(over.get(cat), dict) and param in over[cat]:
        return ("value", over[cat][param])
    c = case["cats"][cat]
    if param not in c["cols"]:
        return ("error",)
    if c["type"] == "OUT":
        sources = [region]
    else:
        pairs = None
        for t in case["tables"]:
            if {t["a"], t["b"]} == {c["type"], "OUT"}:
                pairs = t["pairs"] if t["a"] == c["type"] else [[y, x] for x, y in t["pairs"]]
        if pairs is None:
            return ("error",)
        sources = [x for x, y in pairs if y == region]
    rows = [r for r in c["rows"] if r["region"] in sources]
    if not rows:
        return ("error",)
    vals = [r[param] for r in rows]
    if param != "form" and None in vals:  # empty cells are no numbers: they are left out of an average, or make it undefined
        known = [v for v in vals if v is not None]
        return ("blank", [sum(known) / len(known)] if known else [])
    if all(isinstance(v, (int, float)) for v in vals):
        return ("value", sum(vals) / len(vals))
    return ("one of", vals)


def write_params(case, paths, scale=None):
    for cat, c in case["cats"].items():
        head = ["region"] + c["cols"]
        cell = lambda x: "" if x is None else x if scale is None or isinstance(x, str) else x * scale + 1.0
        rows = [[r["region"]] + [cell(r[k]) for k in c["cols"]] for r in c["rows"]]
        new = synth.write_csv(head, rows, name=os.path.basename(paths[cat]) if cat in paths else None)
        if cat in paths:
            later = os.stat(new).st_mtime_ns + 2 * 10**9  # however coarse the clock of the file system
            os.utime(new, ns=(later, later))
        paths[cat] = new


def earlier_store(params, case, kind):
    """A store made earlier in the process from the same files, used under another configuration."""
    other = json.loads(json.dumps(params))
    if kind == "output":
        other["regionstype"] = "A"
        other["regions"] = {r: None for r in ("a1", "a2", "a3", "WEU")}
    elif kind == "tables":
        for t, given in zip(case["tables"], other["regionsmappings"]):
            xs = [x for x, _ in t["pairs"]]
            given["conversiontable"] = synth.write_csv([t["a"], t["b"]], [[x, y] for x, (_, y) in zip(xs[1:] + xs[:1], t["pairs"])])
    elif kind == "overrides":
        other["regions"] = {r: {cat: {p: 7.25 for p in c["cols"]} for cat, c in case["cats"].items()} for r in case["regions"]}
    elif kind == "definitions":
        for f in other["regional_parameter_files"].values():
            f["regionstype"] = "OUT"
    with quiet():
        try:
            store = RegionalParamStore(other, {})
        except Exception:
            return
        for cat, c in case["cats"].items():
            for p in c["cols"]:
                for r in other["regions"]:
                    try:
                        store.getregional(cat, p, r)
                    except Exception:
                        pass


def params_of(case):
    paths = {}
    write_params(case, paths, scale=-0.5 if "contents" in case.get("before", []) else None)
    tables = []
    for t in case["tables"]:
        cols = [t["a"], t["b"]] + (["extra"] if t["extra"] else [])
        if t["swap"]:
            cols = [t["b"], t["a"]] + cols[2:]
        rows = [([y, x] if t["swap"] else [x, y]) + ([i] if t["extra"] else []) for i, (x, y) in enumerate(t["pairs"])]
        types = [t["b"], t["a"]] if t["turn"] else [t["a"], t["b"]]
        tables.append({"regionstype1": types[0], "regionstype2": types[1], "conversiontable": synth.write_csv(cols, rows)})
    return {
        "regions": case["regions"],
        "regionstype": "OUT",
        "regional_parameter_files": {cat: {"filename": paths[cat], "regionstype": c["type"]} for cat, c in case["cats"].items()},
        "regionsmappings": tables,
    }


def run_store(case):
    params = params_of(case)
    usable = all(c["type"] == "OUT" or any({t["a"], t["b"]} == {c["type"], "OUT"} for t in case["tables"]) for c in case["cats"].values())
    if not usable:
        try:
            with quiet():
                store = RegionalParamStore(params, {})
                cat = next(k for k, c in case["cats"].items() if reference(case, k, c["cols"][0], next(iter(case["regions"])))[0] == "error")
                got = store.get(cat, case["cats"][cat]["cols"][0])
        except Exception:
            return Outcome(True, "no conversion table: rejected")
        raise Violation(f"a parameter file in another region definition without conversion table gives {got}")
    later = case["seed"] % 3 == 0  # the other stores are made between making this one and asking it
    for kind in case.get("before", []):
        if not later or kind == "contents":
            earlier_store(params, case, kind)
    if "contents" in case.get("before", []):
        write_params(case, {cat: f["filename"] for cat, f in params["regional_parameter_files"].items()})
    with sut("reading generated regional parameter files"):
        store = RegionalParamStore(params, {})
    for kind in case.get("before", []):
        if later and kind != "contents":
            earlier_store(params, case, kind)
    labels, judged = {f"{'after' if later and k != 'contents' else 'before'}: {k}" for k in case.get("before", [])}, 0
    asks = [(cat, p) for cat, c in case["cats"].items() for p in c["cols"]]
    asks += [(cat, "no such parameter") for cat in case["cats"]][:1]
    order = list(asks)
    np.random.RandomState(case["seed"]).shuffle(order)
    for cat, param in order:
        want = {r: reference(case, cat, param, r) for r in case["regions"]}
        if any(w[0] == "error" for w in want.values()):
            try:
                with quiet():
                    got = store.get(cat, param)
            except Exception:
                labels.add("not found: rejected")
                judged += 1
                continue
            bad = [r for r, w in want.items() if w[0] == "error"]
            raise Violation(f"{cat}.{param} of {bad} cannot be found but reads {[got.get(r) for r in bad]}")
        with sut(f"reading {cat}.{param}"):
            got = store.get(cat, param)
        expect(set(got) == set(case["regions"]), f"{cat}.{param} is given for {sorted(got)} instead of {sorted(case['regions'])}")
        for r, w in want.items():
            g = got[r]
            if w[0] == "one of":
                expect(g in w[1], f"{cat}.{param} of {r} is {g!r}, the matching regions have {w[1]}")
                labels.add("text")
            elif w[0] == "blank":
                ok = isinstance(g, float) and (g != g or any(abs(g - x) <= 1e-12 * max(1, abs(x)) for x in w[1]))
                expect(ok, f"{cat}.{param} of {r} is {g!r} although {'the cell is' if not w[1] else 'a cell is'} empty (the others give {w[1]})")
                labels.add("empty cells")
            elif isinstance(w[1], str):
                expect(g == w[1], f"{cat}.{param} of {r} is {g!r} instead of {w[1]!r}")
            else:
                ok = isinstance(g, (int, float)) and not isinstance(g, bool) and abs(g - w[1]) <= 1e-12 * max(1, abs(w[1]))
                expect(ok, f"{cat}.{param} of {r} is {g!r} instead of {w[1]!r}")
            judged += 1
        t = case["cats"][cat]["type"]
        labels.add("same definition" if t == "OUT" else "mapped")
    if any(isinstance(v, dict) and v for v in case["regions"].values()):
        labels.add("with overrides")
    return Outcome(judged >= 4, sorted(labels))


@st.composite
def store_cases(draw):
    out = draw(st.lists(st.sampled_from(["WEU", "CEU", "WE", "CHN", "Rest of World", "X1", "WEU#", "weu", "CHN#"]), min_size=1, max_size=4, unique=True))
    names = {"OUT": out + ["unused"], "A": ["a1", "a2", "a3", "WEU"], "B": ["b1", "b2"]}
    tables = []
    for other in ("A", "B"):
        if draw(st.integers(0, 9)) == 0:
            continue
        pairs = []
        for r in names["OUT"]:
            for s in draw(st.lists(st.sampled_from(names[other]), min_size=0 if draw(st.integers(0, 9)) == 0 else 1, max_size=3, unique=True)):
                pairs.append([r, s])
        a, b = "OUT", other
        if draw(st.booleans()):
            a, b, pairs = b, a, [[y, x] for x, y in pairs]
        pairs = draw(st.permutations(pairs))
        tables.append({"a": a, "b": b, "pairs": list(pairs), "extra": draw(st.booleans()), "swap": draw(st.booleans()), "turn": draw(st.booleans())})
    cats = {}
    num = st.one_of(st.floats(-100, 100).map(lambda v: float(f"{v:.6g}")), st.integers(-5, 5))
    for k in range(draw(st.integers(1, 4))):
        t = draw(st.sampled_from(["OUT", "A", "A", "B"]))
        cols = ["p", "q (q=0.5)", "form"][: draw(st.integers(1, 3))]
        cols = list(draw(st.permutations(cols)))
        rows = []
        regs = list(draw(st.permutations(names[t])))
        if draw(st.integers(0, 9)) == 0:
            regs = regs[1:]
        for r in regs + (["World"] if draw(st.booleans()) else []):
            rows.append({"region": r, **{c: draw(st.sampled_from(TEXTS)) if c == "form" else draw(num) for c in cols}})
        if draw(st.integers(0, 5)) == 0:  # some empty cells
            for r in draw(st.lists(st.sampled_from(rows), max_size=3)):
                for c in cols:
                    if c != "form":
                        r[c] = None
        cats[f"cat{k}"] = {"type": t, "cols": cols, "rows": rows}
    regions = {}
    for r in out:
        over = None
        if draw(st.booleans()):
            over = {}
            for cat in draw(st.lists(st.sampled_from(sorted(cats)), max_size=2, unique=True)):
                over[cat] = {p: (draw(st.sampled_from(TEXTS)) if p == "form" else draw(st.one_of(num, st.just(0), st.just(0.0)))) for p in draw(st.lists(st.sampled_from(cats[cat]["cols"] + ["new"]), max_size=2, unique=True))}
        regions[r] = over
    before = []
    if draw(st.integers(0, 2)) == 0:
        before = draw(st.lists(st.sampled_from(["output", "tables", "overrides", "definitions", "contents"]), min_size=1, max_size=2, unique=True))
    return {"regions": regions, "tables": tables, "cats": cats, "seed": draw(st.integers(0, 999)), "before": before}


# ------------------------------------------------------- the parameters as they reach the equations of a model
CATS = {"MAC": "mac.csv", "economics": "economics.csv", "mortality": "mortality.csv", "COACCH": "COACCH.csv"}


def run_model(case):
    """Parameter files with generated values, some in another region definition, some overridden per region."""
    rs = np.random.RandomState(case["seed"])
    regions = list(case["cfg"]["regions"])
    values = {}  # (cat, col, file region) -> value
    files, mappings = {}, []
    group = {r: f"G{i % case['groups']}" for i, r in enumerate(conf.REGIONS)}
    for cat, name in CATS.items():
        t = refmodel.table(name)
        own = "IMAGE26" if cat != "COACCH" else "COACCH"
        if cat not in case["changed"]:
            files[cat] = {"filename": "inputdata/regionalparams/" + name, "regionstype": own}
            continue
        kind = case["changed"][cat]  # 'same': file per model region; 'groups': file per group of regions
        keys = conf.REGIONS if kind == "same" else sorted(set(group.values()))
        cols = [c for c in t.columns if not c.startswith("Unnamed")]
        rows = []
        for k in keys:
            src = t.iloc[rs.randint(len(t))]
            row = [k]
            for c in cols:
                v = src[c]
                if isinstance(v, str):
                    row.append(v)
                elif v != v:
                    row.append("")
                    v = math.nan
                else:
                    v = float(f"{float(v) * rs.uniform(0.8, 1.2):.8g}")
                    row.append(v)
                values[cat, c, k] = v
            rows.append(row)
        path = synth.write_csv(["region"] + cols, rows)
        files[cat] = {"filename": path, "regionstype": "IMAGE26" if kind == "same" else "GROUPS"}
    pairs = [[r, g] for r, g in group.items()]
    rs.shuffle(pairs)
    mappings = [
        {"regionstype1": "IMAGE26", "regionstype2": "COACCH", "conversiontable": "inputdata/regions/IMAGE26_COACCH.csv"},
        {"regionstype1": "GROUPS", "regionstype2": "IMAGE26", "conversiontable": synth.write_csv(["IMAGE26", "GROUPS"], pairs)},
    ]

    def lookup(cat, col, r):
        if cat not in case["changed"]:
            return refmodel.coacch(r, col) if cat == "COACCH" else float(refmodel.table(CATS[cat]).loc[r, col])
        return values[cat, col, r if case["changed"][cat] == "same" else group[r]]

    cfg = conform.merge(case["cfg"], {})
    cfg["regional_parameter_files"] = files
    cfg["regionsmappings"] = mappings
    c0 = refmodel.Cfg(cfg, lookup)
    overs = {r: {} for r in regions}
    choices = [("MAC", c0.kappa_name, 0.4, 1.6), ("economics", "init_capital_factor", 1.5, 3.5), ("mortality", "older_b", -0.5, 0.5), ("mortality", "young_c", 0, 1)]
    if c0.damage == "COACCH":
        ad = "Ad" if c0.withadapt else "NoAd"
        if c0.combined:
            choices += [("COACCH", f"combined_b1_{ad}-q{c0.quantile}", 0, 1), ("COACCH", f"combined_b2_{ad}-q{c0.quantile}", 0, 0.5)]
        else:
            choices += [("COACCH", "NoSLR_b1", 0, 0.6), ("COACCH", f"SLR-{ad}_b1", 0, 3), ("COACCH", f"NoSLR_a (q={c0.quantile})", 0, 2), ("COACCH", f"SLR-{ad}_a (q={c0.quantile})", 0, 2)]
    for _ in range(case["overrides"]):
        cat, col, lo, hi = choices[rs.randint(len(choices))]
        if c0.damage != "COACCH" and cat in ("mortality", "COACCH"):
            continue
        r = regions[rs.randint(len(regions))]
        overs[r].setdefault(cat, {})[col] = float(f"{rs.uniform(lo, hi):.6g}")
    cfg["regions"] = {r: (overs[r] or None) for r in regions}
    B = conform.Built(cfg, case["pol"], lookup=lookup)
    broken = [x for x in B.broken_at(B.v) if x.kind in ("eq", "undefined") and owners(x) & {"C12", "C13", "C14"}]
    expect(not broken, f"regional parameters {case['changed']}, overrides {overs}: equations with the reference parameters do not hold: {broken[:3]}")
    labels = [f"{c} {k}" for c, k in case["changed"].items()]
    if any(overs.values()):
        labels.append("overrides")
    return Outcome(bool(case["changed"]) or any(overs.values()), labels)


@st.composite
def model_cases(draw):
    cfg = draw(conform.cfg(force={"damage module": ["COACCH", "COACCH", "nodamage"]}, density=9))
    cfg["regions"] = {r: None for r in cfg["regions"]}
    if cfg.get("economics", {}).get("damages", {}).get("scale factor", 1) == 0:
        cfg["economics"]["damages"]["scale factor"] = 1
    changed = {}
    for c in sorted(CATS):
        k = draw(st.sampled_from(["no", "same", "groups"]))
        if k != "no":
            changed[c] = k
    return {
        "cfg": cfg,
        "pol": {**draw(conform.policy()), "shape": draw(st.sampled_from(["rise", "hump", "flat"])), "amax": draw(st.sampled_from([0.3, 0.7]))},
        "changed": changed,
        "groups": draw(st.integers(1, 9)),
        "overrides": draw(st.integers(0, 4)),
        "seed": draw(st.integers(0, 10**6)),
    }


SUBS = [
    Sub("store", store_cases(), run_store, quick=800, thorough=20000, rule="at least four parameter values (or rejections) compared for generated files, tables and overrides"),
    Sub("models", model_cases(), run_model, quick=90, thorough=2200, rule="a model built with replaced parameter files or overrides, its equations judged at the reference trajectory"),
]
ASSUMPTIONS = [
    "conversion tables list every pair of regions once",
    "for text values of several matching regions any one of them is accepted",
]
