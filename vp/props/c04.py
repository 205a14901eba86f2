"""C04: references between settings."""
import copy
import re

from hypothesis import strategies as st

from vp import conf, synth
from vp.core import Outcome, Sub, Violation, expect, quiet, sut

with sut("importing mimosa"):
    from mimosa import MIMOSA
    from mimosa.common.config.parseconfig import check_params, parse_param_values

SCALARS = [p for p in conf.ALL_PATHS if conf.LEAVES[p]["type"] in ("float", "int", "bool", "enum", "quantity")]
TEXTS = [["input", "variables", v, k] for v in ("GDP", "emissions", "population") for k in ("variable", "unit", "scenario", "model", "file")]
TEXTS += [["regional_parameter_files", c, k] for c in ("economics", "MAC") for k in ("filename", "regionstype")]
TEXTS += [["simulation", "constraint_variables", "temperature"], ["simulation", "custom_mapping", "note"], ["regions", "CAN", "MAC", "note"]]

lit = st.one_of(st.text("ab -_/.,()|7é\\", max_size=6), st.sampled_from(["C:\\data\\new.csv", "\\g<0>", "\\1", "\\d+ $1", "a\\"]))
ref = st.sampled_from(SCALARS).map(lambda p: ["ref", list(p)])
junk = st.sampled_from(["{foo}", "{time - foo}", "{}", "{SSP", "SSP}", "{SSP - x}", "{time - start - x}", "{ SSP}", "{time}", "{economics - MAC}", "{input - variables - GDP}", "{regions}", "{{", "{time-start}"]).map(lambda s: ["lit", s])
# the texts of the data sources and parameter files are settings as well, and may themselves contain references
INNER = TEXTS[:-3]
inner = st.sampled_from(INNER).map(lambda p: ["ref", list(p)])
piece = st.one_of(lit.map(lambda s: ["lit", s]), ref, ref, inner, junk)
template = st.lists(piece, min_size=1, max_size=6)


def source(pieces):
    return "".join(p[1] if p[0] == "lit" else "{" + " - ".join(p[1]) + "}" for p in pieces)


def acyclic(texts):
    """Texts refer only to texts that come later in the case, or are not set by it."""
    out = []
    for k, (path, pieces) in enumerate(texts):
        before = [p for p, _ in texts[: k + 1]]
        out.append([path, [p for p in pieces if not (p[0] == "ref" and p[1] in before)]])
    return out


def run_text(case):
    case = {**case, "texts": acyclic(case["texts"])}
    user = conf.nest(case["set"])
    base = conf.expected(user)
    want = copy.deepcopy(base)
    for path, pieces in case["texts"]:
        text = source(pieces)
        if path[0] == "input":
            d = user.setdefault("input", {}).setdefault("variables", {}).setdefault(path[2], dict(conf.get(conf.DECL, path[:3])["default"]))
            w = want["input"]["variables"][path[2]]
            if path[3] != "scenario":
                pass
            d[path[3]] = text
        elif path[0] == "regional_parameter_files":
            d = user.setdefault("regional_parameter_files", {})
            d.setdefault(path[1], {})[path[2]] = text
        elif path[0] == "regions":
            user.setdefault("regions", {}).setdefault("CAN", {}).setdefault("MAC", {})["note"] = text
        else:
            user.setdefault("simulation", {}).setdefault(path[1], {})[path[2]] = text
    raw = conf.expected(user)  # final values before resolving
    # expected: every text in the configuration resolved against the final scalar values

    def resolve(node):
        if isinstance(node, dict):
            return {k: resolve(v) for k, v in node.items()}
        if not isinstance(node, str):
            return node

        def sub(m):
            keys = tuple(m.group(1).split(" - "))
            if keys in conf.LEAVES and conf.LEAVES[keys]["type"] in ("float", "int", "bool", "enum", "quantity"):
                return str(conf.get(raw, keys))
            if list(keys) in INNER:
                try:
                    return resolve(conf.get(raw, keys))
                except KeyError:  # the user's parameter files replace the default ones
                    pass
            return m.group(0)

        return re.sub(r"\{([\w -]+)\}", sub, node)

    want = resolve(raw)
    with sut("loading and resolving references"):
        got = parse_param_values(check_params(user))
    d = conf.diff(want, got)
    expect(d is None, f"references not resolved correctly: {d}; settings {user}")
    texts = [p for p, _ in case["texts"]]
    chained = any(p[0] == "ref" and p[1] in texts for _, pieces in case["texts"] for p in pieces)
    nrefs = max(sum(1 for p in pieces if p[0] == "ref") for _, pieces in case["texts"])
    return Outcome(nrefs > 0, [f"refs={min(nrefs, 4)}"] + ["chained"] * chained + ["junk" if any(p[0] == "lit" and "{" in p[1] for _, ps in case["texts"] for p in ps) else "no junk"])


def run_model(case):
    """Through a model: the row named by the resolved text is the one that is read."""
    cfg = {
        "SSP": case["SSP"],
        "time": {"start": 2020, "end": 2030, "dt": case["dt"]},
        "effort sharing": {"regime": case["regime"]},
        "economics": {"damages": {"quantile": case["quantile"]}},
        "regions": {"CAN": None},
    }
    final = {"{SSP}": case["SSP"], "{effort sharing - regime}": case["regime"], "{time - dt}": str(float(case["dt"])), "{economics - damages - quantile}": str(case["quantile"]), "{welfare}": "{welfare}"}
    tmpl = case["prefix"] + "".join(case["refs"])
    scen = tmpl
    for k, v in final.items():
        scen = scen.replace(k, v)
    years = list(range(2010, 2101, 10))
    rows = []
    level = {}
    decoys = {scen + "x", tmpl, scen.replace(case["SSP"], "SSP9"), "zzz"} - {scen}
    for k, s in enumerate([scen] + sorted(decoys)):
        for var, unit in [("GDP|PPP", "billion US$2005/yr"), ("Emissions|CO2", "Mt CO2/yr"), ("Population", "million")]:
            val = 1000.0 * (k + 1)
            rows.append(["IMAGE", s, "CAN", var, unit] + [val] * len(years))
    path = synth.write_csv(["Model", "Scenario", "Region", "Variable", "Unit"] + years, rows)
    cfg["input"] = {"variables": {v: {"variable": n, "unit": u, "scenario": tmpl, "model": "IMAGE", "file": path} for v, n, u in [("GDP", "GDP|PPP", "currency_unit"), ("emissions", "Emissions|CO2", "emissionsrate_unit"), ("population", "Population", "population_unit")]}}
    with sut(f"building a model with scenario '{tmpl}' (means '{scen}')"):
        model = MIMOSA(cfg)
        m = model.concrete_model
        from pyomo.environ import value

        vals = [value(m.baseline_GDP[0, "CAN"]), value(m.baseline_emissions[0, "CAN"]), value(m.population[0, "CAN"])]
        shown = model.params["input"]["variables"]["GDP"]["scenario"]
    expect(shown == scen, f"scenario is '{shown}', expected '{scen}'")
    expect(all(abs(v - 1.0) < 1e-9 for v in vals), f"values {vals} are not those of scenario '{scen}'")
    return Outcome(len(set(case["refs"])) > 1, f"refs={len(set(case['refs']))}")


QUANT = [p for p in SCALARS if conf.LEAVES[p]["type"] == "quantity"]


def run_chain(case):
    """A chain of texts, each containing a reference to the next one; the last refers to a quantity."""
    path = tuple(case["scalar"])
    value = case["pad"][0] + conf.get(conf.expected({}), path) + case["pad"][1] if case["pad"] else None
    order = [INNER[k] for k in case["order"]]
    texts, text = {}, "{" + " - ".join(path) + "}"
    final = str(value if case["pad"] else conf.get(conf.expected({}), path))
    finals = {}
    for k, p in enumerate(reversed(order)):
        before, after, twice = case["around"][k % len(case["around"])]
        texts[tuple(p)] = before + text + after + (text if twice else "")
        final = before + final + after + (final if twice else "")
        finals[tuple(p)] = final
        text = "{" + " - ".join(p) + "}"
    user = {"input": {"variables": {v: dict(conf.get(conf.DECL, ["input", "variables", v])["default"]) for v in ("GDP", "emissions", "population")}},
            "regional_parameter_files": {c: {"filename": "x", "regionstype": "y"} for c in ("economics", "MAC")}}
    for p in (order if case["forward"] else order[::-1]):
        d = user
        for k in p[:-1]:
            d = d[k]
        d.pop(p[-1])
        d[p[-1]] = texts[tuple(p)]
    if case["pad"]:
        d = user
        for k in path[:-1]:
            d = d.setdefault(k, {})
        d[path[-1]] = value
    with sut("loading and resolving a chain of references"):
        got = parse_param_values(check_params(user))
    for p in order:
        g = conf.get(got, p)
        expect(g == finals[tuple(p)], f"{' - '.join(p)} is {g!r}, expected {finals[tuple(p)]!r} (a chain of {len(order)} references)")
    return Outcome(len(order) > 1, f"length={len(order)}")


chain = st.fixed_dictionaries({
    "scalar": st.sampled_from(QUANT).filter(lambda p: isinstance(conf.get(conf.expected({}), p), str)).map(list),
    "pad": st.one_of(st.none(), st.tuples(st.sampled_from(["", " "]), st.sampled_from(["", " "]))),
    "order": st.lists(st.integers(0, len(INNER) - 1), min_size=1, max_size=10, unique=True),
    "around": st.lists(st.tuples(st.sampled_from(["", "a", "x ", "{foo}"]), st.sampled_from(["", "b", " y"]), st.sampled_from([False, False, False, True])), min_size=1, max_size=4),
    "forward": st.booleans(),
})

SUBS = [
    Sub("chain", chain, run_chain, 120, 4000, "a chain of 1 to 10 text settings in any order, each referring (once or twice) to the next one and the last to a quantity, possibly with blanks around it"),
    Sub("text", st.fixed_dictionaries({"set": conf.settings_list(5).map(lambda l: [s for s in l if tuple(s[0]) in SCALARS]), "texts": st.lists(st.tuples(st.sampled_from(TEXTS), template).map(list), min_size=1, max_size=4, unique_by=lambda t: tuple(t[0]))}),
        run_text, 600, 15000, "text settings made of literal text, references to any scalar settings (user-set or default) and braces that refer to nothing; non-trivial with at least one reference"),
    Sub("model", st.fixed_dictionaries({
        "SSP": st.sampled_from(["SSP1", "SSP3", "SSP5"]), "dt": st.sampled_from([5, 2.5]), "regime": st.sampled_from(["noregime", "equal_mitigation_costs", "equal_total_costs"]),
        "quantile": st.sampled_from([0.5, 0.95]), "prefix": st.sampled_from(["", "Scen-", "a b "]),
        "refs": st.lists(st.sampled_from(["{SSP}", "{effort sharing - regime}", "-", "{time - dt}", "{economics - damages - quantile}", "{welfare}", "end"]), min_size=1, max_size=5).filter(lambda l: "{SSP}" in l)}),
        run_model, 60, 1500, "the row selected from a synthetic database with decoy scenarios; non-trivial with several different pieces"),
]
