"""The generated parameter reference (docs/scripts/mkdocs_hooks.py and the parsers' own descriptions)."""
import copy
import importlib.util
import os
import re
import textwrap

import yaml
from hypothesis import strategies as st

from vp import conf, modelkit
from vp.core import REPO, Discard, Outcome, Sub, expect, sut

PID = "C28"
_hooks = {}


def hooks():
    if "mod" not in _hooks:
        with sut("loading the documentation hooks"):
            spec = importlib.util.spec_from_file_location("vp_doc_hooks", os.path.join(REPO, "docs/scripts/mkdocs_hooks.py"))
            mod = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(mod)
            _hooks["mod"] = mod
            _hooks["page"] = mod.on_page_markdown("{params::reference}")
    return _hooks["mod"]


def page():
    hooks()
    return _hooks["page"]


# ------------------------------------------------------------------ reading a generated page
TOKEN = re.compile(r'<div id="(?P<open>[^"]*)" class="param_group"|(?P<close></div>\s*</div>)|\?\?\? parameter "(?P<leaf>[^"\n]*)"', re.M)


def entries(text):
    """[(groups it stands in, name, text of the entry)]"""
    out, stack, toks = [], [], list(TOKEN.finditer(text))
    for i, k in enumerate(toks):
        end = toks[i + 1].start() if i + 1 < len(toks) else len(text)
        if k.group("open") is not None:
            stack.append(k.group("open"))
        elif k.group("close") is not None:
            stack = stack[:-1]
        else:
            out.append((tuple(stack), k.group("leaf"), text[k.end() : end]))
    return out


HEADING = re.compile(r'<div id="([^"]*)" class="param_group"[^>]*>\s*^(#+) (.*?)(?:\{[^{}\n]*\})?\s*$', re.M)


def headings(text):
    """[(level, groups named by the heading)] of the groups"""
    return [(len(m.group(2)), m.group(1), [squeeze(x) for x in re.sub(r"<[^<>]*>", "", m.group(3)).split(" > ")]) for m in HEADING.finditer(text)]


def squeeze(x):
    return " ".join(str(x).split())


def number(x):
    try:
        return float(x)
    except ValueError:
        return None


def same(shown, value):
    if isinstance(value, (int, float)) and not isinstance(value, bool):
        return number(shown) is not None and abs(number(shown) - value) <= 1e-12 * max(1, abs(value))
    return shown == squeeze(value)


def judge_entry(path, spec, text):
    name = ".".join(path)
    ids = re.findall(r'id="([^"]*)"', text)
    expect(ids == [name], f"the entry of {name} has the anchor(s) {ids}")
    about, sep, example = text.partition("Example usage")
    expect(sep, f"the entry of {name} has no example")
    fields = dict((k, squeeze(v)) for k, v in re.findall(r"^[ ]*- ([A-Z][A-Za-z ]*):[ ]?(.*)$", about, re.M))
    body = squeeze(about)
    expect(squeeze(spec.get("descr", "")) in body, f"the entry of {name} does not contain its description")
    want = {"Type": spec["type"], "Default": spec.get("default"), "Can be false": bool(spec.get("can_be_false", False))}
    if spec["type"] in ("int", "float"):
        for k, none in (("min", "-inf"), ("max", "inf")):
            shown = fields.get(k.capitalize())
            expect(shown is not None, f"the entry of {name} states no {k}")
            if k in spec and spec[k] is not None:
                expect(same(shown, spec[k]), f"the entry of {name} states {k} {shown}, declared is {spec[k]}")
            else:
                expect(shown in ("None", none, "+" + none), f"the entry of {name} states {k} {shown}, none is declared")
    if spec["type"] == "quantity":
        want["Unit"] = spec["unit"]
    for k, x in want.items():
        expect(k in fields, f"the entry of {name} does not state: {k}")
        expect(same(fields[k], x), f"the entry of {name} states {k}: {fields[k]}; declared is {x}")
    if spec["type"] == "enum":
        listed = [squeeze(x) for x in re.findall(r"^[ ]*- (.*)$", about.partition("Allowed values:")[2], re.M)]
        expect(listed == [squeeze(x) for x in spec["values"]], f"the entry of {name} lists the values {listed}, declared are {spec['values']}")
    return example


def blank(paths):
    out = {}
    for p in paths:
        d = out
        for k in p[:-1]:
            d = d.setdefault(k, {})
        d[p[-1]] = "untouched"
    return out


def example_code(path, example):
    m = re.search(r"```python[^\n]*\n(.*?)```", example, re.S)
    expect(m, f"the entry of {'.'.join(path)} has no example code")
    return textwrap.dedent(m.group(1).strip("\n"))


def run_example(path, spec, code, paths):
    name = ".".join(path)
    given, start = [], blank(paths)
    space = {"load_params": lambda: start, "MIMOSA": lambda p: given.append(copy.deepcopy(p))}
    try:
        exec(compile(code, "example", "exec"), space)  # three lines: load, set one parameter, build
    except Exception as exc:
        expect(False, f"the example of {name} fails: {type(exc).__name__}: {exc}\n{code}")
    expect(len(given) == 1, f"the example of {name} does not build a model")
    want = blank(paths)
    d = want
    for k in path[:-1]:
        d = d[k]
    d[path[-1]] = spec.get("default")
    expect(given[0] == want, f"the example of {name} does not set it (and only it) to its default:\n{code}")


# ------------------------------------------------------------------ references of generated declarations
WORDS = ["alpha", "beta", "carbon budget", "max_level", "Group 7", "slr", "T0", "PRTP", "min level", "not after 2100", "x1", "cost"]
word = st.sampled_from(WORDS)
number_st = st.one_of(st.integers(-5000, 5000), st.floats(-100, 100, allow_nan=False).map(lambda x: round(x, 4)))
descr = st.lists(st.sampled_from(["Level", "of", "the", "limit (in %)", "see 2100", "e.g. 3,", "per year", "[GtCO2]", "if false: none"]), min_size=1, max_size=7).map(" ".join)


@st.composite
def leaf(draw):
    t = draw(st.sampled_from(["int", "float", "float", "bool", "str", "filepath", "enum", "quantity", "list", "dict"]))
    out = {"type": t, "descr": draw(descr)}
    if draw(st.booleans()):
        out["can_be_false"] = draw(st.booleans())
    if t in ("int", "float"):
        x = draw(st.integers(-3000, 3000)) if t == "int" else draw(number_st)
        out["default"] = x
        if draw(st.booleans()):
            out["min"] = x - draw(st.sampled_from([0, 1, 2.5, 1000])) if t == "float" else x - draw(st.integers(0, 50))
        if draw(st.booleans()):
            out["max"] = x + draw(st.sampled_from([0, 1, 0.125, 9])) if t == "float" else x + draw(st.integers(0, 50))
    elif t == "bool":
        out["default"] = draw(st.booleans())
    elif t in ("str", "filepath"):
        out["default"] = draw(st.sampled_from(["abc", "a b", "x/y.csv", "run-1", ""]))
    elif t == "enum":
        vals = draw(st.lists(st.one_of(word, st.integers(0, 9), st.sampled_from([0.025, 0.5])), min_size=1, max_size=4, unique_by=str))
        out["values"], out["default"] = vals, draw(st.sampled_from(vals))
    elif t == "quantity":
        out["unit"] = draw(st.sampled_from(["GtCO2", "delta_degC", "USD2005/tCO2", "emissionsrate_unit"]))
        num = draw(st.sampled_from([1, 2.5, 600, -3]))
        out["default"] = f"{num} " + {"emissionsrate_unit": "GtCO2/yr"}.get(out["unit"], out["unit"])
    elif t == "list":
        out["default"] = draw(st.sampled_from([[], ["a"], ["a", "b"], None]))
    else:
        out["default"] = draw(st.sampled_from([{}, {"a": None}, {"b": 1}, None]))
    if out.get("can_be_false") and draw(st.booleans()) and t not in ("enum",):
        out["default"] = False
    return out


def unique_tree(keys, leaf_or_tree):
    return st.lists(st.tuples(keys, leaf_or_tree), min_size=1, max_size=4, unique_by=lambda kv: kv[0])


trees = st.recursive(leaf().map(lambda x: ["leaf", x]), lambda sub: unique_tree(word, sub).map(lambda kv: ["group", [list(x) for x in kv]]), max_leaves=12)
tree_cases = st.fixed_dictionaries(
    {"tree": unique_tree(word, trees).map(lambda kv: ["group", [list(x) for x in kv]]), "before": st.sampled_from(["", "# Title\n\n", "text {x}\n"]), "after": st.sampled_from(["", "\n\nmore <b>text</b>", "{x}"])}
)


def flat(tree, path=()):
    for k, (kind, x) in tree[1]:
        if kind == "leaf":
            yield path + (k,), x
        else:
            yield from flat((kind, x), path + (k,))


def parsers(tree, make):
    return {k: make(x) if kind == "leaf" else parsers((kind, x), make) for k, (kind, x) in tree[1]}


def judge_page(text, decl):
    found = [(g + (n,), body) for g, n, body in entries(text)]
    paths = [p for p, _ in found]
    expect(sorted(paths) == sorted(decl), f"the reference has entries {sorted(set(paths) - set(decl)) or paths}; missing or misplaced: {sorted(set(decl) - set(paths))}")
    groups = sorted({p[:i] for p in decl for i in range(1, len(p))})
    shown = headings(text)
    expect(sorted(tuple(names) for _, _, names in shown) == groups, f"the headings name the groups {[' > '.join(n) for _, _, n in shown]}; the groups are {[' > '.join(g) for g in groups]}")
    for level, key, names in shown:
        expect(names[-1] == key, f"the group {key} has the heading {' > '.join(names)}")
        expect(level == len(names) + 1, f"the heading of the group {' > '.join(names)} is of level {level}")
    for path, body in found:
        example = judge_entry(path, decl[path], body)
        run_example(path, decl[path], example_code(path, example), list(decl))


def run_generated(case):
    from mimosa.common.config.utils.parsers import PARSER_FACTORY
    from mimosa.common import quant

    h = hooks()
    if not hasattr(h, "parser_tree"):
        raise Discard()
    decl = dict(flat(case["tree"]))
    with sut("declaring generated settings"):
        tree = parsers(case["tree"], lambda spec: PARSER_FACTORY.create_parser(copy.deepcopy(spec), quant))
    old = h.parser_tree
    try:
        h.parser_tree = tree
        with sut("generating the parameter reference"):
            text = h.on_page_markdown(case["before"] + "{params::reference}" + case["after"])
    finally:
        h.parser_tree = old
    real = page().strip()
    if real and real in text:  # the reference is made from something else
        raise Discard()
    expect(text.startswith(case["before"]) and text.endswith(case["after"]), "text around the reference is changed")
    judge_page(text, decl)
    return Outcome(len(decl) > 1, f"{min(len(decl), 9)} settings")


# ------------------------------------------------------------------ the reference of the declared settings
def run_declared(case):
    """Examples of the real reference, executed one after another (on real parameters), still mean the defaults."""
    text = page()
    found = {g + (n,): body for g, n, body in entries(text)}
    if case["whole"]:
        judge_page(text, conf.LEAVES)
    chosen = [tuple(p) for p in case["paths"]]
    from mimosa import load_params
    from mimosa.common.config.parseconfig import check_params

    with sut("loading the default parameters"):
        params = load_params()
        base = check_params({})
    for p in chosen:
        expect(p in found, f"the reference has no entry for {'.'.join(p)}")
        code = example_code(p, judge_entry(p, conf.LEAVES[p], found[p]))
        space = {"load_params": lambda: params, "MIMOSA": lambda q: None}
        try:
            exec(compile(code, "example", "exec"), space)
        except Exception as exc:
            expect(False, f"the example of {'.'.join(p)} fails: {type(exc).__name__}: {exc}")
    with sut("using the parameters set by the examples"):
        got = check_params(copy.deepcopy(params))
    expect(got == base, f"settings of the examples of {['.'.join(p) for p in chosen]} do not give the default configuration")
    return Outcome(len(chosen) > 1, "whole page" if case["whole"] else None)


declared_cases = st.fixed_dictionaries(
    {"whole": st.booleans(), "paths": st.lists(st.sampled_from(sorted(conf.LEAVES)).map(list), min_size=1, max_size=12)}
)


# ------------------------------------------------------------------ parser types
def run_types(case):
    h = hooks()
    with sut("generating the parser types"):
        text = h.on_page_markdown(case["before"] + "{parsers::types}" + case["after"])
    expect(text.startswith(case["before"]) and text.endswith(case["after"]), "text around the parser types is changed")
    from mimosa.common.config.parseconfig import check_params

    parts = re.split(r'^[ ]*\?\?\? parameter "([^"\n]*)"', text, flags=re.M)
    names = parts[1::2]
    used = {s["type"] for s in conf.LEAVES.values()}
    expect(used <= set(names), f"types without a description: {sorted(used - set(names))}")
    expect(len(set(names)) == len(names), f"types described twice: {names}")
    for name, body in zip(names, parts[2::2]):
        expect(f'id="parser-{name}"' in body, f"type {name} has no anchor of its own")
        blocks = re.findall(r"```yaml[^\n]*\n(.*?)```", body, re.S)
        expect(bool(blocks) == (name in used), f"type {name}: {len(blocks)} examples, {'used' if name in used else 'not used'} by a setting")
        for b in blocks:
            try:
                val = yaml.safe_load(textwrap.dedent(b))
            except yaml.YAMLError as exc:
                expect(False, f"the example of type {name} is no YAML: {exc}")
            leaves = list(conf.leaves(val))
            expect(len(leaves) == 1, f"the example of type {name} declares {len(leaves)} settings")
            path, spec = leaves[0]
            expect(path in conf.LEAVES and conf.LEAVES[path] == spec, f"the example of type {name} is not the declaration of {'.'.join(path)}: {spec}")
            expect(spec["type"] == name, f"the example of type {name} is of type {spec['type']}")
    return Outcome(True)


type_cases = st.fixed_dictionaries({"before": st.sampled_from(["", "# Title\n\n", "text {x}\n"]), "after": st.sampled_from(["", "\n\nmore", "{x}"])})

# ------------------------------------------------------------------ mentions of model parameters
OTHER = {  # a value different from the default
    "economics.MAC.gamma": "1000 USD2005/tCO2",
    "economics.MAC.LBD_scaling": "77 GtCO2",
    "temperature.initial": "1.3 delta_degC",
    "temperature.TCRE": "0.7 delta_degC/TtCO2",
    "temperature.target": "1.9 delta_degC",
    "emissions.carbonbudget": "777 GtCO2",
    "emissions.global min level": "-7 GtCO2/yr",
    "emissions.regional min level": "-3 GtCO2/yr",
}
KNOWN = sorted(
    "use_carbon_intensity_for_baseline cumulative_emissions_trapz T0 TCRE temperature_target perc_reversible_damages budget inertia_global inertia_regional "
    "global_min_level regional_min_level non_increasing_emissions_after_2100 no_pos_emissions_after_budget_year damage_scale_factor MAC_gamma MAC_beta "
    "rel_mitigation_costs_min_level LBD_rate LBD_scaling LOT_rate alpha dk sr ignore_damages elasmu PRTP".split()
)
# not one setting each; the last ones are the beginning of other names
PLAIN = ["MAC_scaling_factor", "init_capitalstock_factor", "damage_noslr_b1", "TFP", "dt", "temperature", "rel_mitigation_costs"]
NONE = ["nosuchname", "zzz_1", "T0_", "budget2", "T", "rel"]
SMALL = {"time": {"start": 2020, "end": 2040, "dt": 10}, "regions": {"CAN": None, "USA": None}, "temperature": {"target": "2.2 delta_degC"}}
MANUAL = [p for p in sorted(conf.LEAVES) if re.fullmatch(r"[a-zA-Z0-9_.]+", ".".join(p))]
TITLES = ["quantile of damages", "some setting", "Zeta2", "budget", "alpha level", "temperature", "T0"]


def different(path):
    name, spec = ".".join(path), conf.LEAVES[path]
    if name in OTHER:
        return OTHER[name]
    d, t = spec.get("default"), spec["type"]
    if t == "bool":
        return not d
    if t == "enum":
        return next((x for x in spec["values"] if x != d), None)
    if t in ("int", "float"):
        lo, hi = spec.get("min", -1e9), spec.get("max", 1e9)
        for x in (0.9 * (d or 0), 1.1 * (d or 0), (d or 0) - 0.01, (d or 0) + 0.01, (d or 0) + 1):
            if x != d and x and lo <= x <= hi:
                return x
    return None


def values(cfg, name):
    m = modelkit.build(cfg).concrete_model
    p = m.component(name)
    with sut(f"reading {name}"):
        return {k: p[k].value if hasattr(p[k], "value") else p[k] for k in p.sparse_keys()}


def supplies(path, name):
    """Does changing the setting change the model parameter?"""
    key = ("supplies", path, name)
    if key not in _hooks:
        x = different(path)
        if x is None:
            return False
        cfg = copy.deepcopy(SMALL)
        d = cfg
        for k in path[:-1]:
            d = d.setdefault(k, {})
        d[path[-1]] = x
        _hooks[key] = values(cfg, name) != values(SMALL, name)
    return _hooks[key]


def judge_summary(where, path, text):
    spec = conf.LEAVES[path]
    shown = squeeze(text)
    parts = [squeeze(spec.get("descr", "")), f"Type: {spec['type']}", f"Default: {squeeze(spec.get('default'))}"]
    if spec["type"] == "quantity":
        parts.append(f"Unit: {spec['unit']}")
    for p in parts:
        expect(p in shown, f"{where} is described without '{p}': {shown}")
    expect(("can also be false" in shown.lower()) == bool(spec.get("can_be_false")), f"{where} is described with the wrong choice of false: {shown}")
    if spec["type"] in ("int", "float"):
        for k in ("min", "max"):
            if spec.get(k) is not None:
                m = re.search(rf"{k.capitalize()}: (\S+)\.(?:\s|$)", shown)
                expect(m and same(m.group(1), spec[k]), f"{where} is described without its {k} {spec[k]}: {shown}")
    if spec["type"] == "enum":
        for x in spec["values"]:
            expect(str(x) in shown, f"{where} is described without its value {x}: {shown}")


def run_mentions(case):
    h = hooks()
    known_ids = {".".join(p): p for p in conf.LEAVES}
    pieces = []
    for kind, x in case["parts"]:
        pieces.append({"param": f"param::{x}", "manual": f"manualparam::{x}", "text": x}[kind])
    seps = [f"<p>|{i}|</p>" for i in range(len(pieces) + 1)]
    html = seps[0] + "".join(f"<li>{p}</li>{s}" for p, s in zip(pieces, seps[1:]))
    with sut("rendering a page"):
        out = h.on_page_content(html)
    expect(isinstance(out, str), f"a page is rendered to {type(out).__name__}")
    expect([s for s in re.findall(r"<p>\|\d+\|</p>", out)] == seps, "text between the mentions is changed")
    parts = re.split(r"<p>\|\d+\|</p>", out)[1:-1]
    for (kind, x), p, got in zip(case["parts"], pieces, parts):
        expect(got.startswith("<li>") and got.endswith("</li>"), f"text around {p} is changed: {got}")
        got = got[4:-5]
        if kind == "text" or x in NONE:
            expect(got == p, f"{p!r} becomes {got!r}")
            continue
        if kind == "param" and x in PLAIN:
            expect(x in got and "param::" not in got and "href" not in got, f"{p} becomes {got!r}")
            continue
        m = re.fullmatch(r"\s*<a href=['\"]([^'\"#]*)#([^'\"]*)['\"]>(.*?)</a>(.*)", got, re.S)
        expect(m, f"{p} does not become a link: {got!r}")
        expect(m.group(1).rstrip("/").endswith("parameters"), f"{p} links to the page {m.group(1)}")
        expect(m.group(2) in known_ids, f"{p} links to {m.group(2)}, which has no entry in the reference")
        path = known_ids[m.group(2)]
        if kind == "param":
            expect(f"<code>{x}</code>" in m.group(3), f"{p} is shown as {m.group(3)}")
            expect(supplies(path, x), f"{p} links to the setting {m.group(2)}, which does not determine it")
        else:
            title, goal = x.split("::")
            expect(m.group(2) == goal and title in m.group(3), f"{p} becomes a link {m.group(3)} to {m.group(2)}")
        judge_summary(p, path, m.group(4))
    kinds = {k for k, _ in case["parts"]}
    return Outcome("param" in kinds and len(pieces) > 1, "+".join(sorted(kinds)))


mention = st.one_of(
    st.sampled_from(KNOWN).map(lambda x: ["param", x]),
    st.sampled_from(KNOWN).map(lambda x: ["param", x]),
    st.sampled_from(KNOWN).map(lambda x: ["param", x]),
    st.sampled_from(PLAIN + NONE).map(lambda x: ["param", x]),
    st.tuples(st.sampled_from(TITLES), st.sampled_from(MANUAL)).map(lambda x: ["manual", f"{x[0]}::{'.'.join(x[1])}"]),
    st.sampled_from(["plain", "a param : x", "<code>budget</code>", "T0 and alpha"]).map(lambda x: ["text", x]),
)
mention_cases = st.fixed_dictionaries({"parts": st.lists(mention, min_size=1, max_size=8)})

SUBS = [
    Sub("generated declarations", tree_cases, run_generated, quick=600, thorough=30000, rule="a reference made from at least two generated declarations, each example executed"),
    Sub("declared settings", declared_cases, run_declared, quick=80, thorough=2000, rule="at least two examples of the real reference executed in sequence"),
    Sub("parser types", type_cases, run_types, quick=16, thorough=60, rule="each parser type's example read back"),
    Sub("mentions", mention_cases, run_mentions, quick=250, thorough=6000, rule="a page with at least two pieces, one of them a mention of a model parameter"),
]
ASSUMPTIONS = [
    "the hooks are called as mkdocs calls them (on_page_markdown, on_page_content); mkdocs itself is not installed",
]
