"""C01: accepted configurations are complete, typed and in their declared domain."""
import os
import tempfile

import yaml
from hypothesis import strategies as st

from vp import conf
from vp.core import Outcome, Sub, Violation, expect, sut

with sut("importing mimosa"):
    from mimosa.common.config.parseconfig import check_params, load_params


def in_domain(path, spec, v):
    if v is False and spec.get("can_be_false"):
        return
    t, name = spec["type"], " - ".join(path)
    if t in ("float", "int"):
        expect(type(v) is (float if t == "float" else int), f"{name} is a {type(v).__name__}, declared {t}")
        expect(spec.get("min", float("-inf")) <= v <= spec.get("max", float("inf")), f"{name} = {v} outside declared bounds")
    elif t == "bool":
        expect(isinstance(v, bool), f"{name} = {v!r} is not a boolean")
    elif t == "enum":
        expect(v in spec["values"], f"{name} = {v!r} is not an allowed value")
    elif t == "list":
        expect(isinstance(v, list), f"{name} = {v!r} is not a list")
    elif t in ("dict", "datasource"):
        expect(isinstance(v, dict), f"{name} = {v!r} is not a dictionary")


def judge(user, got):
    exp = conf.expected(user)
    d = conf.diff(exp, got)
    expect(d is None, f"loaded configuration differs from declaration + user settings: {d}")
    for path, spec in conf.LEAVES.items():
        in_domain(path, spec, conf.get(got, path))


def run_load(case):
    user = conf.nest(case["set"])
    with sut("loading a valid configuration"):
        got = check_params(user)
        got2, tree = check_params(user, True)
    judge(user, got)
    expect(conf.same(got, got2), "the result depends on whether the declarations are returned too")
    for path, spec in conf.LEAVES.items():
        with sut("declarations returned with the configuration"):
            p = conf.get(tree, path)
        expect(p.type == spec["type"], f"declared type of {path} is {spec['type']}, reported {p.type}")
    return Outcome(len(case["set"]) > 0, [f"n={min(len(case['set']), 10)}"] + ["leaf " + conf.LEAVES[tuple(s[0])]["type"] for s in case["set"]])


def run_order(case):
    a, b = conf.nest(case["set"]), conf.nest(case["set"][::-1])
    with sut("loading a valid configuration"):
        ga, gb = check_params(a), check_params(b)
    d = conf.diff(ga, gb)
    expect(d is None, f"the result depends on the order of the settings: {d}")
    # empty groups mean nothing
    c = conf.nest(case["set"])
    for g in case["empty"]:
        d = c
        for k in g:
            d = d.setdefault(k, {})
    with sut("loading a configuration with empty groups"):
        gc = check_params(c)
    d = conf.diff(ga, gc)
    expect(d is None, f"an empty group changes the result: {d}")
    return Outcome(len(case["set"]) > 1)


def run_yaml(case):
    user = conf.nest(case["set"])
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, "user.yaml")
        with open(path, "w", encoding="utf8") as fh:
            yaml.safe_dump(user, fh, sort_keys=False)
        with open(path, encoding="utf8") as fh:
            if not conf.same(yaml.safe_load(fh) or {}, user):
                return Outcome(False, "yaml cannot hold the values")
        with sut("load_params"):
            got = load_params(path)
    judge(user, got)
    with sut("load_params()"):
        judge({}, load_params())
    return Outcome(len(case["set"]) > 0)


def run_single(case):
    """Each declared parameter on its own: only that one changes."""
    path, value = case["set"][0]
    user = conf.nest(case["set"])
    with sut("loading a valid configuration"):
        got, base = check_params(user), check_params({})
    judge(user, got)
    judge({}, base)
    changed = [p for p in conf.LEAVES if not conf.same(conf.get(got, p), conf.get(base, p))]
    expect(changed in ([], [tuple(path)]), f"setting {path} changed {changed}")
    return Outcome(bool(changed), ".".join(path))


one = st.sampled_from(conf.ALL_PATHS).flatmap(lambda p: conf._valid(p)).map(lambda s: {"set": [s]})
SUBS = [
    Sub("load", conf.settings_list(16).map(lambda s: {"set": s}), run_load, 700, 20000,
        "random subsets of all declared parameters with valid values in any accepted spelling; non-trivial when at least one is set"),
    Sub("single", one, run_single, 500, 10000, "one parameter set, all others must keep their defaults; non-trivial when the value differs from the default"),
    Sub("order", st.fixed_dictionaries({"set": conf.settings_list(10), "empty": st.lists(st.sampled_from(conf.GROUPS).map(list), max_size=3)}),
        run_order, 250, 5000, "settings in two orders and with empty groups added; non-trivial with at least two settings"),
    Sub("yamlfile", conf.settings_list(10).map(lambda s: {"set": s}), run_yaml, 200, 4000, "the same configuration through a YAML file"),
]
