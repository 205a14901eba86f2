"""C02: undeclared or out-of-domain settings are rejected."""
import copy

from hypothesis import strategies as st

from vp import conf
from vp.core import Outcome, Sub, Violation, expect, quiet, sut

with sut("importing mimosa"):
    from mimosa.common.config.parseconfig import check_params
    from mimosa import MIMOSA


def materialise(v):
    if v == "__nan__":
        return float("nan")
    if isinstance(v, list):
        return [materialise(x) for x in v]
    return v


def put(d, path, value):
    for k in path[:-1]:
        d = d.setdefault(k, {})
    d[path[-1]] = value


def must_reject(user, what):
    try:
        with quiet():
            got = check_params(copy.deepcopy(user))
    except Exception:
        got = None
    else:
        raise Violation(f"accepted a configuration with {what}; user settings: {user!r}")


def run_value(case):
    path = tuple(case["path"])
    user = conf.nest([s for s in case["base"] if tuple(s[0]) != path])
    with sut("loading the valid part"):
        check_params(copy.deepcopy(user))
    bad = materialise(case["bad"])
    put(user, path, bad)
    must_reject(user, f"{' - '.join(path)} = {bad!r} (declared {conf.LEAVES[path]['type']})")
    if case["build"]:
        try:
            with quiet():
                MIMOSA(copy.deepcopy(user))
        except Exception:
            pass
        else:
            raise Violation(f"MIMOSA built a model with {' - '.join(path)} = {bad!r}")
    return Outcome(True, f"{conf.LEAVES[path]['type']} {'.'.join(path)}")


def run_unknown(case):
    user = conf.nest(case["base"])
    group, kind = tuple(case["group"]), case["kind"]
    d = conf.DECL
    for k in group:
        d = d[k]
    names = sorted(d)
    if kind == "misspell":
        name = conf.misspell(names[case["i"] % len(names)], *case["how"])
    elif kind == "foreign":  # a name that is declared, but in another place
        name = sorted({p[-1] for p in conf.LEAVES} | {k for g in conf.GROUPS for k in g})[case["i"] % 60]
    elif kind == "flat":  # the documented "a - b" spelling used as one key
        rest = [p for p in conf.LEAVES if p[: len(group)] == group and len(p) > len(group) + 1]
        if not rest:
            return Outcome(False, "no nested parameter here")
        name = " - ".join(rest[case["i"] % len(rest)][len(group):])
    else:
        name = case["kind"]
    if name in d or name == "":
        return Outcome(False, "name exists")
    # value may itself be nested: the undeclared leaf is then deeper
    value = 1.5 if case.get("value") is None else case["value"]
    for k in case["deeper"]:
        value = {k: value}
    if kind == "flat":
        leafspec = conf.LEAVES[group + tuple(name.split(" - "))]
        value = conf.convert(leafspec, leafspec.get("default"))
    target = user
    for k in group:
        target = target.setdefault(k, {})
    target[name] = value
    must_reject(user, f"the undeclared parameter {' - '.join(group + (name,))}")
    return Outcome(True, kind)


def run_shape(case):
    """A whole group replaced by a plain value."""
    user = conf.nest(case["base"])
    group = tuple(case["group"])
    put(user, group, materialise(case["value"]))
    must_reject(user, f"group {' - '.join(group)} = {case['value']!r}")
    return Outcome(True)


def run_extra_leaf(case):
    """Sub-settings under a parameter that is not a dictionary."""
    path = tuple(case["path"])
    user = conf.nest([s for s in case["base"] if tuple(s[0]) != path])
    put(user, path, {case["key"]: case["value"]})
    must_reject(user, f"settings nested under {' - '.join(path)}")
    return Outcome(True)


base = conf.settings_list(4)
bad = st.sampled_from(conf.ALL_PATHS).filter(lambda p: p != ("simulation", "constraint_variables") or True).flatmap(
    lambda p: st.fixed_dictionaries({"path": st.just(list(p)), "bad": conf.bad_value(p, conf.LEAVES[p]), "base": base, "build": st.sampled_from([False] * 9 + [True])})
)


def _filter_dict_none(c):
    # a blank (None) list or dictionary means "empty", which is declared
    return not (c["bad"] is None and conf.LEAVES[tuple(c["path"])]["type"] in ("list", "dict"))


scalar_paths = [p for p in conf.ALL_PATHS if conf.LEAVES[p]["type"] not in ("dict", "datasource")]
SUBS = [
    Sub("value", bad.filter(_filter_dict_none), run_value, 800, 20000,
        "one bad value (type, bounds, allowed values, dimension, not-a-number, incomplete source) at any declared parameter among valid settings"),
    Sub("integers", st.sampled_from([p for p in conf.ALL_PATHS if conf.LEAVES[p]["type"] == "int"]).flatmap(
        lambda p: st.fixed_dictionaries({"path": st.just(list(p)), "bad": conf.bad_value(p, conf.LEAVES[p]), "base": conf.settings_list(2), "build": st.sampled_from([False] * 9 + [True])})), run_value, 200, 4000,
        "a value that is not a whole number within the bounds (a fraction as number or as text, infinite, not a number, text, list) for an integer parameter"),
    Sub("unknown", st.fixed_dictionaries({
        "base": base, "group": st.sampled_from(conf.GROUPS).map(list), "i": st.integers(0, 100), "how": conf.MISSPELL.map(list),
        "kind": st.sampled_from(["misspell", "misspell", "foreign", "flat", "unknown parameter", "x"]),
        "deeper": st.sampled_from([[], [], ["a"], ["start"], ["a", "b"]]),
        "value": st.sampled_from([1.5, 1.5, 0, "", False, [], {}]),
    }), run_unknown, 500, 15000, "an undeclared name (misspelt, from another place, the flat 'a - b' spelling) at any depth; non-trivial when the name is indeed undeclared there"),
    Sub("shape", st.fixed_dictionaries({"base": conf.settings_list(2), "group": st.sampled_from([g for g in conf.GROUPS if g]).map(list), "value": st.sampled_from([5, 1.5, "abc", ["a"], True])}),
        run_shape, 100, 2000, "a group of parameters replaced by a plain value"),
    Sub("nested_under_leaf", st.fixed_dictionaries({"base": conf.settings_list(2), "path": st.sampled_from(scalar_paths).map(list), "key": st.sampled_from(["a", "start", "default", "value"]), "value": st.sampled_from([1, "x", 0.5, False])}),
        run_extra_leaf, 150, 3000, "sub-settings below a scalar or list parameter"),
]
