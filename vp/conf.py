"""Independent reading of the declared settings, and generators of valid and invalid values for them."""
import copy
import os

import yaml
from hypothesis import strategies as st

from vp.core import REPO

with open(os.path.join(REPO, "mimosa/inputdata/config/config_default.yaml"), encoding="utf8") as _fh:
    DECL = yaml.safe_load(_fh)

FALSY = [0, False, "False", "false", "no"]
TRUTHY = [1, True, "True", "true", "yes"]


def leaves(node=None, path=()):
    node = DECL if node is None else node
    for k, v in node.items():
        if isinstance(v, dict) and "type" in v:
            yield path + (k,), v
        elif isinstance(v, dict):
            yield from leaves(v, path + (k,))


LEAVES = dict(leaves())
GROUPS = sorted({p[:i] for p in LEAVES for i in range(len(p))})
REGIONS = list(DECL["regions"]["default"])


def convert(spec, value):
    """What the declaration says a (valid) value becomes."""
    if spec.get("can_be_false") and any(value is f or (not isinstance(value, bool) and value == f and isinstance(f, str)) for f in FALSY):
        return False
    t = spec["type"]
    if t == "float":
        return float(value)
    if t == "int":
        return int(value)
    if t == "bool":
        if value in TRUTHY:
            return True
        assert value in FALSY
        return False
    if t in ("str", "filepath"):
        return str(value)
    if t == "str_or_plain_dict":
        return value if isinstance(value, dict) else str(value)
    if t in ("enum", "quantity"):
        return value
    if t == "list":
        sub = spec.get("values")
        return [convert(sub, v) if sub else v for v in (value or [])]
    if t in ("dict", "datasource"):
        ks, vs = spec.get("keys"), spec.get("values")
        return {(convert(ks, k) if ks else k): (convert(vs, v) if vs else v) for k, v in (value or {}).items()}
    raise AssertionError(t)


def nest(settings):
    out = {}
    for path, value in settings:
        d = out
        for k in path[:-1]:
            d = d.setdefault(k, {})
        d[path[-1]] = copy.deepcopy(value)
    return out


def get(d, path):
    for k in path:
        d = d[k]
    return d


def expected(user):
    """Reference configuration: every declared leaf, user's value or default, converted."""
    out = {}
    for path, spec in LEAVES.items():
        try:
            v = get(user, path)
        except KeyError:
            v = spec.get("default")
        d = out
        for k in path[:-1]:
            d = d.setdefault(k, {})
        d[path[-1]] = copy.deepcopy(convert(spec, v))
    return out


def same(a, b):
    """Deep equality that also distinguishes types (True from 1, 1 from 1.0 where it matters)."""
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if type(a) is not type(b):
        return False
    return a == b or (a != a and b != b)


def diff(a, b, path=()):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a:
                return f"{' - '.join(map(str, path + (k,)))} unexpected: {b[k]!r}"
            if k not in b:
                return f"{' - '.join(map(str, path + (k,)))} missing (expected {a[k]!r})"
            d = diff(a[k], b[k], path + (k,))
            if d:
                return d
        return None
    if not same(a, b):
        return f"{' - '.join(map(str, path))}: expected {a!r}, got {b!r}"
    return None


# ---------------------------------------------------------------------------------------------- values
UNITS = {  # compatible spellings per declared unit
    "emissions_unit": ["GtCO2", "MtCO2", "TtCO2", "Gt CO2", "Mt CO2", "GtCO2/yr*yr", "tCO2"],
    "emissionsrate_unit": ["GtCO2/yr", "MtCO2/yr", "Mt CO2/yr", "GtCO2/year", "TtCO2/yr"],
    "temperature_unit": ["delta_degC", "kelvin"],
    "(temperature_unit)/(emissions_unit)": ["delta_degC/(TtCO2)", "delta_degC/TtCO2", "delta_degC/GtCO2", "delta_degC/(1000 GtCO2)", "kelvin/TtCO2"],
    "currency_unit/emissionsrate_unit": ["USD2005/tCO2", "USD2010/tCO2", "US$2005/tCO2", "kUSD2005/tCO2", "USD2005/(t CO2)", "billion USD2005/GtCO2", "trillion USD2005/GtCO2"],
}
WRONG_UNITS = {
    "emissions_unit": ["GtCO2/yr", "m", "delta_degC", "USD2005", "yr"],
    "emissionsrate_unit": ["GtCO2", "delta_degC/yr", "USD2005/yr", "km/yr"],
    "temperature_unit": ["GtCO2", "m", "USD2005", "delta_degC/yr"],
    "(temperature_unit)/(emissions_unit)": ["delta_degC", "TtCO2/delta_degC", "delta_degC/(GtCO2/yr)", "m/TtCO2"],
    "currency_unit/emissionsrate_unit": ["USD2005", "tCO2/USD2005", "USD2005/yr", "USD2005/delta_degC"],
}


def finite(lo, hi):
    lo = -1e4 if lo is None else lo
    hi = 1e4 if hi is None else hi
    return st.one_of(st.floats(lo, hi), st.sampled_from([float(lo), float(hi), lo + (hi - lo) * 0.25]))


def numtext(v):
    return repr(float(v))


SRC_KEYS = ["variable", "unit", "scenario", "model", "file"]
plain = st.text("abcdefXYZ0189 ._|/-", min_size=1, max_size=8)


def valid_value(path, spec):
    t = spec["type"]
    if t == "float":
        base = finite(spec.get("min"), spec.get("max"))
        if spec.get("can_be_false"):
            base = base.filter(lambda v: v != 0)
        s = st.one_of(base, base.map(numtext), base.map(lambda v: v).filter(lambda v: v == int(v)).map(int) if False else base)
    elif t == "int":
        base = st.integers(spec["min"], spec["max"])
        s = st.one_of(base, base.map(str), base.map(float), base.filter(lambda v: v < spec["max"]).map(lambda v: v + 0.75))  # converted as Python does
    elif t == "bool":
        s = st.sampled_from([True, False, "True", "true", "yes", "False", "false", "no", 1, 0])
    elif t == "enum":
        s = st.sampled_from(spec["values"])
    elif t == "quantity":
        s = st.builds(lambda v, u: f"{numtext(v)} {u}", st.floats(-2000, 2000), st.sampled_from(UNITS[spec["unit"]]))
    elif t == "datasource":
        s = st.fixed_dictionaries({k: plain for k in SRC_KEYS})
    elif path == ("regions",):
        ov = st.one_of(st.none(), st.just({}), st.dictionaries(st.sampled_from(["MAC", "economics"]), st.dictionaries(plain, st.floats(-10, 10), max_size=2), max_size=2))
        s = st.one_of(st.none(), st.dictionaries(st.sampled_from(REGIONS + ["NEW", "WEU#"]), ov, max_size=5))
    elif path == ("regional_parameter_files",):
        s = st.one_of(st.none(), st.dictionaries(plain, st.fixed_dictionaries({"filename": plain, "regionstype": plain}), max_size=3))
    elif path == ("regionsmappings",):
        s = st.one_of(st.none(), st.lists(st.fixed_dictionaries({"regionstype1": plain, "regionstype2": plain, "conversiontable": plain}), max_size=3))
    elif path == ("simulation", "constraint_variables"):
        inner = st.dictionaries(st.sampled_from(["2020", "2030", "2040"]), st.dictionaries(st.sampled_from(REGIONS), st.floats(-5, 5), max_size=2), max_size=3)
        s = st.one_of(st.none(), st.dictionaries(st.sampled_from(["relative_abatement", "temperature", "x"]), st.one_of(plain, inner), max_size=3))
    elif path == ("simulation", "deactivated_constraints"):
        s = st.one_of(st.none(), st.lists(plain, max_size=3), st.lists(st.integers(0, 9), max_size=2))
    elif path == ("simulation", "custom_mapping"):
        s = st.one_of(st.none(), st.dictionaries(plain, st.one_of(st.floats(-5, 5), plain, st.lists(st.integers(0, 3), max_size=2)), max_size=3))
    else:
        raise AssertionError((path, t))
    if spec.get("can_be_false"):
        s = st.one_of(s, s, st.sampled_from([False, "False", "false", "no"]))
    return s


def _valid(path):
    return valid_value(path, LEAVES[path]).map(lambda v: [list(path), v])


ALL_PATHS = sorted(LEAVES)
SETTING = st.sampled_from(ALL_PATHS).flatmap(_valid)


def settings_list(max_size=14, min_size=0):
    """Settings for distinct parameters, in any order."""
    return st.lists(SETTING, min_size=min_size, max_size=max_size, unique_by=lambda s: tuple(s[0]))


# ------------------------------------------------------------------------------------------- bad values
def bad_value(path, spec):
    t = spec["type"]
    lo, hi = spec.get("min"), spec.get("max")
    junk = st.sampled_from(["test", "", "1.2.3", [], [1.0], {"a": 1}, None])
    if t in ("float", "int"):
        opts = [junk]
        opts.append(st.booleans())
        if t == "float":
            opts.append(st.sampled_from(["nan", "NaN"]))
            opts.append(st.just("__nan__"))
        else:
            frac = st.builds(lambda k, f: k + f, st.integers(int(lo), int(hi) - 1), st.sampled_from([0.5, 0.25, 0.999999, 0.0009765625]))
            opts.append(st.one_of(frac.map(str), st.sampled_from(["2020.5", "nan", "inf", "1e400", "__nan__", 1e300])))
        num = st.floats if t == "float" else (lambda a, b: st.integers(int(a), int(b)))
        if lo is not None:
            below = lo - 1 if t == "int" else lo - 1e-9 * max(1, abs(lo))
            opts.append(st.one_of(st.just(below), num(lo - 1e6, below), num(lo - 1e6, below).map(str)))
            opts.append(st.sampled_from([-1e300, "-inf"]) if t == "float" else st.just(-(10**12)))
        if hi is not None:
            above = hi + 1 if t == "int" else hi + 1e-9 * max(1, abs(hi))
            opts.append(st.one_of(st.just(above), num(above, hi + 1e6), num(above, hi + 1e6).map(str)))
            opts.append(st.sampled_from([1e300, "inf"]) if t == "float" else st.just(10**12))
        s = st.one_of(opts)
        if spec.get("can_be_false"):
            s = s.filter(lambda v: not (isinstance(v, (int, float)) and v == 0))  # 0 and false: switched off
    elif t == "bool":
        s = st.sampled_from([2, -1, 0.5, "maybe", "", "TRUE ", "on", "off", None, [], {"a": 1}, [True], "0", "1", "yes please"])
    elif t == "enum":
        vals = spec["values"]
        near = [str(v) + "x" for v in vals] + [v.upper() for v in vals if isinstance(v, str) and v.upper() not in vals] + [v.lower() for v in vals if isinstance(v, str) and v.lower() not in vals]
        near += [v + 1e-6 for v in vals if isinstance(v, float)] + [str(v) for v in vals if isinstance(v, float)]
        s = st.sampled_from(near + ["", None, 0.123, 17, [vals[0]], {"a": vals[0]}, False])
    elif t == "quantity":
        s = st.one_of(
            st.builds(lambda v, u: f"{numtext(v)} {u}", st.floats(-1000, 1000), st.sampled_from(WRONG_UNITS[spec["unit"]])),
            st.floats(-1000, 1000).filter(lambda v: v != 0).map(numtext),
            st.floats(-1000, 1000).filter(lambda v: v != 0),
            st.sampled_from(["test", "5 foounit", "5 GtCO22", [], None, True, "nan " + UNITS[spec["unit"]][0]]),
        )
        if not spec.get("can_be_false"):
            s = st.one_of(s, st.sampled_from([False, "False"]))
    elif t == "datasource":
        full = {k: "x" for k in SRC_KEYS}
        s = st.one_of(st.sampled_from(SRC_KEYS).map(lambda k: {a: b for a, b in full.items() if a != k}), st.sampled_from(["file.csv", 5, [], {}, True, None]))
    elif t == "list":
        s = st.sampled_from(["abc", 5, 1.5, {"a": 1}, True])
        if path == ("regionsmappings",):
            s = st.one_of(s, st.sampled_from([["abc"], [5], [["x"]], [{"regionstype1": "a"}, "b"]]))
    elif t == "dict":
        s = st.sampled_from(["abc", 5, 1.5, ["a"], True])
        if path in (("regions",), ("regional_parameter_files",)):
            s = st.one_of(s, st.sampled_from([{"CAN": "abc"}, {"CAN": 5}, {"CAN": None, "USA": ["a"]}]))
    else:
        raise AssertionError(t)
    return s


def misspell(name, how, k):
    k = k % max(1, len(name))
    if how == "drop":
        return name[:k] + name[k + 1:]
    if how == "dup":
        return name[:k] + name[k] + name[k:]
    if how == "case":
        return name.swapcase()
    if how == "sep":
        return name.replace(" ", "_") if " " in name else name.replace("_", " ") if "_" in name else name + "_"
    if how == "space":
        return name + " "
    return name + how


MISSPELL = st.tuples(st.sampled_from(["drop", "dup", "case", "sep", "space", "2", "s"]), st.integers(0, 30))
