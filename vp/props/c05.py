"""Quantities and units: conversion factors, algebra of conversions, and models built from respelled quantities."""
import numpy as np
from hypothesis import strategies as st

from vp import conf, conform, modelkit
from vp.core import Outcome, Sub, Violation, expect, quiet, sut

with sut("importing mimosa"):
    from mimosa.common import quant

# ------------------------------------------------------------------------------------------- unit grammar
# spelling -> (factor to the base of its dimension, dimension)
PREFIX = {"": 1, "k": 1e3, "M": 1e6, "G": 1e9, "T": 1e12, "P": 1e15, "kilo": 1e3, "mega": 1e6, "giga": 1e9, "tera": 1e12}
COUNT = {"thousand": 1e3, "million": 1e6, "billion": 1e9, "trillion": 1e12}
YEAR = 365.25 * 86400.0
TIME = {"yr": YEAR, "year": YEAR, "a": YEAR, "millennium": 1000 * YEAR, "century": 100 * YEAR, "day": 86400.0, "s": 1.0, "month": YEAR / 12}
ATOMS = {}
for p, f in PREFIX.items():
    ATOMS[f"{p}tCO2"] = (f, "E")
    if p in ("", "k", "M", "G"):
        ATOMS[f"{p}m"] = (f, "m")
    if len(p) <= 1:
        ATOMS[f"{p}t CO2"] = (f, "E")
        ATOMS[f"{p}USD2005"] = (f, "$")
        ATOMS[f"{p}USD2010"] = (f * 1.11, "$")
for n, f in COUNT.items():
    ATOMS[f"{n} tCO2"] = (f, "E")
    ATOMS[f"{n} people"] = (f, "P")
    for y, g in (("2005", 1.0), ("2010", 1.11)):
        ATOMS[f"{n} USD{y}"] = (f * g, "$")
        ATOMS[f"{n} US${y}"] = (f * g, "$")
    ATOMS[n] = (f, "")
ATOMS["mtCO2"] = (1e-3, "E")
ATOMS["people"] = (1.0, "P")
ATOMS["dimensionless"] = (1.0, "")
ATOMS["USD"] = (1.0, "$")
ATOMS["US$2005"] = (1.0, "$")
ATOMS["US$2010"] = (1.11, "$")
ATOMS["delta_degC"] = (1.0, "K")
ATOMS["kelvin"] = (1.0, "K")
ATOMS["millikelvin"] = (1e-3, "K")
ATOMS["delta_degF"] = (5.0 / 9.0, "K")
for n, f in TIME.items():
    ATOMS[n] = (f, "t")
ATOMS.update({"cm": (0.01, "m"), "mm": (1e-3, "m")})
DEFAULTS = {
    "currency_unit": (1e12 / YEAR, {"$": 1, "t": -1}),
    "emissionsrate_unit": (1e9 / YEAR, {"E": 1, "t": -1}),
    "emissions_unit": (1e9, {"E": 1}),
    "temperature_unit": (1.0, {"K": 1}),
    "population_unit": (1e9, {}),
}
BY_DIM = {}
for name, (f, d) in ATOMS.items():
    BY_DIM.setdefault(d, []).append(name)
SHAPES = [
    {"E": 1}, {"E": 1, "t": -1}, {"$": 1}, {"$": 1, "t": -1}, {"K": 1}, {"P": 1}, {"m": 1}, {"t": 1}, {},
    {"$": 1, "E": -1}, {"K": 1, "E": -1}, {"E": 1, "$": -1}, {"$": 1, "P": -1}, {"E": 1, "P": -1}, {"E": 1, "P": -1, "t": -1},
    {"$": 1, "P": -1, "t": -1}, {"m": 1, "t": -1},
]


def key(dims):
    return tuple(sorted((d, e) for d, e in dims.items() if e and d))


@st.composite
def spelled(draw, shape, target=False):
    """(text, factor) of some spelling of a unit with the given dimension."""
    if target:
        names = [n for n, (f, d) in DEFAULTS.items() if key(d) == key(shape)]
        pairs = [
            (f"{a}/{b}", DEFAULTS[a][0] / DEFAULTS[b][0])
            for a in DEFAULTS
            for b in DEFAULTS
            if a != b and key({k: DEFAULTS[a][1].get(k, 0) - DEFAULTS[b][1].get(k, 0) for k in set(DEFAULTS[a][1]) | set(DEFAULTS[b][1])}) == key(shape)
        ]
        pairs += [(f"({t.split('/')[0]})/({t.split('/')[1]})", f) for t, f in pairs]
        pairs += [(n, DEFAULTS[n][0]) for n in names] * 2
        if pairs and draw(st.integers(0, 2)) > 0:
            return draw(st.sampled_from(sorted(pairs)))
    num, den, factor = [], [], 1.0
    for d, e in shape.items():
        a = draw(st.sampled_from(BY_DIM[d]))
        (num if e > 0 else den).append(f"({a})" if " " in a and e < 0 or draw(st.booleans()) and " " in a else a)
        factor *= ATOMS[a][0] ** e
    if not num:
        a = draw(st.sampled_from(BY_DIM[""]))
        num.append(a)
        factor *= ATOMS[a][0]
    style = draw(st.integers(0, 1))
    if not den:
        text = " ".join(num) if style == 0 or len(num) == 1 else " * ".join(num)
    elif style == 0:
        text = " * ".join(num) + "".join(f"/{x}" for x in den)
    else:
        text = " * ".join(num) + f" / ({' * '.join(den)})"
    return text, factor


def near(a, b):
    return abs(a - b) <= 1e-11 * max(abs(a), abs(b)) + 1e-300


# -------------------------------------------------------------------------------------------------- factors
def run_factor(case):
    (u, fu), (w, fw), (x3, f3) = case["u"], case["v"], case["w"]
    x = case["x"]
    want = x * fu / fw
    with sut(f"converting {x!r} {u} to {w}"):
        a = quant(f"{x!r} {u}", w)
        b = quant(x, u, w)
        q = quant(f"{x!r} {u}", w, only_magnitude=False)
        back = quant(quant(x, u, x3), x3, u)
        via = quant(quant(x, u, x3), x3, w)
        twice = quant(2 * x, u, w)
        arr = quant(np.array([x, 0.0, -3 * x]), u, w)
    for got, how in ((a, "text"), (b, "value and unit")):
        expect(near(got, want), f"{x!r} {u} is {got!r} {w} as {how}, should be {want!r}")
    expect(near(q.magnitude, want), f"{x!r} {u} as quantity has magnitude {q.magnitude!r} in {w}, should be {want!r}")
    expect(near(back, x), f"{x!r} {u} converted to {x3} and back is {back!r}")
    expect(near(via, want), f"{x!r} {u} converted to {w} through {x3} is {via!r}, directly {want!r}")
    expect(near(twice, 2 * want), f"twice {x!r} {u} is {twice!r} {w}, should be {2 * want!r}")
    expect(len(arr) == 3 and near(arr[0], want) and arr[1] == 0 and near(arr[2], -3 * want), f"array [{x!r}, 0, {-3 * x!r}] {u} is {arr!r} {w}")
    expect(quant(False, w) is False, "a switched-off quantity is not False any more")
    return Outcome(u != w and x != 0, case["dim"])


numbers = st.one_of(st.floats(-1e6, 1e6).map(lambda v: v if abs(v) > 1e-9 else 0.0), st.sampled_from([1.0, -1.0, 0.62, 400.0, 1e-5]))


@st.composite
def factor_cases(draw):
    shape = draw(st.sampled_from(SHAPES))
    return {
        "u": draw(spelled(shape)),
        "v": draw(spelled(shape, target=True)),
        "w": draw(spelled(shape)),
        "x": draw(numbers),
        "dim": " ".join(f"{d}{e}" for d, e in shape.items()) or "count",
    }


# ------------------------------------------------------------------------------------------- incompatibility
def run_incompatible(case):
    for args in ((f"{case['x']!r} {case['u'][0]}", case["v"][0]), (case["x"], case["u"][0], case["v"][0])):
        try:
            with quiet():
                got = quant(*args)
        except Exception:
            continue
        raise Violation(f"{args[:-1]} converts to {case['v'][0]}: {got!r}")
    return Outcome(True)


@st.composite
def incompatible_cases(draw):
    a, b = draw(st.lists(st.sampled_from(SHAPES), min_size=2, max_size=2, unique_by=key))
    return {"u": draw(spelled(a)), "v": draw(spelled(b, target=True)), "x": draw(numbers)}


# ----------------------------------------------------------------------------------------- respelled settings
QUANT = [p for p, s in conf.LEAVES.items() if s["type"] == "quantity"]
SHAPE_OF = {
    "emissions_unit": {"E": 1},
    "emissionsrate_unit": {"E": 1, "t": -1},
    "temperature_unit": {"K": 1},
    "(temperature_unit)/(emissions_unit)": {"K": 1, "E": -1},
    "currency_unit/emissionsrate_unit": {"$": 1, "E": -1},
}
BASE = {
    "emissions_unit": (1e9, 900.0),
    "emissionsrate_unit": (1e9 / YEAR, -8.0),
    "temperature_unit": (1.0, 1.4),
    "(temperature_unit)/(emissions_unit)": (1e-9, 0.0006),
    "currency_unit/emissionsrate_unit": (1e3, 2.1),
}


def run_model(case):
    a, b = {}, {}
    for path, mag, (s1, f1), (s2, f2) in case["spell"]:
        conform.set_path(a, path, f"{mag / f1!r} {s1}")
        conform.set_path(b, path, f"{mag / f2!r} {s2}")
    common = conform.merge(case["cfg"], {"emissions": {"carbonbudget": "900 GtCO2"}})
    fa = modelkit.fingerprint(modelkit.build(conform.merge(common, a)).concrete_model)
    fb = modelkit.fingerprint(modelkit.build(conform.merge(common, b)).concrete_model)
    diff = modelkit.differences(fa, fb)
    expect(not diff, f"settings {a} and their equivalents {b} give different models: {diff}")
    expect(len(fa) > 100, "empty model")
    changed = [p for p, m, x, y in case["spell"] if x[0] != y[0]]
    return Outcome(bool(changed), [".".join(p) for p in changed])


@st.composite
def model_cases(draw):
    spell = []
    for p in draw(st.lists(st.sampled_from(QUANT), min_size=1, max_size=4, unique=True)):
        unit = conf.LEAVES[p]["unit"]
        f, x = BASE[unit]
        mag = f * x * draw(st.sampled_from([0.5, 1.0, 1.7]))
        spell.append([list(p), mag, draw(spelled(SHAPE_OF[unit])), draw(spelled(SHAPE_OF[unit]))])
    return {"cfg": draw(conform.cfg(density=12, rhi=2)), "spell": spell}


# ---------------------------------------------------------------------------------------- repeated readings
def run_readings(case):
    """Readings one after another in a process: each means the same whatever was read before."""
    for k, (x, (u, fu), (w, fw), form) in enumerate(case["readings"]):
        want = x * fu / fw
        with sut(f"reading {x!r} {u} in {w}"):
            if form == "text":
                got = quant(f"{x!r} {u}", w)
            elif form == "pair":
                got = quant(x, u, w)
            else:
                got = quant(f"{x!r} {u}", w, only_magnitude=False).magnitude
        expect(near(got, want), f"{x!r} {u} is {got!r} {w} after the readings {[r[:2] for r in case['readings'][:k]]}, should be {want!r}")
    return Outcome(len({r[1][0] for r in case["readings"]}) > 1, "two spellings differing in case only" * (len({r[1][0].lower() for r in case["readings"]}) < len({r[1][0] for r in case["readings"]})) or None)


CASED = [["mtCO2", "MtCO2"], ["mm", "Mm"]]


@st.composite
def reading_cases(draw):
    shape = draw(st.sampled_from(SHAPES))
    xs = draw(st.lists(st.sampled_from([1.0, 5.0, 0.25, 1200.0, -3.0]), min_size=1, max_size=2))
    if draw(st.booleans()):
        us = [(n, ATOMS[n][0]) for n in draw(st.permutations(draw(st.sampled_from(CASED))))]
        shape = {"E": 1} if "CO2" in us[0][0] else {"m": 1}
        us.append(draw(spelled(shape)))
    else:
        us = [draw(spelled(shape)) for _ in range(draw(st.integers(2, 3)))]
    ws = [draw(spelled(shape, True)) for _ in range(draw(st.integers(1, 2)))]
    n = draw(st.integers(3, 7))
    return {
        "readings": [
            [draw(st.sampled_from(xs)), draw(st.sampled_from(us)), draw(st.sampled_from(ws)), draw(st.sampled_from(["text", "text", "pair", "quantity"]))] for _ in range(n)
        ]
    }


SUBS = [
    Sub("factors", factor_cases(), run_factor, quick=4000, thorough=100000, rule="different spellings and a non-zero number"),
    Sub("repeated readings", reading_cases(), run_readings, quick=1500, thorough=40000, rule="at least two units read one after another"),
    Sub("incompatible", incompatible_cases(), run_incompatible, quick=600, thorough=20000, rule="two units of different physical dimension"),
    Sub("respelled settings", model_cases(), run_model, quick=50, thorough=1200, rule="two models built from at least one differently spelled quantity"),
]
ASSUMPTIONS = ["a year is the Julian year (365.25 days); temperatures are differences; 1 USD2010 = 1.11 USD2005 (extra_units.txt)"]
