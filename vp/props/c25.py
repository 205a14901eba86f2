"""C25: smooth approximations."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vp.core import Outcome, Sub, Violation, expect, sut

with sut("importing mimosa"):
    from mimosa.common import pyomo_utils as pu
    import pyomo.environ as pyo

BOUND = 1 / (25 * math.pi)

scales = st.one_of(
    st.sampled_from([0.01, 0.1, 1.0, 2.0, 10.0]),
    st.floats(1e-3, 1e3, allow_nan=False),
)
rel = st.one_of(
    st.floats(-3, 3),
    st.floats(-100, 100),
    st.floats(-1e4, 1e4),
    st.sampled_from([0.0, 1e-6, -1e-6, 0.04, -0.04, 1.0, -1.0]),
)


def r_softmin(x, s):
    u = 25.0 * x / s
    # x * (atan(u)/pi + 1/2) + s/(25 pi), with the switch computed without cancellation
    sw = math.atan(u) / math.pi + 0.5 if u > -1 else math.atan2(1.0, -u) / math.pi
    return x * sw + s * BOUND


def run_bounds(c):
    s, x = c["scale"], c["u"] * c["scale"]
    noise = 1e-15 * (abs(x) + s) * 8
    with sut(f"soft_min({x}, {s})"):
        f = pu.soft_min(x, scale=s)
    exact = max(x, 0.0)
    expect(math.isfinite(f), f"soft_min({x},{s})={f}")
    expect(exact - noise <= f <= exact + s * BOUND + noise, f"soft_min({x},{s})={f} not within [{exact}, {exact + s * BOUND}]")
    if abs(c["u"]) <= 100:
        expect(f > 0, f"soft_min({x},{s})={f} is not positive")
        expect(f > exact, f"soft_min({x},{s})={f} does not lie above max(x,0)={exact}")
    if abs(c["u"]) >= 1:
        # far from zero the error decays with the square of the distance
        lim = s / (3 * math.pi * 25**3 * c["u"] ** 2) * 1.01 + noise
        expect(abs(f - exact) <= lim, f"soft_min({x},{s})={f} is not exact far from zero (error {abs(f-exact)}, allowed {lim})")
    expect(abs(f - r_softmin(x, s)) <= noise * 4, f"soft_min({x},{s})={f}, documented value {r_softmin(x, s)}")
    if x == 0:
        expect(abs(f - s * BOUND) <= noise, f"soft_min(0,{s})={f}")
    if s == 1.0:
        with sut("soft_min default scale"):
            expect(pu.soft_min(x) == f, "default scale is not 1")
    return Outcome(True, "neg" if x < 0 else "pos" if x > 0 else "zero")


def run_monotone(c):
    s = c["scale"]
    a, b = sorted([c["u"], c["v"]])
    if b - a < 1e-6 * (1 + abs(a)):
        b = a + 1e-3 * (1 + abs(a))
    xa, xb = a * s, b * s
    noise = 1e-15 * (abs(xa) + abs(xb) + s) * 8
    with sut("soft functions"):
        fa, fb = pu.soft_min(xa, s), pu.soft_min(xb, s)
        wa, wb = pu.soft_switch(xa, s), pu.soft_switch(xb, s)
        wma = pu.soft_switch(-xa, s)
        w0 = pu.soft_switch(0.0, s)
    expect(fb >= fa - noise, f"soft_min not increasing: f({xa})={fa} > f({xb})={fb} (scale {s})")
    if xa >= 0:
        expect(fb > fa, f"soft_min not strictly increasing above zero: f({xa})={fa}, f({xb})={fb}")
        expect(fb - fa >= 0.5 * (xb - xa) - noise, f"soft_min grows too slowly between {xa} and {xb}")
    expect(fb - fa <= (xb - xa) + noise, "soft_min grows faster than its argument")
    expect(0 <= wa <= 1 and 0 <= wb <= 1, f"soft_switch outside [0,1]: {wa}, {wb}")
    expect(wb >= wa - 1e-15, f"soft_switch not monotone: {wa} > {wb}")
    expect(abs(w0 - 0.5) < 1e-15, f"soft_switch(0)={w0}")
    expect(abs(wa + wma - 1) < 1e-14, "soft_switch not antisymmetric")
    expect(abs(wa - (math.atan(25 * a) / math.pi + 0.5)) < 1e-14, "soft_switch differs from its definition")
    return Outcome(True)


def run_mirror(c):
    s, m = c["scale"], c["max"]
    x = m + c["u"] * s
    with sut("soft_max"):
        f = pu.soft_max(x, m, scale=s)
        g = pu.soft_min(m - x, scale=s)
    noise = 1e-15 * (abs(x) + abs(m) + s) * 10
    expect(abs(f - (m - g)) <= noise, f"soft_max({x},{m},{s})={f} is not the mirror of soft_min: {m - g}")
    exact = min(x, m)
    expect(exact - s * BOUND - noise <= f <= exact + noise, f"soft_max({x},{m},{s})={f} not within [{exact - s * BOUND}, {exact}]")
    expect(abs(f - (m - r_softmin(m - x, s))) <= 4 * noise, f"soft_max({x},{m},{s})={f}, documented {m - r_softmin(m - x, s)}")
    k = c["k"]
    with sut("soft_min/soft_max scaled"):
        h1, h2 = pu.soft_min(k * x, k * s), k * pu.soft_min(x, s)
        h3, h4 = pu.soft_max(k * x, k * m, k * s), k * f
    expect(abs(h1 - h2) <= 1e-14 * (abs(k * x) + k * s) * 8, f"soft_min does not scale: {h1} vs {h2}")
    expect(abs(h3 - h4) <= 1e-14 * (abs(k * x) + abs(k * m) + k * s) * 8, f"soft_max does not scale: {h3} vs {h4}")
    return Outcome(True)


def run_types(c):
    s, xs = c["scale"], [u * c["scale"] for u in c["us"]]
    m = c["max"]
    for name, fn in [
        ("soft_min", lambda x: pu.soft_min(x, scale=s)),
        ("soft_max", lambda x: pu.soft_max(x, m, scale=s)),
        ("soft_switch", lambda x: pu.soft_switch(x, scale=s)),
        ("exp", lambda x: pu.exp(x / s / 200)),
        ("atan", pu.atan),
    ]:
        with sut(name):
            ref = [float(fn(x)) for x in xs]
            arr = fn(np.array(xs))
            ser = fn(pd.Series(xs, index=[10 * i for i in range(len(xs))]))
            df = fn(pd.DataFrame({"a": xs, "b": xs[::-1]}))
            npf = [float(fn(np.float64(x))) for x in xs]
            model = pyo.ConcreteModel()
            model.v = pyo.Var(range(len(xs)), initialize=lambda mm, i: xs[i])
            model.p = pyo.Param(range(len(xs)), initialize=lambda mm, i: xs[i], mutable=True)
            sym = [pyo.value(fn(model.v[i])) for i in range(len(xs))]
            sym2 = [pyo.value(fn(model.p[i])) for i in range(len(xs))]
        for what, vals in [("array", list(arr)), ("series", list(ser)), ("table", list(df["a"])), ("table2", list(df["b"])[::-1]), ("numpy number", npf), ("variable expression", sym), ("parameter expression", sym2)]:
            for x, r, v in zip(xs, ref, vals):
                expect(abs(r - v) <= 1e-14 * (abs(x) + abs(m) + s + abs(r)) * 8, f"{name}({x}) as {what}: {v}, as plain number: {r}")
        expect(list(ser.index) == [10 * i for i in range(len(xs))], f"{name} changes the index of a series")
    for x in xs:
        with sut("int"):
            i = int(max(min(x, 1e6), -1e6))
            expect(abs(pu.soft_min(i, s) - pu.soft_min(float(i), s)) < 1e-12 * (abs(i) + s), "int and float arguments differ")
        with sut("exp/atan"):
            expect(abs(pu.atan(x) - math.atan(x)) < 1e-14, f"atan({x})")
            expect(abs(pu.exp(x / s / 200) - math.exp(x / s / 200)) <= 1e-13 * math.exp(x / s / 200), f"exp({x/s/200})")
    return Outcome(len(set(xs)) > 1)


SUBS = [
    Sub("bounds", st.fixed_dictionaries({"u": rel, "scale": scales}), run_bounds, 6000, 200000,
        "argument (as a multiple of the scale) and scale; every case evaluates the bound, all non-trivial"),
    Sub("monotone", st.fixed_dictionaries({"u": rel, "v": rel, "scale": scales}), run_monotone, 6000, 200000,
        "ordered pairs of arguments and a scale"),
    Sub("mirror", st.fixed_dictionaries({"u": rel, "scale": scales, "max": st.floats(-100, 100), "k": st.floats(0.01, 100)}),
        run_mirror, 4000, 150000, "argument, upper bound, scale and rescaling factor"),
    Sub("types", st.fixed_dictionaries({"us": st.lists(rel, min_size=1, max_size=5), "scale": scales, "max": st.floats(-50, 50)}),
        run_types, 1200, 20000, "lists of arguments evaluated as number, array, series, table and Pyomo expression; non-trivial with at least two different arguments"),
]
