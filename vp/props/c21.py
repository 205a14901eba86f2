"""Simulation mode: pinned variables, switched-off constraints, and no effect when it is off."""
import numpy as np
from hypothesis import strategies as st
from scipy.interpolate import CubicSpline

from vp import conform, modelkit, synth
from vp.conform import merge
from vp.core import Discard, Outcome, Sub, expect, quiet, sut

with sut("importing mimosa"):
    import pyomo.environ as pyo
    from mimosa import MIMOSA

EPS = 0.001
REGIONAL = [
    "relative_abatement", "regional_emissions", "mitigation_costs", "GDP_net", "consumption", "capital_stock", "carbonprice",
    "damage_costs", "utility", "investments", "baseline", "import_export_mitigation_cost_balance",
]
GLOBAL = ["temperature", "global_emissions", "cumulative_emissions", "total_SLR", "NPV", "learning_factor", "yearly_welfare", "slr_thermal"]


def reference(years, vals):
    """Data, then (when they end in or after 2100) the trend of the last interval fading out linearly 50 years after 2100."""
    ys, vs = list(map(float, years)), list(vals)
    rate = (vs[-1] - vs[-2]) / (ys[-1] - ys[-2])
    last = ys[-1]
    t = last
    while t + 5 <= 2350:
        part = rate * (1 - (t - 2100) / 50.0)
        part = max(0.0, part) if rate > 0 else min(0.0, part)
        vs.append(vs[-1] + 5 * part)
        t += 5
        ys.append(t)
    return CubicSpline(ys, vs), last


def data_of(case, regions):
    """{variable: {region: values}} for the pinned variables."""
    rs = np.random.RandomState(case["seed"])
    out = {}
    n = len(case["years"])
    for name in case["pins"]:
        out[name] = {}
        for r in regions if name in REGIONAL else ["Global"]:
            steps = rs.uniform(-1, 1, n) * case["size"]
            out[name][r] = [float(f"{v:.6g}") for v in np.cumsum(steps) + rs.uniform(0, 3) * case["size"]]
    return out


def supply(case, data, regions):
    """The pinned data as the configuration takes them: nested tables or output files."""
    years = case["years"]
    files = {}
    for name in case["pins"]:
        form = case["form"]
        if form == "mixed":
            form = "table" if case["pins"].index(name) % 2 == 0 else "file"
        if form == "table":
            files[name] = {(y if case["seed"] % 4 == 3 else str(y)): {r: data[name][r][i] for r in data[name]} for i, y in enumerate(years)}
            continue
        if form == "file":
            if "shared" not in files:
                files["shared"] = write_file(case, data, regions)
            files[name] = files["shared"]
        else:
            # files of their own, often with the same name in another folder, in which the other variables differ
            others = {n: {r: [-3.0 * x + 1 for x in d[r]] for r in d} for n, d in data.items() if n != name}
            files[name] = write_file(case, {**others, name: data[name]}, regions, same_name=case["seed"] % 3 > 0)
            if form == "pattern":
                files[name] = files[name][:-4] + "*"
    files.pop("shared", None)
    return files


def write_file(case, data, regions, same_name=False):
    rows = []
    for name in data:
        for r in data[name]:
            rows.append([name, r, "unit"] + data[name][r])
    for name, r in (("GDP_gross", regions[0]), ("LOT_factor", "Global")):  # other variables in the same file
        if name not in data:
            rows.append([name, r, ""] + [9e3 + i for i in range(len(case["years"]))])
    for i, name in enumerate(data):  # variables with similar names
        for k, other in enumerate((f"{name}_slr", f"rel_{name}", name.capitalize(), f"{name} ")):
            if (case["seed"] // 7 + i) % 5 == k:
                rows += [[other, r, "unit"] + [7.0 - 2 * x for x in v] for r, v in data[name].items()]
    if case["seed"] % 2:
        rows.reverse()
    return synth.write_csv(["Variable", "Region", "Unit"] + case["years"], rows, same_name=same_name)


def components(m):
    return {c.local_name: c for c in m.component_objects(pyo.Constraint)}


def run(case):
    base = case["cfg"]
    regions = list(base["regions"])
    m0 = modelkit.build(base).concrete_model
    before = components(m0)
    pins = [p for p in case["pins"] if p in {v.local_name for v in m0.component_objects(pyo.Var)}]
    case = {**case, "pins": pins}
    data = data_of(case, regions)
    sim = {"simulationmode": case["on"]}
    if pins or case["seed"] % 3:
        sim["constraint_variables"] = supply(case, data, regions)
    names = sorted(n[len("constraint_") :] for n in before if n.startswith("constraint_"))
    off = [names[i % len(names)] for i in case["off"]]
    if off or case["seed"] % 5 > 1:
        sim["deactivated_constraints"] = sorted(set(off), key=off.index)
    cfg = merge(base, {"simulation": sim})
    m = modelkit.build(cfg, what="building in simulation mode").concrete_model
    off_names = {f"constraint_{n}" for n in off}
    if not case["on"]:
        diff = modelkit.differences(modelkit.fingerprint(m0), modelkit.fingerprint(m))
        expect(not diff, f"with simulation mode off, its settings {sim} change the model: {diff}")
        return Outcome(bool(pins or off), "off: no effect")
    after = components(m)
    lost = set(before) - set(after)
    expect(not lost, f"constraints {sorted(lost)[:4]} disappeared in simulation mode")
    f0, f1 = modelkit.fingerprint(m0), modelkit.fingerprint(m)
    kept = {k: v for k, v in f0.items() if k[0] != "constraint" or k[1] not in off_names}
    same = {k: v for k, v in f1.items() if k[0] != "constraint" or k[1] in before}
    diff = modelkit.differences(kept, same)
    expect(not diff, f"simulation mode with {sorted(off_names)} switched off changes or drops something else (first: expected, second: found): {diff}")
    # ---- pinned values
    J = modelkit.Judge(m)
    new = [c for c in J.cons if c.name not in before]
    index = {}
    for c in new:
        for v in c.vars:
            index.setdefault(id(v), []).append(c)
    stray = {v.parent_component().local_name for c in new for v in c.vars} - set(pins)
    expect(not stray, f"variables {sorted(stray)} are constrained though only {pins} are listed")
    T, years = sorted(m.t), [float(m.year(t)) for t in sorted(m.t)]
    judged, labels = 0, set()
    for name in pins:
        var = J.vars[name]
        for r in regions if name in REGIONAL else ["Global"]:
            spline, last = reference(case["years"], data[name][r])
            for t in T:
                y = years[t]
                if y < case["years"][0] or (y > last and last < 2100):
                    continue
                want = float(spline(y))
                x = var[t, r] if name in REGIONAL else var[t]
                for d in (0.0, 0.00098, -0.00098, 0.00103, -0.00103):
                    x.set_value(want + d, skip_validation=True)
                    ok = True
                    for c in index.get(id(x), []):
                        b = pyo.value(c.body)
                        ok = ok and not (c.lower is not None and b < c.lower) and not (c.upper is not None and b > c.upper)
                    expect(
                        ok == (abs(d) < EPS),
                        f"{name}{'' if r == 'Global' else '[' + r + ']'} in {y:g}: {want + d:.8g} is {'admitted' if ok else 'excluded'}, the supplied data give {want:.8g} (data years {case['years']})",
                    )
                judged += 1
                labels.add("data year" if y in case["years"] else "after the data" if y > last else "between data years")
    if off:
        labels.add("constraints switched off")
    labels.add(case["form"] if pins else "nothing pinned")
    return Outcome(judged >= 3 or bool(off), sorted(labels))


@st.composite
def cases(draw):
    cfg = draw(conform.cfg(force={"damage module": ["COACCH"]}, reach=draw(st.sampled_from([None, None, 2100, 2140])), rhi=3, density=14))
    start = cfg["time"]["start"]
    cfg["emissions"]["carbonbudget"] = draw(st.sampled_from([False, "800 GtCO2"]))
    cfg["temperature"]["target"] = draw(st.sampled_from([False, "2 delta_degC"]))
    dt = cfg["time"]["dt"]
    kind = draw(st.sampled_from(["coarse", "model grid", "long", "shifted", "fractions", "few"]))
    end = max(2100, cfg["time"]["end"])
    if kind == "coarse":
        years = list(range(min(2010, start), 2101, draw(st.sampled_from([10, 15, 30]))))
        if years[-1] != 2100:
            years.append(2100)
    elif kind == "model grid":
        n = int(np.ceil((end - start) / max(dt, 5))) + 1
        years = [start + i * max(dt, 5) for i in range(n)]
        years = [int(y) if y == int(y) else y for y in years]
    elif kind == "fractions":  # years that are not whole numbers
        by = draw(st.sampled_from([6.25, 7.5, 12.5, 16.25]))
        years = [start - 2.5 + i * by for i in range(int((end + 2.5 - start) / by) + 2)]
        years = [int(y) if y == int(y) else y for y in years]
    elif kind == "few":
        years = draw(st.sampled_from([[2005, 2100], [2010, 2055, 2100], [2000, 2110], [2005, 2020, 2130]]))
    elif kind == "long":
        years = list(range(2005, 2156, 25))
    else:
        years = [start, start + 7, start + 18, start + 31]
    names = draw(st.lists(st.sampled_from(REGIONAL + GLOBAL), max_size=3, unique=True))
    return {
        "cfg": cfg,
        "years": years,
        "pins": names,
        "form": draw(st.sampled_from(["table", "file", "mixed", "files", "pattern"])),
        "off": draw(st.lists(st.integers(0, 80), max_size=3, unique=True)),
        "on": draw(st.integers(0, 5)) > 0,
        "size": draw(st.sampled_from([0.1, 1.0, 50.0])),
        "seed": draw(st.integers(0, 10**6)),
    }


# ------------------------------------------------------------------ names of nothing
def run_unknown(case):
    """A variable, rule or region that does not exist (or has no data) is refused, never passed over."""
    base = case["cfg"]
    regions = list(base["regions"])
    pins = [p for p in case["pins"] if p in REGIONAL][:2] or ["relative_abatement"]
    case = {**case, "pins": pins}
    data = data_of(case, regions)
    off = ["global_emissions"] if case["seed"] % 2 else []
    what = case["wrong"]
    if what == "rule":
        off = off + [case["name"]] if case["seed"] % 3 else [case["name"]] + off
    elif what == "variable":
        data[case["name"]] = data[pins[0]]
        case["pins"] = pins + [case["name"]]
    elif what == "region":
        gone = regions[case["seed"] % len(regions)]
        for name in data:
            del data[name][gone]
            data[name]["nowhere"] = [0.0] * len(case["years"])
    else:
        for name in data:
            data[name] = {f"X{i}": v for i, v in enumerate(data[name].values())}
    sim = {"simulationmode": case["on"], "constraint_variables": supply(case, data, regions)}
    if off:
        sim["deactivated_constraints"] = off
    cfg = merge(base, {"simulation": sim})
    if not case["on"]:
        modelkit.build(cfg, what="building with simulation mode off")
        return Outcome(False, "off: accepted")
    try:
        with quiet():
            MIMOSA(cfg)
    except Exception:
        return Outcome(True, f"{what}: refused")
    expect(False, f"simulation mode accepts an unknown {what}: {sim if what != 'region' else 'no data for ' + gone}")


@st.composite
def unknown_cases(draw):
    c = draw(cases())
    c["on"] = draw(st.integers(0, 9)) > 0
    c["wrong"] = draw(st.sampled_from(["rule", "rule", "variable", "region", "regions"]))
    c["name"] = draw(st.sampled_from(["nothing", "constraint_global_emissions", "Global_emissions", "global emissions", "emissions_global"]))
    return c


# ------------------------------------------------------------------ the documented runs without policy
def run_baseline(case):
    """The documented no-policy and baseline runs admit the path without abatement, and the first of them no other."""
    cfg = merge(case["cfg"], {"model": {"welfare module": "cost_minimising"}})
    regions = list(cfg["regions"])
    pinned = case["run"] == "no policy"
    cfg = merge(cfg, {"economics": {"damages": {"ignore damages": not pinned}}})
    if pinned:
        years = list(range(2025 if cfg["time"]["start"] >= 2020 else 2010, case["until"] + 1, 5))
        table = {(str(y) if case["text"] else y): {r: 0.0 for r in regions} for y in years}
        cfg = merge(cfg, {"economics": {"MAC": {"gamma": case["gamma"]}}})
        cfg["simulation"] = {"simulationmode": True, "constraint_variables": {"relative_abatement": table}}
    B = conform.Built(cfg, {"seed": case["seed"], "shape": "zero", "amax": 0.3, "bal": 0, "ft": 0})
    got = B.broken_at(B.v)
    expect(not got, f"the documented {case['run']} run excludes the path without abatement: {got[:4]}")
    if not pinned:
        return Outcome(True, case["run"])
    T, R = B.d.gdp.shape
    judged = [t for t in range(1, T) if B.c.years[t] >= years[0]]
    for size in (0.0009, 0.0011, 0.4):
        for t, r in {(judged[case["seed"] % len(judged)], case["seed"] % R), (judged[-1], R - 1)} if judged else ():
            a = np.zeros((T, R))
            a[t, r] = size
            v = B.simulate(a=a)
            if not (v["GDP_net"] > 0).all():
                continue
            got = B.broken_at(v)
            expect(
                bool(got) == (size > EPS),
                f"no-policy run: an abatement of {size} in {B.c.years[t]:g} in {B.c.regions[r]} is {'excluded by ' + str(got[:3]) if got else 'admitted'}",
            )
    return Outcome(bool(judged), [case["run"], "beyond the pinned years" if B.c.years[-1] > years[-1] else "within the pinned years"])


@st.composite
def baseline_cases(draw):
    return {
        "cfg": draw(conform.cfg(force={"financialtransfer module": ["notransfer"]}, reach=draw(st.sampled_from([None, 2100, 2150])), density=9)),
        "run": draw(st.sampled_from(["no policy", "no policy", "baseline"])),
        "until": draw(st.sampled_from([2100, 2150, 2150, 2200])),
        "gamma": draw(st.sampled_from(["0.00001 USD2005/tCO2", "0.00001 USD2005/tCO2", "1 USD2005/tCO2", "2601 USD2005/tCO2"])),
        "text": draw(st.booleans()),
        "seed": draw(st.integers(0, 10**6)),
    }


SUBS = [
    Sub("simulation mode", cases(), run, quick=160, thorough=4000, rule="pinned values judged at three or more years and regions, or constraints switched off; or settings compared with simulation mode off"),
    Sub("unknown names", unknown_cases(), run_unknown, quick=40, thorough=800, rule="simulation mode on with one name that is not in the model"),
    Sub("documented runs without policy", baseline_cases(), run_baseline, quick=50, thorough=1500, rule="the path without abatement is admitted, and in the no-policy run one departing from it is judged in a year the data cover"),
]
ASSUMPTIONS = [
    "model years before the supplied data, or after data that end before 2100 are not judged (no documented continuation there)",
    "the smooth interpolation is the not-a-knot cubic spline through the supplied data and their continuation",
]
