"""Writes known_findings.json (findings of genuine defects: repaired ones and recorded ones)."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ("C02", "a20ca00", "NaN was accepted as the value of numeric parameters"),
 ("C02", "3a219d2", "undeclared keys spelled as the joined path of a declared parameter were accepted and ignored"),
 ("C02", "9aa0410", "true and false were accepted as the numbers 1 and 0 for parameters that cannot be switched off"),
    ("C02", "8ae77aa", "'nan <unit>' was accepted as a quantity"),
 ("C02", "36a2f9e", "an undeclared name with an empty group as its value was accepted and ignored"),
 ("C03", "8c387d7", "loading a configuration modified nested dictionaries of the caller"),
 ("C04", "bba6697", "only one reference per text, and only references to text settings, were resolved"),
    ("C04", "adce734", "a reference to a text that contains references itself was replaced by that text unresolved, depending on the order of the settings"),
    ("C08", "3673014", "custom values of damage parameters were overwritten when the combined damage function is used"),
    ("C08", "e2372e7", "an extra model year after the end year when the division of the horizon by the time step is rounded up"),
 ("C15", "c1b97de", "every model with the global cost pool failed to build (component defined twice)"),
 ("C15", "301368a", "the minimum and maximum payment levels of the global cost pool were read but never enforced"),
 ("C17", "3bb126d", "per-capita convergence switched off, or with a convergence year before the first model year, failed or gave shares outside [0,1]"),
 ("C21", "b690cb8", "simulation data were continued only to 2150, so pinned values turned back in longer horizons (also C26)"),
 ("C08", "f582791", "accepted end years after 2200 (the declaration allows 2300) could not be built: the time series ended in 2250"),
 ("C27", "dacba46", "soft equality constraints without ignore_if could not be built"),
 ("C26", "0c9edf2", "the SCC pathway could not be computed (stale interfaces)"),
 ("C07", "eecaac0", "a region without data in a mapped regional parameter file silently got NaN parameters"),
 ("C26", "bddedb1", "supplied emissions were silently ignored when a region was missing from them"),
    ("C29", "fa79898", "models with a variable that has no time dimension could not be saved (also C22)"),
    ("C28", "9687a1f", "a mention inside or at the start of another one on the same page was replaced in the middle of it"),
    ("C24", "318f65f", "a rewritten input database was served stale from the process-wide cache (also C06)"),
]
out = [{"property": p, "status": "fixed", "commit": c, "what": w, "line": f"fixed: property={p} {c} {w}"} for p, c, w in FIXED]
out.append({
 "property": "C11", "status": "known", "sub": "partly reversible damages",
 "case": {"cfg": {"time": {"start": 2020, "end": 2120, "dt": 10}, "regions": {"WEU": None, "INDIA": None}}, "rev": 0.5},
 "what": "a carbon budget with 'percentage reversible' below 1 does not build: the net-zero rule refers to an overshoot variable that is commented out",
})
base = {"time": {"start": 2020, "end": 2050, "dt": 10}, "regions": {"WEU": None, "INDIA": None}}
out.append({
 "property": "C22", "status": "known", "sub": "setting keys",
 "case": {"cfg": base, "mapping": {"MAC_gamma": [[None, 2.0]]}, "years": []},
 "what": "the settings saved for a run with a custom value of a scalar parameter ({null: value}) do not build: JSON turns the null key into the text 'null'",
})
out.append({
 "property": "C22", "status": "known", "sub": "setting keys",
 "case": {"cfg": base, "mapping": {"baseline_GDP": [[[t, r], 50.0 + t] for t in range(4) for r in ("WEU", "INDIA")]}, "years": []},
 "what": "a run with custom values of a time-and-region parameter (keys (t, region)) cannot be saved: JSON has no such keys; the table is written, the settings are not",
})
json.dump({"findings": out}, open(os.path.join(HERE, "known_findings.json"), "w"), indent=1)
