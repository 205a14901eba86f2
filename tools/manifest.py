"""Regenerates MANIFEST.json from the property modules in vp/props and the texts below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
TECH = {
    "C01": "property-based testing: generated nested configurations against an independent declaration model",
    "C02": "property-based testing: single generated defects in generated valid configurations must be rejected",
    "C03": "property-based testing of generated call sequences: deep snapshots, equality of repeated loads, idempotence",
    "C04": "property-based testing: generated reference patterns against an independent substitution oracle",
    "C05": "property-based testing: round trips, linearity, composition, independent factor table, metamorphic model comparison",
    "C06": "property-based testing: generated synthetic databases against an independent interpolation/extrapolation model",
    "C07": "property-based testing: generated parameter files, conversion tables and overrides against a reference lookup",
    "C08": "property-based testing: built models against the configured horizon and settings",
    "C09": "differential property-based testing of built models against a reference simulator, with single-relation faults",
    "C10": "differential property-based testing of built models against a reference simulator, with single-relation faults",
    "C11": "property-based testing: limits placed at, just inside and just outside generated trajectories",
    "C12": "differential property-based testing of built models against a reference simulator, with single-relation faults",
    "C13": "differential property-based testing of built models against a reference simulator, with single-relation faults",
    "C14": "differential property-based testing of built models against a reference simulator, with single-relation faults",
    "C15": "differential property-based testing of built models against a reference simulator, with single-relation faults",
    "C16": "differential property-based testing of built models against a reference simulator, with single-relation faults",
    "C17": "property-based testing: trajectories steered to meet, just meet or miss each sharing rule, judged on built models",
    "C18": "differential and metamorphic property-based testing of the welfare relations of built models",
    "C19": "differential property-based testing of the objective against a reference discounted sum",
    "C20": "property-based testing over module combinations: structural determinacy and admitted no-policy trajectory",
    "C21": "property-based testing: supplied data against an independent spline model, boundary offsets, rule-set comparison",
    "C22": "property-based testing: save/load round trip against the model's own values",
    "C23": "property-based testing with a fake solver: generated points, statuses and faults; reduction differential",
    "C24": "stateful property-based testing: generated histories and region permutations, model fingerprints compared",
    "C25": "property-based testing: error bound, monotonicity, symmetry, scaling; agreement across representations",
    "C26": "differential property-based testing: damage pathway against the reference climate and damage model",
    "C27": "property-based testing: generated constraint declarations judged at generated points around the tolerance",
    "C28": "property-based testing: references generated from generated declarations read back, examples executed, links checked by behaviour",
    "C29": "property-based testing: generated components added to the model, compared with references and with the model without them",
}
NOTE = (
    "Searches generated inputs; no violation among the explored cases is evidence, not proof. Trusts the harness in vp/ "
    "(generators, reference model and judgement), Pyomo's expression evaluation, numpy/pandas, and the shipped data files."
)
have, missing = [], []
for p in PROPS:
    pid = p["id"]
    if os.path.exists(os.path.join(HERE, "vp", "props", pid.lower() + ".py")):
        have.append(
            {
                "property": pid,
                "quick_cmd": f"./check {pid} quick",
                "thorough_cmd": f"./check {pid} thorough",
                "technique": TECH[pid],
                "level": "exploration",
                "level_note": NOTE,
            }
        )
    else:
        missing.append({"property": pid, "reason": "check not built yet"})
out = {"version": 1, "setup_cmd": "./check --self-test", "checks": have, "not_applicable": missing}
json.dump(out, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(have), "checks;", [m["property"] for m in missing])
