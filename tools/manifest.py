"""Regenerates MANIFEST.json from the property modules that exist."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
mods = {f.split("_")[0].upper(): f for f in os.listdir(os.path.join(ROOT, "jgmon/props")) if re.match(r"c\d\d_", f)}
TECH = json.load(open(os.path.join(ROOT, "tools/technique.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in mods:
        checks.append({
            "property": i,
            "quick_cmd": f"bash check.sh {i} quick",
            "thorough_cmd": f"bash check.sh {i} thorough",
            "technique": TECH.get(i, "runtime monitoring: generated workloads over the real library, judged online by oracles"),
            "level": "exploration",
            "level_note": TECH.get(i + "_note", "held on every execution generated; nothing is claimed about inputs not generated"),
        })
    else:
        na.append({"property": i, "reason": "monitor not built yet"})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
