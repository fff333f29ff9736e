"""Writes MANIFEST.json. Usage: python3 tools/gen_manifest.py P01 P02 …  (the claimed properties)"""
import json, sys, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claimed = sys.argv[1:]
props = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
tech = "deterministic simulation with fault injection: seeded search over schedules and faults, "
what = {
    "P15": "the real editor bridge in one process with simulated pipes and socket",
    "P16": "the real plugin in one Neovim process with simulated daemon",
    "P17": "the real plugin in one process with simulated editor and daemon",
}
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in props:
    if p in claimed:
        m["checks"].append({
            "property": p,
            "quick_cmd": f"bash check.sh {p} quick",
            "thorough_cmd": f"bash check.sh {p} thorough",
            "evidence_file": f"evidence/{p}.json",
            "technique": tech + what.get(p, "real daemons in one process"),
            "level": "exploration",
            "level_note": "See DESIGN.md.",
        })
    else:
        m["not_applicable"].append({"property": p, "reason": "Simulation for this property is being built; not claimed yet."})
open(here + "/MANIFEST.json", "w").write(json.dumps(m, indent=1, ensure_ascii=False) + "\n")
