"""Write MANIFEST.json from the property modules present."""
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
PY = "/opt/venv/bin/python"
PURE = {
    "C20": "Validation of a configuration is a pure function of one file, read once before anything runs; there is no "
           "schedule, clock, process or storage history for the property to depend on, so deterministic simulation has "
           "nothing to decide.",
    "C21": "The mask is a pure function of one polygon and one grid; no concurrency, time or fault behaviour is involved. "
           "(Tagging with shapefile regions over run histories is covered by C05.)",
    "C22": "Humidity, level and unit formulas are pure functions of their arguments; nothing in them depends on schedules, "
           "time or faults. (Their effect on the stored files over preprocessing histories is covered by C11.)",
    "C23": "Plotting is a pure, single-shot rendering that needs map data from the network; no property of it depends on "
           "schedules, time or faults.",
}
NOTES = {
    "C16": "Trusts the reference model in sim/model.py (written from the documentation, no shared code). One open known "
           "finding (C16-closure-area). ",
}
COMMON = ("Seeded search over simulated executions of the real commands; every run is exactly repeatable from its seed. "
          "Holds for everything explored, not for all inputs. Crash = death of the process with the page cache surviving.")


def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    props = [json.loads(l)["id"] for l in open(here + "/properties.jsonl") if l.strip()]
    checks, na = [], []
    for p in props:
        if os.path.exists(f"{here}/sim/props/{p.lower()}.py"):
            mod = importlib.import_module("sim.props." + p.lower())
            checks.append({
                "property": p,
                "quick_cmd": f"{PY} -m sim.check --property {p} --tier quick",
                "thorough_cmd": f"{PY} -m sim.check --property {p} --tier thorough",
                "evidence_file": f"evidence/{p}.json",
                "technique": "deterministic simulation with fault injection: " + mod.TECH if hasattr(mod, "TECH")
                             else "deterministic simulation with fault injection",
                "level": "exploration",
                "level_note": NOTES.get(p, "") + COMMON,
            })
        else:
            na.append({"property": p, "reason": PURE.get(p, "Planned for deterministic simulation; its check is not built yet.")})
    m = {"version": 1,
         "setup_cmd": "gcc -O1 -shared -fPIC -o /dev/null sim/shim.c -ldl && " + PY + " -m compileall -q sim",
         "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: the seams are the C library (preloaded shim) and the Python library entry points the "
                  "code calls by name. See DESIGN.md; known findings are in known-findings.txt."}
    with open(here + "/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
