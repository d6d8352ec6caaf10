"""Writes MANIFEST.json from properties.jsonl and the profiles."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open("properties.jsonl")]
src = open("dst/profiles.py").read()
NA = {
    "N01": "Key normalisation is a pure function of a type expression: no schedule, clock, fault, crash or history takes part, so there is "
           "nothing for a simulator to decide; generating type expressions would be input fuzzing, not this technique.",
}
NOTE = (
    "Seeded exploration: thousands of simulated runs of the real container per check, judged against an executable reference model. "
    "Trusts the generator's workload space, the model in dst/model.py and dst/world.py, CPython's atomicity of single bytecode "
    "instructions, and asyncio. A clean batch is evidence, not proof."
)
TECH = "deterministic simulation with fault injection: seeded bytecode-level thread / task schedules, provider faults and cancellations, reference-model oracle"
checks, na = [], []
for p in props:
    pid = p["id"]
    if f'"{pid}": ({pid.lower()},' in src:
        checks.append({
            "property": pid, "quick_cmd": f"./check {pid} quick", "thorough_cmd": f"./check {pid} thorough",
            "technique": TECH, "level": "exploration", "level_note": NOTE,
        })
    else:
        na.append({"property": pid, "reason": NA[pid]})
m = {
    "version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
    "notes": "No hooks were added to the repository: the seams are threading.Lock/RLock, sys.monitoring and the asyncio event loop. "
             "The fix: commits in /repo repair defects found by these checks; known_findings.txt lists them.",
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
print(len(checks), "checks;", [x["property"] for x in na])
