"""Writes MANIFEST.json from the property list and the modules in dst/props (run: /opt/venv/bin/python tools/gen_manifest.py)."""
import importlib, json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
PURE = ("The property is a relation between the input and output of pure, single-threaded functions: no schedule, clock, I/O, crash, "
        "message or random draw influences it, so a simulator has nothing to control and seeded fault injection would only be input fuzzing.")
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    f = os.path.join(here, "dst", "props", p["id"].lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": p["id"], "reason": PURE if p["id"].startswith("N") else "check under construction"})
        continue
    consts = vars(importlib.import_module("dst.props." + p["id"].lower()))
    note = consts.get("NOTE") or ("Seeded search over simulated histories and faults, every run repeatable from its seed. "
            + "Real: " + "; ".join(consts["REAL"]) + ". Stubbed: " + "; ".join(consts["STUB"])
            + ". Assumes: " + ("; ".join(consts.get("ASSUME", [])) or "nothing further") + ". No exhaustiveness is claimed.")
    checks.append({"property": p["id"], "quick_cmd": f"./check {p['id']} --tier quick", "thorough_cmd": f"./check {p['id']} --tier thorough",
                   "evidence_file": f"evidence/{p['id']}.json",
                   "technique": "deterministic simulation with fault injection: " + consts.get("METHOD", "seeded search over simulated runs"),
                   "level": consts.get("LEVEL", "exploration"), "level_note": note})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "All seams sit at the library boundary (installed by the harness before qadence is imported); /repo carries no hooks. "
              "Replay: ./check <id> --replay <file>."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
