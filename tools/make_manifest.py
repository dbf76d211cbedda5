"""Generate MANIFEST.json from the checks present in mc/."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True

TECH = {
    "model_checking": "model checking: bounded exhaustive (stateless) exploration of the real code against an executable "
                      "reference model",
    "fault_enumeration": "model checking: exhaustive enumeration of fault points on the real code, differential oracle",
    "C02": "model checking: explicit-state search over (stream position, converter state) of the real code",
    "C24": "model checking: exhaustive lasso enumeration on the real code",
    "C26": "model checking: exhaustive enumeration of process environments on the real code, differential oracle",
    "C17": "model checking: exhaustive enumeration of message sequences on the real code, differential oracle",
}
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "mc", i.lower() + ".py")):
        m = importlib.import_module("mc." + i.lower())
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": TECH[m.LEVEL] if i not in TECH else TECH[i],
            "level": m.LEVEL,
            "level_note": getattr(m, "NOTE", (m.__doc__ or "").strip()),
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
man = {
    "version": 1,
    "setup_cmd": "python3 -c \"import ast,glob; [ast.parse(open(f).read()) for f in glob.glob('mc/*.py')]\"",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks are needed: the checks drive run_conversion.main() and the converter API of "
             "/repo's working tree directly. Bounded exhaustive exploration; bounds in DESIGN.md and evidence.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
