"""Writes MANIFEST.json.  Levels and notes live here."""
import json, subprocess
from pathlib import Path
V = Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
notes = json.loads((V / "vx" / "levels.json").read_text())
checks, na = [], []
for p in props:
    i = p["id"]
    n = notes[i]
    if n.get("not_applicable"):
        na.append({"property": i, "reason": n["not_applicable"]})
        continue
    c = {"property": i,
         "quick_cmd": "python3 check.py %s quick" % i,
         "thorough_cmd": "python3 check.py %s thorough" % i,
         "technique": n["technique"], "level": n["level"], "level_note": n["note"]}
    if n.get("theorems"):
        c["theorems"] = n["theorems"]
    checks.append(c)
m = {"version": 1, "setup_cmd": "python3 check.py setup",
     "hooks": {"guard": "cfg(cola_verif), cfg(cola_verif_small)",
               "enable": "RUSTFLAGS='--cfg cola_verif' with COLA_VERIF_HOOKS=/verif/harness/hooks.rs, or RUSTFLAGS='--cfg cola_verif_small'",
               "source_commits": [subprocess.check_output(["git", "-C", "/repo", "rev-parse", "7aff3ef"], text=True).strip()]},
     "checks": checks, "not_applicable": na}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
