"""Which functions under contract no property's check looks at (should be none)."""
import json, re, subprocess, sys
from pathlib import Path
H = Path(__file__).resolve().parent
sys.path.insert(0, str(H))
import prove

def main():
    ex, err = prove.build_extractor(H.parent / "build")
    conf = prove.CONFIG["properties"]
    units = sorted({u["unit"] for c in conf.values() for u in c["units"]})
    covered, all_ = {}, {}
    for u in units:
        d = H.parent / "build" / "vx"
        d.mkdir(parents=True, exist_ok=True)
        subprocess.run([str(ex), "/repo/src", str(H / "units" / (u + ".vx")), str(d / "a.rs"), str(d / "a.json")], check=True)
        for f in json.loads((d / "a.json").read_text())["functions"]:
            if not f["body"] or f["trusted"] or f.get("imported"):
                continue
            all_.setdefault(f["key"], set()).add(u)
            for p, c in conf.items():
                for y in c["units"]:
                    if y["unit"] == u and re.search(y.get("functions", "."), f["key"]):
                        covered.setdefault(f["key"], set()).add(p)
    for k in sorted(all_):
        print(k, " ".join(sorted(covered.get(k, ["-"]))))
    print("%d functions, %d without a property" % (len(all_), sum(k not in covered for k in all_)))
main()
