#!/usr/bin/env python3
"""Decides one property of /repo's working tree.

  check.py setup
  check.py C01 [quick|thorough]

Exit 0: the property held on everything explored.  Exit 1, with a line
`VIOLATION property=... replay=...`: it is broken.  Exit 2: no answer.
See DESIGN.md.
"""
import json
import os
import subprocess
import sys
import threading
import time
from pathlib import Path

VERIF = Path(__file__).resolve().parent
REPO = Path(os.environ.get("COLA_REPO", "/repo"))
BUILD = VERIF / "build"
sys.path.insert(0, str(VERIF / "vx"))

# Seconds of search in each build of the harness.
SECS = {"quick": 14, "thorough": 420}
# Properties whose check also searches the build with small tree nodes.
SMALL = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C12", "C13", "C14", "C15"}
PROPS = ["C%02d" % i for i in range(1, 16)]


def sh(cmd, env=None, timeout=600, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        out = x.stdout or ""
        return 124, out if isinstance(out, str) else out.decode(errors="replace")


def build_harness(kind):
    """kind: default | small.  Returns (binary or None, log, hooks on?)"""
    target = BUILD / ("target-" + kind)
    bin_ = target / "release" / "cola-vharness"
    tries = [(["--cfg", "cola_verif"], ["--features", "hooks"])]
    if kind == "small":
        tries = [(["--cfg", "cola_verif_small"], [])]
    # An edit that renames what the hooks use must not stop everything else.
    tries.append(([], []) if kind == "default" else tries[0])
    log = ""
    for i, (flags, feats) in enumerate(tries):
        env = {
            "CARGO_TARGET_DIR": str(target),
            "CARGO_NET_OFFLINE": "true",
            "RUSTFLAGS": " ".join(flags),
            "COLA_VERIF_HOOKS": str(VERIF / "harness" / "hooks.rs"),
        }
        rc, out = sh(["cargo", "build", "--offline", "--release"] + feats, env,
                     cwd=VERIF / "harness")
        log += out
        if rc == 0:
            return bin_, log, bool(feats)
    return None, log, False


def search(prop, kind, seed, secs, res):
    t0 = time.time()
    bin_, log, hooks = build_harness(kind)
    r = {"build": kind, "hooks": hooks, "build_s": round(time.time() - t0, 1)}
    res[kind] = r
    if bin_ is None:
        r["error"] = log[-3000:]
        return
    out = VERIF / "evidence" / ("replay-%s-%s.txt" % (prop, kind))
    out.parent.mkdir(exist_ok=True)
    if out.exists():
        out.unlink()
    rc, txt = sh([str(bin_), "search", prop, str(seed), str(secs), str(out)],
                 timeout=secs + 120)
    if rc == 1 and txt.startswith("FOUND"):
        with open(out, "a") as f:
            f.write("# build: %s\n# replay: cola-vharness replay <this file>\n" % kind)
        r["found"] = str(out)
        r["text"] = txt[-2000:]
    elif rc == 0:
        r.update(json.loads(txt.strip().splitlines()[-1]))
    elif rc == 124:
        # The code under test does not come back.
        out.write_text("# property %s\n# the search did not terminate\nseed %d\n" % (prop, seed))
        r["found"] = str(out)
        r["text"] = "did not terminate"
    else:
        # aborted: stack overflow, out of memory, double panic
        out.write_text("# property %s\n# the search was killed (exit %s)\nseed %d\n%s\n"
                       % (prop, rc, seed, txt[-2000:]))
        r["found"] = str(out)
        r["text"] = "killed, exit %s: %s" % (rc, txt[-500:])


def findings():
    f = VERIF / "known_findings.json"
    return json.loads(f.read_text()) if f.exists() else {"findings": [], "fixed": []}


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in SECS:
        tier = "quick"
    if prop == "setup":
        ok = True
        for k in ("default", "small"):
            b, log, _ = build_harness(k)
            if b is None:
                print(log)
                ok = False
        import prove
        ex, err = prove.build_extractor(BUILD)
        if ex is None:
            print(err)
            ok = False
        sys.exit(0 if ok else 1)
    if prop not in PROPS:
        sys.exit(2)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()

    import prove
    proof = {}
    pt = threading.Thread(target=lambda: proof.update(prove.check(prop, tier, REPO, BUILD)))
    pt.start()

    res = {}
    kinds = ["default"] + (["small"] if prop in SMALL else [])
    for k in kinds:
        search(prop, k, seed, SECS[tier], res)
        if res[k].get("found"):
            break
    pt.join()

    errors = [r["error"] for r in res.values() if "error" in r]
    found = [r for r in res.values() if r.get("found")]
    failed = proof.get("failed", [])
    violations = []
    if found:
        violations.append({"replay": found[0]["found"], "what": found[0]["text"],
                           "failed_obligations": failed})
        print(found[0]["text"])
        print("VIOLATION property=%s replay=%s" % (prop, found[0]["found"]))
    elif failed:
        rp = VERIF / "evidence" / ("replay-%s-proof.txt" % prop)
        rp.write_text("property %s\nfailed obligations:\n%s\n\n%s\n" % (
            prop, "\n".join("  " + f for f in failed), proof.get("output", "")))
        violations.append({"replay": str(rp), "failed_obligations": failed})
        for f in failed:
            print("failed obligation:", f)
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp))

    cov = {
        "obligations": proof.get("obligations", 0),
        "discharged": proof.get("discharged", 0),
        "checker_cmd": proof.get("cmd", "python3 /verif/check.py %s %s" % (prop, tier)),
        "trusted_base": proof.get("trusted", []),
        "functions_under_contract": proof.get("functions", []),
        "degraded_functions": proof.get("degraded", []),
        "units": proof.get("units", []),
        "must_fail_probes": proof.get("probes", 0),
        "solver_time_ms": proof.get("solver_ms", 0),
        "back_end": proof.get("backend", ""),
        "extraction": proof.get("extraction", ""),
        "bounded_search": {
            "label": "bounded: random histories/inputs on the real code, never counted as proved",
            "secs_per_build": SECS[tier],
            "builds": list(res.values()),
        },
    }
    n = sum(r.get("histories", 0) + r.get("direct_cases", 0) for r in res.values())
    cov["evaluations"] = n
    cov["distinct_nontrivial"] = sum(r.get("distinct_nontrivial", 0) for r in res.values())
    cov["rule"] = ("editing histories drawn from seeded random shapes (see harness/src/main.rs::shape); non-trivial: "
                   "at least one local edit and one delivered message; distinct by a hash of all operations. "
                   "Direct cases (values, byte strings, arguments) count once each.")
    cov["samples"] = [r["sample"] for r in res.values() if r.get("sample")]
    ev = {
        "property": prop, "tier": tier, "seed": seed,
        "level": LEVEL(prop),
        "coverage": cov,
        "assumptions": proof.get("assumptions", []) + ["see DESIGN.md, 'What is trusted'"],
        "wall_s": round(time.time() - t0, 1),
        "violations": len(violations),
        "violation_details": violations,
    }
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / (prop + ".json")).write_text(json.dumps(ev, indent=1))
    if violations:
        sys.exit(1)
    if errors:
        print("the harness does not build:\n" + errors[0])
        sys.exit(2)
    for f in findings()["findings"]:
        if f["property"] == prop:
            print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    print("%s: held; %s/%s obligations discharged, %d histories/cases searched, %.0f s"
          % (prop, cov["discharged"], cov["obligations"], n, time.time() - t0))
    for d in cov["degraded_functions"]:
        print("  undecided by proof (searched only):", d)


def LEVEL(prop):
    m = json.loads((VERIF / "MANIFEST.json").read_text())
    for c in m["checks"]:
        if c["property"] == prop:
            return c["level"]
    return "other"


if __name__ == "__main__":
    main()
