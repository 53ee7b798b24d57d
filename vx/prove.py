"""Extracts functions of /repo, joins them with their contracts and has Verus
discharge every obligation.  See DESIGN.md."""
import hashlib
import json
import os
import re
import subprocess
import threading
import time
from pathlib import Path

HERE = Path(__file__).resolve().parent
UNITS = HERE / "units"
VERUS = os.environ.get("VERUS", "verus")
# rlimit per query, in Verus's unit (about seconds); deterministic
RLIMIT = {"quick": 30, "thorough": 120}

# Which units carry a property, and which kinds of obligation in them.
#   functional: postconditions, invariants, assertions
#   safety: no panic, no overflow, indices in bounds, callee preconditions
CONFIG = json.loads((HERE / "units.json").read_text())

_lock = threading.Lock()


def sh(cmd, timeout, cwd=None, env=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, errors="replace")
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return 124, "", ""


def build_extractor(build):
    target = Path(build) / "target-vx"
    rc, out, err = sh(["cargo", "build", "--offline", "--release"], 600, cwd=HERE / "extract",
                      env={"CARGO_TARGET_DIR": str(target), "CARGO_NET_OFFLINE": "true", "RUSTFLAGS": ""})
    b = target / "release" / "vx-extract"
    return (b if rc == 0 and b.exists() else None), err


SAFETY = re.compile(r"overflow|underflow|precondition not satisfied|division by zero|out of bounds|"
                    r"bit shift|unreachable|decreases|termination", re.I)


def kind_of(msg):
    return "safety" if SAFETY.search(msg) else "functional"


def errors_of(err):
    diags = []
    for l in err.splitlines():
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") == "error" and not d["message"].startswith("aborting"):
                diags.append(d)
    return diags


class Unit:
    def __init__(self, name, repo, build, extractor, rlimit, deadline):
        self.name, self.rlimit, self.deadline = name, rlimit, deadline
        self.dir = Path(build) / "vx" / ("%s-%d" % (name, os.getpid()))
        self.dir.mkdir(parents=True, exist_ok=True)
        self.src = Path(repo) / "src"
        self.extractor = extractor
        self.rs = self.dir / (name + ".rs")
        self.map = self.dir / (name + ".json")
        self.degraded = {}
        self.failed = []       # (key, message, kind)
        self.output = ""
        self.undecided = None  # reason the whole unit gave no answer
        self.breakdown = []
        self.reseeded = 0
        self.early_probe = None
        self.prober = None
        self.solver_ms = 0

    def extract(self):
        rc, out, err = sh([str(self.extractor), str(self.src), str(UNITS / (self.name + ".vx")),
                           str(self.rs), str(self.map)] + list(self.degraded), 60)
        if rc != 0:
            self.undecided = "extraction: " + (out + err).strip()[-400:]
            return False
        self.m = json.loads(self.map.read_text())
        self.lines = self.rs.read_text().splitlines()
        return True

    def verus(self, rs, extra=()):
        left = max(10, self.deadline - time.time())
        return sh([VERUS, str(rs), "--triggers-mode", "silent", "--output-json", "--time-expanded",
                   "--multiple-errors", "3", "--rlimit", str(self.rlimit), "--num-threads", "3",
                   *extra, "--", "--error-format=json"], left, cwd=self.dir)

    def where(self, diag):
        """The function a diagnostic belongs to."""
        spans = [s for s in diag["spans"] if s["file_name"].endswith(self.rs.name)]
        # a postcondition points at the contract; the body is in another span
        body = [s for s in spans if re.search(r"at the end of|at this exit|at this call", s.get("label") or "")]
        prim = [s for s in spans if s["is_primary"]]
        for s in body + prim + spans:
            for f in self.m["functions"]:
                if f["start"] <= s["line_start"] < f["end"]:
                    return f["key"], f
        for s in body + prim + spans:
            for i in range(min(s["line_start"], len(self.lines)) - 1, -1, -1):
                mm = re.search(r"proof fn (\w+)", self.lines[i])
                if mm:
                    return "lemma " + mm.group(1), None
                if self.lines[i].startswith("}"):
                    break
        return None, None

    def run(self):
        for attempt in range(12):
            if not self.extract():
                return
            if attempt == 0:
                # most of the time there's no other attempt
                self.early = self.lines

                def go(lines=self.lines, functions=self.m["functions"]):
                    try:
                        self.early_probe = self.probe(lines, functions)
                    except Exception:
                        pass  # probed() does it again
                self.prober = threading.Thread(target=go)
                self.prober.start()
            if self.m["missing"]:
                # renamed or removed: what depends on it does not compile
                self.missing = self.m["missing"]
            rc, out, err = self.verus(self.rs)
            if rc == 124:
                self.undecided = "verus: time"
                return
            diags = errors_of(err)
            try:
                j = json.loads(out[out.index("{"):])
            except ValueError:
                j = {}
            vr = j.get("verification-results", {})
            reached = vr.get("verified") is not None and not vr.get("encountered-vir-error", True)
            if not reached or (diags and not vr.get("errors") and not vr.get("success")):
                # the compiler or the verifier's front end rejected something
                new = {}
                for d in diags:
                    k, f = self.where(d)
                    if f is None or k in self.degraded:
                        continue
                    new[k] = "outside the verifier's reach: " + d["message"][:160]
                if not new:
                    self.undecided = "verus: " + "; ".join(d["message"][:200] for d in diags[:3]) + err[-300:] * (not diags)
                    return
                self.degraded.update(new)
                continue
            # verification failures
            lost, gave_up, failed = self.sort_out(diags)
            if lost:
                self.degraded.update(lost)
                continue
            if gave_up or failed:
                # The solver searches: what it proves with another seed is proved.
                for other in self.again():
                    gave_up = {k: v for k, v in gave_up.items() if k in other}
                    failed = [x for x in failed if x[0] in other]
                    self.reseeded += 1
            for k in gave_up:
                if not any(f["key"] == k for f in self.m["functions"]):
                    self.undecided = "%s: resource limit" % k
                    return
            new = gave_up
            if new:
                self.degraded.update(new)
                continue
            self.failed = failed
            t = j.get("times-ms", {}).get("smt", {})
            self.solver_ms = t.get("smt-run", 0)
            for mod in t.get("smt-run-module-times", []):
                self.breakdown += mod.get("function-breakdown", [])
            n = vr.get("verified", 0) + vr.get("errors", 0)
            self.errors = min(vr.get("errors", 0), len({x[0] for x in failed}))
            self.verified = n - self.errors
            self.output = "\n".join(x[3] for x in failed)
            if self.verified + self.errors == 0:
                self.undecided = "no obligations"
            return
        self.undecided = "too many functions out of reach"

    def sort_out(self, diags):
        """What failed: functions whose contract lost its place, those the solver
        gave up on, and those whose obligations don't hold."""
        lost, gave_up, failed = {}, {}, []
        for d in diags:
            k, f = self.where(d)
            msg = d["message"]
            if k is None:
                k = "unit " + self.name
            if f is not None and f["lost"]:
                lost[k] = "a contract lost its place: " + "; ".join(f["lost"])[:200]
            elif "rlimit" in msg or "Resource limit" in msg or "could not finish" in msg:
                gave_up[k] = "solver gave up: " + msg[:100]
            else:
                failed.append((k, msg, kind_of(msg), d.get("rendered") or ""))
        return lost, gave_up, failed

    def again(self):
        """The functions that fail with other seeds, a set for each seed that gave
        an answer."""
        sets = []

        def go(seed):
            rc, out, err = self.verus(self.rs, ("--smt-option", "smt.random_seed=%d" % seed))
            try:
                vr = json.loads(out[out.index("{"):])["verification-results"]
            except (ValueError, KeyError):
                return
            if rc == 124 or vr.get("verified") is None or vr.get("encountered-vir-error", True):
                return
            _, g, f = self.sort_out(errors_of(err))
            sets.append(set(g) | {x[0] for x in f})
        ths = [threading.Thread(target=go, args=(x,)) for x in (7, 42)]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        return sets

    def probed(self):
        self.prober.join()
        if self.lines == self.early and self.early_probe:
            return self.early_probe
        return self.probe()

    def probe(self, lines=None, functions=None):
        """Every contract must be satisfiable: with `assert(false)` at its start
        every function has to fail."""
        fs = [f for f in functions or self.m["functions"] if f["body"] and not f["degraded"] and not f["trusted"]]
        lines = list(lines or self.lines)
        n = 0
        where = []
        for f in fs:
            # the body's brace: the first line that is exactly "{" after the contract
            for i in range(f["start"] - 1, f["end"]):
                if lines[i].strip() == "{" or re.match(r"^\{", lines[i]):
                    lines[i] = lines[i].replace("{", "{ proof { assert(false); }", 1)
                    where.append(i + 1)
                    n += 1
                    break
        rs = self.dir / (self.name + "_probe.rs")
        # The lemmas were checked in the first pass: here they are only used.
        quick = ["#[verifier::external_body] " + l
                 if re.match(r"(pub )?(broadcast )?proof fn ", l) else l for l in lines]
        rs.write_text("\n".join(quick) + "\n")
        rc, out, err = self.verus(rs)
        try:
            done = not json.loads(out[out.index("{"):])["verification-results"]["encountered-vir-error"]
        except (ValueError, KeyError):
            done = False
        if not done:
            rs.write_text("\n".join(lines) + "\n")
            rc, out, err = self.verus(rs)
        hit = set()
        for l in err.splitlines():
            if l.startswith("{"):
                d = json.loads(l)
                if d.get("level") == "error":
                    for s in d["spans"]:
                        if s["is_primary"]:
                            hit.add(s["line_start"])
        missed = [f["key"] for f, w in zip(fs, where) if w not in hit]
        return n, n - len(missed), missed


def trusted_scan(lines, functions=()):
    """Everything in the unit that is assumed, mechanically."""
    out = [f["key"] for f in functions if f["trusted"] and not f.get("imported")]
    inside = ""
    skip = set()
    for f in functions:
        skip.update(range(f["start"] - 1, f["end"]))
    for i, l in enumerate(lines):
        if i in skip:
            continue
        m = re.match(r"(?:pub )?(impl\b.*|trait\b.*)\{", l)
        if m:
            n = re.sub(r"^impl\s*(<[^>]*>)?\s*", "", m.group(1)).split(" where ")[0].strip()
            inside = n + "::"
        elif l.startswith("}"):
            inside = ""
        if "proved in" in l:
            continue
        if re.search(r"external_body|external_type|assume_specification|\bassume\(|\badmit\(|external_fn", l):
            for k in range(i, min(i + 6, len(lines))):
                m = re.search(r"\b(fn|struct|enum|type)\s+(\w+)|assume_specification.*\[(.*)\]", lines[k])
                if m:
                    out.append("%s %s" % (m.group(1) or "spec of", (inside if m.group(2) and l[:1].isspace() else "") + (m.group(2) or m.group(3))))
                    break
            else:
                out.append(l.strip())
    return sorted(set(out))


def bridged():
    """The contracts some units assume and another proves, as written, of the
    functions they're of: by type and name, the unit."""
    out = {}
    for f in UNITS.glob("*.vx"):
        name = ""
        for l in f.read_text().splitlines():
            m = re.match(r"%fn (\w+)", l)
            name = m.group(1) if m else name
            m = re.match(r"%contract (\S+) (\w+)", l)
            if m:
                out["fragments" in m.group(1), m.group(2)] = f.stem
            m = re.match(r"%like fragments.vx", l)
            if m:
                out[True, name] = f.stem
    return out


BRIDGED = bridged()


def assumed(x):
    m = re.match(r"(?:fn |run_indices\.rs::)(Fragments|Gtree|LeafIdx|Leaves|Siblings)\b.*::(\w+)$", x)
    key = m and (m.group(1) == "Fragments", m.group(2))
    if key in BRIDGED and "Clone for" not in x:
        return "%s (assumed here; this very contract is proved of the code in unit %s, which C12's check runs)" % (x, BRIDGED[key])
    return "%s (assumed)" % x


def check(prop, tier, repo, build):
    conf = CONFIG["properties"].get(prop)
    if not conf:
        return {}
    t0 = time.time()
    deadline = t0 + (700 if tier == "quick" else 3000)
    with _lock:
        ex, err = build_extractor(build)
    res = {"failed": [], "degraded": [], "functions": [], "trusted": [], "units": [], "obligations": 0,
           "discharged": 0, "probes": 0, "solver_ms": 0, "backend": "Verus (Z3)",
           "cmd": "python3 /verif/check.py %s %s" % (prop, tier),
           "extraction": CONFIG["extraction"], "assumptions": list(CONFIG["assumptions"]) + conf.get("assumptions", []),
           "output": ""}
    if ex is None:
        res["degraded"].append("all: the extractor does not build: " + err[-300:])
        return res
    units = []
    threads = []
    for u in conf["units"]:
        unit = Unit(u["unit"], repo, build, ex, RLIMIT[tier], deadline)
        unit.conf = u
        units.append(unit)

        def go(unit=unit):
            try:
                unit.run()
                if not unit.undecided and not unit.failed:
                    unit.probes = unit.probed()
            except Exception as e:  # never an alarm
                unit.undecided = "internal: %r" % e
        th = threading.Thread(target=go)
        th.start()
        threads.append(th)
    for th in threads:
        th.join()
    for u in units:
        if u.undecided:
            res["degraded"].append("unit %s: %s" % (u.name, u.undecided))
            res["units"].append({"unit": u.name, "undecided": u.undecided})
            continue
        pat = re.compile(u.conf.get("functions", "."))
        kinds = u.conf.get("kinds", ["functional", "safety"])
        for k, msg, kind, _ in u.failed:
            if (pat.search(k) or k.startswith("lemma ") or k.startswith("unit ")) and kind in kinds:
                res["failed"].append("%s/%s: %s" % (u.name, k, msg))
                res["output"] += u.output
        for k, why in u.degraded.items():
            res["degraded"].append("%s: %s" % (k, why))
        res["obligations"] += u.verified + u.errors
        res["discharged"] += u.verified
        res["solver_ms"] += u.solver_ms
        under = [f["key"] for f in u.m["functions"] if f["body"] and not f["degraded"] and not f["trusted"]]
        res["functions"] += [k for k in under if k not in res["functions"]]
        res["trusted"] += [t for t in [assumed(x) for x in trusted_scan(u.lines, u.m["functions"])] if t not in res["trusted"]]
        p = getattr(u, "probes", None)
        res["units"].append({"unit": u.name, "obligations": u.verified + u.errors, "discharged": u.verified,
                             "other_seeds_tried": u.reseeded,
                             "functions": len(under), "solver_ms": u.solver_ms,
                             "slowest": sorted(([b["function"], b["time"]] for b in u.breakdown),
                                               key=lambda x: -x[1])[:5],
                             "must_fail_probes": p and {"placed": p[0], "failed_as_they_must": p[1], "vacuous": p[2]}})
        if p:
            res["probes"] += p[1]
    for u in units:
        if u.prober:
            u.prober.join()
        for f in u.dir.glob("*"):
            if not u.failed:
                f.unlink()
        if not u.failed:
            u.dir.rmdir()
    return res


if __name__ == "__main__":
    import sys
    prop = sys.argv[1]
    r = check(prop, sys.argv[2] if len(sys.argv) > 2 else "quick", Path("/repo"), HERE.parent / "build")
    r["functions"] = len(r.get("functions", []))
    out = r.pop("output", "")
    print(json.dumps(r, indent=1))
    print(out)
