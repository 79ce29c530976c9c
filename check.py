#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] : decides one property of /repo's current working tree.

1. `rsx extract` translates the functions under contract from /repo's current source into Lean; Lean then has to accept
   every contract, loop invariant and lemma about them (lean/<module>.lean). Kani harnesses likewise, where listed.
2. The bounded harness runs the real code against an independent reference (never counted as proof). It supplies the
   failing input when an obligation fails, and it stands in where the text of the code left the extractor's subset.
See DESIGN.md for the policy that turns the two into an exit code.
"""
import concurrent.futures as cf
import fcntl, glob, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.path.join(HERE, ".work")
sys.path.insert(0, os.path.join(HERE, "tools"))
STD_AXIOMS = {"propext", "Classical.choice", "Quot.sound"}


def env(**kw):
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    if not shutil.which("lean", path=e["PATH"]):
        for p in ("/app/lean4-4.33.0/build/release/stage1/bin",):
            e["PATH"] = p + ":" + e["PATH"]
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.pop("RUSTC_WRAPPER", None)
    e.update(kw)
    return e


def run(cmd, timeout=800, **kw):
    e = kw.pop("env", None) or env()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, **kw)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or ""), "timeout"


def build_tools():
    rc, o, err = run(["cargo", "build", "--release", "--offline", "-q"], cwd=os.path.join(HERE, "tools/rsx"),
                     env=env(CARGO_TARGET_DIR=os.path.join(WORK, "tools"), RUSTFLAGS="-Awarnings"))
    if rc:
        raise SystemExit(fatal("tools/rsx does not build: " + err[-2000:]))
    return os.path.join(WORK, "tools/release/rsx")


def fatal(msg):
    print("ERROR " + msg)
    return 2


# ---------------------------------------------------------------- Lean

def decls(path):
    """[(first line, header end line, name)] of the declarations of a Lean file."""
    out, lines = [], open(path, encoding="utf-8").read().split("\n")
    cur = None
    ns = ""
    for i, l in enumerate(lines, 1):
        m = re.match(r"^(?:@\[[^\]]*\]\s*)?(?:private |noncomputable |protected )*(theorem|lemma|def|instance|example|abbrev|structure|class)\b\s*([^\s:({\[]*)", l)
        m2 = re.match(r"^(namespace|end|section|open|variable|set_option|/-)", l)
        if m:
            cur = [i, None, m[2] or f"example@{i}", m[1]]
            out.append(cur)
        elif m2:
            cur = None
        if cur and cur[1] is None and re.search(r":=\s*(by\b.*)?$|:= ", l):
            cur[1] = i
    return out


class Lean:
    """Compiles the proof modules and what they import, in parallel, from fresh extractions."""

    def __init__(self, rsx):
        self.rsx = rsx
        self.dir = os.path.join(WORK, "lean")
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.cfg_of = {}
        self.need = {}
        self.secs = {}
        self.msgs = {}
        self.extracts = {}
        for c in sorted(glob.glob(os.path.join(HERE, "lean/cfg/*.json"))):
            for m in json.load(open(c))["modules"]:
                self.cfg_of[m["name"]] = c

    def imports(self, name):
        p = os.path.join(self.dir, name + ".lean")
        src = open(p, encoding="utf-8").read()
        return [m for m in re.findall(r"^import (\S+)", src, flags=re.M) if m in self.cfg_of or os.path.exists(os.path.join(HERE, "lean", m + ".lean"))]

    def fetch(self, name):
        if name in self.need:
            return
        self.need[name] = None
        if name in self.cfg_of:
            c = self.cfg_of[name]
            if c not in self.extracts:
                out = os.path.join(self.dir, "x", os.path.basename(c)[:-5])
                os.makedirs(out)
                rc, o, err = run([self.rsx, "extract", c, REPO, out], timeout=120)
                rep = {"functions": [], "errors": [{"item": os.path.basename(c), "error": err[-500:]}], "drops": []}
                if os.path.exists(os.path.join(out, "extract.json")):
                    rep = json.load(open(os.path.join(out, "extract.json")))
                self.extracts[c] = rep
            out = os.path.join(self.dir, "x", os.path.basename(c)[:-5])
            src = os.path.join(out, name + ".lean")
        else:
            src = os.path.join(HERE, "lean", name + ".lean")
        dst = os.path.join(self.dir, name + ".lean")
        if os.path.exists(src):
            shutil.copy(src, dst)
        else:
            open(dst, "w").write("#eval extraction_failed\n")
        self.need[name] = self.imports(name)
        for i in self.need[name]:
            self.fetch(i)

    def compile(self, name, timeout=700):
        t = time.time()
        lp = self.dir + ":" + os.environ.get("LEAN_PATH", "")
        rc, o, err = run(["lean", "--json", "-DmaxRecDepth=4000", "-o", name + ".olean", name + ".lean"], cwd=self.dir, timeout=timeout, env=env(LEAN_PATH=lp))
        ms = []
        for l in o.split("\n"):
            try:
                ms.append(json.loads(l))
            except ValueError:
                pass
        bad = [m for m in ms if m.get("severity") == "error"]
        if rc and not bad:
            bad = [{"severity": "error", "pos": {"line": 0}, "data": f"lean exited {rc}: {err[-500:]}", "tool": True}]
        # a proof left open
        bad += [m for m in ms if m.get("severity") == "warning" and "declaration uses `sorry`" in m.get("data", "")]
        self.secs[name] = round(time.time() - t, 2)
        self.msgs[name] = bad
        return not bad and rc == 0

    def build(self, goals):
        for g in goals:
            self.fetch(g)
        done, bad = set(), {}
        pend = set(self.need)
        with cf.ThreadPoolExecutor(6) as ex:
            fut = {}
            while pend or fut:
                for n in sorted(pend):
                    deps = self.need[n]
                    if any(d in bad for d in deps):
                        bad[n] = "import"
                        pend.discard(n)
                    elif all(d in done for d in deps):
                        fut[ex.submit(self.compile, n)] = n
                        pend.discard(n)
                if not fut:
                    if pend and not any(any(d in bad for d in self.need[n]) for n in pend):
                        raise RuntimeError("import cycle: " + str(pend))
                    continue
                for f in cf.wait(fut, return_when=cf.FIRST_COMPLETED).done:
                    n = fut.pop(f)
                    if f.result():
                        done.add(n)
                    else:
                        bad[n] = "error"
        return done, bad

    def audit(self, goals):
        """Every theorem of the proof modules with the axioms it rests on."""
        names = ", ".join("`" + g for g in goals)
        t = "".join(f"import {g}\n" for g in goals) + """
open Lean Elab Command
run_cmd do
  let env ← getEnv
  let want : List Name := [%s]
  let mut axs : Array Name := #[]
  for m in want do
    let some i := env.getModuleIdx? m | continue
    for n in env.header.moduleData[i.toNat]!.constNames do
      if n.isInternalDetail then continue
      let some (.thmInfo _) := env.find? n | continue
      unless (← liftCoreM (findDeclarationRanges? n)).isSome do continue
      for a in (← liftCoreM (Lean.collectAxioms n)) do
        unless axs.contains a do axs := axs.push a
      IO.println s!"THM {m} {n}"
  IO.println s!"AXIOMS {axs.toList}"
""" % names
        open(os.path.join(self.dir, "Audit.lean"), "w").write(t)
        lp = self.dir + ":" + os.environ.get("LEAN_PATH", "")
        rc, o, err = run(["lean", "Audit.lean"], cwd=self.dir, timeout=300, env=env(LEAN_PATH=lp))
        thms = re.findall(r"^THM (\S+) (\S+)$", o, flags=re.M)
        m = re.search(r"^AXIOMS \[(.*)\]$", o, flags=re.M)
        if rc or not thms or not m:
            raise RuntimeError("audit failed: " + (o + err)[-1000:])
        return [t[1] for t in thms], [a.strip() for a in m[1].split(",") if a.strip()]


def lean_part(rsx, spec):
    """-> dict(status = proved | failed | undecided, ...)"""
    t = time.time()
    L = Lean(rsx)
    goals = spec["proofs"]
    done, bad = L.build(goals)
    res = {"modules": sorted(L.need), "seconds_per_module": L.secs, "functions": [], "extraction_errors": [], "dropped": [], "failed": [], "undecided": [], "theorems": [], "axioms": []}
    for rep in L.extracts.values():
        for f in rep["functions"]:
            res["functions"].append(f"{f['file']}:{f['line']} {(f['impl'] + '::') if f['impl'] else ''}{f['fn']}")
        res["extraction_errors"] += [f"{e['item']}: {e['error']}" for e in rep["errors"]]
        res["dropped"] += rep.get("drops", [])
    extracted = set(L.cfg_of)
    for n in sorted(bad):
        ms = L.msgs.get(n, [])
        if bad[n] == "import":
            if n in goals:
                res["undecided"].append(f"{n}: a module it imports did not compile")
            continue
        if n in extracted or n not in goals:
            res["undecided"] += [f"{n}.lean: {m['data'][:300]}" for m in ms[:3]]
            continue
        ds = decls(os.path.join(L.dir, n + ".lean"))
        seen = set()
        for m in ms:
            line = (m.get("pos") or {}).get("line", 0)
            d = [x for x in ds if x[0] <= line]
            d = d[-1] if d else None
            name = f"{n}.{d[2]}" if d else n
            if name in seen:
                continue
            seen.add(name)
            shape = m.get("tool") or d is None or d[3] not in ("theorem", "lemma", "example") or (d[1] is not None and line <= d[1] and "unsolved goals" not in m["data"] and "sorry" not in m["data"] and "unexpected" not in m["data"] and ":= by" not in "".join(open(os.path.join(L.dir, n + ".lean")).read().split("\n")[line - 1:line])) \
                or re.search(r"(?i)timed? ?out|maximum number of heartbeats|deterministic|unknown (identifier|constant|module|namespace)|unknownIdentifier", m["data"])
            (res["undecided"] if shape else res["failed"]).append(f"{name}: {m['data'][:1500]}")
    if not bad:
        res["theorems"], res["axioms"] = L.audit(goals)
        extra = [a for a in res["axioms"] if a not in STD_AXIOMS]
        if extra:
            res["failed"].append(f"the proofs rest on {extra}")
        for th in spec.get("theorems", []):
            if th not in res["theorems"]:
                res["undecided"].append(f"theorem {th} is missing")
    n_thm = {g: sum(1 for d in decls(os.path.join(L.dir, g + ".lean")) if d[3] in ("theorem", "lemma", "example")) for g in goals}
    res["obligations"] = sum(n_thm.values())
    res["discharged"] = max(0, res["obligations"] - len(res["failed"]) - (len(res["undecided"]) if res["undecided"] else 0)) if (not bad or res["failed"]) else 0
    if res["extraction_errors"] and not res["failed"]:
        pass
    res["status"] = "failed" if res["failed"] else "undecided" if res["undecided"] else "proved"
    res["seconds"] = round(time.time() - t, 2)
    return res


# ---------------------------------------------------------------- Kani

def kani_part(spec):
    """spec: {"crate": dir under /verif/kani, "groups": [[harness prefix, ..], ..]} -> like lean_part.

    Every harness runs one function of the current source on fully symbolic input; unwinding
    assertions are on, so a pass covers every input.  Anything short of a failed assertion
    of a harness (a lost function, an unwinding bound, a time-out) is undecided."""
    t = time.time()
    res = {"failed": [], "undecided": [], "harnesses": [], "obligations": 0, "discharged": 0, "checks": 0, "solver_seconds": 0.0}
    crate = os.path.join(HERE, "kani", spec["crate"])
    rc, o, err = run([sys.executable, os.path.join(crate, "gen.py")], cwd=crate, env=env(VERIF_REPO=REPO, VERIF_WORK=WORK))
    out = spec.get("outdir", crate).replace("$WORK", WORK)
    tgt = os.path.join(WORK, "kani-target", spec["crate"])
    if rc:
        res["undecided"].append("generation: " + (o + err)[-800:])
    for g in (spec["groups"] if rc == 0 else []):
        cmd = ["cargo", "kani", "--target-dir", tgt, "-Z", "unstable-options", "-Z", "stubbing", "--output-format", "terse", "-j", str(spec.get("jobs", 8))]
        for h in g:
            cmd += ["--harness", h]
        rc, o, err = run(cmd, cwd=out, timeout=spec.get("timeout", 700), env=env(CARGO_NET_OFFLINE="true"))
        txt = o + "\n" + err
        m = re.search(r"Complete - (\d+) successfully verified harnesses, (\d+) failures, (\d+) total", txt)
        if not m or int(m[3]) == 0:
            res["undecided"].append("kani: " + (err + o)[-1500:])
            continue
        res["obligations"] += int(m[3])
        cur, block = {}, None
        blocks = {}
        for l in txt.split("\n"):
            th = re.match(r"(?:Thread (\d+): ?)?(.*)", l)
            k, l = th[1], th[2]
            c = re.search(r"Checking harness (\S+?)\.\.\.", l)
            if c:
                cur[k] = c[1]
                continue
            if k is not None or block is None:
                block = k
            if block in cur:
                blocks.setdefault(cur[block], []).append(l)
            v = re.search(r"Verification Time: ([\d.]+)s", l)
            if v:
                res["solver_seconds"] += float(v[1])
        for h, ls in sorted(blocks.items()):
            b = "\n".join(ls)
            name = h.split("::")[-1] if h.count("::") == 1 else h
            c = re.search(r"\*\* (\d+) of (\d+) failed", b)
            res["checks"] += int(c[2]) if c else 0
            cov = re.search(r"\*\* (\d+) of (\d+) cover properties satisfied", b)
            if "VERIFICATION:- SUCCESSFUL" in b and not (cov and cov[1] != cov[2]):
                res["discharged"] += 1
                res["harnesses"].append(h)
                continue
            fc = sorted(set(re.findall(r"Failed Checks: (.*)", b)))
            hard = [x for x in fc if not re.search(r"unwinding assertion|not currently supported|unsupported|unreachable because of", x)]
            if "VERIFICATION:- FAILED" in b and hard and len(hard) == len(fc):
                res["failed"].append(f"kani {name}: " + "; ".join(hard)[:600])
            elif "VERIFICATION:- FAILED" in b and not fc and "encountered no panics" in b:
                res["failed"].append(f"kani {name}: expected a panic, none is reachable")
            else:
                res["undecided"].append(f"kani {name}: " + ("; ".join(fc) or ("vacuous" if cov else b[-300:])))
        left = res["obligations"] - res["discharged"] - len(res["failed"])
        if left and not res["undecided"]:
            res["undecided"].append(f"kani: {left} harnesses without an answer")
    res["harnesses"] = sorted(set(res["harnesses"]))
    res["solver_seconds"] = round(res["solver_seconds"], 2)
    res["status"] = "failed" if res["failed"] else "undecided" if res["undecided"] else "proved"
    res["seconds"] = round(time.time() - t, 2)
    return res


# ---------------------------------------------------------------- bounded harness

def harness_build(rsx, spec):
    """-> (binary or None, internals?, error text)"""
    import view
    ws = os.path.join(WORK, "ws")
    view.REPO = REPO
    try:
        view.main(ws, rsx)
    except Exception as x:  # noqa: BLE001
        return None, False, f"view of /repo: {x}"
    # the harness's own lock file is kept in git; it must not change
    tgt = os.path.join(WORK, "target")
    for feats in ([spec["features"] + ",internals", spec["features"]] if spec.get("internals", True) else [spec["features"]]):
        rc, o, err = run(["cargo", "build", "--offline", "-q", "--features", feats, "--bin", spec["bin"]], cwd=os.path.join(HERE, "harness"),
                         timeout=600, env=env(CARGO_TARGET_DIR=tgt, RUSTFLAGS="-Awarnings"))
        if rc == 0:
            b = os.path.join(WORK, "bin-" + spec["bin"])
            shutil.copy(os.path.join(tgt, "debug", spec["bin"]), b)
            return b, "internals" in feats, ""
    return None, False, err[-3000:]


def harness_run(binary, level, budget, seed):
    out = os.path.join(WORK, os.path.basename(binary) + f".{level}.json")
    if os.path.exists(out):
        os.remove(out)
    rc, o, err = run([binary, "--level", str(level), "--budget", str(budget), "--out", out], timeout=budget + 150, cwd=WORK, env=env(VERIF_SEED=str(seed)))
    try:
        return json.load(open(out))
    except (OSError, ValueError):
        return {"cases": 0, "groups": {}, "failures": [], "error": f"exit {rc}: {(o + err)[-500:]}", "seconds": 0}


# ---------------------------------------------------------------- verdict

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    lock = open(os.path.join(WORK, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    spec = json.load(open(os.path.join(HERE, "props.json")))[prop]
    known = [k for k in json.load(open(os.path.join(HERE, "known_findings.json"))) if k["property"] == prop and k.get("status") == "known"]
    rsx = build_tools()
    with cf.ThreadPoolExecutor(3) as ex:
        fl = ex.submit(lean_part, rsx, spec["lean"]) if spec.get("lean") else None
        fh = ex.submit(harness_build, rsx, spec["harness"]) if spec.get("harness") else None
        fk = ex.submit(kani_part, spec["kani"]) if spec.get("kani") else None
        binary, internals, herr = fh.result() if fh else (None, False, "no harness")
        hr = None
        if binary:
            hr = harness_run(binary, 0 if tier == "quick" else 1, 120 if tier == "quick" else 420, seed)
        lr = fl.result() if fl else None
        kr = fk.result() if fk else None
    proofs = [x for x in (lr, kr) if x]
    failed = [f for x in proofs for f in x["failed"]]
    undecided = [f for x in proofs for f in x["undecided"]]
    hunted = None
    if failed and binary and not hr["failures"]:
        left = 840 - (time.time() - t0)
        if left > 60:
            hunted = harness_run(binary, 2, int(min(300, left - 40)), seed + 1)
    fails = (hr or {}).get("failures", []) + (hunted or {}).get("failures", [])
    listed, new = [], []
    for f in fails:
        k = next((k for k in known if re.search(k["case"], f["case"])), None)
        (listed if k else new).append((f, k))
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    viol = 0
    rc = 0
    rep = os.path.join(HERE, "evidence", prop + ".replay.json")
    if os.path.exists(rep):
        os.remove(rep)
    if new:
        viol = len(new)
        f = new[0][0]
        json.dump({"property": prop, "case": f["case"], "what": f["what"], "seed": (hunted or hr).get("seed", seed) if f in (hunted or {}).get("failures", []) else seed,
                   "rerun": f"python3 check.py {prop} builds {binary}; then: VERIF_SEED={seed} {binary} --only '{f['case']}'",
                   "more": [x[0] for x in new[1:20]], "failed_obligations": failed}, open(rep, "w"), indent=1)
        print(f"failing input: {f['case']}: {f['what'][:600]}")
        for o in failed[:5]:
            print("failed obligation: " + o[:400])
        print(f"VIOLATION property={prop} replay={rep}")
        rc = 1
    elif failed:
        viol = len(failed)
        json.dump({"property": prop, "failed_obligations": failed, "undecided": undecided, "hunt": {k: v for k, v in (hunted or hr or {}).items() if k != "failures"}}, open(rep, "w"), indent=1)
        for o in failed[:5]:
            print("failed obligation: " + o[:600])
        print(f"VIOLATION property={prop} replay={rep} no-failing-input-found")
        rc = 1
    else:
        if undecided:
            print(f"UNDECIDED property={prop} the proof does not apply to the current text of the code; bounded harness only")
            for u in undecided[:8]:
                print("  " + u[:400].replace("\n", " "))
        if binary is None:
            print("harness: " + herr[-1500:])
            if undecided or not proofs:
                rc = fatal("neither the proof nor the harness applies to this tree")
        elif hr.get("error"):
            if undecided or not proofs:
                rc = fatal("harness: " + hr["error"])
    cov = {}
    ob = sum(x.get("obligations", 0) for x in proofs)
    di = sum(x.get("discharged", 0) for x in proofs)
    if proofs:
        cov["obligations"] = ob
        cov["discharged"] = di
        cov["checker_cmd"] = f"python3 check.py {prop}"
        cov["trusted_base"] = spec.get("trusted", []) + (TRUSTED if lr else []) + (TRUSTED_KANI if kr else [])
        if lr:
            cov["lean"] = {k: lr[k] for k in ("status", "theorems", "axioms", "functions", "extraction_errors", "dropped", "seconds", "seconds_per_module", "failed", "undecided")}
            cov["functions_under_contract"] = len(lr["functions"])
        if kr:
            cov["kani"] = kr
    if hr:
        cov["evaluations"] = hr["cases"] + ((hunted or {}).get("cases", 0))
        cov["distinct_nontrivial"] = hr["cases"]
        cov["rule"] = "bounded stand-in, not proof: every case id is distinct and names its inputs; a case counts once, after it has compared the real code with the reference"
        cov["samples"] = [f"{g}: {n} cases" for g, n in list(hr.get("groups", {}).items())[:20]]
        cov["bounded_harness"] = {"internals": internals, "groups": hr.get("groups", {}), "seconds": hr.get("seconds"), "skipped_for_time": hr.get("skipped_for_time", 0), "known_findings_seen": [x[0]["case"] for x in listed]}
    else:
        cov["bounded_harness"] = {"not_run": herr[-300:]}
    if not proofs:
        cov["explanation"] = spec.get("explanation", "bounded harness only")
    level = spec["level"]
    if level == "proof" and undecided and not failed:
        cov["note"] = "proof undecided on this tree; only the bounded harness was decisive"
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": viol},
              open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    if rc == 0:
        s = f"{di}/{ob} obligations discharged" if proofs else "no proof obligations"
        print(f"OK property={prop} {s}; harness {hr['cases'] if hr else 0} cases; {time.time() - t0:.0f} s")
    return rc


TRUSTED = [
    "tools/rsx: the translation of the Rust subset into Lean definitions (what it drops is listed per run)",
    "lean/RsPrelude.lean: the meaning given to Rust library operations (Vec, slices, iterators, Option/Result, usize as unbounded naturals, rayon iterators as sequential ones)",
    "arkworks field and group types satisfy the field and module laws",
    "the Lean 4.33 kernel and Mathlib; axioms propext, Classical.choice, Quot.sound",
]

TRUSTED_KANI = [
    "Kani 0.68 / CBMC (and Z3 where a harness names it): the compilation of the source as it stands, with the functions of core taken as compiled",
    "machine arithmetic is exact (bit-precise), loops are unwound fully with unwinding assertions on",
]

if __name__ == "__main__":
    sys.exit(main())
