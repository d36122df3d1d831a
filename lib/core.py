"""Shared machinery of the checks: build the analyser, compile a harness against /repo, run an analysis,
turn its report into VIOLATION / KNOWN-FINDING lines and an evidence file."""
import hashlib, json, os, re, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD") or os.path.join(VERIF, "build")
SEQIR = os.path.join(BUILD, "seqir")
HARNESS = os.path.join(VERIF, "harness")


class NoAnswer(Exception):
    pass


def build_engine():
    import fcntl
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(["make", "-s", "-j8", "-C", os.path.join(VERIF, "engine"), "OUT=" + BUILD],
                           capture_output=True, text=True)
    if r.returncode or not os.path.exists(SEQIR):
        raise NoAnswer("the analyser does not build: " + (r.stdout + r.stderr)[-2000:])


def compile_ir(src, out, defs=(), std="c++17", opt=("-O1", "-Xclang", "-disable-llvm-passes")):
    cmd = ["clang++", "-std=" + std, *opt, "-g", "-w", "-emit-llvm", "-c", "-I" + REPO, "-I" + HARNESS,
           *["-D" + d for d in defs], src, "-o", out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    return r.returncode, r.stderr


def run_job(job, tmp):
    """job: {harness, defs, analysis, args, name}. Returns the parsed report."""
    src = os.path.join(HARNESS, job["harness"])
    h = hashlib.sha1(json.dumps(job, sort_keys=True).encode()).hexdigest()[:12]
    bc = os.path.join(tmp, h + ".bc")
    rc, err = compile_ir(src, bc, job.get("defs", ()), job.get("std", "c++17"))
    if rc:
        errs = [l for l in err.splitlines() if "error" in l]
        raise NoAnswer("%s %s does not compile against the current tree: %s" % (job["harness"], " ".join(job.get("defs", ())), " | ".join(errs[:3])[:600]))
    try:
        r = subprocess.run([SEQIR, job["analysis"], bc, *job.get("args", ())], capture_output=True, text=True,
                           timeout=job.get("timeout", 600))
    except subprocess.TimeoutExpired:
        raise NoAnswer("analysis of %s %s did not finish" % (job["harness"], job.get("defs", "")))
    finally:
        try:
            os.unlink(bc)
        except OSError:
            pass
    if r.returncode != 0:
        raise NoAnswer("analysis of %s failed (%d): %s" % (job["harness"], r.returncode, r.stderr[-600:]))
    rep = json.loads(r.stdout)
    rep["harness"] = job["harness"]
    for v in rep["violations"]:
        v["variant"] = " ".join(job.get("defs", ()))
    return rep


def short_where(w):
    return re.sub(r"\(lambda at [^)]*\)", "(lambda)", w)


def load_known():
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


class Result:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.viol = []      # (key, text, replay lines)
        self.known = []
        self.counts = {}
        self.notes = []
        self.undecided = []
        self.samples = []
        self.t0 = time.time()

    def add(self, key, text, detail=""):
        """key: stable identification 'function|message' used by the known findings file."""
        for k in load_known():
            if k.get("status") == "known" and k["property"] == self.pid and re.search(k["match"], key):
                self.known.append((k["what"], key))
                return
        self.viol.append((key, text, detail))

    def count(self, d, prefix=""):
        for k, v in d.items():
            self.counts[prefix + k] = self.counts.get(prefix + k, 0) + v

    def finish(self, spec, explanation, assumptions):
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        for what in sorted({w for w, _ in self.known}):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, what))
        seen = {}
        for key, text, detail in self.viol:
            seen.setdefault(key, []).append((text, detail))
        n = 0
        for key, l in seen.items():
            n += 1
            rp = os.path.join("evidence", "replay", "%s-%d.txt" % (self.pid, n))
            with open(os.path.join(VERIF, rp), "w") as f:
                f.write("property %s (%s)\n%s\n\n" % (self.pid, spec["title"], key))
                for text, detail in l[:20]:
                    f.write(text + "\n" + detail + "\n\n")
            if n <= 40:
                print("VIOLATION property=%s replay=%s" % (self.pid, rp))
                print("   " + l[0][0][:700])
        if n > 40:
            print("   ... and %d more" % (n - 40))
        for u in self.undecided:
            print("UNDECIDED: " + u[:400])
        cov = {"explanation": explanation}
        cov.update({k: v for k, v in sorted(self.counts.items())})
        if self.samples:
            cov["samples"] = self.samples[:12]
        if self.notes:
            cov["notes"] = self.notes[:60]
        if self.undecided:
            cov["undecided"] = self.undecided
        cov["known_findings_seen"] = len({w for w, _ in self.known})
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": spec["level"],
              "coverage": cov, "wall_s": round(time.time() - self.t0, 2), "assumptions": assumptions,
              "violations": [k for k in seen][:50]}
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %s in %.1fs (%s)" % (self.pid, self.tier, "%d violation(s)" % n if n else "held", time.time() - self.t0,
                                           ", ".join("%s=%s" % kv for kv in sorted(self.counts.items()))[:300]))
        return 1 if n else 0


def run_jobs(jobs, res, minima):
    """Runs IR jobs in parallel; minima: counts every job must reach, else there is nothing behind the answer."""
    build_engine()
    with tempfile.TemporaryDirectory(prefix="vf_") as tmp, ThreadPoolExecutor(max_workers=min(8, max(1, len(jobs)))) as ex:
        reps = list(ex.map(lambda j: run_job(j, tmp), jobs))
    for j, rep in zip(jobs, reps):
        c = dict(rep["counts"])
        for k, m in {**minima, **j.get("min", {})}.items():
            if c.get(k, 0) < m and not rep["violations"]:
                raise NoAnswer("%s %s: only %d %s found (at least %d expected): the code this check is anchored in has moved" % (j["harness"], j.get("defs", ""), c.get(k, 0), k, m))
        res.count(c)
        res.counts["configurations"] = res.counts.get("configurations", 0) + 1
        if rep["imprecise"]:
            for n in rep["notes"]:
                if "unknown" in n or "not inlined" in n or "budget" in n or "gave up" in n:
                    res.undecided.append("%s: %s" % (j.get("name", j["harness"]), n))
        res.notes += [n for n in rep["notes"] if n not in res.notes]
    return reps
