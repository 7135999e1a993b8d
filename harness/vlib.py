"""Machinery shared by all checks: scenario workers, TLC runs, verdicts, evidence.

Exit codes: 0 the property held, 1 with a VIOLATION line, 2 machinery failure.
"""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
TLA_JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
KNOWN = os.path.join(VERIF, "known_findings.json")


class Machinery(Exception):
    """The check itself failed (not the code under test)."""


def tier():
    return "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def child_env(**extra):
    e = dict(os.environ)
    e.update(MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONWARNINGS="ignore",
             PYTHONPATH=os.path.join(VERIF, "harness") + ":" + REPO, VERIF_REPO=REPO)
    e.pop("LOG_CFG", None)
    e.update(extra)
    return e


class Scratch:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="vchk_")
        os.makedirs(os.path.join(self.dir, "mpl"), exist_ok=True)
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


# --------------------------------------------------------------------------- TLC
class TLCResult:
    def __init__(self, out, code, wall):
        self.out, self.code, self.wall = out, code, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

    @property
    def ok(self):
        return "Model checking completed. No error has been found." in self.out

    @property
    def prints(self):
        """Values printed with PrintT, one per line."""
        return self.out.splitlines()


def tlc(module, cfg, scratch, env=None, workers=1, timeout=600, heap="4g", extra=()):
    """Run TLC on spec/<module>.tla with the configuration text `cfg`."""
    wd = tempfile.mkdtemp(prefix="tlc_", dir=scratch)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), wd)
    with open(os.path.join(wd, "run.cfg"), "w") as f:
        f.write(cfg)
    defs = re.findall(r"^\\\* DEF (.*)$", cfg, re.M)
    if defs:
        with open(os.path.join(wd, "MC_%s.tla" % module), "w") as f:
            f.write("---- MODULE MC_%s ----\nEXTENDS %s\n%s\n====\n" % (module, module, "\n".join(defs)))
        module = "MC_" + module
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", TLA_JARS, "tlc2.TLC",
           "-workers", str(workers), "-metadir", os.path.join(wd, "meta"), "-noGenerateSpecTE",
           "-config", "run.cfg", *extra, module + ".tla"]
    t0 = time.time()
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    out_path = os.path.join(wd, "out.txt")
    with open(out_path, "w") as fo:
        p = subprocess.Popen(cmd, cwd=wd, env=e, stdout=fo, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            raise Machinery("TLC timed out on %s after %ss" % (module, timeout))
    out = open(out_path, errors="replace").read()
    shutil.rmtree(wd, ignore_errors=True)
    return TLCResult(out, p.returncode, time.time() - t0)


def cfg_text(spec="Spec", constants=None, invariants=(), properties=(), extra=""):
    s, defs = "SPECIFICATION %s\n" % spec, ""
    if constants:
        s += "CONSTANTS\n"
        for k, v in constants.items():
            # the name of a definition of the module, or a literal
            v = str(v)
            if re.fullmatch(r"[A-Za-z]\w*", v) and v not in ("TRUE", "FALSE"):
                s += "  %s <- %s\n" % (k, v)
            elif re.fullmatch(r"\w+", v):
                s += "  %s = %s\n" % (k, v)
            else:   # an expression, which tlc() puts into a module of its own
                s += "  %s <- Def_%s\n" % (k, k)
                defs += "\\* DEF Def_%s == %s\n" % (k, v)
    for i in invariants:
        s += "INVARIANT %s\n" % i
    for p in properties:
        s += "PROPERTY %s\n" % p
    s += "CHECK_DEADLOCK FALSE\n" + extra
    return s + defs


def model_check(module, scratch, constants=None, invariants=(), properties=(), spec="Spec",
                workers=4, timeout=800, extra="", heap="6g"):
    """Exhaustive check of a design module. The specification must satisfy its
    own invariants: anything else is a failure of the machinery."""
    r = tlc(module, cfg_text(spec, constants, invariants, properties, extra), scratch,
            workers=workers, timeout=timeout, heap=heap)
    if not r.ok:
        raise Machinery("TLC rejects the design %s: %s" % (module, r.out[-3000:]))
    return r


UNTRACEABLE = "untraceable"
FAIL_RE = re.compile(r'^<<"FAIL", (\d+), "([^"]*)"(?:, (.*))?>>$')


def validate(module, lines, scratch, constants=None, timeout=800, shards=1, heap="3g"):
    """Validate recorded lines (dicts) with a total trace specification.

    Returns (list of (line index, clause, detail)), TLC state count, wall)."""
    if not lines:
        raise Machinery("no trace lines for " + module)
    fails, states, wall = [], 0, 0.0
    # Traces are cut only in front of a line that starts a scenario
    starts = [i for i, l in enumerate(lines) if i == 0 or l.get("sid") != lines[i - 1].get("sid")]
    shards = max(1, min(shards, len(starts)))
    cuts = sorted({starts[(len(starts) * s) // shards] for s in range(shards)} | {0})
    cuts.append(len(lines))
    from concurrent.futures import ThreadPoolExecutor

    def one(lo, hi):
        path = tempfile.mktemp(prefix="trace_", suffix=".ndjson", dir=scratch)
        with open(path, "w") as f:
            for l in lines[lo:hi]:
                f.write(json.dumps(l, separators=(",", ":")) + "\n")
        r = tlc(module, cfg_text("TraceSpec", constants), scratch, env={"TRACE": path}, timeout=timeout, heap=heap)
        os.unlink(path)
        if not r.ok and re.search(r"^Error: (TLC threw|The exception|Attempted|Evaluating|The error|In eval)", r.out, re.M | re.I) \
                and "OutOfMemory" not in r.out and "StackOverflow" not in r.out:
            # the recording has a form no behaviour of the specification has
            at = len(re.findall(r"^State \d+:", r.out, re.M))
            return [(lo + max(0, min(hi - lo - 1, at - 1)), UNTRACEABLE, r.out[-1500:])], r.distinct, r.wall
        done = re.search(r'^<<"DONE", (\d+)>>$', r.out, re.M)
        if not r.ok or not done or int(done.group(1)) != hi - lo:
            raise Machinery("trace validation of %s broke: %s" % (module, r.out[-3000:]))
        fs = []
        for ln in r.prints:
            m = FAIL_RE.match(ln.strip())
            if m:
                fs.append((lo + int(m.group(1)) - 1, m.group(2), m.group(3) or ""))
            elif ln.startswith('<<"FAIL"'):
                raise Machinery("unparsed verdict: " + ln)
        return fs, r.distinct, r.wall

    with ThreadPoolExecutor(max_workers=len(cuts) - 1) as ex:
        for fs, st, w in ex.map(lambda ab: one(*ab), zip(cuts, cuts[1:])):
            fails += fs
            states += st
            wall += w
    return fails, states, wall


def generate(module, scratch, constants=None, spec="Spec", timeout=600, workers=1, extra="", invariants=()):
    """Behaviours printed by a generator module as JSON after the tag CASE."""
    r = tlc(module, cfg_text(spec, constants, invariants=invariants, extra=extra), scratch, workers=workers, timeout=timeout)
    if not r.ok:
        raise Machinery("generator %s broke: %s" % (module, r.out[-3000:]))
    cases = []
    for ln in r.prints:
        if ln.startswith('<<"CASE", '):
            body = ln[len('<<"CASE", '):-2].strip()
            cases.append(json.loads(json.loads(body)))
    return cases, r


# --------------------------------------------------------------------- scenarios
def run_scenarios(check_id, scenarios, scratch, workers=6, per_scenario=60, total=700):
    """Run the scenarios in worker processes against /repo.

    Returns a list of results in order; each is a dict with `lines` (trace
    lines) or `error` (an exception from the code under test, a hang)."""
    n = len(scenarios)
    results = [None] * n
    scratch = tempfile.mkdtemp(prefix="run_", dir=scratch)
    os.makedirs(os.path.join(scratch, "mpl"))
    workers = max(1, min(workers, n))
    procs = []
    for w in range(workers):
        idx = list(range(w, n, workers))
        d = os.path.join(scratch, "w%d" % w)
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "in.json"), "w") as f:
            json.dump([(i, scenarios[i]) for i in idx], f)
        procs.append(_start(check_id, d, 0, per_scenario) + (d, idx))
    deadline = time.time() + total
    pending = list(range(workers))
    progress = [(0, time.time())] * workers
    while pending:
        for w in list(pending):
            p, log, d, idx = procs[w]
            done = _count(os.path.join(d, "out.ndjson"))
            if done != progress[w][0]:
                progress[w] = (done, time.time())
            code = p.poll()
            stuck = time.time() - progress[w][1] > per_scenario * 2 + 30
            if code is None and not stuck and time.time() < deadline:
                continue
            if code == 0:
                pending.remove(w)
                continue
            if code is None:
                _killpg(p)
                p.wait()
            done = _count(os.path.join(d, "out.ndjson"))
            if done >= len(idx):
                pending.remove(w)
                continue
            if done == 0 and code not in (None,) and not os.path.exists(os.path.join(d, "started")):
                raise Machinery("worker could not start: " + open(log, errors="replace").read()[-3000:])
            if time.time() >= deadline:
                raise Machinery("scenarios exceeded %ss" % total)
            why = "hang" if code is None else "worker died with code %s: %s" % (code, open(log, errors="replace").read()[-500:])
            with open(os.path.join(d, "out.ndjson"), "a") as f:
                f.write(json.dumps({"i": idx[done], "error": why, "kind": "hang" if code is None else "crash"}) + "\n")
            if done + 1 >= len(idx):
                pending.remove(w)
                continue
            p2, log2 = _start(check_id, d, done + 1, per_scenario)
            procs[w] = (p2, log2, d, idx)
            progress[w] = (done + 1, time.time())
        time.sleep(0.05)
    for p, log, d, idx in procs:
        _killpg(p)
        with open(os.path.join(d, "out.ndjson")) as f:
            for ln in f:
                r = json.loads(ln)
                results[r["i"]] = r
    if any(r is None for r in results):
        raise Machinery("a scenario has no result")
    for r in results:
        if r.get("kind") == "machinery":
            raise Machinery(r["error"])
    return results


def _killpg(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def _count(path):
    try:
        with open(path, "rb") as f:
            return f.read().count(b"\n")
    except FileNotFoundError:
        return 0


def _start(check_id, d, skip, per_scenario):
    log = os.path.join(d, "log%d.txt" % skip)
    cwd = os.path.join(d, "cwd")
    os.makedirs(cwd, exist_ok=True)
    p = subprocess.Popen([PY, os.path.join(VERIF, "harness", "worker.py"), check_id, d, str(skip), str(per_scenario)],
                         cwd=cwd, env=child_env(MPLCONFIGDIR=os.path.join(os.path.dirname(d), "mpl")),
                         stdout=open(log, "w"), stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                         start_new_session=True)
    return p, log


# ---------------------------------------------------------------------- verdicts
def known_findings(pid):
    try:
        with open(KNOWN) as f:
            return [k for k in json.load(f).get("findings", []) if k["property"] == pid]
    except FileNotFoundError:
        return []


class Verdict:
    """Collects what a check covered and what it found."""

    def __init__(self, pid):
        self.pid, self.t0 = pid, time.time()
        self.violations = []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []

    def add_mc(self, name, r):
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        self.cov.setdefault("model_runs", []).append(
            {"module": name, "distinct": r.distinct, "generated": r.generated, "wall_s": round(r.wall, 1)})

    def violation(self, clause, detail, scenario, lines=None):
        self.violations.append({"clause": clause, "detail": str(detail)[:600], "scenario": scenario, "lines": (lines or [])[:3]})

    def finish(self):
        pid = self.pid
        new, known = [], []
        kf = known_findings(pid)
        for v in self.violations:
            hit = next((k for k in kf if k["clause"] == v["clause"] and k.get("match") == (v["scenario"] or {}).get("known")), None)
            (known if hit else new).append((v, hit))
        os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
        ev = {"property": pid, "tier": tier(), "seed": seed(), "level": "model_checking",
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        with open(os.path.join(EVID, pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in kf:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        if not new:
            print("OK property=%s states=%d traces=%d wall=%.1fs" % (
                pid, self.cov["states"], self.cov["traces_validated_against_impl"], ev["wall_s"]))
            return 0
        seen, n = {}, 0
        for v, _ in new:
            seen.setdefault(v["clause"], []).append(v)
        for clause, vs in seen.items():
            n += 1
            path = os.path.join(EVID, "replays", "%s-%d.json" % (pid, n))
            with open(path, "w") as f:
                json.dump({"property": pid, "clause": clause, "count": len(vs), "cases": vs[:5]}, f, indent=1, default=str)
            print("  clause %s failed %d time(s); first: %s" % (clause, len(vs), vs[0]["detail"][:300]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
