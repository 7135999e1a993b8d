#!/usr/bin/env python3
"""Makes and judges planted bugs (run by hand; no check uses it).

  seed.py make FILE      FILE: python with BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new[, nth])], demo=text)]
  seed.py judge ID...    in scratch copies of /repo: patch applies, stable tests pass, demo discriminates, the check catches it
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(V, "seeded")
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
DEMO_SH = '''#!/bin/bash
# exit 0: the property holds; run with the repository as working directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
cd "$work" || exit 2
PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR="$work" PYTHONPATH="$repo" timeout 200 /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, cwd=None, env=None, timeout=900):
    try:
        return subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, 124, stdout="timeout")


def make(path):
    ns = {}
    exec(open(path).read(), ns)
    for b in ns["BUGS"]:
        d = tempfile.mkdtemp(prefix="mk_", dir="/tmp")
        repo = os.path.join(d, "repo")
        sh(["git", "clone", "-q", "/repo", repo])
        for e in b["edits"]:
            f, old, new = e[:3]
            nth = e[3] if len(e) > 3 else None
            p = os.path.join(repo, f)
            s = open(p).read()
            n = s.count(old)
            if n == 0 or (n > 1 and nth is None):
                print("!!", b["id"], f, "matches", n, repr(old[:60]))
                break
            if nth == "all" or n == 1:
                s = s.replace(old, new)
            else:
                parts = s.split(old)
                s = old.join(parts[:nth]) + new + old.join(parts[nth:]) if nth else None
            open(p, "w").write(s)
        else:
            out = os.path.join(SEEDED, b["id"])
            os.makedirs(out, exist_ok=True)
            diff = sh(["git", "diff"], cwd=repo).stdout
            open(os.path.join(out, "patch.diff"), "w").write(diff)
            open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH)
            os.chmod(os.path.join(out, "demo.sh"), 0o755)
            open(os.path.join(out, "demo.py"), "w").write(b["demo"].lstrip("\n"))
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                      open(os.path.join(out, "meta.json"), "w"), indent=1)
        shutil.rmtree(d)


def judge(bug, checks=None, tests=True):
    src = os.path.join(SEEDED, bug)
    meta = json.load(open(os.path.join(src, "meta.json")))
    d = tempfile.mkdtemp(prefix="jg_", dir="/tmp")
    r = {"id": bug, "property": meta["property"]}
    try:
        repo = os.path.join(d, "repo")
        sh(["cp", "-a", "/repo", repo])
        demo = os.path.join(d, "demo")
        os.makedirs(demo)
        for f in os.listdir(src):
            if not f.endswith((".diff", ".json")):
                shutil.copy(os.path.join(src, f), demo)
        x = sh(["bash", os.path.join(demo, "demo.sh")], cwd=repo)
        r["demo_clean"] = x.returncode
        if x.returncode:
            r["demo_out"] = x.stdout[-300:]
        a = sh(["git", "apply", os.path.join(src, "patch.diff")], cwd=repo)
        r["applies"] = a.returncode == 0
        x = sh(["bash", os.path.join(demo, "demo.sh")], cwd=repo)
        r["demo_bug"] = x.returncode
        if tests:
            j = os.path.join(d, "junit.xml")
            sh([PY, "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "-p", "no:xdist", "--timeout=300", "--continue-on-collection-errors",
                "-o", "junit_family=xunit2", "--junitxml=" + j], cwd=repo, env=dict(ENV, PYTHONPATH=repo, MPLCONFIGDIR=d))
            sh(["/usr/bin/python3", "/opt/vp/results.py", os.path.join(d, "o.json"), "junit:" + j])
            o = json.load(open(os.path.join(d, "o.json")))
            base = json.load(open("/opt/vp/BASELINE.json"))
            ok = set(o.get("passed", o.get("pass", [])))
            r["tests_missing"] = [t for t in base["stable"] if t not in ok][:4]
        r["caught"] = {}
        vv = os.path.join(d, "verif")
        sh(["cp", "-a", V, vv])
        for c in checks or [meta["property"]]:
            x = sh([PY, "check.py", c], cwd=vv, env=dict(ENV, VERIF_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick"))
            v = re.findall(r"clause (\S+)", x.stdout)
            r["caught"][c] = (x.returncode, ("VIOLATION property=%s " % c) in x.stdout, v[:6]) if x.returncode != 2 else (2, x.stdout[-300:])
    finally:
        shutil.rmtree(d)
    good = r["demo_clean"] == 0 and r["demo_bug"] != 0 and r["applies"] and not r.get("tests_missing")
    hit = any(v[0] == 1 and v[1] for v in r["caught"].values())
    print(("counts" if good else "BAD   "), ("caught" if hit else "MISSED"), json.dumps(r), flush=True)
    return r


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2])
    else:
        ids = [a for a in sys.argv[2:] if not a.startswith("--")]
        if not ids:
            ids = sorted(os.listdir(SEEDED))
        opts = [a for a in sys.argv[2:] if a.startswith("--")]
        checks = next((o.split("=")[1].split(",") for o in opts if o.startswith("--checks=")), None)
        with cf.ThreadPoolExecutor(3) as ex:
            list(ex.map(lambda b: judge(b, checks, "--notests" not in opts), [b for b in ids if os.path.exists(os.path.join(SEEDED, b, "meta.json"))]))
