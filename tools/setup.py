#!/usr/bin/env python3
"""Parses every specification module and imports the code under test once."""
import os, shutil, subprocess, sys, tempfile

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
sys.dont_write_bytecode = True
import vlib

os.makedirs(vlib.EVID, exist_ok=True)
d = tempfile.mkdtemp()
try:
    mods = sorted(f for f in os.listdir(vlib.SPEC) if f.endswith(".tla"))
    for f in mods:
        shutil.copy(os.path.join(vlib.SPEC, f), d)
    for f in mods:
        r = subprocess.run(["java", "-cp", vlib.TLA_JARS, "tla2sany.SANY", f], cwd=d, capture_output=True, text=True)
        if r.returncode or "*** Errors" in r.stdout or "Fatal" in r.stdout:
            print(r.stdout[-2000:])
            sys.exit("does not parse: " + f)
    print("parsed", len(mods), "modules")
    subprocess.run([vlib.PY, "-c", "import pyswarms"], cwd=d, env=vlib.child_env(MPLCONFIGDIR=d), check=True)
finally:
    shutil.rmtree(d)
