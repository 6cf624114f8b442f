#!/usr/bin/env python3
"""Confirm and store planted bugs.

Reads python files given as arguments; each defines a list BUGS of dicts
  id, property, edits=[(file, old, new)], demo (python source), needs, breaks
and, in a scratch copy of /repo, checks: builds, stable tests pass, the demo
passes without and fails with the change.  Stores /verif/seeded/<id>/.
"""
import json, os, shutil, subprocess, sys, tempfile, runpy

ROOT = "/verif/seeded"
BASE = "37e665b"
# tests that need downloaded data, not in the baseline
UNSTABLE = ("test_EnergyDispersionEstimator", "test_EffectiveAreaEstimator_prod5", "prod5")

DEMO_SH = '''#!/bin/bash
# run with cwd /repo: exit 0 when the property holds
here="$(cd "$(dirname "$0")" && pwd)"
py=/opt/venv/bin/python; [ -x $py ] || py=python3
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
exec $py "$here/demo.py"
'''
PRE = '''import os, sys, warnings
sys.path.insert(0, os.getcwd())
warnings.simplefilter("ignore")
import numpy as np
np.seterr(all="ignore")
import astropy.units as u
from astropy.table import QTable, Table
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tests(d):
    env = dict(os.environ, SETUPTOOLS_SCM_PRETEND_VERSION="0.14.0", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    x = os.path.join(d, "..", "junit.xml")
    r = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "4", "--timeout=300", "-o",
            "junit_family=xunit2", f"--junitxml={x}", "pyirf"], cwd=d, env=env)
    import xml.etree.ElementTree as ET
    bad = []
    for t in ET.parse(x).iter("testcase"):
        if any(c.tag in ("failure", "error") for c in t):
            bad.append(t.get("classname") + "::" + t.get("name"))
    return bad, r.stdout[-300:]


def main():
    only = None
    files = sys.argv[1:]
    for f in files:
        for b in runpy.run_path(f)["BUGS"]:
            d0 = tempfile.mkdtemp(prefix="plant", dir="/tmp")
            d = os.path.join(d0, "repo")
            try:
                sh(["cp", "-a", "/repo", d])
                ok = True
                for file, old, new in b["edits"]:
                    p = os.path.join(d, file)
                    s = open(p).read()
                    if s.count(old) != 1:
                        print(b["id"], "old text found", s.count(old), "times in", file)
                        ok = False
                        break
                    open(p, "w").write(s.replace(old, new))
                if not ok:
                    continue
                # removed lines must be lines of the original repository
                diff = sh(["git", "diff", "--no-color"], cwd=d).stdout
                for file, old, new in b["edits"]:
                    base = sh(["git", "show", f"{BASE}:{file}"], cwd=d).stdout.splitlines()
                    rem = [x[1:] for x in diff.splitlines() if x.startswith("-") and not x.startswith("---")]
                    if not any(x in base for x in rem) and rem:
                        print(b["id"], "WARNING: removed lines are not original", rem)
                dst = os.path.join(d0, "seed")
                os.makedirs(dst)
                open(os.path.join(dst, "patch.diff"), "w").write(diff)
                open(os.path.join(dst, "demo.sh"), "w").write(DEMO_SH)
                os.chmod(os.path.join(dst, "demo.sh"), 0o755)
                open(os.path.join(dst, "demo.py"), "w").write(PRE + b["demo"].strip("\n") + "\n")
                json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]),
                          open(os.path.join(dst, "meta.json"), "w"), indent=1)
                r0 = sh(["bash", os.path.join(dst, "demo.sh")], cwd="/repo")
                r1 = sh(["bash", os.path.join(dst, "demo.sh")], cwd=d)
                if r0.returncode or not r1.returncode:
                    print(b["id"], "DEMO: unchanged", r0.returncode, r0.stdout[-300:], "changed", r1.returncode, r1.stdout[-200:])
                    continue
                bad, tail = tests(d)
                bad = [x for x in bad if not any(n in x for n in UNSTABLE)]
                if bad:
                    print(b["id"], "TESTS fail:", bad[:4])
                    continue
                t = os.path.join(ROOT, b["id"])
                shutil.rmtree(t, ignore_errors=True)
                shutil.copytree(dst, t)
                out = []
                for pr in b.get("check", [b["property"]]):
                    r = subprocess.run(["python3", "/verif/check.py", "--property", pr],
                                       env=dict(os.environ, VERIF_REPO=d), stdout=subprocess.PIPE, text=True)
                    rej = [x for x in r.stdout.splitlines() if x.startswith("rejected")][:1] or r.stdout.splitlines()[-1:]
                    out.append(f"{pr} exit {r.returncode} {rej[0][:150] if rej else ''}")
                print(b["id"], "stored |", "; ".join(out), "|", r1.stdout.strip()[-90:].replace("\n", " "), flush=True)
            finally:
                shutil.rmtree(d0, ignore_errors=True)


main()
