"""Run the planted bugs against the check of their property (and C35) and print a table for DESIGN.md.

usage: python3 tools/seed_matrix.py [-j jobs] [id ...]      (not part of any check)
"""
import json, os, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(prop, repo):
    o = subprocess.run([sys.executable, f"{HERE}/check.py", "--property", prop], capture_output=True, text=True,
                       env=dict(os.environ, VERIF_REPO=repo))
    first = next((x for x in o.stdout.splitlines() if x.startswith("rejected")), "")
    return o.returncode, first


def main(ids):
    for i in ids or sorted(os.listdir(f"{HERE}/seeded")):
        if not os.path.exists(f"{HERE}/seeded/{i}/meta.json"):
            continue
        meta = json.load(open(f"{HERE}/seeded/{i}/meta.json"))
        d = tempfile.mkdtemp(prefix="matrix", dir="/tmp")
        try:
            subprocess.run(["cp", "-a", "/repo", d], check=True)
            subprocess.run(["git", "apply", f"{HERE}/seeded/{i}/patch.diff"], cwd=f"{d}/repo", check=True)
            own, first = run(meta["property"], f"{d}/repo")
            chain = ""
            if meta["property"] < "C22" and meta["property"] != "C35":
                chain = {0: "no", 1: "yes"}.get(run("C35", f"{d}/repo")[0], "?")
            print(f"| {i} | {meta['property']} | {'caught' if own == 1 else 'MISSED'} | {chain} | {first[:120]} |", flush=True)
        finally:
            shutil.rmtree(d)


main(sys.argv[1:])
