#!/usr/bin/env python3
"""Decide one property: model-check the specification, drive the real code,
let TLC judge every recorded trace against the specification.

exit 0  every trace is a behaviour of the specification
exit 1  a trace was rejected: "VIOLATION property=<id> replay=<path>"
exit 2  the machinery itself failed
"""
import argparse
import concurrent.futures as cf
import fnmatch
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

NPROC = min(8, os.cpu_count() or 1)


class Machinery(Exception):
    pass


def run(cmd, timeout, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, **kw)
    except subprocess.TimeoutExpired:
        raise Machinery(f"timeout after {timeout} s: {' '.join(cmd)[:300]}")


def build_java(work):
    out = os.path.join(work, "classes")
    os.makedirs(out)
    r = run(["javac", "-nowarn", "-cp", TLA, "-d", out, os.path.join(HERE, "java", "Num.java")], 300)
    if r.returncode:
        raise Machinery("javac failed:\n" + r.stdout)
    return out


def tlc(work, classes, module, cfg, env=None, workers=NPROC, timeout=800, extra=(), heap="6g"):
    meta = tempfile.mkdtemp(prefix="tlc", dir=work)
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", f"-Djava.io.tmpdir={work}",
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:pyirfspec.Num",
           "-cp", f"{TLA}:{classes}", "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
           "-noGenerateSpecTE", "-config", os.path.join(SPEC, cfg), *extra, os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    r = run(cmd, timeout, cwd=SPEC, env=e)
    shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout


STAT = re.compile(r"^(\d+) states generated, (\d+) distinct states found", re.M)


def stats(out):
    m = STAT.findall(out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def model_check(work, classes, spec, tier, beh_file):
    """Exhaustive check of the design; returns statistics, collects behaviours."""
    gen = dist = nbeh = 0
    info = []
    with open(beh_file, "w") as f:
        for mc in spec.get("mc", []):
            cfg = mc.get(tier, mc["quick"])
            rc, out = tlc(work, classes, mc["module"], cfg, extra=mc.get("extra", ()))
            if rc != 0 or "Model checking completed. No error has been found" not in out:
                raise Machinery(f"model checking {mc['module']}/{cfg} failed (exit {rc}):\n{out[-3000:]}")
            g, d = stats(out)
            if d < mc.get("min_states", 2):
                raise Machinery(f"{mc['module']}/{cfg}: only {d} states, the model is vacuous")
            gen += g
            dist += d
            beh = set()
            for line in out.splitlines():
                if line.startswith('"BEH|') and mc.get("emit", True):
                    beh.add(json.loads(line)[4:])
            for x in sorted(beh):
                f.write(x + "\n")
            nbeh += len(beh)
            info.append(f"{mc['module']}/{cfg}: {d} distinct states, {g} transitions, {len(beh)} behaviours emitted")
    return gen, dist, nbeh, info


def drive(work, spec, prop, tier, seed, beh_file):
    """Run the driver against the real code in /repo, sharded."""
    n = spec.get("shards", NPROC)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               MKL_NUM_THREADS="1", PYTHONHASHSEED="0", HOME=work, XDG_CACHE_HOME=work, XDG_CONFIG_HOME=work,
               MPLCONFIGDIR=work, PYTHONPATH="")
    outs = []

    def one(k):
        o = os.path.join(work, f"trace{k}.ndjson")
        cmd = [PY, os.path.join(HERE, "harness", spec["driver"] + ".py"), "--property", prop, "--seed", str(seed),
               "--tier", tier, "--shard", str(k), "--nshards", str(n), "--behaviours", beh_file, "--out", o]
        r = run(cmd, 850 if tier == "quick" else 6 * 3600, cwd=work, env=env)
        return r, o

    with cf.ThreadPoolExecutor(NPROC) as ex:
        for r, o in ex.map(one, range(n)):
            if r.returncode:
                raise Machinery(f"driver {spec['driver']} failed (exit {r.returncode}):\n{r.stdout[-3000:]}")
            outs.append(o)
    lines = []
    for o in outs:
        with open(o) as f:
            lines += [x for x in f if x.strip()]
    return lines


ERRST = re.compile(r"/\\ t = (\d+)")
ERRI = re.compile(r"/\\ i = (\d+)")


def judge(work, classes, spec, lines, timeout):
    """TLC consumes every trace; returns rejections [(trace id, event no, clauses)]."""
    rejects, gen, dist, done = [], 0, 0, 0
    chunk = spec.get("chunk", 4000)
    for start in range(0, len(lines), chunk):
        part = list(lines[start:start + chunk])
        failures = 0
        while part:
            f = os.path.join(work, "judge.ndjson")
            with open(f, "w") as fh:
                fh.writelines(part)
            rc, out = tlc(work, classes, spec["trace"], spec["trace"] + ".cfg", env={"TRACE_FILE": f}, timeout=timeout,
                          heap="10g")
            ids = {json.loads(x)["id"] for x in part}
            rej, fin = [], set()
            for line in out.splitlines():
                if line.startswith('"REJECT|'):
                    _, tid, ev, cl = json.loads(line).split("|", 3)
                    rej.append((tid, int(ev), cl))
                elif line.startswith('"DONE|'):
                    fin.add(json.loads(line).split("|")[1])
            g, d = stats(out)
            if rc == 0 and "Model checking completed. No error has been found" in out:
                missing = ids - fin
                if missing:
                    raise Machinery(f"{len(missing)} traces were not consumed, e.g. {sorted(missing)[0]}\n{out[-1500:]}")
                rejects += rej
                gen, dist, done = gen + g, dist + d, done + len(fin)
                break
            # the specification could not evaluate an event: that trace is no behaviour of it
            mt, mi = ERRST.findall(out), ERRI.findall(out)
            if not mt or "Error:" not in out:
                raise Machinery(f"TLC failed on {spec['trace']} (exit {rc}):\n{out[-3000:]}")
            k, ev = int(mt[-1]) - 1, int(mi[-1]) + 1
            msg = re.sub(r"\s+", " ", out[out.index("Error:"):][:600])
            rejects.append((json.loads(part[k])["id"], ev, "not-evaluable: " + msg))
            failures += 1
            if failures >= 3:
                rejects += rej
                break
            del part[k]
    return rejects, gen, dist, done


def clauses(text):
    """The names in a printed TLA+ set of strings."""
    return re.findall(r'"([^"]*)"', text) if text.startswith("{") else [text]


def load_known(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["status"] == "known" and k["property"] == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay", help="only judge this recorded trace")
    ap.add_argument("--keep", help="keep the traces in this folder")
    a = ap.parse_args()
    prop, tier = a.property, a.tier
    spec = CHECKS[prop]
    t0 = time.time()
    base = os.path.join(HERE, "build")
    os.makedirs(base, exist_ok=True)
    work = tempfile.mkdtemp(prefix=f"{prop}-", dir=base)
    try:
        classes = build_java(work)
        beh = os.path.join(work, "behaviours.json")
        if a.replay:
            lines = [open(a.replay).read().strip() + "\n"]
            gen = dist = nbeh = 0
            info = []
        else:
            gen, dist, nbeh, info = model_check(work, classes, spec, tier, beh)
            t1 = time.time()
            lines = drive(work, spec, prop, tier, a.seed, beh)
            t2 = time.time()
        if a.keep:
            os.makedirs(a.keep, exist_ok=True)
            with open(os.path.join(a.keep, prop + ".ndjson"), "w") as f:
                f.writelines(lines)
        if not lines:
            raise Machinery("the driver recorded nothing")
        rejects, tg, td, done = judge(work, classes, spec, lines, 850 if tier == "quick" else 6 * 3600)
        t3 = time.time()
        byid = {json.loads(x)["id"]: x for x in lines}
        known = load_known(prop)
        status = 0
        new, met = [], {}
        for tid, ev, cl in sorted(rejects):
            # known: every clause that failed is one listed for this kind of trace
            k = [[x for x in known if fnmatch.fnmatch(tid, x["trace"]) and x["clause"] == c] for c in clauses(cl)]
            if k and all(k):
                for x in k:
                    met[x[0]["what"]] = met.get(x[0]["what"], 0) + 1
            else:
                new.append((tid, ev, cl))
        for what in sorted(met):
            print(f"KNOWN-FINDING: property={prop} {what}")
        ops, events, samples = {}, 0, []
        for x in lines:
            d = json.loads(x)
            for e in d["ev"]:
                events += 1
                ops[e["op"]] = ops.get(e["op"], 0) + 1
        for op in ops:
            for x in lines:
                d = json.loads(x)
                e = [e for e in d["ev"] if e["op"] == op]
                if e:
                    s = json.dumps(e[0])
                    samples.append({"trace": d["id"], "event": s if len(s) < 1500 else s[:1500] + "..."})
                    break
        if not a.replay:
            evd = dict(property=prop, tier=tier, seed=a.seed, level=spec["level"],
                       coverage=dict(states=dist + td, transitions=gen + tg, traces_validated_against_impl=done,
                                     events_judged=events, events_by_kind=ops, behaviours_generated_by_tlc=nbeh,
                                     models=info, samples=samples[:8],
                                     seconds=dict(model=round(t1 - t0, 1), drive=round(t2 - t1, 1), judge=round(t3 - t2, 1))),
                       assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(new))
            if met:
                evd["coverage"]["known_findings_met"] = met
            os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
            with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
                json.dump(evd, f, indent=1)
        if new:
            status = 1
            rep = os.path.join(HERE, "replays")
            os.makedirs(rep, exist_ok=True)
            shown = set()
            for tid, ev, cl in new:
                if tid in shown:
                    continue
                shown.add(tid)
                if len(shown) > 5:
                    break
                p = os.path.join(rep, tid + ".ndjson")
                with open(p, "w") as f:
                    f.write(byid[tid])
                e = json.loads(byid[tid])["ev"][ev - 1]
                print(f"rejected: trace {tid} event {ev} ({e['op']}): {cl[:700]}")
                print(f"VIOLATION property={prop} replay={p}")
            print(f"{len(new)} events of {len(set(x[0] for x in new))} traces rejected")
        print(f"{prop} {tier}: {'ok' if status == 0 else 'VIOLATED'}; {dist} model states, {done} traces, {events} events, "
              f"{time.time() - t0:.1f} s")
        return status
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Machinery as e:
        print("MACHINERY FAILURE:", e)
        sys.exit(2)
