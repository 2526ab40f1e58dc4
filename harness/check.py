"""Driver: decides one property.

    check.py <property> [--tier quick|thorough] [--unit NAME]

Every property is a list of units (see props.py).  A unit drives the code in
/repo, records what it did as a trace and lets TLC judge the trace against the
specification in /verif/spec (or lets TLC generate behaviours first and replays
them).  Units run in their own processes, several at a time.
"""
import argparse
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("AJDMOM_REPO", "/repo")
sys.path.insert(0, HERE)

import props                                              # noqa: E402

JOBS = 8
LIB_LIMIT = {"quick": 420, "thorough": 2400}              # seconds for one unit's library calls
ALL_LIMIT = {"quick": 800, "thorough": 6 * 3600}


def known_findings(pid):
    """lines 'known: property=<id> case=<identity of the failing case>'"""
    out = {}
    with open(os.path.join(ROOT, "known-findings.txt")) as f:
        for line in f:
            if line.startswith("known: property=" + pid + " "):
                case = line.split(" case=", 1)[1].split(" -- ", 1)
                out[case[0].strip()] = case[1].strip() if len(case) > 1 else ""
    return out


def run_unit(pid, unit, seed, tier, scratch, deadline):
    name = unit["name"]
    box = os.path.join(scratch, name.replace("/", "_"))
    os.mkdir(box)
    spec = dict(unit, seed=seed, tier=tier, scratch=box, property=pid)
    env = dict(os.environ, PYTHONPATH=os.path.join(REPO, "src"), PYTHONDONTWRITEBYTECODE="1",
               PYTHONPYCACHEPREFIX=os.path.join(box, "pyc"), PYTHONHASHSEED="0",
               TMPDIR=box, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    with open(os.path.join(box, "unit.json"), "w") as f:
        json.dump(spec, f)
    out = open(os.path.join(box, "stdout"), "w")
    p = subprocess.Popen([sys.executable, "-B", os.path.join(HERE, "unit.py"),
                          os.path.join(box, "unit.json")],
                         stdout=out, stderr=subprocess.STDOUT, env=env, cwd=box,
                         start_new_session=True)
    t0 = time.time()
    timed_out = False
    while p.poll() is None:
        time.sleep(0.05)
        phase = "lib"
        try:
            with open(os.path.join(box, "phase")) as f:
                phase = f.read()
        except OSError:
            pass
        now = time.time()
        if now > deadline or (phase.startswith("lib") and now - t0 > LIB_LIMIT[tier]):
            timed_out = phase
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            break
    out.close()
    try:
        with open(os.path.join(box, "result.json")) as f:
            r = json.load(f)
    except (OSError, ValueError):
        r = None
    if r is None:
        with open(os.path.join(box, "stdout")) as f:
            tail = f.read()[-3000:]
        if timed_out and timed_out.startswith("lib"):
            r = dict(ok=0, bad=[dict(case=f"{name}: {timed_out[4:]}", want="a result",
                                     got=f"none after {time.time() - t0:.0f} s", note="")],
                     states=0, transitions=0, traces=0, samples=[], skipped=[])
        else:
            r = dict(error=f"unit {name}: exit {p.returncode} {timed_out or ''}\n{tail}")
    r["name"] = name
    r["wall_s"] = round(time.time() - t0, 2)
    shutil.rmtree(box, ignore_errors=True)
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--unit")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    pid, tier = a.property, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = props.PROPS[pid]
    units = props.units(pid, tier)
    if a.unit:
        units = [u for u in units if u["name"] == a.unit]
    t0 = time.time()
    deadline = t0 + ALL_LIMIT[tier]
    scratch = tempfile.mkdtemp(prefix=f"ajd-{pid}-")
    results, lock, queue = [], threading.Lock(), list(units)

    def worker():
        while True:
            with lock:
                if not queue:
                    return
                u = queue.pop(0)
            r = run_unit(pid, u, seed, tier, scratch, deadline)
            with lock:
                results.append(r)
                if a.v:
                    print(f"# {r['name']}: {r.get('ok')} ok, {len(r.get('bad', []))} bad, "
                          f"{r.get('states')} states, lib {r.get('lib_s')} s, {r['wall_s']} s "
                          f"{r.get('skipped') or ''} {r.get('error', '')}", flush=True)
    try:
        ts = [threading.Thread(target=worker) for _ in range(min(JOBS, len(units)))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    errors = [r["error"] for r in results if "error" in r]
    good = [r for r in results if "error" not in r]
    known = known_findings(pid)
    bad, found = [], {}
    for r in good:
        for b in r["bad"]:
            b["unit"] = r["name"]
            if b["case"] in known:
                found[b["case"]] = b
            else:
                bad.append(b)
    samples = [s for r in good for s in r["samples"]]
    random.Random(seed).shuffle(samples)
    evaluations = sum(r["ok"] + len(r["bad"]) for r in good)
    coverage = dict(
        states=sum(r["states"] for r in good),
        transitions=sum(r["transitions"] for r in good),
        traces_validated_against_impl=sum(r["traces"] for r in good),
        evaluations=evaluations,
        distinct_nontrivial=sum(r.get("distinct", r["ok"]) for r in good),
        rule=prop["rule"],
        samples=samples[:6],
        units=[dict(name=r["name"], answers_agreeing=r["ok"], wall_s=r["wall_s"],
                    states=r["states"]) for r in sorted(good, key=lambda r: r["name"])],
        skipped=[s for r in good for s in r["skipped"]],
    )
    os.makedirs(os.path.join(ROOT, "evidence", "replay"), exist_ok=True)
    if not a.unit:
        with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
            json.dump(dict(property=pid, tier=tier, seed=seed, level=prop["level"],
                           coverage=coverage, assumptions=prop["assumptions"],
                           wall_s=round(time.time() - t0, 2), violations=len(bad)), f, indent=1)
    for c, b in sorted(found.items()):
        print(f"KNOWN-FINDING: property={pid} {c} {known[c]}")
    if errors and not bad:
        print("\n".join(errors), file=sys.stderr)
        print(f"ERROR property={pid}: {len(errors)} units gave no answer", file=sys.stderr)
        return 2
    if bad:
        path = os.path.join(ROOT, "evidence", "replay", pid + ".json")
        with open(path, "w") as f:
            json.dump(dict(property=pid, tier=tier, seed=seed, repo=REPO,
                           rerun=[f"VERIF_SEED={seed} bin/check {pid} --tier {tier} --unit {u} -v"
                                  for u in sorted({b['unit'] for b in bad})],
                           violations=bad[:200]), f, indent=1)
        for b in bad[:10]:
            print(f"  {b['case']}: specification {b['want']}, implementation {b['got']} {b['note']}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print(f"ok property={pid}: {evaluations} answers in {len(units)} units, "
          f"{coverage['states']} states, {time.time() - t0:.1f} s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
