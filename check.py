#!/usr/bin/env python3
"""Decides one property by deterministic simulation: check.py P01 [--tier quick|thorough]

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken, with a replay file.
Anything else: the check itself could not answer."""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
sys.path.insert(0, HERE)
from sim.plan import PLAN, COMPONENTS, DATA, RULES  # noqa: E402


def child_env(scratch, mode):
    e = dict(os.environ)
    e.update(
        PYTHONPATH=HERE, PYTHONNOUSERSITE="1", PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED=os.environ.get("WW_HASHSEED", "0"),
        OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", NUMBA_NUM_THREADS="1",
        GLIBC_TUNABLES="glibc.malloc.tcache_count=0",
        NUMBA_CACHE_DIR=os.path.join(scratch, "numba" + mode), TMPDIR=os.path.join(scratch, "tmp"),
        WILDWOOD_DATA=os.path.join(scratch, "data"), SCIKIT_LEARN_DATA=os.path.join(scratch, "sk"),
        MPLBACKEND="Agg", http_proxy="http://127.0.0.1:9", https_proxy="http://127.0.0.1:9",
    )
    return e


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    a = ap.parse_args()
    pid = a.prop
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    plan = PLAN[pid][a.tier]
    scratch = tempfile.mkdtemp(prefix="wwsim-")
    os.mkdir(os.path.join(scratch, "tmp"))
    try:
        code = work(pid, a.tier, seed, plan, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def launch(pid, tier, seed, mode, p, scratch):
    out = os.path.join(scratch, "out-%s.json" % mode)
    log = open(os.path.join(scratch, "log-%s" % mode), "w")
    proc = subprocess.Popen(
        [PY, "-m", "sim.run", "--prop", pid, "--mode", mode, "--tier", tier, "--seed", str(seed),
         "--workers", str(p["workers"]), "--count", str(p["count"]), "--budget", str(p["budget"]),
         "--minbudget", str(p.get("minbudget", 40)), "--out", out, "--stopfile", os.path.join(scratch, "stop")],
        cwd=HERE, env=child_env(scratch, mode), stdout=log, stderr=log, start_new_session=True)
    return proc, out, log.name


def end(proc):
    try:
        os.killpg(proc.pid, 9)
    except OSError:
        pass


def work(pid, tier, seed, plan, scratch, t0):
    procs = {m: launch(pid, tier, seed, m, p, scratch) for m, p in plan.items()}
    res = {}
    cap = t0 + (700 if tier == "quick" else 820)
    for m, (proc, out, log) in procs.items():
        try:
            proc.wait(max(1, cap - time.time()))
        except subprocess.TimeoutExpired:
            pass
        end(proc)
        proc.wait()
        if os.path.exists(out):
            res[m] = json.load(open(out))
        else:
            res[m] = {"mode": m, "boot_error": "no result; log: " + open(log).read()[-2000:]}
    viol = None
    for m in plan:
        v = res[m].get("violation")
        if v and viol is None:
            viol = (m, v)
    code, lines = 0, []
    if viol:
        m, v = viol
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", "%s-%s-%d.json" % (pid, v["violation"]["cls"], v["original"]["scenario"]["seed"]))
        tmp = os.path.join(scratch, "replay.json")
        json.dump(v, open(tmp, "w"))
        ro = os.path.join(scratch, "replayed.json")
        p = subprocess.Popen([PY, "-m", "sim.run", "--replay", tmp, "--out", ro], cwd=HERE,
                             env=child_env(scratch, m + "r"), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
        try:
            p.wait(max(30, min(240, t0 + 860 - time.time())))
        except subprocess.TimeoutExpired:
            pass
        end(p)
        p.wait()
        rr = json.load(open(ro)) if os.path.exists(ro) else {"reproduced": None, "exact": None}
        v["fresh_process_replay"] = {"reproduced": rr["reproduced"], "exact": rr["exact"]}
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        lines.append("violation class %s in mode %s: %s" % (v["violation"]["cls"], m, v["violation"]["detail"][:700]))
        lines.append("confirmed %s; fresh-process replay: %s; replay with: python3 replay.py %s" % (v["confirmed"], v["fresh_process_replay"], path))
        lines.append("VIOLATION property=%s replay=%s" % (pid, path))
        code = 1
    else:
        # A mode answers if enough of its runs completed and hardly any ended without an answer.
        # The other modes only add to it: one that cannot run the code as it now is (the
        # interpreted kernels, say) is reported, and the answer is that of the rest.
        problems, answered = [], 0
        for m, p in plan.items():
            r = res[m]
            if r.get("boot_error"):
                problems.append("mode %s did not start: %s" % (m, r["boot_error"][-1500:]))
                continue
            ok = r["status"].get("ok", 0)
            if r["nbad"]:
                lines.append("note: mode %s: %d runs without an answer, e.g. %s" % (m, r["nbad"], json.dumps(r["bad"][:2])[:1500]))
            if ok < p.get("min", 20):
                problems.append("mode %s: only %d completed runs (%s)" % (m, ok, r["status"]))
            elif r["nbad"] > max(3, 0.04 * r["runs"]):
                problems.append("mode %s: %d of %d runs without an answer" % (m, r["nbad"], r["runs"]))
            else:
                answered += 1
        if not answered:
            code = 2
        lines += [("note: " if answered else "CHECK-ERROR ") + x for x in problems]
    write_evidence(pid, tier, seed, plan, res, viol, time.time() - t0)
    for m in plan:
        r = res[m]
        if not r.get("boot_error"):
            lines.insert(0, "%s mode %s: %d runs (%s), %d simulated threads schedules, %d distinct interleavings, boot %.0fs search %.0fs" % (
                pid, m, r["runs"], r["status"], r["sims"], r["distinct_interleavings"], r["boot_s"], r["search_s"]))
    print("\n".join(lines))
    sys.stdout.flush()
    return code


def write_evidence(pid, tier, seed, plan, res, viol, wall):
    good = [r for r in res.values() if not r.get("boot_error")]
    faults, probes = {}, {}
    for r in good:
        for k, v in r["counts"].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r["probes"].items():
            probes[k] = probes.get(k, 0) + v
    runs = sum(r["runs"] for r in good)
    search = max([r["search_s"] for r in good] or [0]) or 1
    samples = [s for r in good for s in r["samples"][:2]]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 1),
        "violations": 1 if viol else 0,
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": sum(r["distinct_runs"] for r in good),
            "rule": RULES[pid],
            "samples": samples or ["none: no run completed"],
            "simulated_runs_per_hour": round(sum(r["runs"] / max(r["search_s"], 0.01) for r in good) * 3600),
            "seeds": "each run is a pure function of one integer sha256(VERIF_SEED|property|mode|index); VERIF_SEED=%d" % seed,
            "simulations": sum(r["sims"] for r in good),
            "scheduling_points": sum(r["steps"] for r in good),
            "context_switches": sum(r["switches"] for r in good),
            "simulated_seconds": round(sum(r["simulated_s"] for r in good), 3),
            "distinct_interleavings": sum(r["distinct_interleavings"] for r in good),
            "interleaving_measure": "distinct hashes of the sequence (from thread, to thread, code site) of all context switches of a simulation",
            "faults_and_events_injected": {k: v for k, v in sorted(faults.items()) if k.startswith(("fault_", "io_", "net_", "crash", "stall", "preempt_", "clock", "memory_"))},
            "probes": probes,
            "runs_without_answer": {m: r.get("bad", [])[:3] for m, r in res.items() if r.get("nbad")},
            "outcomes": {m: {"boot_error": r["boot_error"][-300:]} if r.get("boot_error") else r["status"] for m, r in res.items()},
            "components": COMPONENTS["data" if pid in DATA else "forest"],
            "modes": {m: {k: r.get(k) for k in ("boot_s", "search_s", "runs", "workers")} for m, r in res.items()},
        },
        "assumptions": COMPONENTS["assumptions"],
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(HERE, "evidence", pid + ".json"))


if __name__ == "__main__":
    main()
