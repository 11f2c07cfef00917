"""One process per mode: boots wildwood, then runs scenarios in forked children.

usage: python -m sim.run --prop P --mode A|B|D --tier T --seed S --workers K --count N --budget SEC --out FILE
       python -m sim.run --replay FILE
"""
import argparse
import collections
import gc
import json
import os
import random
import re
import select
import signal
import sys
import time
import traceback

from . import core, env, twin

T0 = core._real_monotonic()


def now():
    return core._real_monotonic() - T0


def load_prop(pid):
    import importlib
    return importlib.import_module("sim.props." + pid.lower())


def jclean(o):
    return json.loads(json.dumps(o, default=str))


# ------------------------------------------------------------------ one run (in a forked child)
def execute(prop, sc, replay=None):
    """Runs one scenario; returns a result dict."""
    env.reset_run(replay)
    t = core._real_perf()
    out = {"seed": sc.get("seed")}
    env.RESOLVED = {}
    env.PROBES = {}
    env.SC = sc
    try:
        with env.muted():
            prop.run(sc)
        out["status"] = "ok"
    except env.Skip as e:
        out.update(status="skip", detail=str(e)[:200])
    except env.Violation as e:
        out.update(status="violation", cls=e.cls, detail=re.sub(r"wwdata-\w+", "wwdata", str(e.detail))[:1500])
    except core.SimStuck as e:
        # a simulation outside the part the property judges
        out.update(status="stuck", detail=str(e)[:600])
    except core.HarnessError as e:
        out.update(status="timeout" if "wall clock" in str(e) else "error", detail=str(e)[:600])
    except BaseException as e:
        out.update(status="error", detail="".join(traceback.format_exception(e))[-1800:])
    st = env.STATS
    out["stats"] = {k: st[k] for k in ("sims", "steps", "switches", "vtime", "counts", "crc")}
    out["shapes"] = st["shapes"][:50]
    out["probes"] = env.PROBES
    out["resolved"] = env.RESOLVED
    out["decisions"] = env.RECORD if (out["status"] == "violation" or replay is not None) else None
    out["wall"] = round(core._real_perf() - t, 4)
    return out


def fork_run(prop, sc, replay=None):
    """Forks a child for one run; returns (pid, read fd)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid:
        os.close(w)
        return pid, r
    code = 0
    try:
        os.close(r)
        try:
            os.setpgid(0, 0)
        except OSError:
            pass
        res = execute(prop, sc, replay)
        data = json.dumps(res, default=str).encode()
        with os.fdopen(w, "wb") as f:
            f.write(data)
    except BaseException:
        code = 3
        try:
            os.write(2, traceback.format_exc().encode())
        except OSError:
            pass
    finally:
        os._exit(code)


def kill(pid):
    for f in (os.killpg, os.kill):
        try:
            f(pid, signal.SIGKILL)
        except OSError:
            pass


CRASHES = (signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE, signal.SIGILL, signal.SIGABRT)


class Pool:
    """Runs scenarios in forked children, several at a time, in order of submission."""

    def __init__(self, prop, workers, limit=90.0):
        self.prop = prop
        self.workers = workers
        self.limit = limit

    def map(self, jobs, stop=None, deadline=None):
        """jobs: iterator of (key, scenario, replay); yields (key, scenario, result) as they end."""
        live = {}
        jobs = iter(jobs)
        more = True
        while True:
            while more and len(live) < self.workers and not (stop and stop()):
                if deadline is not None and now() > deadline:
                    more = False
                    break
                j = next(jobs, None)
                if j is None:
                    more = False
                    break
                pid, fd = fork_run(self.prop, j[1], j[2])
                live[fd] = [pid, j, now(), b""]
            if not live:
                if not more or (stop and stop()):
                    return
                continue
            ready, _, _ = select.select(list(live), [], [], 0.25)
            for fd in list(live):
                pid, j, t, buf = live[fd]
                res = None
                if fd in ready:
                    d = os.read(fd, 1 << 20)
                    if d:
                        live[fd][3] = buf + d
                        continue
                    os.close(fd)
                    kill(pid)  # grandchildren, parked threads
                    _, status = os.waitpid(pid, 0)
                    try:
                        res = json.loads(buf)
                    except ValueError:
                        res = {"status": "error", "detail": "child ended with status %d" % status, "seed": j[1].get("seed")}
                        if status & 127 in CRASHES:
                            # the code under test brought the whole process down
                            res = {"status": "violation", "cls": "process-crash", "probes": {}, "shapes": [], "decisions": None,
                                   "detail": "the process died of signal %s" % signal.Signals(status & 127).name, "seed": j[1].get("seed"),
                                   "stats": {"sims": 0, "steps": 0, "switches": 0, "vtime": 0.0, "counts": {}, "crc": 0}}
                elif now() - t > self.limit:
                    kill(pid)
                    os.close(fd)
                    os.waitpid(pid, 0)
                    res = {"status": "timeout", "detail": "run exceeded %g s" % self.limit, "seed": j[1].get("seed")}
                if res is not None:
                    del live[fd]
                    yield j[0], j[1], res

    def one(self, sc, replay=None):
        for _, _, r in self.map([(0, sc, replay)]):
            return r


# ------------------------------------------------------------------ minimisation
def same_violation(res, cls):
    return res["status"] == "violation" and res["cls"] == cls


def minimise(pool, prop, sc, res, budget):
    """Shrinks workload, then schedule, while the same class of violation persists."""
    end = now() + budget
    cls = res["cls"]
    best, bres = sc, res
    tries = 0
    # 1. workload and faults (the schedule is redrawn from the same seed)
    progress = True
    while progress and now() < end:
        progress = False
        cands = [c for c in prop.shrink(best) if c != best]
        if best.get("mem"):
            cands.insert(0, dict(best, mem=0))
        for k in range(0, len(cands), pool.workers):
            if now() > end:
                break
            hits = []
            for i, c, r in pool.map([(i, c, None) for i, c in enumerate(cands[k:k + pool.workers])]):
                tries += 1
                if same_violation(r, cls):
                    hits.append((i, c, r))
            if hits:
                hits.sort(key=lambda h: h[0])
                best, bres = hits[0][1], hits[0][2]
                progress = True
                break
    # 2. schedule: explicit decisions, delta debugging; no decision = no preemption
    best = dict(best)
    best["_resolved"] = bres.get("resolved") or {}
    dec = bres.get("decisions") or []
    r = pool.one(best, dec)
    if not same_violation(r, cls):
        return best, None, bres, tries  # explicit schedule does not apply: replay by seed
    ndec0 = sum(len(d) for d in dec)

    def flat(d):
        return [(i, x) for i, l in enumerate(d) for x in l]

    def unflat(fl, n):
        out = [[] for _ in range(n)]
        for i, x in fl:
            out[i].append(x)
        return out

    cur = flat(dec)
    n = 2
    r0 = pool.one(best, unflat([], len(dec)))
    if same_violation(r0, cls):
        cur = []
        r = r0
    while cur and now() < end:
        size = max(1, len(cur) // n)
        chunks = [cur[i:i + size] for i in range(0, len(cur), size)]
        cands = [[x for j, ch in enumerate(chunks) if j != i for x in ch] for i in range(len(chunks))]
        hit = None
        for k in range(0, len(cands), pool.workers):
            if now() > end:
                break
            hs = []
            for i, _, rr in pool.map([(i, best, unflat(c, len(dec))) for i, c in enumerate(cands[k:k + pool.workers])]):
                tries += 1
                if same_violation(rr, cls):
                    hs.append((i, rr))
            if hs:
                hs.sort(key=lambda h: h[0])
                hit = (cands[k + hs[0][0]], hs[0][1])
                break
        if hit:
            cur, r = hit
            n = max(2, n - 1)
        elif size == 1:
            break
        else:
            n = min(len(cur), n * 2)
    final = unflat(cur, len(dec))
    return best, final, r, tries


# ------------------------------------------------------------------ main loop of a mode
MEM = (0, 0, 0x01, 0x3F, 0x42, 0x7F, 0xBF, 0xFF)  # what unwritten memory is full of


OPT = {"quick": 0}  # LLVM optimisation level of the kernels: the quick tier compiles faster


def scenario(prop, pid, mode, tier, vseed, i):
    seed = core.seed_of(vseed, pid, mode, i)
    rng = random.Random(seed)
    sc = prop.gen(rng, mode, tier)
    sc["seed"] = seed
    sc["mode"] = mode
    sc["prop"] = pid
    sc["opt"] = OPT.get(tier, 3)
    sc["mem"] = random.Random(core.seed_of(seed, "mem")).choice(MEM) if mode in ("A", "B") else 0
    return sc


def digest(sc, crc):
    """Identity of a run: what it does (seeds aside) and its event log."""
    def strip(o):
        if isinstance(o, dict):
            return {k: strip(v) for k, v in o.items() if k not in ("seed", "glob", "random_state")}
        if isinstance(o, list):
            return [strip(x) for x in o]
        return o
    return core.seed_of(json.dumps(strip(sc), sort_keys=True, default=str), crc)


def warm(mode):
    if mode == "A":
        from . import warmup
        warmup.run_a()
    elif mode == "B":
        from . import warmup
        warmup.run_b()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop")
    ap.add_argument("--mode")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--workers", type=int, default=4)
    ap.add_argument("--count", type=int, default=100)
    ap.add_argument("--budget", type=float, default=60)
    ap.add_argument("--minbudget", type=float, default=60)
    ap.add_argument("--out")
    ap.add_argument("--stopfile")
    ap.add_argument("--replay")
    ap.add_argument("--dump")
    a = ap.parse_args()
    rep = None
    if a.replay:
        rep = json.load(open(a.replay))
        a.prop, a.mode = rep["scenario"]["prop"], rep["scenario"]["mode"]
    os.environ["NUMBA_OPT"] = str(rep["scenario"].get("opt", 3) if rep else OPT.get(a.tier, 3))
    prop = load_prop(a.prop)
    summary = {"mode": a.mode, "boot_s": None}
    want = a.mode in getattr(prop, "TWIN", ()) and (a.mode != "A" or a.tier == "thorough" or bool(rep and rep["scenario"].get("twin")))
    try:
        if want:
            twin.start(a.mode)
        env.boot(a.mode)
        warm(a.mode)
        if hasattr(prop, "prepare"):
            prop.prepare(a.mode)
        env.TWIN = want and twin.ready()
    except BaseException:
        twin.stop()
        summary["boot_error"] = traceback.format_exc()[-3000:]
        if a.out:
            json.dump(summary, open(a.out, "w"))
        else:
            print(summary["boot_error"])
        sys.exit(4)
    gc.collect()
    gc.freeze()
    summary["boot_s"] = round(now(), 2)
    pool = Pool(prop, a.workers, limit=getattr(prop, "LIMIT", 90.0))
    if rep is not None:
        r = pool.one(rep["scenario"], rep.get("decisions"))
        exp = rep["violation"]
        ok = r["status"] == "violation" and r["cls"] == exp["cls"]
        print("replay status=%s class=%s" % (r["status"], r.get("cls")))
        print("detail: %s" % r.get("detail"))
        print("same class: %s; same detail: %s; same event log: %s" % (
            ok, r.get("detail") == exp["detail"], r.get("stats", {}).get("crc") == exp.get("crc")))
        if a.out:
            json.dump({"reproduced": ok, "exact": ok and r.get("detail") == exp["detail"] and r["stats"]["crc"] == exp.get("crc"), "result": r}, open(a.out, "w"))
        twin.stop()
        sys.exit(1 if ok else 0)

    t_start = now()
    agg = {"runs": 0, "status": collections.Counter(), "sims": 0, "steps": 0, "switches": 0, "vtime": 0.0,
           "counts": collections.Counter(), "probes": collections.Counter()}
    shapes, sigs = set(), set()
    found = None
    samples, bad, dump, skips = [], [], [], collections.Counter()
    flag = {"stop": False}

    def stop():
        if not flag["stop"] and a.stopfile and os.path.exists(a.stopfile):
            flag["stop"] = True
        return flag["stop"]

    def jobs():
        for i in range(a.count):
            yield i, scenario(prop, a.prop, a.mode, a.tier, a.seed, i), None

    for i, sc, r in pool.map(jobs(), stop, t_start + a.budget):
        agg["runs"] += 1
        agg["status"][r["status"]] += 1
        st = r.get("stats")
        if st:
            for k in ("sims", "steps", "switches", "vtime"):
                agg[k] += st[k]
            agg["counts"].update(st["counts"])
            agg["probes"].update(r["probes"])
            shapes.update(r["shapes"])
            if r["status"] == "ok" and (st["switches"] or any(k.startswith("fault") or k.startswith("io_") for k in st["counts"]) or r["probes"]):
                sigs.add((i, digest(sc, st["crc"])))
        if a.dump:
            dump.append([i, r["status"], r.get("cls"), st and st["crc"], st and st["steps"], r.get("probes"), st and st["counts"]])
        if r["status"] == "violation":
            found = (i, sc, r)
            flag["stop"] = True
        elif r["status"] == "skip":
            skips[r["detail"][:90]] += 1
        elif r["status"] in ("error", "timeout", "stuck"):
            bad.append({"index": i, "status": r["status"], "detail": r.get("detail")})
            if len(bad) >= 40:
                flag["stop"] = True
        if len(samples) < 3 and r["status"] == "ok":
            samples.append({"index": i, "scenario": {k: v for k, v in sc.items() if k != "_resolved"}, "stats": st, "probes": r["probes"]})
    summary["search_s"] = round(now() - t_start, 2)
    if a.dump:
        dump.sort(key=lambda d: d[0])
        json.dump(dump, open(a.dump, "w"))
    if bad and not found:
        # runs without an answer (machine overloaded?): once more, one at a time
        still = []
        slow = Pool(prop, 1, limit=2 * pool.limit)
        for k, b in enumerate(sorted(bad, key=lambda b: b["index"])):
            if k >= 6 or now() > t_start + a.budget + 120:
                still.append(b)
                continue
            sc = scenario(prop, a.prop, a.mode, a.tier, a.seed, b["index"])
            r = slow.one(sc)
            agg["status"]["retried"] += 1
            if r["status"] == "violation":
                found = (b["index"], sc, r)
                break
            if r["status"] not in ("ok", "skip"):
                still.append(dict(b, again=[r["status"], str(r.get("detail"))[:200]]))
        bad = still
    viol = None
    if found:
        i, sc, r = found
        conf = [x for _, _, x in pool.map([(k, sc, None) for k in range(4)])]
        nconf = sum(same_violation(x, r["cls"]) for x in conf)
        if nconf:
            good = next(x for x in conf if same_violation(x, r["cls"]))
            if a.stopfile:
                open(a.stopfile, "w").close()
            msc, dec, mr, tries = minimise(pool, prop, sc, good, a.minbudget)
            viol = {
                "scenario": msc, "decisions": dec,
                "violation": {"cls": mr["cls"], "detail": mr["detail"], "crc": mr["stats"]["crc"]},
                "original": {"index": i, "verif_seed": a.seed, "scenario": sc, "detail": r["detail"],
                             "decisions": sum(len(d) for d in (r["decisions"] or []))},
                "confirmed": "%d of 4 re-executions" % nconf, "minimise_tries": tries,
                "minimised_decisions": None if dec is None else sum(len(d) for d in dec),
            }
        else:
            bad.append({"index": i, "status": "unconfirmed", "detail": r["detail"], "cls": r["cls"],
                        "again": [[x["status"], x.get("cls")] for x in conf]})
    summary.update(
        runs=agg["runs"], status=dict(agg["status"]), sims=agg["sims"], steps=agg["steps"], switches=agg["switches"],
        simulated_s=round(agg["vtime"], 3), counts=dict(agg["counts"]), probes=dict(agg["probes"]),
        distinct_interleavings=len(shapes), distinct_runs=len({c for _, c in sigs}), nontrivial=len(sigs),
        samples=samples, bad=bad[:10], nbad=len(bad), violation=viol, skips=dict(skips.most_common(6)), workers=a.workers,
        total_s=round(now(), 2),
    )
    if a.out:
        with open(a.out + ".tmp", "w") as f:
            json.dump(summary, f, default=str)
        os.replace(a.out + ".tmp", a.out)
    else:
        summary["samples"] = None
        print(json.dumps(summary, default=str))
    sys.stdout.flush()
    twin.stop()
    os._exit(0)


if __name__ == "__main__":
    main()
