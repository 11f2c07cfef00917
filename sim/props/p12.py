"""P12: concurrent data set loads all get the published data."""
from .. import core, env, fproc, fsim
from ..env import Skip, Violation
from ..fproc import Controller, Dir, judge
from . import loads

BOOT = "D"
LIMIT = 80.0
prepare = loads.prepare


def gen(rng, mode, tier):
    main = rng.choice(fsim.NAMES)
    threads = rng.random() < 0.4
    n = rng.choice((2, 2, 2, 3, 4))
    procs = []
    for i in range(n):
        procs.append({"calls": [{"loader": main if rng.random() < 0.85 else rng.choice(fsim.NAMES), "raw": rng.random() < 0.5,
                                 "download": True} for _ in range(rng.choice((1, 1, 2)))], "fault": None})
    if rng.random() < 0.55:
        for p in rng.sample(procs, rng.choice((1, 1, 2)) if n > 2 else 1):
            p["fault"] = fproc.gen_fault(rng, crash=0.0 if threads else 0.7)
    before = rng.choice(("empty", "empty", "empty", "partial", "complete"))
    pre = loads.gen_step(rng, main, faulty=before == "partial", online=True)
    pre["calls"] = [{"loader": main, "raw": True, "download": True}]
    pre["key"] = 50
    return {"main": main, "threads": threads, "procs": procs, "before": before, "pre": pre,
            "policy": env.gen_policy(rng) if threads else fproc.gen_policy(rng), "vary": rng.random() < 0.5, "scale": loads.gen_scale(rng), "age": rng.choice(loads.AGES) if rng.random() < 0.25 else 0}


def run(sc):
    for p in sc["procs"]:
        for c in p["calls"]:
            if c["loader"] not in fsim.LOADERS:
                raise Skip("loader not found")
    loads.scale(sc, [{"loader": sc["main"]}] + [c for p in sc["procs"] + [sc["pre"]] for c in p["calls"]])
    with Dir() as d:
        if sc["before"] != "empty":
            loads.run_step(d, sc["pre"])
        if sc["age"]:
            fproc.age(d.home, sc["age"])
        faults = []
        prof = {}
        for i, p in enumerate(sc["procs"]):
            if p["fault"]:
                key = "p%d" % i
                f = (env.SC.get("_resolved") or {}).get(key)
                if f is None:
                    with d.clone() as c:
                        saved, env.STATS = env.STATS, None
                        try:
                            pr = Controller([{"calls": p["calls"]}], c.home, record=False).run().procs[0]
                        finally:
                            env.STATS = saved
                    f = fproc.resolve(p["fault"], pr.sites, i)
                    if sc["threads"] and f and f["dir"][0].startswith("crash"):
                        f["dir"] = ["err", 5]
                env.RESOLVED[key] = f
                if f:
                    faults.append(f)
        hits, results = (threads if sc["threads"] else procs)(sc, d, faults)
        for i, (p, h, rs) in enumerate(zip(sc["procs"], hits, results)):
            for j, (c, r) in enumerate(zip(p["calls"], rs)):
                if r[0] == "ok":
                    w = judge(c, r)
                    if w:
                        raise Violation("wrong-data", "%s %d of %d: %s; files: %s" % ("thread" if sc["threads"] else "process", i, len(results), w, fproc.files(d.home)[:8]))
                elif not h[j]:
                    raise Violation("call-failed", "load_%s of %s %d, not hit by any fault, raised %s; faults: %s" % (
                        c["loader"], "thread" if sc["threads"] else "process", i, r[1], [x for y in hits for x in y if x]))
                else:
                    env.probe("faulted call raised")
        st = {"calls": [{"loader": sc["main"], "raw": True, "download": True}], "online": True, "fault": None, "line": None, "key": 60}
        p, _ = loads.run_step(d, st)
        if p.results[0][0] != "ok":
            raise Violation("call-failed", "a later load_%s raised %s; files: %s" % (sc["main"], p.results[0][1], fproc.files(d.home)[:8]))


def procs(sc, d, faults):
    c = Controller([{"calls": p["calls"]} for p in sc["procs"]], d.home, policy=sc["policy"], faults=faults).run()
    if c.stuck:
        raise Violation("no-progress", c.stuck)
    for p in c.procs:
        if p.state == "crashed":
            env.probe("process killed")
    return [p.hit for p in c.procs], [p.results for p in c.procs]


def threads(sc, d, faults):
    """The loads as threads of one process."""
    import os
    import tempfile
    import time
    n = len(sc["procs"])
    hits = [[None] * len(p["calls"]) for p in sc["procs"]]
    results = [[] for _ in range(n)]
    who = {}
    seen = [{} for _ in range(n)]

    def handler(op, rel):
        s = core.current()
        if s is None:
            return None
        site = fproc.site_of(op, rel)
        s.point("io", site)
        me = who.get(core.tls.rec.id)
        if me is None:
            return None
        i, j = me
        k = seen[i][site] = seen[i].get(site, 0) + 1
        for f in faults:
            if f["proc"] == i and f["site"] == site and f["occ"] == k:
                hits[i][j] = "%s at %s" % (f["dir"][0], site)
                s.count(("net_" + f["dir"][1]) if f["dir"][0] == "net" else "io_" + "_".join(str(x) for x in f["dir"][:2] if not isinstance(x, float)))
                s.note("fault " + site)
                return f["dir"]
        return None

    def body(i):
        rec = core.tls.rec
        for j, c in enumerate(sc["procs"][i]["calls"]):
            who[rec.id] = (i, j)
            try:
                v = fsim.loader(c["loader"])(download_if_missing=c["download"], raw=c["raw"])
                cv = fsim.canon(v)
                del v
                results[i].append(["ok", fsim.digest_of(cv), fsim.agrees(c["loader"], c["raw"], cv)])
            except core.SimAbort:
                raise
            except BaseException as e:
                results[i].append(["exc", "%s: %s (%s)" % (type(e).__name__, str(e)[:160], env.tb_tail(e))])

    def main():
        sim = core.SIM
        rs = [sim.spawn(lambda i=i: body(i), "load%d" % i) for i in range(n)]
        for r in rs:
            sim.join(r)

    os.environ["WILDWOOD_DATA"] = d.home
    tempfile._name_sequence = fproc.Names("t")
    fsim.ROOT = d.base
    fsim.ONLINE = True
    fsim.HANDLER = handler
    try:
        env.simulate(main, sc["policy"], seed=1)
    except core.SimStuck as e:
        raise Violation("no-progress", str(e)[:400])
    finally:
        fsim.HANDLER = None
    return hits, results


def shrink(sc):
    if sc["scale"]:
        yield dict(sc, scale=0)
    if sc["age"]:
        yield dict(sc, age=0)
    for i in range(len(sc["procs"])):
        if len(sc["procs"]) > 2:
            yield dict(sc, procs=sc["procs"][:i] + sc["procs"][i + 1:])
    if sc["before"] != "empty":
        yield dict(sc, before="empty")
    for i, p in enumerate(sc["procs"]):
        if p["fault"]:
            yield dict(sc, procs=sc["procs"][:i] + [dict(p, fault=None)] + sc["procs"][i + 1:])
        if len(p["calls"]) > 1:
            for j in range(len(p["calls"])):
                yield dict(sc, procs=sc["procs"][:i] + [dict(p, calls=p["calls"][:j] + p["calls"][j + 1:])] + sc["procs"][i + 1:])
        for j, c in enumerate(p["calls"]):
            if not c["raw"]:
                yield dict(sc, procs=sc["procs"][:i] + [dict(p, calls=p["calls"][:j] + [dict(c, raw=True)] + p["calls"][j + 1:])] + sc["procs"][i + 1:])
