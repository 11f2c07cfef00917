"""Shared by P10 and P11: a history of processes that load data sets from one directory."""
from .. import core, env, fproc, fsim
from ..env import Skip, Violation
from ..fproc import Controller, Dir, judge

BOOT = "D"
LIMIT = 80.0


def prepare(mode):
    fproc.prepare(mode)


AGES = (100, 90000, 40 * 86400, 400 * 86400, 4000 * 86400, -7200, -40 * 86400)


def gen_scale(rng):
    return rng.choice((0,) * 15 + (1,) * 4 + (2,))


def scale(sc, calls):
    fsim.set_scale(sc.get("scale", 0), {c["loader"] for c in calls})


def gen_call(rng, main):
    ns = list(fsim.NAMES)
    return {"loader": main if rng.random() < 0.85 else rng.choice(ns), "raw": rng.random() < 0.5, "download": rng.random() < 0.88}


def gen_step(rng, main, faulty=True, online=None):
    st = {"calls": [gen_call(rng, main) for _ in range(rng.choice((1, 1, 1, 2, 3)))],
          "online": (rng.random() < 0.9) if online is None else online, "fault": None, "line": None,
          "age": rng.choice(AGES) if rng.random() < 0.25 else 0}
    if faulty:
        if rng.random() < 0.85:
            st["fault"] = fproc.gen_fault(rng)
        else:
            st["line"] = {"u": rng.random(), "o": rng.random(), "exc": rng.choice(("KeyboardInterrupt", "MemoryError", "KeyboardInterrupt"))}
    return st


def run_step(d, st):
    """One simulated process on directory d; returns (process, calls)."""
    calls = [c for c in st["calls"] if c["loader"] in fsim.LOADERS]
    if not calls:
        raise Skip("loader not found")
    spec = {"calls": calls, "online": st["online"]}
    if st.get("age"):
        fproc.age(d.home, st["age"])
    faults = []
    if st["fault"] or st["line"]:
        key = "s%d" % st.get("key", 0)
        res = (env.SC.get("_resolved") or {}).get(key)
        if res is None:
            with d.clone() as c:
                saved = env.STATS, env.RECORD
                env.STATS = None
                try:
                    pr = Controller([dict(spec, profile_lines=bool(st["line"]))], c.home, record=False).run().procs[0]
                finally:
                    env.STATS, env.RECORD = saved
            if st["fault"]:
                res = {"fault": fproc.resolve(st["fault"], pr.sites)}
            else:
                ks = sorted(pr.lines)
                if ks:
                    k = ks[min(len(ks) - 1, int(st["line"]["u"] * len(ks)))]
                    n = pr.lines[k]
                    res = {"line": {"call": k[0], "site": k[1], "occ": 1 + min(n - 1, int(st["line"]["o"] * n)), "exc": st["line"]["exc"]}}
                else:
                    res = {}
        env.RESOLVED[key] = res
        if res.get("fault"):
            faults = [res["fault"]]
        if res.get("line"):
            spec["line"] = dict(res["line"])
    p = Controller([spec], d.home, faults=faults, record=False).run()
    if p.stuck:
        raise Violation("no-progress", p.stuck)
    p = p.procs[0]
    if p.state == "crashed":
        env.probe("process killed")
    for h, r in zip(p.hit, p.results):
        if h:
            env.probe("faulted call " + ("returned" if r[0] == "ok" else "raised"))
    for c, r in zip(calls, p.results):
        if r[0] == "ok":
            w = judge(c, r)
            if w:
                raise Violation("wrong-data", "%s; faults so far: %s; files: %s" % (w, [h for h in p.hit if h] or "before this process", fproc.files(d.home)[:8]))
    return p, calls


def shrink(sc):
    if sc.get("scale"):
        yield dict(sc, scale=0)
    l = sc["steps"]
    for i, st in enumerate(l):
        if st.get("age"):
            yield dict(sc, steps=l[:i] + [dict(st, age=0)] + l[i + 1:])
    for i in range(len(l)):
        yield dict(sc, steps=l[:i] + l[i + 1:])
    for i, st in enumerate(l):
        if len(st["calls"]) > 1:
            for j in range(len(st["calls"])):
                yield dict(sc, steps=l[:i] + [dict(st, calls=st["calls"][:j] + st["calls"][j + 1:])] + l[i + 1:])
        if st["fault"] or st["line"]:
            yield dict(sc, steps=l[:i] + [dict(st, fault=None, line=None)] + l[i + 1:])
        for j, c in enumerate(st["calls"]):
            if not c["raw"]:
                yield dict(sc, steps=l[:i] + [dict(st, calls=st["calls"][:j] + [dict(c, raw=True)] + st["calls"][j + 1:])] + l[i + 1:])
