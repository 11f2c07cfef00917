"""P11: data set loaders recover once faults stop, and keep what is already cached."""
from .loads import *  # noqa
from . import loads


def gen(rng, mode, tier):
    main = rng.choice(fsim.NAMES)
    steps = [gen_step(rng, main, faulty=True) for _ in range(rng.randint(0, 3))]
    for s in steps:
        if rng.random() < 0.7:
            s["online"] = True
    after = [gen_step(rng, main, faulty=rng.random() < 0.7) for _ in range(rng.randint(0, 2))]
    for i, s in enumerate(steps):
        s["key"] = i
    for i, s in enumerate(after):
        s["key"] = 10 + i
    return {"main": main, "raw": rng.random() < 0.5, "raw2": rng.random() < 0.5, "again": rng.random() < 0.3, "steps": steps, "after": after,
            "ages": [rng.choice(AGES) if rng.random() < 0.2 else 0 for _ in range(4)], "scale": gen_scale(rng)}


def told_not(p, calls):
    for c, n in zip(calls, p.requests):
        if not c["download"] and n:
            raise Violation("downloaded-anyway", "load_%s(download_if_missing=False) made %d requests" % (c["loader"], n))


def run(sc):
    main = sc["main"]
    scale(sc, [{"loader": main}] + [c for s in sc["steps"] + sc["after"] for c in s["calls"]])
    ages = list(sc["ages"])

    def step(raw, online, download=True, key=99):
        p, calls = run_step(d, {"calls": [{"loader": main, "raw": raw, "download": download}], "online": online, "fault": None, "line": None, "key": key,
                                "age": ages.pop(0)})
        told_not(p, calls)
        return p

    def must_load(raw, online, download, cls, what):
        p = step(raw, online, download)
        r = p.results[0]
        if r[0] != "ok":
            raise Violation(cls, "load_%s %s raised %s; files: %s" % (main, what, r[1], fproc.files(d.home)[:8]))
        return p

    with Dir() as d:
        cached = False
        for st in sc["steps"]:
            p, calls = run_step(d, st)
            told_not(p, calls)
            for c, r, n, h in zip(calls, p.results, p.requests, p.hit):
                if c["loader"] != main:
                    continue
                if r[0] == "exc" and not h and (cached or st["online"] and c["download"]):
                    raise Violation("cache-lost" if cached else "no-recovery", "load_%s, not hit by any fault, raised %s; files: %s" % (main, r[1], fproc.files(d.home)[:8]))
                if cached and not h and n:
                    raise Violation("downloaded-again", "load_%s made %d requests although it had been loaded before" % (main, n))
                cached = cached or r[0] == "ok"
        p = must_load(sc["raw"], True, True, "no-recovery", "after the faults stopped")
        if cached and p.requests[0]:
            raise Violation("downloaded-again", "load_%s made %d requests although it had been loaded before" % (main, p.requests[0]))
        p = must_load(sc["raw2"], True, True, "cache-lost", "after a successful load")
        if p.requests[0]:
            raise Violation("downloaded-again", "load_%s made %d requests although it had been loaded before" % (main, p.requests[0]))
        for st in sc["after"]:
            p, calls = run_step(d, st)
            told_not(p, calls)
            for c, r, n, h in zip(calls, p.results, p.requests, p.hit):
                if c["loader"] == main and not h and (r[0] == "exc" or n):
                    raise Violation("cache-lost" if r[0] == "exc" else "downloaded-again", "load_%s: %s, %d requests" % (main, r[:2], n))
        must_load(sc["raw"], False, True, "cache-lost", "without network, after a successful load")
        must_load(sc["raw2"], False, False, "cache-lost", "with download_if_missing=False, after a successful load")


def shrink(sc):
    yield from loads.shrink(sc)
    if any(sc["ages"]):
        yield dict(sc, ages=[0] * 4)
        for i in range(4):
            yield dict(sc, ages=sc["ages"][:i] + [0] + sc["ages"][i + 1:])
    l = sc["after"]
    for i in range(len(l)):
        yield dict(sc, after=l[:i] + l[i + 1:])
    for i, st in enumerate(l):
        if len(st["calls"]) > 1:
            yield dict(sc, after=l[:i] + [dict(st, calls=st["calls"][:1])] + l[i + 1:])
    for k in ("raw", "raw2"):
        if not sc[k]:
            yield dict(sc, **{k: True})
