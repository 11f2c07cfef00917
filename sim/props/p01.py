"""P01: the fitted forest does not depend on n_jobs, verbosity or the interleaving of the workers."""
from .common import *

AMB = (None, None, None, "threading", "simproc", "old-simproc", "sequential")


def gen(rng, mode, tier):
    big = mode == "A" and rng.random() < 0.25
    spec = W.gen_spec(rng, big=big)
    r = rng.random()
    if r < 0.2:
        spec["params"]["n_estimators"] = rng.choice((9, 12, 16) if mode == "B" else (12, 20, 33, 40))
        if not big:
            spec["data"]["n"] = rng.choice((8, 12, 20))
    if mode == "A" and big:
        spec["params"]["n_estimators"] = rng.choice((2, 4, 8, 10))
    kernel = mode == "B" and rng.random() < 0.35
    return {
        "spec": spec, "n_jobs": rng.choice((2, 2, 3, 4, 5, 8, 16, -1)), "verbose": rng.random() < 0.35,
        "depth": rng.random() < 0.1, "ambient": rng.choice(AMB), "glob": rng.randrange(1 << 30),
        "policy": env.gen_policy(rng, kernel),
    }


def observe(f, dat):
    a = W.attributes(f)
    for k in ("param n_jobs", "param verbose"):
        a.pop(k, None)
    f.n_jobs = 1
    f.verbose = False
    return a, W.nodes(f), W.answers(f, dat.Xt, dat.X)


def run(sc):
    spec = sc["spec"]
    dat = W.make_data(spec["data"])
    kw = {"randomized_depth": True} if sc["depth"] else {}
    env.scramble_globals(sc["glob"])
    ref = clean(lambda: observe(W.fit(W.build(spec["params"]), dat, **kw), dat))
    env.scramble_globals(sc["glob"] + 1)

    def go():
        f = W.build(spec["params"], n_jobs=sc["n_jobs"], verbose=sc["verbose"])
        with env.ambient(sc["ambient"]):
            W.fit(f, dat, **kw)
        return f
    f = judged(go, "fit-failed", sc["policy"], seed=sc["glob"])
    got = judged(lambda: observe(f, dat), "query-failed")
    must(W.diff(ref[1], got[1]), "trees-differ", "n_jobs=%s" % sc["n_jobs"])
    must(W.diff(ref[0], got[0]), "attributes-differ", "n_jobs=%s" % sc["n_jobs"])
    must(W.diff_answers_loose(ref[2], got[2], TOL), "answers-differ", "n_jobs=%s" % sc["n_jobs"])
    if sc["n_jobs"] > spec["params"]["n_estimators"]:
        env.probe("more jobs than trees")


def shrink(sc):
    yield from shrink_specs(sc, "spec")
    yield from shrink_key(sc, "ambient", [None])
    yield from shrink_key(sc, "verbose", [False])
    yield from shrink_key(sc, "depth", [False])
    yield from shrink_key(sc, "n_jobs", [2, 3])
    yield from shrink_policy(sc)
