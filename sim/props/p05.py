"""P05: a worker failure reaches the caller; no call hangs or returns a partial answer."""
from .common import *

LIMIT = 100.0


def gen(rng, mode, tier):
    spec = W.gen_spec(rng)
    spec["params"]["n_estimators"] = rng.choice((2, 3, 4, 5, 7, 9))
    fault = gen_fault(rng, "worker")
    fault["many"] = rng.random() < 0.35
    return {
        "spec": spec, "op": rng.choice(("fit", "fit", "predict", "predict_proba", "predict_proba_trees", "apply", "_weighted_depth", "predict_trees")),
        "n_jobs": rng.choice((2, 2, 3, 4, 8, -1)), "verbose": rng.random() < 0.25,
        "clean": rng.random() < 0.2, "fault": fault, "ambient": rng.choice((None, None, "threading", "simproc")),
        "policy": env.gen_policy(rng), "again": env.gen_policy(rng), "glob": rng.randrange(1 << 30),
    }


def run(sc):
    try:
        _run(sc)
    except core.HarnessError as e:
        if "wall clock" in str(e):
            raise Violation("no-return", "a call did not come back within 60 s of real time: " + str(e)[:300])
        raise


def _run(sc):
    spec = sc["spec"]
    dat = W.make_data(spec["data"])
    op = sc["op"]

    def new():
        f = W.new_fit(spec, dat)
        f.n_jobs = sc["n_jobs"]
        f.verbose = sc["verbose"]
        return f

    def unfitted():
        return W.build(spec["params"], n_jobs=sc["n_jobs"], verbose=sc["verbose"])
    f = clean(new)
    if op != "fit" and op not in W.queries(f):
        op = "predict"

    def view(f):
        return W.nodes(f), W.answers(f, dat.Xt)

    def call(f):
        with env.ambient(sc["ambient"]):
            if op == "fit":
                W.fit(f, dat)
                return f
            return getattr(f, op)(dat.Xt)

    def ref():
        g = W.new_fit(spec, dat)
        return view(g), (None if op == "fit" else W.answers(g, dat.Xt))
    expect, ans = clean(ref)
    if op != "fit" and isinstance(ans[(op, 0)], str):
        raise Skip("query refused: " + ans[(op, 0)])
    if op == "fit":
        f = unfitted()

    def check(v, what, cls):
        if op == "fit":
            got = judged(lambda: view(v), "query-failed")
            must(W.diff(expect[0], got[0]) or W.diff_answers_loose(expect[1], got[1], TOL), cls, what)
        else:
            e = {(op, 0): ans[(op, 0)]}
            g = {(op, 0): W.plain(v)}
            if op == "predict" and ("predict_proba", 0) in ans:
                e[("predict_proba", 0)] = g[("predict_proba", 0)] = ans[("predict_proba", 0)]
            must(W.diff_answers_loose(e, g, TOL), cls, what)

    if sc["clean"]:
        v = judged(lambda: call(f), "call-failed", sc["policy"], seed=sc["glob"])
        check(v, "no fault", "wrong-result")
        env.probe("no fault")
        return
    g = unfitted() if op == "fit" else f

    def pro():
        with env.armed():
            call(g)

    def go():
        with env.armed():
            return call(f)
    rf = resolve_fault("f", sc["fault"], pro, sc["policy"], seed=sc["glob"])
    what = "%s%s at %s #%d in %s" % (rf["exc"], " (repeated)" if rf.get("many") else "", rf["site"], rf["occ"], op)
    kind, v = faulty(go, rf, sc["fault"], sc["policy"], seed=sc["glob"])
    if kind == "stuck":
        raise Violation("hang", what + ": " + str(v))
    if kind == "ok":
        if not env.LASTSIM.fault_fired:
            env.probe("fault not reached on this schedule")
        check(v, what, "partial-result")
    else:
        base = core.FAULT_EXC[rf["exc"]].__mro__
        if not (env.is_injected(v) or "injected" in str(v) or isinstance(v, tuple(c for c in base if c in (MemoryError, OSError, RuntimeError)))):
            raise Violation("failure-masked", "%s: raised %s: %s (%s)" % (what, type(v).__name__, str(v)[:200], env.tb_tail(v)))
        drop_tb(v)
        env.probe("failure raised")
    v = judged(lambda: call(f), "next-call-failed", sc["again"], seed=sc["glob"] + 1)
    check(v, "after " + what, "next-call-wrong")


def shrink(sc):
    yield from shrink_key(sc, "ambient", [None])
    yield from shrink_key(sc, "verbose", [False])
    if sc["fault"]["many"]:
        yield dict(sc, fault=dict(sc["fault"], many=False))
    yield from shrink_specs(sc, "spec")
    yield from shrink_key(sc, "n_jobs", [2, 3])
    yield from shrink_policy(sc)
