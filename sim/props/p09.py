"""P09: a fit depends only on its arguments and parameters."""
import json
import os
import random
import subprocess
import sys

from .common import *
from . import hist
from .. import twin

LIMIT = 280.0
TWIN = ("A", "B")


def gen(rng, mode, tier):
    spec = W.gen_spec(rng)
    spec["params"]["n_estimators"] = rng.choice((1, 2, 3, 4))
    if mode == "A" and rng.random() < 0.08:
        # more rows than the encoder looks at: it draws a subsample
        spec["params"].update(subsample=50000, n_estimators=1, max_depth=rng.choice((2, 3)))
        spec["data"].update(n=rng.choice((50001, 50400, 53000)), x=rng.choice(("f64", "f32")), d=1, sw=None, missing=False)
    if rng.random() < 0.1:
        spec["data"].update(x="df", catcols=True, hicard=True, n=rng.choice((45, 60, 120)), d=max(2, spec["data"]["d"]))
    isclf = spec["data"]["task"] != "reg"
    other = hist.related(rng, spec)
    third = W.gen_spec(rng)
    third["params"]["n_estimators"] = rng.choice((1, 2))
    ops = []
    for _ in range(rng.randint(0, 5)):
        k = rng.choice(("fitself", "fitself", "fitother", "fitother", "askother", "self", "self", "inplace", "npseed", "npdraw", "pydraw", "badfit", "interrupted"))
        if k == "fitself":
            ops.append([k, rng.randrange(2)])
        elif k == "self":
            ops.append([k, hist.gen_ops(rng, 2, isclf, 1, ("lighten", "ask", "roundtrip", "bad", "njobs"))])
        elif k == "interrupted":
            ops.append([k, gen_fault(rng, "main")])
        else:
            ops.append([k, rng.randrange(1 << 20)])
    return {
        "spec": spec, "other": other, "third": third, "ops": ops, "depth": rng.random() < 0.2,
        "n_jobs": rng.choice((1, 1, 1, 2, 4)), "verbose": rng.random() < 0.15, "fresh": rng.random() < 0.5,
        "glob": rng.randrange(1 << 30), "policy": env.gen_policy(rng), "twin": rng.random() < 0.4,
    }


def rng_state():
    s = np.random.get_state()
    return s[0], s[1].tobytes(), s[2], s[3], s[4], random.getstate()


def view(f, dat):
    p = {k: v for k, v in W.attributes(f).items() if k not in ("param n_jobs", "param verbose", "param categorical_features")}
    return W.nodes(f), W.answers(f, dat.Xt, dat.X), p


def put_back(X, X0):
    """Restores the content of X in place."""
    if hasattr(X, "iloc"):
        for j in range(X.shape[1]):
            X.isetitem(j, X0.iloc[:, j])
    else:
        X[...] = X0


def refused_elsewhere(spec, kw):
    """Runs the same fit alone in a brand-new process; None if it is refused there as well."""
    code = (
        "import sys,json,random\nsys.path.insert(0,%r)\nsys.path.insert(0,%r)\nfrom sim import workload as W\n"
        "spec=json.loads(sys.argv[1]);kw=json.loads(sys.argv[2])\nd=W.make_data(spec['data'])\n"
        "W.fit(W.build(spec['params']),d,**kw).predict(d.X)\nprint('FITTED')\n"
    ) % (env.REPO, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
    try:
        r = subprocess.run([sys.executable, "-W", "ignore", "-c", code, json.dumps(spec), json.dumps(kw)], capture_output=True, text=True, timeout=200)
    except subprocess.TimeoutExpired:
        return None
    return "FITTED" in r.stdout or None


def alone(spec, kw, glob):
    """The same fit as the first thing a process does."""
    dat = W.make_data(spec["data"])
    env.scramble_globals(glob)
    return env.serial(lambda: view(W.fit(W.build(spec["params"]), dat, **kw), dat))


def run(sc):
    spec = sc["spec"]
    dats = [W.make_data(spec["data"]), W.make_data(sc["other"]["data"])]
    d3 = W.make_data(sc["third"]["data"])
    kw = {"randomized_depth": True} if sc["depth"] else {}
    env.scramble_globals(sc["glob"])
    try:
        ref = env.serial(lambda: view(W.fit(W.build(spec["params"]), dats[0], **kw), dats[0]))
    except (core.HarnessError, core.SimAbort):
        raise
    except Exception as e:
        if env.MODE == "A" and refused_elsewhere(spec, kw):
            raise Violation("refused-after-history", "fit succeeds in a new process, but after other fits raises %s: %s" % (type(e).__name__, str(e)[:200]))
        raise Skip("reference refused: %s: %s" % (type(e).__name__, str(e)[:150]))
    if sc["twin"] and env.TWIN:
        kind, there = twin.ask("sim.props.p09:alone", spec, kw, sc["glob"] + 3)
        if kind == "raised":
            raise Violation("depends-on-process", "the same fit in another process raises " + there)
        for a, b in zip(ref, there):
            must(W.diff(a, b), "depends-on-process", "the same fit in another process")
        env.probe("same fit in another process")
    st = {"f": W.build(spec["params"]), "fitted": False, "o": None, "otherdata": False, "live": None}

    def hist_op(op):
        k = op[0]
        f = st["f"]
        if k == "fitself":
            W.fit(f, dats[op[1]], **({"randomized_depth": True} if op[1] and sc["depth"] else {}))
            st["fitted"] = True
            env.probe("object fitted before")
        elif k == "self":
            if st["fitted"]:
                for o in op[1]:
                    if o[0] == "njobs":
                        f.n_jobs = o[1]
                    else:
                        st["f"] = f = hist.apply_op(f, o, None, dats)
        elif k == "fitother":
            st["o"] = W.new_fit(sc["third"], d3)
        elif k == "askother":
            if st["o"] is not None:
                W.answers(st["o"], d3.Xt)
        elif k == "npseed":
            np.random.seed(op[1])
        elif k == "npdraw":
            np.random.rand(op[1] % 50)
        elif k == "pydraw":
            random.random()
        elif k == "inplace":
            # the arrays of the fit to come held something else before, and were fitted on
            if st["live"] is None:
                st["live"] = W.make_data(spec["data"])
            z = st["live"]
            X0 = W.clone(z.X)
            W.flip_rows(z.X)
            g = f if op[1] % 3 else W.build(spec["params"])
            try:
                W.fit(g, z)
            finally:
                put_back(z.X, X0)
            st["fitted"] = st["fitted"] or g is f
            env.probe("same arrays, other content, fitted before")
        elif k == "badfit":
            try:
                f.fit(dats[0].X, list(dats[0].y)[:-1])
            except Exception:
                pass

    for i, op in enumerate(sc["ops"]):
        if op[0] == "interrupted":
            f = st["f"]
            g = W.build(spec["params"])

            def pro():
                with env.armed():
                    W.fit(g, dats[0], **kw)

            def go():
                with env.armed():
                    W.fit(f, dats[0], **kw)
            try:
                rf = resolve_fault("f%d" % i, op[1], pro, None)
            except Skip:
                continue
            kind, v = faulty(go, rf, op[1], None)
            if kind == "raised":
                drop_tb(v)
            st["fitted"] = st["fitted"] or kind == "ok"
        else:
            clean(lambda: hist_op(op), "history")
    f = st["f"]
    if sc["fresh"] and not st["fitted"]:
        f = W.build(spec["params"])
    f.n_jobs = sc["n_jobs"]
    f.verbose = sc["verbose"]
    env.scramble_globals(sc["glob"] + 17)
    g0 = rng_state()
    judged(lambda: W.fit(f, st["live"] or dats[0], **kw), "fit-failed", sc["policy"], seed=sc["glob"])
    g1 = rng_state()
    if g0 != g1:
        raise Violation("global-generator-used", "fit changed the state of the global %s generator" % ("Python" if g0[:5] == g1[:5] else "numpy"))
    f.n_jobs = 1
    f.verbose = False
    got = judged(lambda: view(f, dats[0]), "query-failed")
    g2 = rng_state()
    if g1 != g2:
        raise Violation("global-generator-used", "queries changed the state of the global %s generator" % ("Python" if g1[:5] == g2[:5] else "numpy"))
    what = "history %s" % [o[0] for o in sc["ops"]]
    must(W.diff(ref[0], got[0]), "fit-depends-on-history", what)
    must(W.diff_answers_loose(ref[1], got[1], TOL), "fit-depends-on-history", what)
    must(W.diff(ref[2], got[2]), "attributes-depend-on-history", what)


def shrink(sc):
    yield from shrink_list(sc, "ops")
    yield from shrink_key(sc, "twin", [False])
    yield from shrink_key(sc, "depth", [False])
    yield from shrink_key(sc, "verbose", [False])
    yield from shrink_key(sc, "n_jobs", [1])
    yield from shrink_specs(sc, "third")
    for s in shrink_spec(sc["spec"]):
        yield dict(sc, spec=s, other={"data": sc["other"]["data"], "params": s["params"]})
