"""P04: a fit that fails or is interrupted leaves the previous model intact."""
from .common import *
from . import hist

BAD = ("ylen", "xnone", "ynan", "empty", "swlen", "xinf1d", "catbad", "y2d", "catlen", "swneg", "cols0")


def gen(rng, mode, tier):
    spec = W.gen_spec(rng)
    spec["params"]["n_estimators"] = rng.choice((1, 2, 3, 4))
    new = hist.related(rng, spec)
    prior = rng.choice(("unfitted", "fitted", "fitted", "history", "history"))
    isclf = spec["data"]["task"] != "reg"
    fault = gen_fault(rng)
    sc = {
        "spec": spec, "new": new, "prior": prior,
        "ops": hist.gen_ops(rng, 1, isclf, rng.randint(1, 3)) if prior == "history" else [],
        "n_jobs": rng.choice((1, 1, 2, 3)), "verbose": rng.random() < 0.2,
        "stop": rng.choice(("fault", "fault", "fault", "fault", "bad")), "fault": fault,
        "bad": rng.choice(BAD), "twice": rng.random() < 0.3, "depth": rng.random() < 0.1,
        "policy": env.gen_policy(rng), "glob": rng.randrange(1 << 30),
    }
    if rng.random() < 0.15:
        sc["new"] = dict(spec)
    return sc


def spoil(kind, d):
    """Invalid training data derived from valid data."""
    import pandas as pd
    o = W.Data()
    o.X, o.y, o.sw, o.catf, o.Xt = d.X, d.y, d.sw, d.catf, d.Xt
    if kind == "ylen":
        o.y = list(d.y)[:-1]
    elif kind == "xnone":
        o.X = None
    elif kind == "ynan":
        y = np.array(list(d.y), dtype=object)
        y[0] = None
        o.y = y
    elif kind == "empty":
        o.X = d.X[:0]
        o.y = list(d.y)[:0]
        o.sw = None
    elif kind == "swlen":
        o.sw = np.ones(len(d.X) + 2)
    elif kind == "xinf1d":
        o.X = np.arange(len(d.X), dtype=float)
    elif kind == "catbad":
        o.catf = ["nope"]
    elif kind == "y2d":
        o.y = np.zeros((len(d.X), 2))
    elif kind == "catlen":
        o.catf = np.array([True] * (d.X.shape[1] + 3))
    elif kind == "swneg":
        o.sw = np.array(["a"] * len(d.X))
    elif kind == "cols0":
        o.X = np.empty((len(d.X), 0))
    return o


def full_state(f, *Xs):
    s = W.state(f, *Xs)
    try:
        g = pickle.loads(pickle.dumps(f))
        s["copy"] = {"n": W.nodes(g), "q": W.answers(g, *Xs), "a": W.attributes(g)}
    except Exception as e:
        if isinstance(e, core.InjectedFault):
            raise
        s["copy"] = "error " + type(e).__name__
    return s


def run(sc):
    spec = sc["spec"]
    d0, d1 = W.make_data(spec["data"]), W.make_data(sc["new"]["data"])
    kw = {"randomized_depth": True} if sc["depth"] else {}
    isreg = spec["data"]["task"] == "reg"

    def prep():
        f = W.build(spec["params"])
        if sc["prior"] != "unfitted":
            W.fit(f, d0)
            f = hist.apply_ops(f, sc["ops"], [spec], [d0])
        f.n_jobs = sc["n_jobs"]
        f.verbose = sc["verbose"]
        return f
    f = clean(prep)
    Xs = (d0.Xt, d0.X, d1.Xt)
    before = clean(lambda: full_state(f, *Xs))

    def fresh():
        p = dict(spec["params"], n_jobs=1, step=f.step)
        if not isreg:
            p["dirichlet"] = f.dirichlet
        g = W.fit(W.build(p), d1, **kw)
        return W.nodes(g), W.answers(g, d1.Xt, d1.X)
    expect = clean(fresh)
    rounds = 2 if sc["twice"] else 1
    raised = False
    for k in range(rounds):
        if sc["stop"] == "fault":
            g = clean(prep)

            def pro():
                with env.armed():
                    W.fit(g, d1, **kw)

            def go():
                with env.armed():
                    W.fit(f, d1, **kw)
            fault = dict(sc["fault"])
            fault["u"] = (fault["u"] + 0.37 * k) % 1.0
            rf = resolve_fault("f%d" % k, fault, pro, sc["policy"], seed=sc["glob"])
            kind, v = faulty(go, rf, fault, sc["policy"], seed=sc["glob"])
            what = "%s at %s #%d" % (rf["exc"], rf["site"], rf["occ"])
        else:
            bad = spoil(sc["bad"], d1)
            what = "bad data " + sc["bad"]
            try:
                env.simulate(lambda: W.fit(f, bad, **kw), sc["policy"], seed=sc["glob"])
                kind, v = "ok", None
            except core.SimStuck as e:
                kind, v = "stuck", e
            except core.HarnessError:
                raise
            except Exception as e:
                kind, v = "raised", e
                env.probe("invalid data refused")
        if kind == "stuck":
            raise Violation("stuck", what + ": " + str(v))
        if kind == "ok":
            if sc["stop"] == "bad":
                raise Skip("invalid data accepted: " + sc["bad"])
            if not env.LASTSIM.fault_fired:
                raise Skip("fault not reached")
            got = judged(lambda: (W.nodes(f), W.answers(f, d1.Xt, d1.X)), "query-failed")
            must(W.diff(expect[0], got[0]) or W.diff_answers_loose(expect[1], got[1], TOL), "half-fit-accepted", what)
            env.probe("fault absorbed")
            return
        raised = True
        drop_tb(v)
        after = judged(lambda: full_state(f, *Xs), "query-failed")
        must(diff(before, after), "state-changed", what)
    got = None

    def again():
        W.fit(f, d1, **kw)
        return W.nodes(f), W.answers(f, d1.Xt, d1.X)
    got = judged(again, "refit-failed")
    must(W.diff(expect[0], got[0]), "refit-differs", what)
    must(W.diff_answers_loose(expect[1], got[1], TOL), "refit-differs", what)


def diff(a, b):
    for k in ("a", "n"):
        r = W.diff(a[k], b[k])
        if r:
            return r
    r = W.diff_answers_loose(a["q"], b["q"], TOL)
    if r:
        return r
    if isinstance(a["copy"], str) or isinstance(b["copy"], str):
        return None if isinstance(a["copy"], str) and isinstance(b["copy"], str) else "serialisation: %s, was %s" % (
            b["copy"] if isinstance(b["copy"], str) else "works", a["copy"] if isinstance(a["copy"], str) else "works")
    r = W.diff(a["copy"]["n"], b["copy"]["n"]) or W.diff_answers_loose(a["copy"]["q"], b["copy"]["q"], TOL)
    return "serialised copy " + r if r else None


def shrink(sc):
    yield from shrink_list(sc, "ops")
    yield from shrink_key(sc, "prior", ["fitted"])
    yield from shrink_key(sc, "twice", [False])
    yield from shrink_key(sc, "depth", [False])
    yield from shrink_key(sc, "verbose", [False])
    yield from shrink_specs(sc, "new")
    for s in shrink_spec(sc["spec"]):
        yield dict(sc, spec=s, new={"data": sc["new"]["data"], "params": s["params"]})
    yield from shrink_key(sc, "n_jobs", [1, 2])
    yield from shrink_policy(sc)
