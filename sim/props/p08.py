"""P08: fit and the prediction methods never modify the caller's data."""
from .common import *
from . import hist
from .p04 import spoil, BAD


def gen(rng, mode, tier):
    spec = W.gen_spec(rng)
    spec["params"]["n_estimators"] = rng.choice((1, 2, 3))
    if rng.random() < 0.5:
        spec["data"]["sw"] = rng.choice(("f32", "f64", "series"))
    if rng.random() < 0.15:
        spec["data"]["yodd"] = rng.choice(("inf", "ninf", "huge", "nan"))
    return {
        "spec": spec, "n_jobs": rng.choice((1, 2, 3)), "ambient": rng.choice((None, None, None, "simproc", "threading")),
        "stop": rng.choice((None, None, "fault", "fault", "bad")), "fault": gen_fault(rng), "bad": rng.choice(BAD),
        "qfault": rng.random() < 0.3, "q": rng.randrange(4), "scribble": rng.random() < 0.7,
        "retune": rng.random() < 0.5, "refit": rng.random() < 0.2,
        "policy": env.gen_policy(rng, mode == "B" and rng.random() < 0.15), "glob": rng.randrange(1 << 30),
    }


def prints(*ds):
    return {"%s%d" % (k, i): W.fingerprint(getattr(d, k)) for i, d in enumerate(ds) for k in ("X", "y", "sw", "catf", "Xt")}


def unchanged(before, ds, what):
    after = prints(*ds)
    for k in before:
        if before[k] != after[k]:
            raise Violation("modified-" + k[:-1], "%s changed %s: %s" % (what, k[:-1], where(before[k], after[k])))


def where(a, b):
    a, b = repr(a), repr(b)
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), 0)
    return "%s -> %s" % (a[max(0, i - 20):i + 40], b[max(0, i - 20):i + 40])


def scribble(o):
    """Overwrites a caller-owned object in place."""
    import pandas as pd
    if o is None:
        return
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            o[...] = o.ravel()[0]
        elif o.dtype.kind in "US":
            o[...] = o.ravel()[0]
        elif o.dtype == bool:
            np.logical_not(o, out=o)
        else:
            o[...] = 3
    elif isinstance(o, pd.DataFrame):
        for j in range(o.shape[1]):
            v = o.iloc[:, j]
            if v.dtype.name == "category" or v.dtype == object:
                first = v.dropna()
                if len(first) and v.dtype == object:
                    v.values[...] = first.iloc[0]
                elif len(first):
                    c = v.array._ndarray
                    c[...] = c[c >= 0][0]
            else:
                v.values[...] = 3
    elif isinstance(o, pd.Series):
        o.values[...] = 3
    elif isinstance(o, list):
        for i in range(len(o)):
            o[i] = o[0] if isinstance(o[0], bool) else type(o[0])(3)


def run(sc):
    spec = sc["spec"]
    dat, twin = W.make_data(spec["data"]), W.make_data(spec["data"])
    before = prints(dat)

    def control():
        g = W.new_fit(spec, twin)
        return g
    g = clean(control)

    def call(f, d):
        with env.ambient(sc["ambient"]):
            W.fit(f, d)
        return f
    f = W.build(spec["params"], n_jobs=sc["n_jobs"])
    if sc["stop"] == "fault":
        p = W.build(spec["params"], n_jobs=sc["n_jobs"])

        def pro():
            with env.armed():
                call(p, twin)

        def go():
            with env.armed():
                call(f, dat)
        rf = resolve_fault("fit", sc["fault"], pro, sc["policy"], seed=sc["glob"])
        kind, v = faulty(go, rf, sc["fault"], sc["policy"], seed=sc["glob"])
        if kind == "stuck":
            raise Skip("stuck")
        if kind == "raised":
            drop_tb(v)
        unchanged(before, [dat], "fit stopped by %s at %s #%d" % (rf["exc"], rf["site"], rf["occ"]))
    elif sc["stop"] == "bad":
        bad, bad2 = spoil(sc["bad"], dat), None
        b0 = prints(bad)
        try:
            env.simulate(lambda: call(f, bad), sc["policy"], seed=sc["glob"])
        except core.HarnessError:
            raise
        except Exception:
            env.probe("invalid data refused")
        unchanged(b0, [bad], "fit on bad data " + sc["bad"])
        unchanged(before, [dat], "fit on bad data " + sc["bad"])
        f = W.build(spec["params"], n_jobs=sc["n_jobs"])
    try:
        env.simulate(lambda: call(f, dat), sc["policy"], seed=sc["glob"])
    except core.SimStuck:
        raise Skip("stuck")
    except (core.HarnessError, Violation):
        raise
    except Exception as e:
        unchanged(before, [dat], "fit (failed)")
        raise Skip("fit failed: " + str(e)[:100])
    unchanged(before, [dat], "fit")
    qs = W.queries(f)
    if sc["qfault"]:
        q = qs[sc["q"] % len(qs)]

        def ask():
            with env.armed():
                getattr(f, q)(dat.Xt)
        try:
            rf = resolve_fault("ask", sc["fault"], ask, sc["policy"], seed=sc["glob"])
            kind, v = faulty(ask, rf, sc["fault"], sc["policy"], seed=sc["glob"])
            if kind == "raised":
                drop_tb(v)
            unchanged(before, [dat], "%s stopped by %s at %s #%d" % (q, rf["exc"], rf["site"], rf["occ"]))
        except Skip:
            pass
    for q in qs:
        for X in (dat.Xt, dat.X):
            try:
                env.simulate(lambda: getattr(f, q)(X), sc["policy"], seed=sc["glob"])
            except core.SimStuck:
                raise Skip("stuck")
            except core.HarnessError:
                raise
            except Exception:
                env.probe("query refused")
            unchanged(before, [dat], q)
    if not sc["scribble"]:
        return
    S = lambda h: (W.nodes(h), W.answers(h, twin.Xt, twin.X))
    f.n_jobs = 1
    s0 = clean(lambda: S(f))
    for k in ("X", "y", "sw", "catf", "Xt"):
        scribble(getattr(dat, k))
    env.probe("inputs overwritten after fit")
    s1 = judged(lambda: S(f), "query-failed")
    must(W.diff(s0[0], s1[0]) or W.diff(s0[1], s1[1]), "forest-shares-caller-data")
    if sc["retune"]:
        def tune(h):
            h.step = 0.37
            if hasattr(h, "dirichlet"):
                h.dirichlet = 0.81
            return S(h)
        a = clean(lambda: tune(g))
        b = judged(lambda: tune(f), "retune-failed")
        must(W.diff(a[0], b[0]) or W.diff_answers_loose(a[1], b[1], TOL), "forest-shares-caller-data", "after retuning")


def shrink(sc):
    yield from shrink_key(sc, "stop", [None])
    for k in ("qfault", "scribble", "retune", "refit"):
        yield from shrink_key(sc, k, [False])
    yield from shrink_key(sc, "ambient", [None])
    yield from shrink_specs(sc, "spec")
    yield from shrink_key(sc, "n_jobs", [1, 2])
    yield from shrink_policy(sc)
