"""P13: queries never change the model."""
from .common import *
from . import hist

BADX = ("cols", "1d", "none", "str", "empty", "obj", "nanrow", "fewer")


def gen(rng, mode, tier):
    spec = W.gen_spec(rng, big=mode == "A" and rng.random() < 0.05)
    spec["params"]["n_estimators"] = rng.choice((1, 2, 3, 5))
    spec["params"]["handle_unknown"] = rng.choice(("consider_missing", "error"))
    many_rows(rng, mode, spec, 0.04)
    isclf = spec["data"]["task"] != "reg"
    ops = []
    for _ in range(rng.randint(2, 7)):
        r = rng.random()
        if r < 0.4:
            ops.append(["ask", rng.randrange(4), rng.randrange(3), rng.random() < 0.6])
        elif r < 0.6:
            ops.append(["bad", rng.randrange(4), rng.choice(BADX)])
        elif r < 0.8:
            ops.append(["hit", rng.randrange(4), gen_fault(rng), rng.randrange(2)])
        elif r < 0.86:
            ops.append(["weird", rng.randrange(4), rng.randrange(1 << 20)])
        elif r < 0.91:
            ops.append(["nodes", rng.random() < 0.7])
        elif r < 0.95:
            ops.append(["attrs"])
        else:
            ops.append(["params"])
    return {
        "spec": spec, "prior": hist.gen_ops(rng, 1, isclf, rng.choice((0, 0, 1, 2)), ("step", "dirichlet", "lighten", "roundtrip")),
        "ops": ops, "n_jobs": rng.choice((1, 1, 2, 3)), "verbose": rng.random() < 0.15,
        "policy": env.gen_policy(rng), "glob": rng.randrange(1 << 30),
    }


def badx(kind, dat):
    X = dat.Xt
    n, d = X.shape
    if kind == "cols":
        return np.zeros((n, d + 2))
    if kind == "1d":
        return np.zeros(d)
    if kind == "none":
        return None
    if kind == "str":
        return np.array([["zz"] * d] * n)
    if kind == "empty":
        return X[:0]
    if kind == "obj":
        return np.array([[None] * d] * n, dtype=object)
    if kind == "nanrow":
        return np.full((n, d), np.nan)
    if kind == "fewer":
        return X[:, :-1] if not hasattr(X, "iloc") else X.iloc[:, :-1]


def scribble_df(df):
    for c in df.columns:
        try:
            df[c].values[...] = 0
        except Exception:
            pass


def run(sc):
    spec = sc["spec"]
    dat = W.make_data(spec["data"])
    half = dat.X[: max(1, len(dat.X) // 2)]
    Xs = (dat.Xt, dat.X, half)

    def prep():
        f = W.new_fit(spec, dat)
        f = hist.apply_ops(f, sc["prior"], [spec], [dat])
        f.n_jobs = sc["n_jobs"]
        f.verbose = sc["verbose"]
        return f
    f = clean(prep)
    qs = W.queries(f)

    # the reference answers come from an identical twin, so that f itself has answered nothing yet
    twin = clean(prep)

    def S(h):
        s = W.state(h, dat.Xt, dat.X)
        try:
            g = pickle.loads(pickle.dumps(h))
            s["copy"] = {"n": W.nodes(g), "q": W.answers(g, dat.Xt)}
        except Exception as e:
            s["copy"] = {"n": "error " + type(e).__name__, "q": {}}
        return s
    before = clean(lambda: S(twin))
    for i, op in enumerate(sc["ops"]):
        k = op[0]
        what = "op %d %s" % (i, op[:3])
        if k == "ask":
            q = qs[op[1] % len(qs)]

            def go():
                try:
                    return getattr(f, q)(Xs[op[2]])
                except Exception as e:
                    if isinstance(e, core.HarnessError):
                        raise
                    return "error " + type(e).__name__
            r = judged(go, "query-failed", sc["policy"], seed=sc["glob"])
            if op[2] < 2:
                exp = before["q"][(q, op[2])]
                g = {(q, 0): r if isinstance(r, str) else W.plain(r)}
                e = {(q, 0): exp}
                pp = before["q"].get(("predict_proba", op[2]))
                if q == "predict" and pp is not None:
                    e[("predict_proba", 0)] = g[("predict_proba", 0)] = pp
                must(W.diff_answers_loose(e, g, TOL), "answer-changed", what)
            if op[3] and isinstance(r, np.ndarray) and r.flags.writeable:
                r[...] = r.ravel()[0] if r.dtype.kind in "OUS" else 7
                env.probe("returned array overwritten")
        elif k == "weird":
            q = qs[op[1] % len(qs)]

            def go():
                try:
                    getattr(f, q)(W.weird(dat.Xt, op[2]))
                    env.probe("unseen values answered")
                except Exception as e:
                    if isinstance(e, core.HarnessError):
                        raise
            judged(go, "query-failed", sc["policy"], seed=sc["glob"])
        elif k == "bad":
            q = qs[op[1] % len(qs)]
            try:
                env.simulate(lambda: getattr(f, q)(badx(op[2], dat)), sc["policy"], seed=sc["glob"])
            except core.HarnessError:
                raise
            except core.SimStuck as e:
                raise Violation("stuck", what + str(e))
            except Exception as e:
                env.probe("bad input refused")
        elif k == "hit":
            q = qs[op[1] % len(qs)]

            def pro():
                with env.armed():
                    getattr(twin, q)(Xs[op[3]])

            def go():
                with env.armed():
                    getattr(f, q)(Xs[op[3]])
            try:
                rf = resolve_fault("f%d" % i, op[2], pro, sc["policy"], seed=sc["glob"])
            except Skip:
                continue
            kind, v = faulty(go, rf, op[2], sc["policy"], seed=sc["glob"])
            if kind == "stuck":
                raise Violation("stuck", what + str(v))
            if kind == "raised":
                drop_tb(v)
                env.probe("query interrupted")
        elif k == "nodes":
            def go():
                for t in range(len(f.trees)):
                    try:
                        df = W._get_nodes(f, t)
                    except Exception:
                        return
                    if op[1]:
                        scribble_df(df)
            judged(go, "query-failed")
        elif k == "attrs":
            judged(lambda: W.attributes(f), "query-failed")
        elif k == "params":
            def go():
                p = f.get_params()
                for key in list(p):
                    p[key] = None
            judged(go, "query-failed")
    after = judged(lambda: S(f), "query-failed")
    what = "after %s" % [o[:3] if o[0] != "hit" else o[:2] for o in sc["ops"]]
    must(W.diff(before["a"], after["a"]), "attributes-changed", what)
    must(W.diff(before["n"], after["n"]), "trees-changed", what)
    must(W.diff_answers_loose(before["q"], after["q"], TOL), "answers-changed", what)
    must(W.diff(before["copy"]["n"], after["copy"]["n"]) or W.diff_answers_loose(before["copy"]["q"], after["copy"]["q"], TOL), "serialised-copy-changed", what)


def shrink(sc):
    yield from shrink_list(sc, "ops")
    yield from shrink_list(sc, "prior")
    yield from shrink_key(sc, "verbose", [False])
    yield from shrink_specs(sc, "spec")
    yield from shrink_key(sc, "n_jobs", [1, 2])
    yield from shrink_policy(sc)
