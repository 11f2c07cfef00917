"""P03: concurrent callers do not influence one another."""
import threading

from .common import *


def _ops(rng, mode, nshared, nspecs, n):
    ops = []
    for _ in range(n):
        r = rng.random()
        if r < 0.6:
            ops.append(["ask", rng.randrange(nshared), rng.randrange(4), rng.randrange(3)])
        elif r < 0.8:
            ops.append(["fit", rng.randrange(nspecs), rng.randrange(2), rng.choice((1, 2, 3))])
        elif r < 0.9:
            ops.append(["copy", rng.randrange(nshared), rng.randrange(3)])
        elif r < 0.95 and mode == "A":
            ops.append(["nodes", rng.randrange(nshared)])
        else:
            ops.append(["nested", rng.randrange(nshared), rng.randrange(4), rng.randrange(3)])
    return ops


def gen(rng, mode, tier):
    specs = [W.gen_spec(rng) for _ in range(rng.choice((1, 1, 2)))]
    for s in specs:
        s["params"]["n_estimators"] = min(s["params"]["n_estimators"], 4)
        s["data"]["ntest"] = rng.choice((3, 9, 9))
    if len(specs) == 2 and rng.random() < 0.4:
        specs[1]["data"] = specs[0]["data"]  # same data, other parameters
        same = specs[0]["data"]["task"]
        specs[1]["params"] = W.gen_params(rng, same)
        specs[1]["params"]["n_estimators"] = rng.randint(1, 4)
    kernel = mode == "B" and rng.random() < 0.4
    return {
        "specs": specs, "n_jobs": [rng.choice((1, 1, 2, 3)) for _ in specs],
        "clients": [_ops(rng, mode, len(specs), len(specs), rng.randint(1, 3)) for _ in range(rng.choice((2, 2, 3, 4)))],
        "policy": env.gen_policy(rng, kernel), "glob": rng.randrange(1 << 30),
    }


def variants(dat, spec):
    """Three inputs of the same shape, so that buffers kept between calls would be shared."""
    Xt = dat.Xt
    n = len(Xt)
    if hasattr(Xt, "iloc"):
        return [Xt, Xt.iloc[::-1].reset_index(drop=True), dat.X.iloc[:n].reset_index(drop=True)]
    return [Xt, np.ascontiguousarray(Xt[::-1]), np.ascontiguousarray(dat.X[:n])]


def run(sc):
    import joblib
    dats = [W.make_data(s["data"]) for s in sc["specs"]]
    Xs = [variants(d, s) for d, s in zip(dats, sc["specs"])]

    def prep():
        fs = []
        for s, d, j in zip(sc["specs"], dats, sc["n_jobs"]):
            f = W.new_fit(s, d)
            f.n_jobs = j
            fs.append(f)
        return fs
    shared = clean(prep)

    def do(op):
        """Returns the raw result (not copied)."""
        try:
            if op[0] == "ask":
                f = shared[op[1]]
                qs = W.queries(f)
                return getattr(f, qs[op[2] % len(qs)])(Xs[op[1]][op[3]])
            if op[0] == "fit":
                s, d = sc["specs"][op[1]], dats[op[1]]
                p = dict(s["params"], n_jobs=op[3], random_state=s["params"]["random_state"] + op[2])
                f = W.fit(W.build(p), d)
                return f
            if op[0] == "copy":
                g = copy.deepcopy(shared[op[1]]) if op[2] % 2 else pickle.loads(pickle.dumps(shared[op[1]]))
                return g
            if op[0] == "nodes":
                return W.nodes(shared[op[1]])
            if op[0] == "nested":
                f = shared[op[1]]
                qs = W.queries(f)
                m = getattr(f, qs[op[2] % len(qs)])
                r = joblib.Parallel(n_jobs=2, backend="threading")(joblib.delayed(m)(X) for X in Xs[op[1]][:2])
                return {"0": r[0], "1": r[1]}
        except Exception as e:
            if isinstance(e, core.HarnessError):
                raise
            return "error %s" % type(e).__name__

    def view(op, r):
        if isinstance(r, str):
            return r
        if op[0] in ("fit", "copy"):
            i = op[1]
            return {"n": W.nodes(r), "q": W.answers(r, Xs[i][0])}
        if isinstance(r, dict):
            return {k: (W.plain(v) if isinstance(v, np.ndarray) else v) for k, v in r.items()}
        return W.plain(r)

    flat = [(c, k) for c, ops in enumerate(sc["clients"]) for k in range(len(ops))]
    alone = {}

    def ref():
        for c, k in flat:
            op = sc["clients"][c][k]
            key = repr(op)
            if key not in alone:
                alone[key] = view(op, do(op))
        return [W.state(f, *Xs[i]) for i, f in enumerate(shared)]
    before = clean(ref)
    got, raw, atret = {}, {}, {}

    def client(c):
        for k, op in enumerate(sc["clients"][c]):
            r = do(op)
            raw[(c, k)] = r
            if isinstance(r, np.ndarray):
                atret[(c, k)] = W.plain(r)

    def go():
        ths = [threading.Thread(target=client, args=(c,)) for c in range(len(sc["clients"]))]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        errs = [r.exc for r in core.SIM.recs if r.exc is not None]
        if errs:
            raise errs[0]
    judged(go, "call-failed", sc["policy"], seed=sc["glob"])

    def post():
        for c, k in flat:
            if (c, k) not in raw:
                return "missing", "client %d call %d never returned" % (c, k)
            op = sc["clients"][c][k]
            v = view(op, raw[(c, k)])
            if (c, k) in atret and W.diff(atret[(c, k)], v):
                return "earlier-result-changed", "client %d call %d %s" % (c, k, op)
            d = diff_op(alone[repr(op)], v)
            if d:
                return "differs-from-alone", "client %d call %d %s: %s" % (c, k, op, d)
        return None
    bad = judged(post, "query-failed")
    if bad:
        raise Violation(*bad)
    after = judged(lambda: [W.state(f, *Xs[i]) for i, f in enumerate(shared)], "query-failed")
    for i in range(len(shared)):
        must(diff_state(before[i], after[i]), "shared-forest-changed", "forest %d" % i)


def diff_op(a, b):
    if isinstance(a, dict) and "q" in a and isinstance(b, dict) and "q" in b:
        return W.diff(a["n"], b["n"]) or W.diff_answers_loose(a["q"], b["q"], TOL)
    if isinstance(a, np.ndarray) and a.dtype.kind != "f":
        # labels may flip only on exact ties of probabilities: compare loosely by fraction
        return W.diff(a, b)
    return W.diff(a, b, TOL)


def diff_state(a, b):
    return W.diff(a["a"], b["a"]) or W.diff(a["n"], b["n"]) or W.diff_answers_loose(a["q"], b["q"], TOL)


def shrink(sc):
    cl = sc["clients"]
    if len(cl) > 2:
        for i in range(len(cl)):
            yield dict(sc, clients=cl[:i] + cl[i + 1:])
    for i, ops in enumerate(cl):
        for k in range(len(ops)):
            if len(ops) > 1:
                yield dict(sc, clients=cl[:i] + [ops[:k] + ops[k + 1:]] + cl[i + 1:])
    for i, s in enumerate(sc["specs"]):
        for t in shrink_spec(s):
            yield dict(sc, specs=sc["specs"][:i] + [t] + sc["specs"][i + 1:])
    if any(j != 1 for j in sc["n_jobs"]):
        yield dict(sc, n_jobs=[1] * len(sc["n_jobs"]))
    yield from shrink_policy(sc)
