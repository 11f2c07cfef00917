"""P02: parallel queries equal evaluating the trees one by one."""
from .common import *

AMB = (None, None, None, "threading", "simproc", "old-simproc", "old-threading", "sequential")


def gen(rng, mode, tier):
    big = mode == "A" and rng.random() < 0.15
    spec = W.gen_spec(rng, big=big)
    if rng.random() < 0.25:
        spec["params"]["n_estimators"] = rng.choice((9, 12, 16) if mode == "B" else (10, 16, 24, 40))
    many_rows(rng, mode, spec)
    kernel = mode == "B" and rng.random() < 0.3
    return {
        "spec": spec, "n_jobs": rng.choice((2, 2, 3, 4, 5, 8, -1)), "verbose": rng.random() < 0.2,
        "calls": [[rng.choice((0, 1, 1, 2, 3)), rng.randint(0, 1), rng.choice(AMB)] for _ in range(rng.randint(2, 5))],
        "flip": [rng.randrange(4) for _ in range(rng.choice((0, 0, 1, 2)))],
        "light": rng.random() < 0.15, "policy": env.gen_policy(rng, kernel), "glob": rng.randrange(1 << 30),
    }


def run(sc):
    spec = sc["spec"]
    dat = W.make_data(spec["data"])
    Xs = (dat.Xt, dat.X)

    def prep():
        f = W.new_fit(spec, dat)
        if sc["light"]:
            f.lighten()
        return f, W.answers(f, *Xs)
    f, ref = clean(prep)
    one = clean(lambda: [by_trees(f, X) for X in Xs])
    f.n_jobs = sc["n_jobs"]
    f.verbose = sc["verbose"]
    qs = W.queries(f)

    def go():
        out = []
        for qi, xi, amb in sc["calls"]:
            q = qs[qi % len(qs)]
            with env.ambient(amb):
                out.append(((q, xi), W.answers(f, Xs[xi], qs=(q,))[(q, 0)]))
        return out
    got = judged(go, "query-failed", sc["policy"], seed=sc["glob"])

    def again():
        """The caller's array changes between two calls; the object stays the same."""
        out = []
        for qi in sc["flip"]:
            q = qs[qi % len(qs)]
            Z = W.clone(dat.Xt)
            a = W.answers(f, Z, qs=(q,))[(q, 0)]
            W.flip_rows(Z)
            b = W.answers(f, Z, qs=(q,))[(q, 0)]
            out.append(((q, 0), a))
            out.append(((q, 0), b if isinstance(b, str) else W.flip_answer(q, b)))
        return out
    if sc["flip"]:
        got = got + judged(again, "query-failed", sc["policy"], seed=sc["glob"])
    for (q, xi), v in got:
        exp = {(q, 0): ref[(q, xi)]}
        if q == "predict":
            exp[("predict_proba", 0)] = ref.get(("predict_proba", xi))
        g = dict(exp)
        g[(q, 0)] = v
        exp = {k: x for k, x in exp.items() if x is not None}
        must(W.diff_answers_loose(exp, g, TOL), "wrong-" + q, "n_jobs=%s" % sc["n_jobs"])
    for xi in (0, 1):
        for q, exp in one[xi].items():
            r = ref.get((q, xi))
            if isinstance(r, str) or r is None:
                continue
            must(W.diff(exp, r, 1e-6), "combination-" + q, "sequential")


def shrink(sc):
    yield from shrink_list(sc, "calls")
    yield from shrink_list(sc, "flip")
    yield from shrink_specs(sc, "spec")
    for i, c in enumerate(sc["calls"]):
        if c[2] is not None:
            yield dict(sc, calls=sc["calls"][:i] + [[c[0], c[1], None]] + sc["calls"][i + 1:])
    yield from shrink_key(sc, "verbose", [False])
    yield from shrink_key(sc, "light", [False])
    yield from shrink_key(sc, "n_jobs", [2, 3])
    yield from shrink_policy(sc)
