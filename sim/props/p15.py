"""P15: the answer for a row does not depend on how the requests are batched, ordered or repeated."""
import threading

from .common import *
from . import hist

FORMS = ("plain", "plain", "plain", "F", "strided", "readonly", "swapped")


def gen(rng, mode, tier):
    spec = W.gen_spec(rng)
    spec["params"]["n_estimators"] = rng.choice((1, 2, 3, 5))
    spec["data"]["ntest"] = rng.choice((3, 9, 17, 33))
    isclf = spec["data"]["task"] != "reg"
    n = spec["data"]["ntest"]
    big = mode == "A" and rng.random() < 0.12

    def rows():
        k = rng.choice((1, 1, 2, 3, n, n))
        r = rng.random()
        if big and r < 0.3:
            return ["times", rng.choice((300, 1100, 4100, 20000)), rng.randrange(n)]
        if r < 0.35:
            return ["list", [rng.randrange(n) for _ in range(k)]]
        if r < 0.6:
            a = rng.randrange(n)
            return ["list", list(range(a, min(n, a + k)))]
        if r < 0.7:
            return ["list", [rng.randrange(n)] * k]
        p = list(range(n))
        rng.shuffle(p)
        return ["list", p]
    reqs = [[rng.randrange(4), rows(), rng.choice(FORMS)] for _ in range(rng.randint(2, 7))]
    for _ in range(rng.choice((0, 1, 2))):
        reqs.insert(rng.randrange(len(reqs) + 1), list(rng.choice(reqs)))
    return {
        "spec": spec, "prior": hist.gen_ops(rng, 1, isclf, rng.choice((0, 0, 1, 2)), ("step", "dirichlet", "lighten", "roundtrip")),
        "odd": rng.random() < 0.4, "reqs": reqs, "clients": rng.choice((1, 1, 2, 3)), "n_jobs": rng.choice((1, 2, 3, 4)),
        "lost": gen_fault(rng, "worker") if rng.random() < 0.2 else None,
        "policy": env.gen_policy(rng, mode == "B" and rng.random() < 0.2), "glob": rng.randrange(1 << 30),
    }


def take(X, rows, form):
    i = np.array(rows[1]) if rows[0] == "list" else (np.arange(rows[1]) + rows[2]) % len(X)
    if hasattr(X, "iloc"):
        Z = X.iloc[i].reset_index(drop=True)
        if form == "strided":
            Z.index = np.arange(len(Z))[::-1] * 3
        return Z, i
    Z = np.ascontiguousarray(X[i])
    if form == "F":
        Z = np.asfortranarray(Z)
    elif form == "strided":
        b = np.repeat(Z, 2, axis=0)
        Z = b[::2]
    elif form == "readonly":
        Z.setflags(write=False)
    elif form == "swapped":
        b = np.repeat(Z, 2, axis=1)
        Z = b[:, ::2]
    return Z, i


def run(sc):
    spec = sc["spec"]
    dat = W.make_data(spec["data"])
    X = W.weird(dat.Xt, spec["data"]["seed"]) if sc["odd"] else dat.Xt
    n = len(X)

    def prep():
        f = W.new_fit(spec, dat)
        return hist.apply_ops(f, sc["prior"], [spec], [dat])
    f = clean(prep)
    qs = W.queries(f)
    # every row asked alone
    alone = clean(lambda: [W.answers(f, take(X, ["list", [i]], "plain")[0]) for i in range(n)])
    f.n_jobs = sc["n_jobs"]
    reqs = [(qs[q % len(qs)], rows, form) for q, rows, form in sc["reqs"]]
    batches = [take(X, rows, form) for _, rows, form in reqs]
    got = {}

    def one(k):
        q = reqs[k][0]
        try:
            return getattr(f, q)(batches[k][0])
        except Exception as e:
            if isinstance(e, core.HarnessError):
                raise
            return e

    def client(c):
        for k in range(c, len(reqs), sc["clients"]):
            got[k] = one(k)

    def go():
        if sc["clients"] == 1:
            with env.armed():
                return client(0)
        ths = [threading.Thread(target=client, args=(c,)) for c in range(sc["clients"])]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        errs = [r.exc for r in core.SIM.recs if r.exc is not None]
        if errs:
            raise errs[0]
    if sc["lost"] and sc["clients"] == 1:
        rf = resolve_fault("f", sc["lost"], go, sc["policy"], seed=sc["glob"])
        kind, v = faulty(go, rf, sc["lost"], sc["policy"], seed=sc["glob"])
        if kind == "stuck":
            raise Skip("stuck")
    else:
        judged(go, "request-failed", sc["policy"], seed=sc["glob"])
    for k in range(len(reqs)):
        if k not in got:
            continue
        q, rows, form = reqs[k]
        what = "request %d: %s of %d rows (%s)" % (k, q, len(batches[k][1]), form)
        refs = [alone[i][(q, 0)] for i in batches[k][1]]
        v = got[k]
        if isinstance(v, Exception) and env.is_injected(v):
            # the request was lost: the client repeats it
            drop_tb(v)
            env.probe("request repeated after a failure")
            v = judged(lambda: one(k), "request-failed", sc["policy"], seed=sc["glob"] + 1)
        refused = [r for r in refs if isinstance(r, str)]
        if isinstance(v, Exception):
            drop_tb(v)
            if not refused:
                raise Violation("refused", "%s raised %s: %s; each of the rows alone is answered" % (what, type(v).__name__, str(v)[:200]))
            env.probe("request refused")
            continue
        if refused:
            raise Violation("accepted", "%s is answered, but a row of it alone is refused (%s)" % (what, refused[0]))
        v = W.plain(v)
        ax = 0 if q in ("predict", "predict_proba") else 1
        e = np.concatenate(refs, axis=ax)
        exp, g = {(q, 0): e}, {(q, 0): v}
        if q == "predict" and ("predict_proba", 0) in alone[0]:
            exp[("predict_proba", 0)] = g[("predict_proba", 0)] = np.concatenate([alone[i][("predict_proba", 0)] for i in batches[k][1]])
        must(W.diff_answers_loose(exp, g, TOL), "depends-on-batch", what)


def shrink(sc):
    yield from shrink_list(sc, "reqs")
    yield from shrink_list(sc, "prior")
    yield from shrink_key(sc, "lost", [None])
    yield from shrink_key(sc, "odd", [False])
    yield from shrink_key(sc, "clients", [1])
    yield from shrink_key(sc, "n_jobs", [1, 2])
    for i, r in enumerate(sc["reqs"]):
        if r[2] != "plain":
            yield dict(sc, reqs=sc["reqs"][:i] + [[r[0], r[1], "plain"]] + sc["reqs"][i + 1:])
        if r[1][0] == "list" and len(r[1][1]) > 1:
            yield dict(sc, reqs=sc["reqs"][:i] + [[r[0], ["list", r[1][1][:len(r[1][1]) // 2]], r[2]]] + sc["reqs"][i + 1:])
    for s in shrink_spec(sc["spec"]):
        if s["data"]["ntest"] == sc["spec"]["data"]["ntest"]:
            yield dict(sc, spec=s)
    yield from shrink_policy(sc)
