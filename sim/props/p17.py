"""P17: a fitted encoder is a function of its training data and parameters, in every history."""
import threading

from .common import *
from .p08 import scribble
from .p09 import rng_state
from .. import twin
from . import hist

TWIN = ("A", "B")
BAD = ("1d", "list", "complex", "cols", "dates", "none")


def gen_enc(rng):
    return {
        "max_bins": rng.choice((256, 256, 3, 4, 10, 64)), "cat_min_categories": rng.choice(("log", "log", "sqrt", 4, 6)),
        "handle_unknown": rng.choice(("consider_missing", "consider_missing", "error")), "random_state": rng.choice((None, 0, rng.randrange(1000))),
    }


def gen_table(rng, mode, d=None):
    s = W.gen_data(rng)
    s["ntest"] = rng.choice((3, 9, 17))
    if d:
        s["d"] = d
    if rng.random() < 0.12:
        s.update(n=rng.choice((130, 300, 700)), hicard=True)
    return s


def gen(rng, mode, tier):
    a = gen_table(rng, mode)
    same = rng.random() < 0.5
    b = gen_table(rng, mode, a["d"] if same else None)
    if same and rng.random() < 0.5:
        b.update({k: a[k] for k in ("x", "catcols", "names", "index")})
    enc = gen_enc(rng)
    if mode == "A" and rng.random() < 0.04:
        # more rows than the encoder looks at: it draws a subsample
        enc.update(subsample=50000, random_state=rng.randrange(1000))
        a.update(n=rng.choice((50001, 51000)), x=rng.choice(("f64", "f32", "df")), d=min(a["d"], 2), catcols=False)
    ops = [["fit", 0, 0, 0.0, "pickle5"]] if rng.random() < 0.75 else []
    for _ in range(rng.randint(1, 6)):
        k = rng.choice(("fit", "fit", "ask", "ask", "badfit", "badask", "hitfit", "hitfit", "hitask", "copy", "scribble", "other", "npseed"))
        ops.append([k, rng.randrange(2), rng.randrange(2), rng.random(), gen_fault(rng, "main") if k.startswith("hit") else rng.choice(BAD) if k.startswith("bad") else rng.choice(hist.COPIES)])
    return {
        "tabs": [a, b], "enc": enc, "usecat": rng.random() < 0.5, "ops": ops, "clients": rng.choice((0, 0, 1, 2, 3)), "chunks": rng.choice((0, 1, 2, 5)),
        "late": rng.random() < 0.3, "twin": rng.random() < 0.3, "policy": env.gen_policy(rng, mode == "B" and rng.random() < 0.2), "glob": rng.randrange(1 << 30),
    }


def tables(sc):
    out = []
    for s in sc["tabs"]:
        d = W.make_data(s)
        out.append((d.X, d.Xt, W.weird(d.Xt, s["seed"])))
        out[-1] += (d.catf,)
    return out


def new(sc, tabs):
    from wildwood.preprocessing import Encoder
    p = dict(sc["enc"])
    m = tabs[0][3]
    if sc["usecat"] and m is not None and np.asarray(m).dtype == bool and sc["tabs"][0]["d"] == sc["tabs"][1]["d"]:
        p["is_categorical"] = np.array(m)
    return Encoder(**p)


def flat(v):
    if isinstance(v, np.ndarray):
        return np.array([repr(x) for x in v.ravel().tolist()]) if v.dtype == object else W.plain(v)
    return v


def table(df):
    return {(j, "c"): np.array([repr(v) for v in df.iloc[:, j].tolist()]) for j in range(df.shape[1])}


def bins(fb):
    from wildwood.preprocessing import features_bitarray_to_array
    return {"bins": W.plain(features_bitarray_to_array(fb)).astype(np.int64), "n": int(fb.n_samples), "max": W.plain(fb.max_values).astype(np.int64)}


def attempt(fn):
    try:
        return fn()
    except Exception as e:
        if isinstance(e, (core.InjectedFault, core.HarnessError)):
            raise
        return "error " + type(e).__name__


def encode(e, X, back=True):
    fb = attempt(lambda: e.transform(X))
    if isinstance(fb, str):
        return fb
    out = bins(fb)
    if back:
        r = attempt(lambda: e.inverse_transform(fb))
        out["back"] = r if isinstance(r, str) else table(r)
    return out


ATTRS = ("n_samples_in_", "n_features_in_", "is_categorical_", "n_bins_no_missing_values_", "cat_min_categories_", "categories_", "binning_thresholds_")


def view(e, Xs):
    out = {}
    for a in ATTRS:
        v = attempt(lambda: getattr(e, a, "none"))
        if isinstance(v, dict):
            for k, w in v.items():
                out[(a, k)] = flat(w)
        else:
            out[(a,)] = flat(v)
    for k, v in sorted(attempt(e.get_params).items()):
        out[("param", k)] = flat(v)
    for i, X in enumerate(Xs):
        out[("x", i)] = encode(e, X, len(X) < 5000)
    return out


def model(e, X, what):
    """Bins of a table against the documented meaning of the fitted attributes."""
    got = attempt(lambda: e.transform(X))
    if isinstance(got, str):
        return
    B = bins(got)["bins"]
    nb = np.asarray(e.n_bins_no_missing_values_).astype(np.int64)
    isdf = hasattr(X, "iloc")
    for j in range(X.shape[1]):
        col = X.iloc[:, j].tolist() if isdf else X[:, j].tolist()
        if e.is_categorical_[j]:
            cats = list(e.categories_[j])
            pos = {}
            for i, c in enumerate(cats):
                pos.setdefault(c, i)
            exp = np.array([nb[j] if v is None or v != v else pos.get(v, nb[j]) for v in col])
            ok = np.ones(len(exp), bool)
        else:
            try:
                v = np.array(col, dtype=float)
            except (TypeError, ValueError):
                continue
            thr = np.asarray(e.binning_thresholds_[j], dtype=float)
            exp = np.searchsorted(thr, np.where(np.isnan(v), 0.0, v), side="left")
            exp = np.where(np.isnan(v), nb[j], exp)
            # values too close to a threshold for the precision of the column
            ok = np.isnan(v) | np.isinf(v) | (np.abs(thr[None, :] - np.where(np.isfinite(v), v, 0.0)[:, None]) > 1e-6 * (1 + np.abs(thr[None, :]))).all(axis=1)
        bad = np.nonzero(ok & (B[:, j] != exp))[0]
        if len(bad):
            i = bad[0]
            raise Violation("wrong-bin", "%s: column %d row %d (%r): bin %d, expected %d" % (what, j, i, col[i], B[i, j], exp[i]))


def fitted_elsewhere(sc, k):
    tabs = tables(sc)
    e = new(sc, tabs)
    return env.serial(lambda: view(e.fit(tabs[k][0]), tabs[k][:3]))


def badx(kind, X):
    n, d = X.shape
    if kind == "1d":
        return np.zeros(n)
    if kind == "list":
        return [[0.0] * d] * n
    if kind == "complex":
        return np.zeros((n, d), dtype=complex)
    if kind == "cols":
        return np.zeros((n, d + 3))
    if kind == "dates":
        import pandas as pd
        Z = pd.DataFrame({"q%d" % j: np.arange(n) * 1.0 for j in range(d)})
        Z["q%d" % (d - 1)] = pd.to_datetime(np.arange(n))
        return Z
    return None


def run(sc):
    tabs = tables(sc)
    Xs = [t[:3] for t in tabs]
    prints = [[W.fingerprint(X) for X in t] for t in Xs]
    fresh = {None: clean(lambda: view(new(sc, tabs), Xs[0]))}

    def reference(k):
        if k not in fresh:
            e = new(sc, tabs)
            try:
                env.serial(lambda: e.fit(Xs[k][0]))
            except (core.HarnessError, core.SimAbort):
                raise
            except Exception as x:
                fresh[k] = "error " + type(x).__name__
            else:
                fresh[k] = env.serial(lambda: view(e, Xs[k]))
                clean_model(e, k)
        return fresh[k]

    def clean_model(e, k):
        for i, X in enumerate(Xs[k]):
            if len(X) < 5000:
                env.serial(lambda: model(e, X, "table %d.%d" % (k, i)))

    env.scramble_globals(sc["glob"])
    if isinstance(reference(0), str):
        raise Skip("fit refused")
    if sc["twin"] and env.TWIN:
        kind, there = twin.ask("sim.props.p17:fitted_elsewhere", sc, 0)
        if kind == "raised":
            raise Violation("depends-on-process", "the same fit in another process raises " + there)
        must(W.diff(fresh[0], there), "depends-on-process", "the same encoder in another process")
        env.probe("fitted in another process")
    st = {"e": new(sc, tabs), "k": None, "fb": None, "held": []}

    def same(what):
        k = st["k"]
        must(W.diff(fresh[k], judged(lambda: view(st["e"], Xs[k or 0]), "call-failed")), "encoder-changed", what)

    for i, op in enumerate(sc["ops"]):
        k, e = op[0], st["e"]
        what = "op %d %s" % (i, k)
        env.scramble_globals(sc["glob"] + i)
        g0 = rng_state()
        if k == "fit":
            r = reference(op[1])
            g0 = rng_state()
            if isinstance(r, str):
                g = judged(lambda: attempt(lambda: e.fit(Xs[op[1]][0]) and None), "call-failed", sc["policy"], seed=sc["glob"])
                if g != r:
                    raise Violation("refit-accepted", "%s: a fresh encoder refuses this table (%s), this one gives %s" % (what, r, g))
                env.probe("fit refused")
            else:
                judged(lambda: e.fit(Xs[op[1]][0]), "refit-failed", sc["policy"], seed=sc["glob"])
                if st["k"] is not None:
                    env.probe("refitted")
                st["k"] = op[1]
        elif k == "ask":
            if st["k"] is not None:
                X = Xs[st["k"]][op[2]]
                fb = judged(lambda: attempt(lambda: e.transform(X)), "call-failed", sc["policy"], seed=sc["glob"])
                if not isinstance(fb, str):
                    st["held"].append((fb, judged(lambda: bins(fb), "call-failed")))
        elif k in ("badfit", "badask"):
            X = badx(op[4], Xs[st["k"] or 0][op[2]])
            r = judged(lambda: attempt(lambda: (e.fit if k == "badfit" else e.transform)(X) and None), "call-failed", sc["policy"], seed=sc["glob"])
            if r is None and k == "badfit":
                # accepted: from here on it is another encoder
                raise Skip("invalid table accepted")
            env.probe("invalid table refused")
        elif k in ("hitfit", "hitask"):
            if k == "hitask" and st["k"] is None:
                continue
            j = op[1] if k == "hitfit" else st["k"]
            if isinstance(reference(j), str):
                continue
            g0 = rng_state()
            X = Xs[j][0] if k == "hitfit" else Xs[j][op[2]]
            twin_e = new(sc, tabs)
            if k == "hitask":
                clean(lambda: twin_e.fit(Xs[j][0]))
            f = op[4]

            def call(enc):
                with env.armed():
                    if k == "hitfit":
                        return enc.fit(X)
                    return enc.inverse_transform(enc.transform(X))
            try:
                rf = resolve_fault("f%d" % i, f, lambda: call(twin_e), None)
            except Skip:
                continue
            kind, v = faulty(lambda: call(e), rf, f, None)
            what += " stopped by %s at %s #%d" % (rf["exc"], rf["site"], rf["occ"])
            if kind == "raised":
                drop_tb(v)
                if not env.is_injected(v) and k == "hitask" and isinstance(fresh[j][("x", op[2])], str):
                    pass
                env.probe("stopped %s" % k[3:])
            elif k == "hitfit" and kind == "ok":
                st["k"] = j
        elif k == "copy":
            st["e"] = judged(lambda: hist.make_copy(e, op[4]), "copy-failed")
            must(W.diff(fresh[st["k"]], judged(lambda: view(e, Xs[st["k"] or 0]), "call-failed")), "original-changed", what + " " + op[4])
        elif k == "scribble":
            # what the encoder returned belongs to the caller
            if st["k"] is not None:
                def go():
                    fb = attempt(lambda: e.transform(Xs[st["k"]][op[2]]))
                    if not isinstance(fb, str):
                        r = attempt(lambda: e.inverse_transform(fb))
                        fb.bitarray[...] = 0
                        if not isinstance(r, str):
                            for j in range(r.shape[1]):
                                r.isetitem(j, 0)
                judged(go, "call-failed")
        elif k == "other":
            def go():
                o = new(sc, tabs)
                attempt(lambda: o.fit_transform(Xs[op[1]][0]))
            judged(go, "call-failed")
        elif k == "npseed":
            np.random.seed(op[1])
            g0 = rng_state()
        if sc["enc"]["random_state"] is not None and g0 != rng_state():
            raise Violation("global-generator-used", what)
        same(what)
        for fb, b in st["held"]:
            must(W.diff(b, judged(lambda: bins(fb), "call-failed")), "result-changed", "a transform returned before " + what)
    if st["k"] is None:
        judged(lambda: st["e"].fit(Xs[0][0]), "refit-failed", sc["policy"], seed=sc["glob"])
        st["k"] = 0
        same("final fit")
    e, k = st["e"], st["k"]
    ref = fresh[k]
    # tables in pieces
    if sc["chunks"]:
        for t in (1, 2):
            X, c = Xs[k][t], sc["chunks"]
            parts = [judged(lambda: encode(e, X[a:a + c], False), "call-failed") for a in range(0, len(X), c)]
            exp = ref[("x", t)]
            if isinstance(exp, str):
                if not any(isinstance(p, str) for p in parts):
                    raise Violation("pieces-accepted", "table %d is refused (%s), its pieces of %d rows are not" % (t, exp, c))
            elif any(isinstance(p, str) for p in parts):
                raise Violation("pieces-refused", "table %d is accepted, a piece of %d rows is refused" % (t, c))
            else:
                must(W.diff(exp["bins"], np.concatenate([p["bins"] for p in parts])), "depends-on-batch", "table %d in pieces of %d rows" % (t, c))
    # a shared encoder
    if sc["clients"]:
        got = {}

        def client(c):
            for t in range(3):
                q = (t + c) % 3
                if len(Xs[k][q]) < 5000:
                    got[(c, q)] = encode(e, Xs[k][q])

        def fitter():
            o = new(sc, tabs)
            attempt(lambda: o.fit_transform(Xs[1 - k][0]))

        def go():
            ths = [threading.Thread(target=client, args=(c,)) for c in range(sc["clients"])] + [threading.Thread(target=fitter)]
            for t in ths:
                t.start()
            for t in ths:
                t.join()
            errs = [r.exc for r in core.SIM.recs if r.exc is not None]
            if errs:
                raise errs[0]
        judged(go, "concurrent-call-failed", sc["policy"], seed=sc["glob"])
        for (c, q), v in sorted(got.items()):
            must(W.diff(ref[("x", q)], v), "concurrent-result-wrong", "client %d table %d" % (c, q))
        same("concurrent use")
    # the caller's tables are his
    for t, ps in zip(Xs, prints):
        for X, p in zip(t, ps):
            if W.fingerprint(X) != p:
                raise Violation("modified-table", "a table changed in %s" % [o[0] for o in sc["ops"]])
    if sc["late"]:
        keep = [W.clone(X) for X in Xs[k]]
        scribble(Xs[k][0])
        must(W.diff(ref, judged(lambda: view(e, [W.clone(Xs2) for Xs2 in keep]), "call-failed")), "depends-on-caller", "the training table was overwritten after fit")


def shrink(sc):
    yield from shrink_list(sc, "ops")
    yield from shrink_key(sc, "twin", [False])
    yield from shrink_key(sc, "clients", [0, 1])
    yield from shrink_key(sc, "chunks", [0])
    yield from shrink_key(sc, "late", [False])
    yield from shrink_key(sc, "usecat", [False])
    for i, s in enumerate(sc["tabs"]):
        for v in shrink_spec({"data": s, "params": {"n_estimators": 1}}):
            yield dict(sc, tabs=sc["tabs"][:i] + [v["data"]] + sc["tabs"][i + 1:])
    for k, v in (("max_bins", 256), ("cat_min_categories", "log"), ("handle_unknown", "consider_missing"), ("random_state", None)):
        if sc["enc"][k] != v and not ("subsample" in sc["enc"] and k == "random_state"):
            yield dict(sc, enc=dict(sc["enc"], **{k: v}))
    yield from shrink_policy(sc)
