"""P16: a data set and what is extracted from it depend only on its settings and random_state."""
import os
import random
import threading

from .. import fproc, fsim, twin
from .common import *
from .p08 import scribble

TWIN = ("D",)
LIMIT = 90.0
BUNDLED = ("boston", "breastcancer", "diabetes", "cardio", "churn", "spambase", "satimage", "letter")
ONLINE = ("adult", "bank", "car", "kick", "internet", "amazon")
SIGNALS = ("heavisine", "bumps", "blocks", "doppler")


def prepare(mode):
    from sklearn.preprocessing import OneHotEncoder  # noqa
    import wildwood.datasets as d
    for n in BUNDLED:
        if not hasattr(d, "load_" + n):
            raise core.HarnessError("no loader " + n)


def gen_source(rng):
    r = rng.random()
    if r < 0.5:
        s = W.gen_data(rng)
        s.update(x=rng.choice(("df", "dfmix", "dfmix")), n=rng.choice((20, 45, 60)), catcols=True, inf=False, missing=rng.random() < 0.15, unknown=False, hicard=False, names=None, index=rng.choice((None, None, "perm", "str")))
        s["d"] = rng.randint(2, 5)
        return {"kind": "made", "data": s, "ctor": rng.random() < 0.5}
    if r < 0.85:
        return {"kind": "bundled", "name": rng.choice(BUNDLED[:5] if rng.random() < 0.75 else BUNDLED)}
    return {"kind": "online", "name": rng.choice(ONLINE)}


def gen_settings(rng):
    s = _settings(rng)
    if s["one_hot_encode"]:
        s["pd_df_categories"] = False
    return s


def _settings(rng):
    return {"one_hot_encode": rng.random() < 0.5, "standardize": rng.random() < 0.5, "test_size": rng.choice((0.3, 0.5, 0.2)),
            "pd_df_categories": rng.random() < 0.25, "drop": rng.choice((None, None, "first")), "sparse": False}


def gen(rng, mode, tier):
    src = gen_source(rng)
    ops = []
    for _ in range(rng.randint(1, 6)):
        k = rng.choice(("extract", "extract", "extract", "load", "loadraw", "badextract", "stopped", "npseed", "scribble", "signal", "readfault", "other"))
        ops.append([k, gen_settings(rng), rng.choice((None, 0, 1, 42, rng.randrange(1000))), rng.random(), rng.random()])
    return {"src": src, "other": gen_source(rng), "ops": ops, "settings": gen_settings(rng), "rs": rng.choice((0, 1, 42, rng.randrange(1000))),
            "same": rng.random() < 0.75, "threads": rng.random() < 0.35, "glob": rng.randrange(1 << 30),
            "policy": env.gen_policy(rng), "exc": rng.choice(("KeyboardInterrupt", "MemoryError", "RuntimeError")),
            "twin": src["kind"] != "online" and rng.random() < 0.3}


def made(s):
    """A Dataset from rows of our own."""
    from wildwood.datasets import Dataset
    d = W.make_data(s["data"])
    df = d.X.copy()
    for c in df.columns:
        if df[c].dtype == object:
            df[c] = df[c].astype("category")
        if df[c].dtype.name == "category":
            df[c] = df[c].cat.add_categories(["none"]).fillna("none").cat.remove_unused_categories()
        else:
            df[c] = df[c].fillna(0.0).astype(float)
    cats = [c for c in df.columns if df[c].dtype.name == "category"]
    conts = [c for c in df.columns if c not in cats]
    df = df[conts + cats]
    isreg = s["data"]["task"] == "reg"
    y = np.asarray(d.y)
    df["lab"] = y if isreg else np.resize(np.array(["a", "b"]), len(y)) if s["data"]["task"] == "bin" else np.resize(np.array(["a", "b", "c"]), len(y))
    task = {"reg": "regression", "bin": "binary-classification"}.get(s["data"]["task"], "multiclass-classification")
    dtype = {c: ("category" if c in cats else "float") for c in conts + cats}
    if s["ctor"]:
        ds = Dataset("made", task, label_column="lab", continuous_columns=conts, categorical_columns=cats or None)
    else:
        ds = Dataset.from_dtype("made", task, "lab", dtype)
    ds.df_raw = df
    return ds


def load(src, raw=False):
    if src["kind"] == "made":
        return made(src)
    f = fsim.loader(src["name"])
    if src["kind"] == "online" or "raw" in f.__code__.co_varnames[:f.__code__.co_argcount]:
        return f(raw=raw)
    return f()


def extract(ds, settings, rs):
    for k, v in settings.items():
        setattr(ds, k, v)
    return ds.extract(random_state=rs)


def plain(v):
    import pandas as pd
    import scipy.sparse as sp
    if sp.issparse(v):
        v = v.toarray()
    if isinstance(v, (pd.DataFrame, pd.Series)):
        return ("pd", W.fingerprint(v))
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ("O", v.shape, repr(v.tolist()))
        return (str(v.dtype), v.shape, np.ascontiguousarray(v).tobytes())
    return v


def view(ds, out):
    r = {"out %d" % i: plain(v) for i, v in enumerate(out)}
    for k, v in sorted(vars(ds).items()):
        if k in ("transformer", "label_encoder", "df_raw") or k.startswith("_"):
            continue
        r[k] = plain(v) if not isinstance(v, (list, tuple)) else repr(v)
    r["repr"] = repr(ds)
    r["df_raw"] = W.fingerprint(ds.df_raw)
    return r


def differ(a, b, cls, what):
    for k in a:
        if k not in b:
            raise Violation(cls, "%s: %s is gone" % (what, k))
        if a[k] != b[k] and not (a[k] != a[k] and b[k] != b[k]):
            raise Violation(cls, "%s: %s: expected %s, got %s" % (what, k, W.short(str(a[k])), W.short(str(b[k]))))
    for k in b:
        if k not in a:
            raise Violation(cls, "%s: %s appears" % (what, k))


def rng_state():
    s = np.random.get_state()
    return s[0], s[1].tobytes(), s[2], s[3], s[4], random.getstate()


class Reads:
    """Directives for the operations on the bundled files; the installation is read-only."""

    def __init__(self, at=None, what=None):
        self.n, self.at, self.what, self.hit = 0, at, what, False

    def __call__(self, op, rel):
        if op in ("openw", "write", "mkdir", "rmdir", "unlink", "replace", "truncate", "attr"):
            return ["err", 30]
        if op in ("openr", "read"):
            self.n += 1
            if self.n == self.at:
                self.hit = True
                env.STATS["counts"]["io_read_" + str(self.what[0])] = env.STATS["counts"].get("io_read_" + str(self.what[0]), 0) + 1
                return self.what if op == "read" or self.what[0] != "short" else None
        return None


def run(sc):
    with fproc.Dir() as d:
        os.environ["WILDWOOD_DATA"] = d.home
        _run(sc)


def fresh(s, settings, rs):
    ds = load(s)
    return view(ds, extract(ds, settings, rs))


def seams(glob):
    fsim.ONLINE = True
    fsim.ROOT = os.path.join(env.REPO, "wildwood", "datasets")
    fsim.HANDLER = Reads()
    env.scramble_globals(glob)


def alone(src, settings, rs, glob):
    """Load and extract as the first thing a process does."""
    seams(glob)
    return env.serial(lambda: fresh(src, settings, rs))


def _run(sc):
    src = sc["src"]
    seams(sc["glob"])
    ref = clean(lambda: fresh(src, sc["settings"], sc["rs"]))
    refraw = None
    if src["kind"] != "made":
        refraw = clean(lambda: fsim.canon(load(src, True)) if src["kind"] == "online" else raw_view(load(src, True)))
    sig = clean(lambda: signal(sc))
    if sc["twin"] and env.TWIN:
        kind, there = twin.ask("sim.props.p16:alone", src, sc["settings"], sc["rs"], sc["glob"] + 3)
        if kind == "raised":
            raise Violation("depends-on-process", "in another process: " + there)
        differ(ref, there, "depends-on-process", "in another process")
        env.probe("same extract in another process")
    st = {"ds": None, "outs": []}

    def live():
        if st["ds"] is None:
            st["ds"] = load(src)
        return st["ds"]

    def op_run(op):
        k, settings, rs, u, v = op
        if k == "extract":
            try:
                st["outs"].append(extract(live(), settings, rs))
            except (ValueError, KeyError):
                env.probe("extract refused")
        elif k == "load":
            st["outs"].append((load(src).df_raw,))
        elif k == "loadraw":
            x = load(src, True)
            st["outs"].append(x if isinstance(x, tuple) else (x.df_raw,))
        elif k == "badextract":
            try:
                extract(live(), dict(settings, test_size=7.5), rs)
            except Exception:
                env.probe("extract refused")
        elif k == "npseed":
            np.random.seed(int(u * 1e6))
            random.random()
        elif k == "scribble":
            for t in st["outs"]:
                for o in t:
                    try:
                        scribble(o)
                    except (ValueError, TypeError):
                        pass
            env.probe("results overwritten")
        elif k == "signal":
            signal(sc)
        elif k == "other":
            fresh(sc["other"], settings, 3)

    for i, op in enumerate(sc["ops"]):
        if op[0] == "stopped":
            fault = {"exc": sc["exc"], "u": op[3], "occ_u": op[4], "where": "main"}
            other = load(src)

            def pro():
                with env.armed():
                    extract(other, op[1], op[2])

            def go():
                ds = live()
                with env.armed():
                    extract(ds, op[1], op[2])
            try:
                rf = resolve_fault("s%d" % i, fault, pro, None)
            except Skip:
                continue
            kind, v = faulty(go, rf, fault, None)
            if kind == "raised":
                drop_tb(v)
        elif op[0] == "readfault":
            what = (["err", 5], ["short", 0.3], ["err", 116], ["raise", "MemoryError"])[int(op[3] * 4)]
            count = fsim.HANDLER = Reads()
            clean(lambda: load(src, op[4] < 0.5))
            if not count.n:
                fsim.HANDLER = Reads()
                continue
            h = fsim.HANDLER = Reads(1 + int(op[4] * 7919) % count.n, what)
            try:
                r = env.simulate(lambda: load(src, op[4] < 0.5))
            except core.HarnessError:
                raise
            except Exception as e:
                drop_tb(e)
                r = None
            fsim.HANDLER = Reads()
            if r is not None and not isinstance(r, tuple):
                got = judged(lambda: view(r, extract(r, sc["settings"], sc["rs"])), "extract-failed")
                differ(ref, got, "partial-load", "load_%s with %s" % (src["name"], what))
            elif r is not None:
                differ({"raw": refraw}, {"raw": raw_view(r)}, "partial-load", "load_%s(raw=True) with %s" % (src["name"], what))
            else:
                env.probe("load with read fault raised")
        else:
            clean(lambda: op_run(op), "history")
    what = "history %s" % [o[0] for o in sc["ops"]]
    raw0 = W.fingerprint(st["ds"].df_raw) if st["ds"] is not None else None
    if raw0 is not None and raw0 != ref["df_raw"]:
        raise Violation("raw-data-changed", what)
    env.scramble_globals(sc["glob"] + 5)
    g0 = rng_state()

    def final():
        ds = live() if sc["same"] else load(src)
        return ds, extract(ds, sc["settings"], sc["rs"])
    if sc["threads"]:
        res = {}

        def body(i):
            if i == 0:
                res[0] = final()
            elif i == 1:
                ds = load(src)
                res[1] = ds, extract(ds, sc["settings"], sc["rs"])
            else:
                res[i] = signal(sc)
                np.random.rand(7)

        def go():
            ths = [threading.Thread(target=body, args=(i,)) for i in range(4)]
            for t in ths:
                t.start()
            for t in ths:
                t.join()
            errs = [r.exc for r in core.SIM.recs if r.exc is not None]
            if errs:
                raise errs[0]
        judged(go, "extract-failed", sc["policy"], seed=sc["glob"])
        for i in (0, 1):
            differ(ref, view(*res[i]), "depends-on-history" if i == 0 else "concurrent-extract-differs", what)
        differ(sig, res[2], "signal-differs", "concurrent")
        differ(sig, res[3], "signal-differs", "concurrent")
    else:
        ds, out = judged(final, "extract-failed", sc["policy"], seed=sc["glob"])
        if rng_state() != g0:
            raise Violation("global-generator-used", "extract(random_state=%s) changed a global generator" % sc["rs"])
        differ(ref, view(ds, out), "depends-on-history", what)
        differ(sig, judged(lambda: signal(sc), "signal-failed"), "signal-differs", what)
    if refraw is not None:
        got = judged(lambda: fsim.canon(load(src, True)) if src["kind"] == "online" else raw_view(load(src, True)), "load-failed")
        if got != refraw:
            raise Violation("raw-load-differs", "load_%s(raw=True) after %s" % (src["name"], what))


def raw_view(x):
    if isinstance(x, tuple):
        return [W.fingerprint(v) for v in x]
    return W.fingerprint(x.df_raw)


def signal(sc):
    from wildwood.datasets import get_signal, make_regression
    s = SIGNALS[sc["rs"] % 4]
    X, y = make_regression(50 + sc["rs"] % 7, s, random_state=sc["rs"])
    return {"X": plain(X), "y": plain(y), "g": plain(get_signal(np.linspace(0, 1, 33), s))}


def shrink(sc):
    yield from shrink_list(sc, "ops")
    yield from shrink_key(sc, "threads", [False])
    yield from shrink_key(sc, "twin", [False])
    if sc["src"]["kind"] != "made":
        for n in BUNDLED[:2]:
            yield dict(sc, src={"kind": "bundled", "name": n})
    base = {"one_hot_encode": True, "standardize": True, "test_size": 0.3, "pd_df_categories": False, "drop": None, "sparse": False}
    for k, v in base.items():
        if sc["settings"][k] != v:
            yield dict(sc, settings=dict(sc["settings"], **{k: v}))
    yield from shrink_policy(sc)
