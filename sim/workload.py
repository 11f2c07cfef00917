"""Swarm-style generation of data sets, forests and queries; comparison helpers."""
import io
import pickle
import random

import numpy as np

TASKS = ("bin", "multi", "ovr", "reg")


# ------------------------------------------------------------------ specs (plain JSON)
def gen_data(rng, task=None, big=False, simple=False):
    task = task or rng.choice(TASKS)
    d = {
        "task": task,
        "n": rng.choice((8, 12, 20, 30, 45, 60)) if not big else rng.choice((700, 1500, 3000, 6000, 9000)),
        "d": rng.randint(1, 5),
        "ncls": 2 if task == "bin" else rng.choice((3, 3, 4, 5)),
        "x": rng.choice(("f64", "f64", "f32", "int", "F", "strided", "obj", "u8", "bool", "str", "df", "df", "dfmix", "dfmix", "dfwide", "dfwide")),
        "missing": rng.random() < 0.3,
        "catcols": rng.random() < 0.5,
        "sw": rng.choice((None, None, "f64", "f32", "list", "series")),
        "y": rng.choice(("int", "int", "str", "float", "list", "series", "f32")),
        "seed": rng.randrange(1 << 30),
        "ntest": rng.choice((1, 3, 9, 17)),
        "unknown": rng.random() < 0.3,
        "sep": rng.choice((0.3, 1.0, 3.0)),
        "inf": rng.random() < 0.15,
        "hicard": rng.random() < 0.08,
        "oddw": rng.choice((None, None, None, None, None, None, "zeros", "huge", "tiny")),
        "const": rng.random() < 0.06,
        "names": rng.choice((None, None, None, None, "dup", "ints")),
        "index": rng.choice((None, None, None, None, "perm", "dup", "str")),
        "edge": rng.random() < 0.3,
    }
    r = rng.random()
    if r < 0.05:
        d["d"] = rng.choice((9, 17))
    elif r < 0.08 and d["task"] in ("multi", "ovr"):
        d["ncls"] = 8
    if simple:
        d.update(x="f64", missing=False, catcols=False, sw=None, y="int", unknown=False, inf=False, hicard=False, oddw=None, const=False, names=None, index=None, edge=False)
    return d


def gen_params(rng, task, big=False, agg=None):
    p = {
        "n_estimators": rng.choice((1, 2, 3, 4, 5, 7)) if not big else rng.choice((2, 4)),
        "random_state": rng.randrange(1 << 31),
        "aggregation": (rng.random() < 0.75) if agg is None else agg,
        "step": rng.choice((1.0, 0.1, 2.5)),
        "max_depth": rng.choice((None, None, 2, 3, 6)),
        "min_samples_split": rng.choice((2, 2, 3, 6)),
        "min_samples_leaf": rng.choice((1, 1, 2, 3)),
        "max_bins": rng.choice((256, 256, 3, 4, 10, 64)),
        "max_features": rng.choice(("auto", None, "sqrt", "log2", 1, 0.5)),
        "cat_min_categories": rng.choice(("log", "sqrt", 4, 6)),
        "handle_unknown": rng.choice(("consider_missing", "consider_missing", "error")),
        "n_jobs": 1,
        "verbose": False,
    }
    if task != "reg":
        p["criterion"] = rng.choice(("gini", "entropy"))
        p["dirichlet"] = rng.choice((0.5, 0.1, 1.5, 1e-3))
        p["class_weight"] = rng.choice((None, None, "balanced"))
        p["multiclass"] = "ovr" if task == "ovr" else "multinomial"
        p["cat_split_strategy"] = rng.choice(("binary", "all", "random"))
    return p


def gen_spec(rng, **kw):
    """One data set and one set of parameters."""
    pk = {k: kw.pop(k) for k in ("agg",) if k in kw}
    data = gen_data(rng, **kw)
    return {"data": data, "params": gen_params(rng, data["task"], kw.get("big", False), **pk)}


SHRINK_DATA = {"tile": 0, "edge": False, "names": None, "index": None, "hicard": False, "oddw": None, "const": False, "yodd": None, "inf": False, "x": "f64", "missing": False, "catcols": False, "sw": None, "y": "int", "unknown": False}


# ------------------------------------------------------------------ materialised data
class Data:
    pass


def _labels(task, ncls, score, rs):
    if task == "reg":
        return (score * 2 + 0.1 * rs.randn(score.size)).astype(float)
    q = np.argsort(np.argsort(score + 0.4 * rs.randn(score.size)))
    y = (q * ncls) // score.size
    # every class occurs
    for k in range(min(ncls, score.size)):
        if not (y == k).any():
            y[k] = k
    return y.astype(int)


def to_edges(raw, n, seed):
    """Moves values of the rows to predict onto, or one step beside, training values and the middle of two of them."""
    rs = np.random.RandomState((seed ^ 77) % (1 << 31))
    for j in range(raw.shape[1]):
        u = np.unique(raw[:n, j])
        for i in range(n, len(raw)):
            k = rs.randint(len(u))
            v = u[k] if k + 1 == len(u) or rs.rand() < 0.3 else (u[k] + u[k + 1]) / 2
            r = rs.randint(5)
            raw[i, j] = np.nextafter(v, (-np.inf, np.inf)[r]) if r < 2 else v


def make_data(s):
    import pandas as pd
    rs = np.random.RandomState(s["seed"] % (1 << 31))
    n, d, m = s["n"], s["d"], s["ntest"]
    raw = rs.randn(n + m, d) * s["sep"]
    score = raw[:, 0] + 0.3 * raw[:, -1]
    for j in range(d):
        if j % 3 == 1:
            raw[:, j] = np.round(raw[:, j])
    if s.get("const"):
        raw[:, d - 1] = 1.5
    y = _labels(s["task"], s["ncls"], score[:n], rs)
    if s.get("edge"):
        to_edges(raw, n, s["seed"])
    out = Data()
    out.catf = None
    kind = s["x"]
    cat_idx = [j for j in range(d) if j % 2 == 1] if s["catcols"] else []
    if kind in ("df", "dfmix", "dfwide"):
        cols = {}
        for j in range(d):
            c = raw[:, j]
            if j in cat_idx or (kind == "dfmix" and j % 3 == 2):
                lev = np.array(["l%d" % i for i in range(30)] if s.get("hicard") else list("abcdefgh"))
                k = len(lev)
                codes = np.clip(np.round(c * (k / 6) / max(s["sep"], 1) + 3), 0, k - 1).astype(int)
                v = lev[codes].astype(object)
                if s["missing"]:
                    v[rs.rand(n + m) < 0.1] = None
                ser = pd.Series(v)
                if j % 2 == 1:
                    ser = ser.astype("category")
                cols["c%d" % j] = ser
            elif kind == "dfwide" and j % 4 != 1:
                k = (s["seed"] >> j) % 4
                if k == 0:
                    ser = pd.Series(c > 0.3)
                elif k == 1:
                    ser = pd.Series(np.round(c * 3).astype(np.int16))
                elif k == 2:
                    # an ordered category whose levels are numbers, not sorted, some unused
                    ser = pd.Series(pd.Categorical(np.clip(np.round(c + 3), 0, 6).astype(int), categories=[4, 1, 9, 0, 6, 3, 2, 5, 8], ordered=True))
                else:
                    ser = pd.Series(np.round(np.abs(c) * 20).astype(np.uint8))
                cols["c%d" % j] = ser
            else:
                v = c.copy()
                if s["missing"]:
                    v[rs.rand(n + m) < 0.1] = np.nan
                if s.get("inf"):
                    v[n + rs.randint(m)] = rs.choice((np.inf, -np.inf))
                if kind == "dfmix" and j % 4 == 0:
                    v = v.astype(np.float32)
                cols["c%d" % j] = pd.Series(v)
        df = pd.DataFrame(cols)
        X = df.iloc[:n].reset_index(drop=True)
        Xt = df.iloc[n:].reset_index(drop=True)
        if s["unknown"]:
            for c in Xt.columns:
                if Xt[c].dtype == object:
                    Xt.loc[0, c] = "zz"
                elif Xt[c].dtype.name == "category":
                    Xt[c] = Xt[c].cat.add_categories(["zz"])
                    Xt.loc[0, c] = "zz"
        if s["catcols"] and rs.rand() < 0.5:
            out.catf = [bool(j in cat_idx) for j in range(d)]
        if s.get("names"):
            X.columns = Xt.columns = {"dup": ["c%d" % (j % 3 // 2) for j in range(d)], "ints": [(7 * j + 3) % 50 for j in range(d)]}[s["names"]]
        for Z in (X, Xt) if s.get("index") else ():
            i = np.arange(len(Z))
            Z.index = {"perm": (i * 7 + 5)[::-1], "dup": i // 2, "str": ["r%d" % t for t in i]}[s["index"]]
    else:
        if cat_idx:
            for j in cat_idx:
                raw[:, j] = np.clip(np.round(raw[:, j] * 1.5 / max(s["sep"], 1) + 3), 0, 7)
            out.catf = [j in cat_idx for j in range(d)]
            if s["unknown"]:
                raw[n, cat_idx[0]] = 11
            r = rs.randint(3)
            if r == 1:
                out.catf = np.array(out.catf)
            elif r == 2:
                out.catf = np.array(cat_idx)
        if kind == "int":
            raw = np.round(raw * 3).astype(np.int64)
        elif kind == "u8":
            raw = np.clip(np.round(raw * 20 + 60), 0, 255).astype(np.uint8)
        elif kind == "bool":
            raw = raw > 0.2
        elif kind == "str":
            raw = np.round(raw * 2).astype(str)
        elif kind == "obj":
            if not cat_idx:
                raw = np.round(raw * 2)
            raw = raw.astype(object)
        else:
            if s["missing"]:
                mask = rs.rand(n + m, d) < 0.1
                if cat_idx:
                    mask[:, cat_idx] = False
                raw[mask] = np.nan
            if s.get("inf"):
                # in the rows to predict; rarely in the training rows
                j = rs.randint(d)
                if j not in cat_idx:
                    raw[n + rs.randint(m), j] = rs.choice((np.inf, -np.inf))
                    if rs.rand() < 0.3:
                        raw[rs.randint(n), j] = np.inf
            if kind == "f32":
                raw = raw.astype(np.float32)
        X, Xt = raw[:n], raw[n:]
        if kind == "F":
            X = np.asfortranarray(X)
        elif kind == "strided":
            big = np.zeros((2 * n, d), dtype=raw.dtype)
            big[::2] = X
            X = big[::2]
        else:
            X = np.ascontiguousarray(X)
        Xt = np.ascontiguousarray(Xt)
    if s.get("tile"):
        # many rows to predict
        i = np.arange(s["tile"]) % m
        Xt = Xt.iloc[i].reset_index(drop=True) if hasattr(Xt, "iloc") else np.ascontiguousarray(Xt[i])
    out.X, out.Xt = X, Xt
    if s["task"] != "reg":
        names = np.array(["k%d" % (7 - i) for i in range(8)])
        out.y = {
            "int": lambda: y, "str": lambda: names[y], "float": lambda: y.astype(float),
            "list": lambda: [int(v) for v in y], "series": lambda: pd.Series(y * 3 - 1),
            "f32": lambda: y.astype(np.float32),
        }[s["y"]]()
    else:
        out.y = {
            "int": lambda: np.round(y * 4).astype(int), "str": lambda: y, "float": lambda: y,
            "list": lambda: [float(v) for v in y], "series": lambda: pd.Series(y),
            "f32": lambda: y.astype(np.float32),
        }[s["y"]]()
    yo = s.get("yodd")
    if yo and s["task"] == "reg" and hasattr(out.y, "dtype") and out.y.dtype.kind == "f":
        np.asarray(out.y)[rs.randint(n)] = {"inf": np.inf, "ninf": -np.inf, "huge": 3e38, "nan": np.nan}[yo]
    w = 0.25 + 2 * rs.rand(n)
    if s.get("oddw") == "zeros":
        w[rs.rand(n) < 0.2] = 0.0
    elif s.get("oddw"):
        w *= {"huge": 1e6, "tiny": 1e-6}[s["oddw"]]
    out.sw = {
        None: lambda: None, "f64": lambda: w, "f32": lambda: w.astype(np.float32),
        "list": lambda: [float(v) for v in w], "series": lambda: pd.Series(w),
    }[s["sw"]]()
    return out


def clone(X):
    return X.copy(deep=True) if hasattr(X, "iloc") else np.array(X, order="K")


def flip_rows(X):
    """Reverses the order of the rows within the same object."""
    if hasattr(X, "iloc"):
        for j in range(X.shape[1]):
            X.isetitem(j, X.iloc[::-1, j].array)
    else:
        X[...] = X[::-1].copy()


def flip_answer(q, a):
    return a[::-1] if q in ("predict", "predict_proba") else a[:, ::-1]


def weird(X, seed):
    """Rows of the same shape that look like nothing seen in training."""
    rs = np.random.RandomState(seed % (1 << 31))
    Z = clone(X)
    n = len(Z)
    if hasattr(Z, "iloc"):
        names, index = Z.columns, Z.index
        Z.columns, Z.index = range(Z.shape[1]), range(n)
        for j in range(Z.shape[1]):
            k, i = rs.randint(4), rs.randint(n)
            if Z[j].dtype.name == "category":
                if k:
                    Z[j] = Z[j].cat.add_categories(["w%d" % t for t in range(k)])
                    Z.loc[i, j] = "w0"
            elif Z[j].dtype == object:
                Z.loc[i, j] = "w%d" % k if k else None
            elif Z[j].dtype.kind == "f":
                Z.loc[i, j] = (np.nan, np.inf, -np.inf, 1e9)[k]
            elif Z[j].dtype.kind in "iu":
                Z.loc[i, j] = (0, 101, 7, 77)[k]
        Z.columns, Z.index = names, index
        return Z
    for j in range(Z.shape[1]):
        k = rs.randint(4)
        i = rs.randint(n)
        if Z.dtype.kind == "f":
            Z[i, j] = (np.nan, np.inf, 1e9, 77)[k]
        elif Z.dtype.kind == "i":
            Z[i, j] = (99, -99, 10**6, 77)[k]
        elif Z.dtype.kind == "u":
            Z[i, j] = (0, 255, 99, 77)[k]
        elif Z.dtype.kind == "b":
            Z[i, j] = not Z[i, j]
        elif Z.dtype.kind == "U":
            Z[i, j] = ("9.5", "-9", "w", "7")[k]
        else:
            Z[i, j] = (99.0, -99.0, 55.0, 77.0)[k]
    return Z


def build(params, **over):
    from wildwood import ForestClassifier, ForestRegressor
    p = dict(params)
    p.update(over)
    return (ForestClassifier if "criterion" in p else ForestRegressor)(**p)


def fit(forest, dat, **kw):
    return forest.fit(dat.X, dat.y, sample_weight=dat.sw, categorical_features=dat.catf, **kw)


def new_fit(spec, dat, **over):
    return fit(build(spec["params"], **over), dat)


# ------------------------------------------------------------------ observing a forest
def queries(forest):
    """Names of the queries this forest answers."""
    if "Classifier" in type(forest).__name__:
        return ("predict", "predict_proba", "apply", "predict_proba_trees")
    return ("predict", "apply", "_weighted_depth", "predict_trees")


def ask(forest, q, X):
    return plain(getattr(forest, q)(X))


def plain(a):
    """A private plain ndarray (simulated arrays lose their type here)."""
    return np.array(a, subok=False)


def answers(forest, *Xs, qs=None):
    """Everything the forest answers on the given inputs: {(query, i): array or error}."""
    out = {}
    for i, X in enumerate(Xs):
        for q in qs or queries(forest):
            try:
                out[(q, i)] = ask(forest, q, X)
            except Exception as e:  # part of the observable behaviour
                from .core import InjectedFault, SimAbort
                if isinstance(e, InjectedFault):
                    raise
                out[(q, i)] = "error " + type(e).__name__
    return out


ATTRS = ("classes_", "n_classes_", "n_samples_in_", "n_features_in_")


def attributes(forest):
    out = {}
    for a in ATTRS:
        if not hasattr(type(forest), a):
            continue
        try:
            v = getattr(forest, a)
            out[a] = plain(v) if isinstance(v, np.ndarray) else v
        except Exception as e:
            out[a] = "error " + type(e).__name__
    try:
        for k, v in sorted(forest.get_params().items()):
            out["param " + k] = plain(v) if isinstance(v, np.ndarray) else v
    except Exception as e:
        out["params"] = "error " + type(e).__name__
    return out


NODE_SKIP = ("is_left",)


def nodes(forest):
    """Node tables of all trees, as {(tree, column): array}."""
    out = {}
    trees = getattr(forest, "trees", None)
    if trees is None:
        return out
    out["ntrees"] = len(trees)
    for i in range(len(trees)):
        try:
            df = _get_nodes(forest, i)
        except Exception as e:
            out[(i, "nodes")] = "error " + type(e).__name__
            continue
        for c in df.columns:
            if c in NODE_SKIP:
                continue
            v = df[c].values
            if v.dtype == object:
                v = np.array([repr(np.asarray(x).tolist()) for x in v])
            out[(i, c)] = v
    return out


MODE_B = False


def _get_nodes(forest, i):
    if not MODE_B:
        return forest.get_nodes(i)
    st = np._get_promotion_state()
    np._set_promotion_state("legacy")
    try:
        return forest.get_nodes(i)
    finally:
        np._set_promotion_state(st)


def state(forest, *Xs, qs=None):
    out = {"a": attributes(forest), "n": nodes(forest), "q": answers(forest, *Xs, qs=qs)}
    return out


def same(a, b, tol=0.0):
    if isinstance(a, str) or isinstance(b, str):
        return type(a) is type(b) and a == b
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype.kind in "fc" and b.dtype.kind in "fc":
            if tol == 0.0:
                return bool(np.array_equal(a, b, equal_nan=True))
            na, nb = np.isnan(a), np.isnan(b)
            if not np.array_equal(na, nb):
                return False
            with np.errstate(invalid="ignore"):
                ok = (a == b) | (np.abs(a - b) <= tol * (1 + np.abs(b)))
            return bool(np.all(ok | na))
        if a.dtype.kind == "O" or b.dtype.kind == "O":
            return all(x is y or x == y or (x != x and y != y) for x, y in zip(a.ravel().tolist(), b.ravel().tolist()))
        return bool(np.array_equal(a, b))
    if a is b:
        return True
    try:
        return bool(a == b) or (a != a and b != b)
    except Exception:
        return repr(a) == repr(b)


def diff(a, b, tol=0.0, path=""):
    """First difference between two observation dicts, or None."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k not in b:
                return "%s/%s missing" % (path, _k(k))
            r = diff(a[k], b[k], tol, path + "/" + _k(k))
            if r:
                return r
        for k in b:
            if k not in a:
                return "%s/%s unexpected" % (path, _k(k))
        return None
    if same(a, b, tol):
        return None
    return "%s: expected %s, got %s" % (path, short(a), short(b))


def _k(k):
    return ".".join(str(x) for x in k) if isinstance(k, tuple) else str(k)


def short(v):
    s = repr(v if not isinstance(v, np.ndarray) else v.ravel()[:6].tolist())
    return s if len(s) < 160 else s[:157] + "..."


def diff_answers_loose(a, b, tol):
    """Predicted labels may flip where probabilities tie within tol; everything else compared."""
    for k in a:
        if k not in b:
            return "%s missing" % _k(k)
        if k[0] == "predict" and ("predict_proba", k[1]) in a:
            pa = a[("predict_proba", k[1])]
            if isinstance(pa, np.ndarray) and isinstance(a[k], np.ndarray) and isinstance(b[k], np.ndarray):
                s = np.sort(pa, axis=1)
                clear = np.ones(len(pa), bool) if s.shape[1] < 2 else (s[:, -1] - s[:, -2]) > 4 * tol
                if a[k].shape != b[k].shape or not same(a[k][clear], b[k][clear]):
                    return "%s: expected %s, got %s" % (_k(k), short(a[k]), short(b[k]))
                continue
        r = diff(a[k], b[k], tol, _k(k))
        if r:
            return r
    return None


# ------------------------------------------------------------------ bytes of caller data
def fingerprint(obj):
    """Bit-exact description of a caller-owned object."""
    import pandas as pd
    if obj is None:
        return "None"
    if isinstance(obj, np.ndarray):
        if obj.dtype == object:
            return ("nd", obj.shape, obj.strides, "O", repr([(type(v).__name__, v) for v in obj.ravel().tolist()]), obj.flags.writeable)
        return ("nd", obj.shape, obj.strides, str(obj.dtype), obj.tobytes(), obj.flags.writeable)
    if isinstance(obj, pd.Series):
        if obj.dtype.name == "category":
            return ("cat", tuple(map(repr, obj.cat.categories)), fingerprint(obj.cat.codes.values), repr(obj.index.tolist()), str(obj.name), obj.cat.ordered)
        return ("ser", fingerprint(np.asarray(obj.values)), repr(obj.index.tolist()), str(obj.name), str(obj.dtype))
    if isinstance(obj, pd.DataFrame):
        return ("df", tuple(map(str, obj.columns)), repr(obj.index.tolist()), tuple(fingerprint(obj.iloc[:, j]) for j in range(obj.shape[1])))
    if isinstance(obj, (list, tuple)):
        return (type(obj).__name__, repr(obj))
    return repr(obj)


def dumps(forest):
    return pickle.dumps(forest)
