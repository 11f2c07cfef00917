"""Histories: sequences of operations that bring a forest into some state."""
from .common import *


def gen_ops(rng, nspecs, isclf, n, kinds=None, agg=True):
    """Operations on a fitted forest (JSON)."""
    out = []
    kinds = kinds or ("step", "dirichlet", "refit", "lighten", "roundtrip", "ask", "bad", "njobs")
    for _ in range(n):
        k = rng.choice(kinds)
        if k == "step":
            last = [o[1] for o in out if o[0] == "step"]
            near = last and rng.random() < 0.35
            out.append(["step", last[-1] * rng.choice((1 + 4e-4, 1 - 1e-3, 1.004, 1.02)) if near else rng.choice((0.05, 0.3, 1.0, 1.7, 4.0))])
        elif k == "dirichlet":
            if isclf:
                last = [o[1] for o in out if o[0] == "dirichlet"]
                near = last and rng.random() < 0.35
                out.append(["dirichlet", last[-1] * rng.choice((1 + 4e-4, 1 - 1e-3, 1.004, 1.02)) if near else rng.choice((1e-3, 0.2, 0.5, 1.1, 3.0))])
        elif k == "refit":
            out.append(["refit", rng.randrange(nspecs)])
        elif k == "roundtrip":
            out.append(["roundtrip", rng.choice(COPIES)])
        elif k == "ask":
            out.append(["ask", rng.randrange(4)])
        elif k == "njobs":
            out.append(["njobs", rng.choice((1, 2, 3))])
        else:
            out.append([k])
    return out


COPIES = ("pickle2", "pickle4", "pickle5", "joblib", "joblibz", "deepcopy")


def make_copy(f, how, file=None):
    import io
    import joblib
    if how.startswith("pickle"):
        if file is not None:
            return pickle.dump(f, file, protocol=int(how[6:]))
        return pickle.loads(pickle.dumps(f, protocol=int(how[6:])))
    if how.startswith("joblib"):
        b = file if file is not None else io.BytesIO()
        joblib.dump(f, b, compress=3 if how == "joblibz" else 0)
        if file is not None:
            return None
        b.seek(0)
        return joblib.load(b)
    return copy.deepcopy(f)


def apply_op(f, op, specs, dats, lightened=False):
    """Applies one operation; returns the forest to go on with."""
    k = op[0]
    if k == "step":
        f.step = op[1]
    elif k == "dirichlet":
        if hasattr(f, "dirichlet"):
            try:
                f.dirichlet = op[1]
            except ValueError:
                pass  # refused on a lightened forest
    elif k == "refit":
        W.fit(f, dats[op[1]])
    elif k == "lighten":
        f.lighten()
    elif k == "roundtrip":
        return make_copy(f, op[1])
    elif k == "ask":
        qs = W.queries(f)
        try:
            getattr(f, qs[op[1] % len(qs)])(dats[0].Xt)
        except Exception as e:
            if isinstance(e, core.InjectedFault):
                raise
    elif k == "bad":
        try:
            f.predict(np.zeros((2, 17)))
        except Exception as e:
            if isinstance(e, core.InjectedFault):
                raise
    elif k == "njobs":
        f.n_jobs = op[1]
    return f


def apply_ops(f, ops, specs, dats):
    for op in ops:
        f = apply_op(f, op, specs, dats)
    return f


def related(rng, spec, **kw):
    """Another data set for the same estimator (classification stays classification)."""
    isreg = spec["data"]["task"] == "reg"
    task = "reg" if isreg else rng.choice(("bin", "multi", "multi"))
    d = W.gen_data(rng, task=task, **kw)
    return {"data": d, "params": spec["params"]}
