"""Helpers shared by the property modules."""
import contextlib
import copy
import pickle

import numpy as np

from .. import core, env, workload as W
from ..env import Skip, Violation

TOL = 1e-9
PARAM_SIMPLE = {
    "aggregation": True, "step": 1.0, "max_depth": None, "min_samples_split": 2, "min_samples_leaf": 1,
    "max_bins": 256, "max_features": "auto", "cat_min_categories": "log", "handle_unknown": "consider_missing",
    "criterion": "gini", "dirichlet": 0.5, "class_weight": None, "cat_split_strategy": "binary", "verbose": False,
}


def shrink_spec(spec):
    """Simpler variants of a data/parameter specification."""
    d, p = spec["data"], spec["params"]
    for k in (1, 2, 3):
        if k < p["n_estimators"]:
            yield {"data": d, "params": dict(p, n_estimators=k)}
    for n in (8, 12, 20):
        if n < d["n"]:
            yield {"data": dict(d, n=n), "params": p}
    for m in (1, 3):
        if m < d["ntest"]:
            yield {"data": dict(d, ntest=m), "params": p}
    for k in (1, 2):
        if k < d["d"]:
            yield {"data": dict(d, d=k), "params": p}
    if d["d"] > 3:
        yield {"data": dict(d, d=3), "params": p}
    for k, v in W.SHRINK_DATA.items():
        if d.get(k, v) != v:
            yield {"data": dict(d, **{k: v}), "params": p}
    for k, v in PARAM_SIMPLE.items():
        if k in p and p[k] != v:
            yield {"data": d, "params": dict(p, **{k: v})}


def shrink_key(sc, key, values):
    for v in values:
        if sc.get(key) != v:
            yield dict(sc, **{key: v})
        else:
            return


def shrink_list(sc, key):
    l = sc.get(key) or []
    for i in range(len(l)):
        yield dict(sc, **{key: l[:i] + l[i + 1:]})


def shrink_specs(sc, *keys):
    for key in keys:
        if sc.get(key):
            for s in shrink_spec(sc[key]):
                yield dict(sc, **{key: s})


def shrink_policy(sc, key="policy"):
    p = sc.get(key)
    if p and p.get("kernel"):
        yield dict(sc, **{key: dict(p, kernel=False)})
    if p and p.get("op"):
        yield dict(sc, **{key: dict(p, op=False)})
    if p and p.get("jump"):
        yield dict(sc, **{key: dict(p, jump=0)})


def clean(fn, what="reference"):
    """Reference execution; refused or failing clean usage is outside the property."""
    try:
        return env.serial(fn)
    except (core.HarnessError, core.SimAbort):
        raise
    except core.SimStuck as e:
        raise Skip("%s stuck: %s" % (what, e))
    except Exception as e:
        raise Skip("%s refused: %s: %s" % (what, type(e).__name__, str(e)[:150]))


def judged(fn, cls, policy=None, **kw):
    """A simulated execution in which nothing may go wrong."""
    try:
        return env.simulate(fn, policy, **kw)
    except core.SimStuck as e:
        raise Violation("stuck", str(e))
    except (core.HarnessError, Violation, Skip):
        raise
    except Exception as e:
        raise Violation(cls, "%s: %s (%s)" % (type(e).__name__, str(e)[:200], env.tb_tail(e)))


def must(d, cls, what=""):
    if d:
        raise Violation(cls, (what + ": " if what else "") + d)


def comb(f, q, X, by_tree):
    """What combining the trees one after the other gives, from one-tree answers."""
    raise NotImplementedError


def by_trees(f, X):
    """Evaluates the trees one by one and combines them; None where internals are not as expected."""
    out = {}
    try:
        trees = list(f.trees)
        bits = f._encoder.transform(X)
    except Exception:
        return out
    isclf = "Classifier" in type(f).__name__
    try:
        if isclf:
            per = np.array([W.plain(t.predict_proba(bits)) for t in trees])
            out["predict_proba_trees"] = per
            k = len(f.classes_)
            if per.shape[2] == k and not (getattr(f, "multiclass_", None) == "ovr" and k > 2):
                out["predict_proba"] = per.astype(float).sum(axis=0) / len(trees)
            elif len(trees) % k == 0:
                e = len(trees) // k
                cols = np.stack([per[c * e:(c + 1) * e, :, 1].astype(float).sum(axis=0) for c in range(k)], axis=1)
                tot = cols.sum(axis=1)
                if (tot > 1e-6).all():
                    out["predict_proba"] = cols / tot[:, None]
        else:
            per = np.array([W.plain(t.predict(bits)) for t in trees])
            out["predict_trees"] = per
            out["predict"] = per.astype(float).sum(axis=0) / len(trees)
    except Exception:
        out = {k: v for k, v in out.items() if k in ("predict_proba_trees", "predict_trees")}
    try:
        out["apply"] = np.array([W.plain(t.apply(bits)) for t in trees])
    except Exception:
        pass
    if not isclf:
        try:
            out["_weighted_depth"] = np.array([W.plain(t.weighted_depth(bits)) for t in trees])
        except Exception:
            pass
    return out


# ------------------------------------------------------------------ faults
def gen_fault(rng, where="any"):
    """Which fault, and where in the run (resolved against the sites a clean run reaches)."""
    if where == "worker":
        exc = rng.choice(("MemoryError", "RuntimeError", "OSError"))
    else:
        exc = rng.choice(("KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "RuntimeError", "OSError"))
    return {"exc": exc, "u": rng.random(), "occ_u": rng.choice((0.0, rng.random(), 0.999)), "where": where}


def arm_filter(fault):
    exc, where = fault["exc"], fault.get("where", "any")

    def ok(rec, cat, site):
        if cat not in ("py", "sleep", "spawn"):
            return False
        if exc == "KeyboardInterrupt":
            return rec.main and where != "worker" and cat != "spawn"
        if cat == "sleep":
            return False
        if cat == "spawn":
            return exc == "RuntimeError" and where == "any"
        if where == "worker":
            return not rec.main
        if where == "main":
            return rec.main
        return True
    return ok


def resolve_fault(name, fault, fn, policy, seed=0):
    """Profiles a clean run of fn (which arms itself) and picks the site; remembers the choice."""
    r = env.RESOLVED.get(name) or (env.SC or {}).get("_resolved", {}).get(name)
    if r is None:
        prof = {}
        try:
            env.simulate(fn, policy, seed=seed, arm=arm_filter(fault), profile=prof, record=False)
        except core.SimStuck:
            pass
        except (core.HarnessError, Skip):
            raise
        except Exception:
            pass
        r = env.pick_fault(prof, fault["u"], fault["occ_u"])
        if r is None:
            raise Skip("no fault site reached")
        r["exc"] = fault["exc"]
        if fault.get("many"):
            r["many"] = True
    env.RESOLVED[name] = r
    return r


def faulty(fn, fault_resolved, fault, policy, seed=0):
    """Runs fn with the fault; returns (outcome, value): 'ok', 'raised' or 'stuck'."""
    try:
        v = env.simulate(fn, policy, seed=seed, fault=fault_resolved, arm=arm_filter(fault))
        kind = "ok"
    except core.SimStuck as e:
        return "stuck", e
    except (core.HarnessError, Skip, Violation):
        raise
    except BaseException as e:
        if isinstance(e, (SystemExit, GeneratorExit)):
            raise
        v, kind = e, "raised"
    if env.LASTSIM.fault_fired:
        env.probe("fault fired in " + ("main" if env.LASTSIM.fault_fired[0] == "m" else "worker"))
    return kind, v


def drop_tb(e):
    """Forgets the frames of an exception (they keep objects alive)."""
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        e.__traceback__ = None
        e = e.__cause__ or e.__context__


def many_rows(rng, mode, spec, p=0.06):
    """Now and then the queries are on many rows."""
    if mode == "A" and rng.random() < p:
        spec["data"]["tile"] = rng.choice((1025, 2500, 5000, 20000, 70000))
        spec["params"]["n_estimators"] = min(spec["params"]["n_estimators"], 7)
