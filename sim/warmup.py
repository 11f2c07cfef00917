"""Lazy initialisation (JIT compilation, lazy imports) happens here, before the runs are forked."""
import pickle
import random
import sys

from . import core, env, workload as W


def _one(spec, full=True):
    try:
        dat = W.make_data(spec["data"])
        f = W.new_fit(spec, dat)
        W.state(f, dat.Xt)
        if full:
            g = pickle.loads(pickle.dumps(f))
            W.state(g, dat.Xt)
            g.step = 0.7
            if "criterion" in spec["params"]:
                g.dirichlet = 0.3
            W.answers(g, dat.Xt)
            g.lighten()
            pickle.loads(pickle.dumps(g))
    except Exception:
        pass


def _simulated(specs):
    def go():
        for s in specs:
            s = dict(s, params=dict(s["params"], n_jobs=3, verbose=True))
            _one(s)
    try:
        env.simulate(go, {"kind": "rand", "p": 0.05, "seed": 1})
    except Exception:
        pass


def specs(n):
    out = []
    for k in range(n):
        rng = random.Random(core.seed_of("warm", k))
        out.append(W.gen_spec(rng, task=W.TASKS[k % 4]))
    return out


def run_a():
    env.reset_run()
    with env.muted():
        s = specs(24)
        for x in s:
            env.serial(lambda: _one(x))
        _simulated(s[:4])


def run_b():
    """Warms the libraries up, then re-imports wildwood so that its own modules start afresh."""
    env.reset_run()
    with env.muted():
        s = specs(8)
        for x in s:
            env.serial(lambda: _one(x))
        _simulated(s[:2])
        env.reimport()
        s = specs(1)
