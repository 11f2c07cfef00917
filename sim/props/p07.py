"""P07: retuning step and dirichlet gives the model a fresh fit would have given."""
from .common import *
from . import hist

STEPS = (0.02, 0.1, 0.5, 1.0, 1.5, 3.0, 5.0)
DIRS = (1e-3, 0.05, 0.5, 1.0, 2.0, 5.0)
BADSTEP = (0.0, -1.0, 1, "a", None)
BADDIR = (-0.5, 1, "a", None)


def gen(rng, mode, tier):
    spec = W.gen_spec(rng, agg=None if rng.random() < 0.4 else True)
    spec["params"]["n_estimators"] = rng.choice((1, 2, 3, 4))
    isclf = spec["data"]["task"] != "reg"
    ops = []
    for _ in range(rng.randint(1, 6)):
        r = rng.random()
        if r < 0.55:
            if isclf and rng.random() < 0.6:
                ops.append(["dirichlet", rng.choice(DIRS)])
            else:
                ops.append(["step", rng.choice(STEPS)])
        elif r < 0.65:
            ops.append(["bad", rng.choice(("step", "dirichlet") if isclf else ("step",)), rng.randrange(4)])
        elif r < 0.8:
            ops.append(["hit", "dirichlet" if isclf and rng.random() < 0.6 else "step",
                        None, gen_fault(rng, "main"), rng.random() < 0.5])
            ops[-1][2] = rng.choice(DIRS if ops[-1][1] == "dirichlet" else STEPS)
        elif r < 0.88:
            ops.append(["ask", rng.randrange(4)])
        elif r < 0.93:
            # many small changes that add up
            ops.append(["creep", "dirichlet" if isclf and rng.random() < 0.5 else "step", rng.choice((1.0009, 1.01, 0.97, 1 + 1e-5)), rng.choice((3, 12, 40))])
        elif r < 0.97:
            ops.append(["roundtrip", rng.choice(hist.COPIES)])
        else:
            ops.append(["refit", 0])
    return {"spec": spec, "ops": ops, "glob": rng.randrange(1 << 30), "n_jobs": rng.choice((1, 1, 2))}


def values(f):
    return {k: getattr(f, k) for k in ("step", "dirichlet") if hasattr(f, k)}


def run(sc):
    spec = sc["spec"]
    dat = W.make_data(spec["data"])
    Xs = (dat.Xt, dat.X)

    def start():
        f = W.new_fit(spec, dat)
        return f
    f = clean(start)
    cur = {"step": spec["params"]["step"]}
    if "dirichlet" in spec["params"]:
        cur["dirichlet"] = spec["params"]["dirichlet"]
    nhit = 0
    done = []
    for i, op in enumerate(sc["ops"]):
        k = op[0]
        if k in ("step", "dirichlet"):
            judged(lambda: setattr(f, k, op[1]), "assignment-failed")
            cur[k] = op[1]
        elif k == "creep":
            _, name, factor, times = op
            for _ in range(times):
                cur[name] = cur[name] * factor
                judged(lambda: setattr(f, name, cur[name]), "assignment-failed")
        elif k == "bad":
            name = op[1]
            bads = BADSTEP if name == "step" else BADDIR
            val = bads[op[2] % len(bads)]
            s0 = judged(lambda: W.state(f, *Xs), "query-failed")
            try:
                env.serial(lambda: setattr(f, name, val))
                accepted = True
            except core.HarnessError:
                raise
            except Exception:
                accepted = False
            if accepted:
                raise Skip("value %r accepted for %s" % (val, name))
            env.probe("invalid value refused")
            s1 = judged(lambda: W.state(f, *Xs), "query-failed")
            must(W.diff(s0["a"], s1["a"]) or W.diff(s0["n"], s1["n"]) or W.diff(s0["q"], s1["q"]), "refused-assignment-changed-model", "%s=%r" % (name, val))
        elif k == "hit":
            _, name, val, fault, other = op
            g = clean(lambda: copy.deepcopy(f))

            def pro():
                with env.armed():
                    setattr(g, name, val)

            def go():
                with env.armed():
                    setattr(f, name, val)
            try:
                rf = resolve_fault("f%d" % i, fault, pro, None)
            except Skip:
                continue
            kind, v = faulty(go, rf, fault, None)
            what = "%s at %s #%d during %s=%r" % (rf["exc"], rf["site"], rf["occ"], name, val)
            if kind == "raised":
                drop_tb(v)
                env.probe("assignment interrupted")
                if other:
                    # queries between the interrupted and the repeated assignment
                    judged(lambda: W.answers(f, dat.Xt), "query-failed")
            judged(lambda: setattr(f, name, val), "assignment-failed")
            cur[name] = val
            nhit += 1
        else:
            f = judged(lambda: hist.apply_op(f, op, [spec], [dat]), "operation-failed")
        done.append(op[0])
    got = judged(lambda: (W.answers(f, *Xs), values(f), W.nodes(f)), "query-failed")
    must(W.diff(cur, got[1]), "value-not-kept")
    fresh = clean(lambda: (lambda g: (W.answers(g, *Xs), W.nodes(g)))(W.new_fit(spec, dat, **cur)))
    must(W.diff_answers_loose(fresh[0], got[0], 2e-3), "differs-from-fresh-fit", "%s after %s" % (cur, done))

    def direct():
        g = W.new_fit(spec, dat)
        for k, v in sorted(cur.items()):
            setattr(g, k, v)
        return W.answers(g, *Xs)
    d = clean(direct)
    must(W.diff_answers_loose(d, got[0], 1e-5), "differs-from-direct-assignment", "%s after %s" % (cur, done))
    must(W.diff({k: v for k, v in fresh[1].items() if isinstance(k, tuple) and k[1] in ("feature", "bin_threshold", "threshold", "left_child", "right_child", "n_samples_train", "n_samples_valid", "depth", "parent", "is_leaf")},
                {k: v for k, v in got[2].items() if isinstance(k, tuple) and k[1] in ("feature", "bin_threshold", "threshold", "left_child", "right_child", "n_samples_train", "n_samples_valid", "depth", "parent", "is_leaf")}),
         "structure-changed", "after %s" % done)


def shrink(sc):
    yield from shrink_list(sc, "ops")
    for i, o in enumerate(sc["ops"]):
        if o[0] == "creep" and o[3] > 3:
            yield dict(sc, ops=sc["ops"][:i] + [[*o[:3], o[3] // 2]] + sc["ops"][i + 1:])
    yield from shrink_specs(sc, "spec")
