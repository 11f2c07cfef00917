"""P14: lightening a forest changes nothing it can still answer."""
from .common import *
from . import hist


def gen(rng, mode, tier):
    spec = W.gen_spec(rng, big=mode == "A" and rng.random() < 0.06)
    spec["params"]["n_estimators"] = rng.choice((1, 2, 3, 4))
    isclf = spec["data"]["task"] != "reg"
    other = hist.related(rng, spec)
    ops = []
    for _ in range(rng.randint(1, 5)):
        k = rng.choice(("lighten", "lighten", "hit", "step", "ask", "roundtrip", "refit", "dirichlet", "dirichlet", "hitstep"))
        if k == "hit":
            ops.append([k, gen_fault(rng, "main")])
        elif k == "hitstep":
            ops.append([k, rng.choice((0.2, 1.0, 2.0)), gen_fault(rng, "main")])
        elif k == "lighten":
            ops.append([k])
        else:
            ops += hist.gen_ops(rng, 2, isclf, 1, (k,))
    return {
        "spec": spec, "other": other, "ops": ops,
        "prior": hist.gen_ops(rng, 2, isclf, rng.choice((0, 0, 1, 2)), ("step", "dirichlet", "refit", "roundtrip")),
        "n_jobs": rng.choice((1, 1, 2)), "glob": rng.randrange(1 << 30), "policy": env.gen_policy(rng),
    }


def run(sc):
    specs = [sc["spec"], sc["other"]]
    dats = [W.make_data(s["data"]) for s in specs]
    Xs = (dats[0].Xt, dats[0].X, dats[1].Xt)

    def prep():
        f = W.new_fit(sc["spec"], dats[0])
        f = hist.apply_ops(f, sc["prior"], specs, dats)
        f.n_jobs = sc["n_jobs"]
        return f
    f, t = clean(lambda: (prep(), prep()))  # t is never lightened
    S = lambda h: W.state(h, *Xs)

    def same(what, cls="lightened-differs"):
        a = clean(lambda: S(t))
        b = judged(lambda: S(f), "query-failed")
        must(W.diff(a["n"], b["n"]) or W.diff(a["a"], b["a"]) or W.diff_answers_loose(a["q"], b["q"], TOL), cls, what)
    light = False
    for i, op in enumerate(sc["ops"]):
        k = op[0]
        what = "op %d %s" % (i, op[:2] if k not in ("hit",) else op[:1])
        if k == "lighten":
            judged(lambda: f.lighten(), "lighten-failed")
            light = True
        elif k == "hit":
            g = clean(lambda: copy.deepcopy(f))

            def pro():
                with env.armed():
                    g.lighten()

            def go():
                with env.armed():
                    f.lighten()
            try:
                rf = resolve_fault("f%d" % i, op[1], pro, None)
            except Skip:
                continue
            kind, v = faulty(go, rf, op[1], None)
            if kind == "raised":
                drop_tb(v)
                env.probe("lighten interrupted")
            light = True
            what += " %s at %s #%d" % (rf["exc"], rf["site"], rf["occ"])
        elif k == "hitstep":
            g = clean(lambda: copy.deepcopy(f))

            def pro():
                with env.armed():
                    g.step = op[1]

            def go():
                with env.armed():
                    f.step = op[1]
            try:
                rf = resolve_fault("f%d" % i, op[2], pro, None)
                kind, v = faulty(go, rf, op[2], None)
                if kind == "raised":
                    drop_tb(v)
            except Skip:
                pass
            clean(lambda: setattr(t, "step", op[1]))
            judged(lambda: setattr(f, "step", op[1]), "step-failed")
        elif k == "step":
            clean(lambda: setattr(t, "step", op[1]))
            judged(lambda: setattr(f, "step", op[1]), "step-failed")
        elif k == "dirichlet":
            s0 = judged(lambda: S(f), "query-failed")
            try:
                env.serial(lambda: setattr(f, "dirichlet", op[1]))
                ok = True
            except core.HarnessError:
                raise
            except Exception as e:
                ok = False
                s1 = judged(lambda: S(f), "query-failed")
                must(W.diff(s0["n"], s1["n"]) or W.diff(s0["a"], s1["a"]) or W.diff_answers_loose(s0["q"], s1["q"], TOL), "refused-operation-changed-forest", what)
                if not light:
                    raise Violation("refused-without-lighten", "%s: %s" % (what, e))
                env.probe("refused on a lightened forest")
            if ok:
                clean(lambda: setattr(t, "dirichlet", op[1]))
        elif k == "roundtrip":
            f = judged(lambda: hist.make_copy(f, op[1]), "copy-failed")
            t = clean(lambda: hist.make_copy(t, op[1]))
        elif k == "refit":
            clean(lambda: W.fit(t, dats[op[1]]))
            judged(lambda: W.fit(f, dats[op[1]]), "refit-failed", sc["policy"], seed=sc["glob"])
            light = False
        elif k == "ask":
            judged(lambda: hist.apply_op(f, op, specs, dats), "query-failed", sc["policy"], seed=sc["glob"])
        same(what)
    if light:
        env.probe("lightened at the end")


def shrink(sc):
    yield from shrink_list(sc, "ops")
    yield from shrink_list(sc, "prior")
    yield from shrink_specs(sc, "other")
    for s in shrink_spec(sc["spec"]):
        yield dict(sc, spec=s, other={"data": sc["other"]["data"], "params": s["params"]})
    yield from shrink_key(sc, "n_jobs", [1])
