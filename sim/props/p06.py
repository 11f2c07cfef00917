"""P06: serialisation restores an equivalent model from any state, and never harms it."""
import io
import os
import struct

from .common import *
from . import hist
from .. import twin

TWIN = ("A", "B")


def gen(rng, mode, tier):
    spec = W.gen_spec(rng, big=mode == "A" and rng.random() < 0.12)
    spec["params"]["n_estimators"] = rng.choice((1, 2, 3, 4))
    isclf = spec["data"]["task"] != "reg"
    specs = [spec, hist.related(rng, spec)]
    prior = rng.choice(("unfitted", "fitted", "fitted", "fitted", "fitted"))
    return {
        "spec": spec, "other": specs[1], "prior": prior,
        "ops": hist.gen_ops(rng, 2, isclf, rng.choice((0, 0, 1, 2, 3))) if prior != "unfitted" else [],
        "how": rng.choice(hist.COPIES), "n_jobs": rng.choice((1, 1, 2)),
        "later": hist.gen_ops(rng, 2, isclf, rng.randint(1, 3), ("step", "dirichlet", "refit", "ask", "lighten", "step", "dirichlet")),
        "harm": rng.choice((None, "disk", "disk", "fault", "fault", "torn")), "fault": gen_fault(rng, "main"),
        "cut": rng.random(), "remote": rng.random() < 0.5, "twin": rng.random() < 0.6, "glob": rng.randrange(1 << 30),
    }


class Disk(io.RawIOBase):
    """A file on a disk that is full after some bytes."""

    def __init__(self, room):
        self.room = room
        self.n = 0
        self.data = bytearray()

    def writable(self):
        return True

    def write(self, b):
        b = bytes(b)
        self.n += len(b)
        if self.room is not None and self.n > self.room:
            import errno
            core.SIM.count("io_ENOSPC") if core.SIM else None
            raise core.InjOSError(errno.ENOSPC, "No space left on device")
        self.data += b
        return len(b)


def remote_loader():
    """Another process (forked before anything happened here) that loads a dump and answers."""
    a_r, a_w = os.pipe()
    b_r, b_w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(a_w)
            os.close(b_r)
            with os.fdopen(a_r, "rb") as f:
                blob, how, Xs = pickle.load(f)
            env.reset_run()

            def go():
                import joblib
                g = joblib.load(io.BytesIO(blob)) if how.startswith("joblib") else pickle.loads(blob)
                return W.state(g, *Xs)
            try:
                r = env.serial(go)
            except BaseException as e:
                r = "error %s: %s" % (type(e).__name__, str(e)[:200])
            with os.fdopen(b_w, "wb") as f:
                pickle.dump(r, f)
        finally:
            os._exit(0)
    os.close(a_r)
    os.close(b_w)

    def load(blob, how, Xs):
        with os.fdopen(a_w, "wb") as f:
            pickle.dump((blob, how, Xs), f)
        with os.fdopen(b_r, "rb") as f:
            r = pickle.load(f)
        os.waitpid(pid, 0)
        return r
    return load


def elsewhere(blob, how, Xs):
    """Loads a dump in this process."""
    def go():
        import joblib
        g = joblib.load(io.BytesIO(blob)) if how.startswith("joblib") else pickle.loads(blob)
        return W.state(g, *Xs)
    return env.serial(go)


def other_process(blob, how, Xs):
    kind, r = twin.ask("sim.props.p06:elsewhere", blob, how, Xs)
    return "error " + r if kind == "raised" else r


def run(sc):
    remote = None
    if sc["remote"]:
        remote = other_process if sc["twin"] and env.TWIN else remote_loader()
    specs = [sc["spec"], sc["other"]]
    dats = [W.make_data(s["data"]) for s in specs]
    Xs = (dats[0].Xt, dats[0].X, dats[1].Xt)

    def prep():
        f = W.build(sc["spec"]["params"])
        if sc["prior"] != "unfitted":
            W.fit(f, dats[0])
            f = hist.apply_ops(f, sc["ops"], specs, dats)
        return f
    f = clean(prep)
    S = lambda g: W.state(g, *Xs)
    before = clean(lambda: S(f))
    light = any(o[0] == "lighten" for o in sc["ops"])
    how = sc["how"]
    # 1. a dump that goes wrong must not harm the live forest
    if sc["harm"]:
        def dump(file):
            with env.armed():
                if how == "deepcopy":
                    return copy.deepcopy(f)
                return hist.make_copy(f, how, file)
        blob = Disk(None)
        try:
            env.simulate(lambda: dump(blob))
        except Exception as e:
            raise Violation("dump-failed", "%s: %s: %s" % (how, type(e).__name__, str(e)[:200]))
        size = blob.n
        kind = "ok"
        if sc["harm"] == "fault":
            rf = resolve_fault("f", sc["fault"], lambda: dump(Disk(None)), None)
            kind, v = faulty(lambda: dump(Disk(None)), rf, sc["fault"], None)
            what = "%s at %s #%d" % (rf["exc"], rf["site"], rf["occ"])
        elif sc["harm"] == "disk" and how != "deepcopy":
            room = int(sc["cut"] * size)
            what = "disk full after %d of %d bytes" % (room, size)
            try:
                env.simulate(lambda: dump(Disk(room)))
                v = None
            except Exception as e:
                kind, v = "raised", e

        elif how != "deepcopy":
            what = "torn file"
            cut = bytes(blob.data[:int(sc["cut"] * size)])
            env.STATS["counts"]["io_torn"] = env.STATS["counts"].get("io_torn", 0) + 1
            try:
                import joblib
                env.serial(lambda: joblib.load(io.BytesIO(cut)) if how.startswith("joblib") else pickle.loads(cut))
            except Exception as e:
                v = e
        else:
            what = "deepcopy"
        if kind == "raised":
            drop_tb(v)
            env.probe("dump failed or interrupted")
        got = judged(lambda: S(f), "query-failed")
        must(sdiff(before, got), "live-forest-changed", what)
    # 2. the copy is equivalent
    g = judged(lambda: hist.make_copy(f, how), "copy-failed")
    must(sdiff(before, judged(lambda: S(f), "query-failed")), "live-forest-changed", how)
    must(sdiff(before, judged(lambda: S(g), "copy-unusable")), "copy-differs", how)
    if remote is not None and how != "deepcopy":
        b = Disk(None)
        judged(lambda: hist.make_copy(f, how, b), "copy-failed")
        r = remote(bytes(b.data), how, Xs)
        if isinstance(r, str):
            raise Violation("remote-load-failed", how + ": " + r)
        must(sdiff(before, r), "remote-copy-differs", how)
        env.probe("loaded in another process")
    # 3. copy and original do not affect each other, and react alike
    later = sc["later"] if sc["prior"] != "unfitted" else [o for o in sc["later"] if o[0] in ("step", "dirichlet")] + [["refit", 0]]

    def upd(h):
        out = []
        for op in later:
            try:
                hist.apply_op(h, op, specs, dats)
                out.append("ok")
            except Exception as e:
                if isinstance(e, core.HarnessError):
                    raise
                out.append(type(e).__name__)
        return out
    r1 = judged(lambda: upd(g), "update-failed")
    s1 = judged(lambda: S(g), "query-failed")
    must(sdiff(before, judged(lambda: S(f), "query-failed")), "original-changed-by-copy", "%s then %s" % (how, later))
    r2 = judged(lambda: upd(f), "update-failed")
    s2 = judged(lambda: S(f), "query-failed")
    if r1 != r2:
        raise Violation("copy-reacts-differently", "%s: original %s, copy %s for %s" % (how, r2, r1, later))
    must(sdiff(s2, s1), "copy-reacts-differently", "%s then %s" % (how, later))
    must(sdiff(s1, judged(lambda: S(g), "query-failed")), "copy-changed-by-original", "%s then %s" % (how, later))


def sdiff(a, b):
    return W.diff(a["n"], b["n"]) or W.diff(a["q"], b["q"]) or W.diff(a["a"], b["a"])


def shrink(sc):
    yield from shrink_key(sc, "harm", [None])
    yield from shrink_key(sc, "remote", [False])
    yield from shrink_key(sc, "twin", [False])
    yield from shrink_list(sc, "ops")
    yield from shrink_list(sc, "later")
    yield from shrink_key(sc, "how", ["pickle5", "deepcopy"])
    yield from shrink_specs(sc, "other")
    for s in shrink_spec(sc["spec"]):
        yield dict(sc, spec=s, other={"data": sc["other"]["data"], "params": s["params"]})
