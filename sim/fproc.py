"""Simulated processes that load data sets: forked children whose every file and network operation
waits for the controller, which decides who goes on and what happens to the operation."""
import json
import os
import re
import select
import shutil
import signal
import tempfile
import time
import traceback
import zlib

from . import core, env, fsim

ERRNOS = {"ENOSPC": 28, "EIO": 5, "EACCES": 13, "EMFILE": 24, "EROFS": 30, "EDQUOT": 122, "ENOMEM": 12, "EBUSY": 16, "ESTALE": 116}


class Names:
    """Deterministic candidate names for the tempfile module, different in each process."""

    def __init__(self, tag):
        self.tag, self.n = tag, 0

    def __iter__(self):
        return self

    def __next__(self):
        self.n += 1
        return "%s%07x" % (self.tag, (self.n * 2654435761 + self.tag.__hash__() * 0) & 0xFFFFFFF)


def site_of(op, rel):
    if op.startswith("net"):
        return op + "|" + rel.rsplit("/", 1)[-1]
    parts = [re.sub(r"^tmp[0-9a-z_]{8}$", "tmp*", p) for p in rel.split("/")]
    return op + "|" + re.sub(r"\d{3,}", "#", "/".join(parts))


class Proc:
    def __init__(self, id, spec):
        self.id, self.spec, self.prio = id, spec, 0.0
        self.results = []      # per call: ("ok", digest, disagreement) or ("exc", text)
        self.hit = [None] * len(spec["calls"])  # the fault that hit call i
        self.state = "run"
        self.at = None
        self.sites = {}
        self.yielding = False
        self.buf = b""
        self.requests = []
        self.lines = {}
        self.crashed = False


def child_main(proc, rfd, wfd, home, tag):
    """Runs in the forked child."""
    spec = proc.spec
    out = os.fdopen(wfd, "w", buffering=1)

    def send(*msg):
        out.write(json.dumps(msg) + "\n")
        out.flush()

    inp = os.fdopen(rfd, "r")

    def handler(op, rel):
        send("op", op, rel)
        r = inp.readline()
        if not r:
            os._exit(7)
        return json.loads(r)

    fsim.ROOT = os.path.dirname(home)
    os.environ["WILDWOOD_DATA"] = home
    tempfile._name_sequence = Names(tag)
    fsim.ONLINE = spec.get("online", True)
    time.sleep = lambda d: handler("sleep", str(d)) and None
    env.reset_run()
    for i, c in enumerate(spec["calls"]):
        fsim.REQUESTS = 0
        prof = {} if spec.get("profile_lines") else None
        line = spec.get("line")
        fault = line if line is not None and line.get("call") == i else None
        fsim.HANDLER = handler
        send("call", i)
        try:
            v = call_once(c, fault, prof)
            fsim.HANDLER = None
            cv = fsim.canon(v)
            res = ["ok", fsim.digest_of(cv), fsim.agrees(c["loader"], c["raw"], cv)]
            del v
        except BaseException as e:
            fsim.HANDLER = None
            res = ["exc", "%s: %s (%s)" % (type(e).__name__, str(e)[:160], env.tb_tail(e))]
            fsim.HANDLER = handler
            e.__traceback__ = None
            del e
            fsim.HANDLER = None
        fired = bool(fault is not None and env.LASTSIM is not None and env.LASTSIM.fault_fired)
        send("result", i, res, fsim.REQUESTS, prof, fired)
    send("end")
    os._exit(0)


def call_once(c, fault=None, prof=None):
    f = fsim.loader(c["loader"])

    def go():
        with env.armed():
            return f(download_if_missing=c["download"], raw=c["raw"])
    if fault is None and prof is None:
        return f(download_if_missing=c["download"], raw=c["raw"])
    return env.simulate(go, None, fault=fault, profile=prof, arm=lambda rec, cat, site: cat in ("py", "op"))


class Controller:
    """Runs the processes of one phase on one data directory."""

    def __init__(self, specs, home, policy=None, faults=(), record=True, step_cap=30000):
        self.procs = [Proc(i, s) for i, s in enumerate(specs)]
        self.home = home
        self.serial = policy is None
        self.record = record and not self.serial
        if self.serial:
            self.policy = core.Policy(0, {"kind": "serial"})
        elif env.REPLAY is not None and self.record:
            self.policy = core.ReplayPolicy(env.REPLAY.pop(0) if env.REPLAY else [])
        else:
            self.policy = core.Policy(policy["seed"], policy)
        self.faults = [dict(f) for f in faults]
        self.step, self.nswitch, self.crc, self.shape = 0, 0, 0, 0
        self.step_cap = step_cap
        self.decisions, self.counts, self.log = [], {}, []
        self.vtime = 0.0
        self.stuck = None

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def note(self, t):
        self.crc = zlib.crc32(t.encode(), self.crc)
        if len(self.log) < 3000:
            self.log.append("%d %s" % (self.step, t))

    def start(self, p):
        cr, pw = os.pipe()
        pr, cw = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                signal.alarm(120)
                os.close(pr)
                os.close(pw)
                child_main(p, cr, cw, self.home, "abcdefgh"[p.id % 8])
            except BaseException:
                try:
                    os.write(cw, (json.dumps(["broken", traceback.format_exc()[-1500:]]) + "\n").encode())
                finally:
                    os._exit(8)
        os.close(cr)
        os.close(cw)
        p.pid, p.r, p.w = pid, pr, pw
        self.wait(p)

    def wait(self, p):
        """Until p stands before its next operation, or has ended."""
        while True:
            while b"\n" in p.buf:
                line, p.buf = p.buf.split(b"\n", 1)
                m = json.loads(line)
                if m[0] == "op":
                    p.at = (m[1], m[2])
                    return
                if m[0] == "call":
                    p.call = m[1]
                elif m[0] == "result":
                    p.results.append(m[2])
                    p.requests.append(m[3])
                    if m[5]:
                        p.hit[m[1]] = "line fault"
                        self.count("fault_" + p.spec["line"]["exc"])
                    for k, v in (m[4] or {}).items():
                        p.lines[(m[1], k)] = v
                    self.note("p%d call %d: %s" % (p.id, m[1], m[2][0]))
                elif m[0] == "broken":
                    raise core.HarnessError("simulated process: " + m[1])
            ready, _, _ = select.select([p.r], [], [], 60)
            if not ready:
                raise core.HarnessError("wall clock limit: process %d silent at %s" % (p.id, p.at))
            d = os.read(p.r, 1 << 16)
            if not d:
                _, st = os.waitpid(p.pid, 0)
                os.close(p.r)
                os.close(p.w)
                code = os.waitstatus_to_exitcode(st)
                p.state = "crashed" if code == 99 else "done"
                if code not in (0, 99):
                    raise core.HarnessError("simulated process ended with %d" % code)
                p.at = None
                return
            p.buf += d

    def directive(self, p, op, site):
        n = p.sites[site] = p.sites.get(site, 0) + 1
        for f in self.faults:
            if f["proc"] == p.id and f["site"] == site and n == f["occ"]:
                d = f["dir"]
                p.hit[p.call] = "%s at %s #%d" % (" ".join(map(str, d)), site, n)
                kind = {"crash": "crash", "crash_after": "crash", "crash_mid": "crash", "net": "net_" + str(d[1] if len(d) > 1 else "")}.get(d[0])
                self.count(kind or "io_" + "_".join(str(x) for x in d[:2] if not isinstance(x, float)))
                self.note("fault %s p%d %s" % (d[0], p.id, site))
                return d
        return None

    def pick(self, cur):
        c = [p for p in self.procs if p.state == "run"]
        if not c:
            return None
        fresh = [p for p in c if not p.yielding]
        if not fresh:
            for p in c:
                p.yielding = False
            fresh = c
        if cur is not None and cur in fresh:
            if not self.policy.want(self, cur, "io", site_of(*cur.at)):
                return cur
            if self.policy.kind not in ("pct", "replay"):
                fresh = [p for p in fresh if p is not cur] or fresh
        if len(fresh) == 1:
            return fresh[0]
        nxt = self.policy.choose(self, cur, fresh)
        self.decisions.append((self.step, nxt.id))
        s = "%s>%d@%s;" % (cur.id if cur else "-", nxt.id, site_of(*nxt.at))
        self.shape = zlib.crc32(s.encode(), self.shape)
        self.note(s)
        return nxt

    def run(self):
        try:
            for p in self.procs:
                self.policy.new_thread(p)
                self.start(p)
            cur = None
            while True:
                self.step += 1
                if self.step > self.step_cap:
                    self.stuck = "no completion within %d operations: %s" % (self.step_cap, [(p.id, p.at) for p in self.procs if p.state == "run"])
                    break
                nxt = self.pick(cur)
                if nxt is None:
                    break
                if cur is not None and nxt is not cur:
                    self.nswitch += 1
                    self.count("preempt_io")
                cur = nxt
                op, rel = cur.at
                if op in ("sleep", "yield"):
                    cur.yielding = True
                    self.vtime += float(rel) if op == "sleep" else 0.0
                    d = None
                else:
                    for p in self.procs:
                        if p is not cur:
                            p.yielding = False
                    d = self.directive(cur, op, site_of(op, rel))
                self.note("p%d %s" % (cur.id, site_of(op, rel)))
                self.vtime += 0.001
                os.write(cur.w, (json.dumps(d) + "\n").encode())
                self.wait(cur)
                if cur.state != "run":
                    self.note("p%d %s" % (cur.id, cur.state))
        finally:
            for p in self.procs:
                if p.state == "run" and getattr(p, "pid", None):
                    try:
                        os.kill(p.pid, signal.SIGKILL)
                        os.waitpid(p.pid, 0)
                    except OSError:
                        pass
            st = env.STATS
            if st is not None:
                st["sims"] += 1
                st["steps"] += self.step
                st["switches"] += self.nswitch
                st["vtime"] += self.vtime
                st["crc"] = (st["crc"] * 1000003 ^ self.crc) & 0xFFFFFFFF
                for k, v in self.counts.items():
                    st["counts"][k] = st["counts"].get(k, 0) + v
                if not self.serial:
                    st["shapes"].append(self.shape)
            if self.record and env.RECORD is not None:
                env.RECORD.append(list(self.decisions))
        return self


class Dir:
    """A scratch data directory."""

    def __init__(self):
        self.base = os.path.realpath(tempfile.mkdtemp(prefix="wwdata-"))
        self.home = os.path.join(self.base, "data")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.base, ignore_errors=True)

    def clone(self):
        d = Dir()
        if os.path.exists(self.home):
            shutil.copytree(self.home, d.home, symlinks=True)
        return d


def files(home):
    out = []
    for r, ds, fs in os.walk(home):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(r, f)
            out.append("%s:%d" % (os.path.relpath(p, home), os.path.getsize(p)))
    return out


# ------------------------------------------------------------------ references
REF = {}


def prepare(mode):
    """Clean loads of every data set: the published data as this tree presents them."""
    stats, env.STATS = env.STATS, None
    try:
        for n in fsim.NAMES:
            if n not in fsim.LOADERS:
                continue
            for raw in (True, False):
                with Dir() as d, env.muted():
                    c = Controller([{"calls": [{"loader": n, "raw": raw, "download": True}]}], d.home).run()
                REF[n, raw] = c.procs[0].results[0] if c.procs[0].results else ["exc", "crashed"]
    finally:
        env.STATS = stats


def reference(n, raw):
    """A clean load of the data set in its present size, in a directory of its own."""
    k = (n, raw, fsim.SCALE)
    if k not in REF:
        saved = env.STATS, env.RECORD
        env.STATS = None
        try:
            with Dir() as d:
                c = Controller([{"calls": [{"loader": n, "raw": raw, "download": True}]}], d.home, record=False).run()
            REF[k] = c.procs[0].results[0] if c.procs[0].results else ["exc", "crashed"]
        finally:
            env.STATS, env.RECORD = saved
    return REF[k]


def age(home, seconds):
    """The clock moves on (or back) while nobody uses the directory."""
    for r, ds, fs in os.walk(home):
        for f in ds + fs:
            p = os.path.join(r, f)
            st = os.lstat(p)
            os.utime(p, (st.st_atime - seconds, st.st_mtime - seconds), follow_symlinks=False)
    if os.path.exists(home):
        os.utime(home, (time.time() - seconds,) * 2)
    if env.STATS is not None:
        env.STATS["counts"]["clock_jump"] = env.STATS["counts"].get("clock_jump", 0) + 1


def names():
    return [n for n in fsim.NAMES if n in fsim.LOADERS]


def judge(call, res):
    """None when an ok result is the published data, else a description."""
    n, raw = call["loader"], call["raw"]
    if res[2]:
        return "load_%s(raw=%s) returned %s" % (n, raw, res[2])
    ref = reference(n, raw) if fsim.SCALE else REF.get((n, raw))
    if ref and ref[0] == "ok" and not ref[2] and res[1] != ref[1]:
        return "load_%s(raw=%s) returned something else than a clean load" % (n, raw)
    return None


# ------------------------------------------------------------------ faults
NETOPEN = ("refused", "404", "503", "timeout", "cut", "cut_nolength", "flip", "html", "dup", "older")
NETREAD = ("reset", "timeout", "incomplete", "aborted")


def gen_fault(rng, crash=0.45):
    """What may happen to one operation; the operation is chosen from those a clean run makes."""
    return {"u": rng.random(), "o": rng.random(), "crash": rng.random() < crash, "k": rng.random(), "frac": rng.choice((0.0, rng.random(), rng.random(), 0.999)),
            "when": rng.choice(("before", "before", "mid", "after")), "sect": rng.choice(("write", "write", "net", "any", "meta", "late"))}


def resolve(f, sites, proc=0):
    """f (drawn) + the sites a clean run reaches -> a concrete fault."""
    keys = sorted(sites)
    sel = {
        "write": lambda k: k.startswith(("write|", "close|", "openw|")), "net": lambda k: k.startswith("net"),
        "meta": lambda k: k.startswith(("mkdir|", "replace|", "unlink|", "rmdir|")), "any": lambda k: True,
        "late": lambda k: k.startswith(("replace|", "read|", "openr|")),
    }[f["sect"]]
    c = [k for k in keys if sel(k)] or keys
    if not c:
        return None
    site = c[min(len(c) - 1, int(f["u"] * len(c)))]
    occ = 1 + min(sites[site] - 1, int(f["o"] * sites[site]))
    op = site.split("|")[0]
    k = f["k"]
    if op.startswith("net"):
        if f["crash"]:
            d = ["crash"]
        elif k < 0.1:
            d = ["raise", "KeyboardInterrupt"]
        else:
            ks = NETOPEN if op == "net_open" else NETREAD
            d = ["net", ks[int((k - 0.1) / 0.9 * len(ks)) % len(ks)], f["frac"]]
    elif f["crash"]:
        d = [{"before": "crash", "after": "crash_after", "mid": "crash_mid" if op == "write" else "crash"}[f["when"]]]
        if d[0] == "crash_mid":
            d.append(f["frac"])
    else:
        en = {"write": ("ENOSPC", "ENOSPC", "EIO", "EDQUOT"), "close": ("EIO", "ENOSPC"), "read": ("EIO", "ESTALE"), "openw": ("ENOSPC", "EMFILE", "EROFS", "EACCES"),
              "openr": ("EMFILE", "EACCES", "EIO"), "mkdir": ("ENOSPC", "EACCES", "EROFS"), "replace": ("EIO", "EBUSY", "ENOSPC"), "stat": ("EIO", "ENOMEM"),
              "unlink": ("EBUSY", "EIO"), "rmdir": ("EBUSY", "EIO")}.get(op, ("EIO",))
        e = ERRNOS[en[int(k * 1000) % len(en)]]
        if k > 0.9:
            d = ["raise", "KeyboardInterrupt" if k > 0.94 else "MemoryError"]
        elif op in ("write", "read") and k < 0.15:
            d = ["short", max(0.05, f["frac"])]
        elif op == "write" and f["when"] == "mid":
            d = ["err_mid", e, f["frac"]]
        elif f["when"] == "after" and op in ("close", "replace"):
            d = ["err_after", e]
        else:
            d = ["err", e]
    return {"proc": proc, "site": site, "occ": occ, "dir": d}


def gen_policy(rng):
    k = rng.random()
    if k < 0.5:
        pol = {"kind": "rand", "p": rng.choice((0.02, 0.08, 0.2, 0.5))}
    elif k < 0.7:
        pol = {"kind": "hot", "p": 0.03, "hotfrac": rng.choice((0.05, 0.15, 0.3)), "hotp": rng.choice((0.5, 0.9))}
    elif k < 0.95:
        pol = {"kind": "pct", "d": rng.randint(1, 4), "n": rng.choice((60, 150, 300))}
    else:
        pol = {"kind": "rand", "p": 0.1, "victim": rng.randrange(7)}
    pol["seed"] = rng.randrange(1 << 40)
    return pol
