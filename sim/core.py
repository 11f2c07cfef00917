"""Deterministic simulator: seeded scheduler over parked real threads, virtual time, fault injection.

Exactly one simulated thread runs at any moment; who runs next is decided only by the
Sim's policy (seeded PRNG) or by a recorded decision list (replay).  Every primitive that
lets threads interact (thread start/join, locks, conditions, events, semaphores, queues,
sleeps) goes through the simulator while a simulated thread executes; code outside the
simulation (reference runs, oracles) uses the real primitives.
"""
import _thread
import gc
import hashlib
import queue
import random
import sys
import threading
import time
import zlib

_real_alloc = _thread.allocate_lock
_real_start = _thread.start_new_thread
_real_sleep = time.sleep
_real_time = time.time
_real_monotonic = time.monotonic
_real_perf = time.perf_counter
_RealCRLock = threading._CRLock
_real_RLock = threading.RLock
_RealSimpleQueue = queue.SimpleQueue
_real_join = threading.Thread.join
_real_is_alive = threading.Thread.is_alive

tls = threading.local()
SIM = None  # the active Sim (one per process at a time)

RUN, BLOCK, DONE = 0, 1, 2


class SimAbort(BaseException):
    """Raised inside parked threads when a simulation is abandoned."""


class HarnessError(Exception):
    pass


class InjectedFault(Exception):
    """Marker mixin: every injected exception derives from it."""


class InjMemoryError(InjectedFault, MemoryError):
    pass


class InjOSError(InjectedFault, OSError):
    pass


class InjRuntimeError(InjectedFault, RuntimeError):
    pass


class InjKeyboardInterrupt(KeyboardInterrupt):
    pass


FAULT_EXC = {
    "MemoryError": InjMemoryError,
    "OSError": InjOSError,
    "RuntimeError": InjRuntimeError,
    "KeyboardInterrupt": InjKeyboardInterrupt,
}


class Rec:
    __slots__ = (
        "id", "name", "baton", "state", "deadline", "waiting", "timed_out", "prio",
        "main", "site", "result", "exc", "faults_ok", "sleeping", "in_point",
    )

    def __init__(self, id, name):
        self.id = id
        self.name = name
        self.baton = _real_alloc()
        self.baton.acquire()
        self.state = RUN
        self.deadline = None
        self.waiting = None
        self.timed_out = False
        self.prio = 0.0
        self.main = False
        self.site = ""
        self.result = None
        self.exc = None
        self.sleeping = False
        self.in_point = 0


class Policy:
    """Decides preemptions (at points) and who runs when the current thread cannot."""

    def __init__(self, seed, spec):
        self.rng = random.Random(seed)
        self.spec = spec
        self.kind = spec.get("kind", "rand")
        self.p = spec.get("p", 0.05)
        self.kp = spec.get("kp", 0.002)  # kernel-line preemption rate
        self.hotp = spec.get("hotp", 0.6)
        self.gap = {}
        self.hot = None
        self.victim = spec.get("victim", -1)
        self.jp = spec.get("jump", 0)
        self.jgap = self._geo(self.jp) if self.jp else -1
        if self.kind == "pct":
            n = spec.get("n", 400)
            self.changes = sorted(self.rng.randrange(1, n + 1) for _ in range(spec.get("d", 3)))
            self.low = 0.0

    def _rate(self, cat):
        if cat == "kernel":
            return self.kp
        if cat in ("py", "op", "array", "lock", "io"):
            return self.p
        return max(self.p, 0.2)

    def want(self, sim, cur, cat, site):
        """True when the running thread is to be preempted at this point."""
        if self.kind == "serial":
            return False
        if self.kind == "pct":
            if self.changes and sim.step >= self.changes[0]:
                self.changes.pop(0)
                self.low -= 1.0
                cur.prio = self.low
                return True
            return False
        if self.kind == "hot":
            h = self.hot
            if h is None:
                h = self.hot = {}
            if cat in ("py", "op", "array", "lock", "io"):
                v = h.get(site)
                if v is None:
                    v = h[site] = self.rng.random() < self.spec.get("hotfrac", 0.15)
                if v and self.rng.random() < self.hotp:
                    return True
        g = self.gap.get(cat)
        if g is None:
            g = self._draw(cat)
        if g <= 0:
            self.gap[cat] = self._draw(cat)
            return True
        self.gap[cat] = g - 1
        return False

    def _draw(self, cat):
        return self._geo(self._rate(cat))

    def _geo(self, p):
        if p >= 1:
            return 0
        if p <= 0:
            return 1 << 60
        import math
        return int(math.log(1.0 - self.rng.random()) / math.log(1.0 - p))

    def jump(self, sim):
        """Seconds for which the whole process stands still at this point, or None."""
        if self.jgap < 0:
            return None
        if self.jgap:
            self.jgap -= 1
            return None
        self.jgap = self._geo(self.jp)
        return self.rng.choice(JUMPS)

    def timed_wait(self):
        """Someone waits with a time limit: the process may well stop while it does."""
        if self.jp and self.rng.random() < 0.5:
            self.jgap = min(self.jgap, self.rng.randrange(30))

    def new_thread(self, rec):
        rec.prio = self.rng.random() + 1.0

    def choose(self, sim, cur, cands):
        if self.kind == "pct":
            return max(cands, key=lambda r: (r.prio, -r.id))
        if self.victim >= 0 and len(cands) > 1:
            # stalled worker: only runs when nothing else can (a slow node)
            rest = [r for r in cands if r.id % 7 != self.victim]
            if rest and len(rest) < len(cands) and self.rng.random() < 0.97:
                sim.count("stall")
                cands = rest
        return cands[self.rng.randrange(len(cands))]


JUMPS = (0.05, 2.0, 20.0, 100.0, 700.0, 5000.0)


class ReplayPolicy:
    """Follows an explicit decision list [step, thread id]; default is no preemption.
    A negative id is a clock jump, in milliseconds."""

    kind = "replay"

    def __init__(self, decisions):
        self.dec = {int(k): v for k, v in decisions if v >= 0}
        self.jumps = {int(k): -v / 1000.0 for k, v in decisions if v < 0}

    def jump(self, sim):
        return self.jumps.get(sim.step)

    def timed_wait(self):
        pass

    def want(self, sim, cur, cat, site):
        return sim.step in self.dec

    def new_thread(self, rec):
        rec.prio = 0.0

    def choose(self, sim, cur, cands):
        want = self.dec.get(sim.step)
        if want is not None:
            for r in cands:
                if r.id == want:
                    return r
        if cur is not None and cur in cands:
            return cur
        return cands[0]


class Sim:
    def __init__(self, policy, step_cap=400000, vtime_cap=3600.0, seed=0):
        self.policy = policy
        self.step = 0
        self.step_cap = step_cap
        self.vtime_cap = vtime_cap
        self.now = 1.0e9
        self.t0 = self.now
        self.recs = []
        self.live = 0
        self.cur = None
        self.decisions = []
        self.nswitch = 0
        self.crc = 0
        self.shape = 0
        self.counts = {}
        self.abort_reason = None
        self.dead = False
        self.finished = _real_alloc()
        self.finished.acquire()
        self.cats = {"py": True, "op": False, "kernel": False}
        # fault plan: dict(site=, occ=, exc=, tid=None) armed by the workload
        self.fault = None
        self.fault_fired = None
        self.armed = False
        self.arm_filter = None
        self.profile = None
        self.seed = seed
        self.tainted = False
        self.nomask = 0
        self.quiet = getattr(policy, "kind", "") == "serial"
        self.on_switch = None
        self.log = []

    # ---- bookkeeping
    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def note(self, text):
        """Part of the deterministic event log."""
        self.crc = zlib.crc32(text.encode(), self.crc)
        if len(self.log) < 4000:
            self.log.append("%d %s" % (self.step, text))

    # ---- scheduling
    def _runnable(self):
        return [r for r in self.recs if r.state == RUN]

    def _advance_clock(self):
        best = None
        for r in self.recs:
            if r.state == BLOCK and r.deadline is not None:
                if best is None or r.deadline < best:
                    best = r.deadline
        if best is None:
            return False
        if best > self.now:
            self.now = best
        self.count("clock_jumps")
        for r in self.recs:
            if r.state == BLOCK and r.deadline is not None and r.deadline <= self.now:
                r.timed_out = True
                r.state = RUN
                r.deadline = None
                r.waiting = None
        return True

    def _pick(self, cur):
        """Next thread when cur cannot (or must not) continue; advances virtual time."""
        while True:
            c = self._runnable()
            if c:
                break
            if not self._advance_clock():
                return None
            if self.now - self.t0 > self.vtime_cap:
                self._abort("livelock: no completion within %g simulated seconds" % self.vtime_cap)
        if len(c) == 1:
            return c[0]
        r = self.policy.choose(self, cur, c)
        self._decide(r, cur)
        return r

    def _decide(self, r, cur):
        self.decisions.append((self.step, r.id))
        self.note("-> %d" % r.id)
        self.shape = zlib.crc32(("%s>%d@%s;" % (cur.id if cur else "-", r.id, cur.site if cur else "")).encode(), self.shape)

    def _switch(self, cur, nxt):
        if nxt is cur:
            return
        self.nswitch += 1
        self.cur = nxt
        if self.on_switch:
            self.on_switch(cur, nxt)
        nxt.baton.release()
        cur.baton.acquire()
        if self.dead:
            raise SimAbort()

    def point(self, cat, site, nofault=False):
        """A scheduling point of the running simulated thread (may preempt, may inject)."""
        rec = tls.rec
        if rec.in_point:
            return
        if cat == "op" and self.live < 2:
            return
        self.step += 1
        if self.step > self.step_cap:
            self._abort("livelock: step cap %d reached" % self.step_cap)
        rec.site = site
        if self.armed and not nofault and (self.arm_filter is None or self.arm_filter(rec, cat, site)):
            rec.in_point += 1
            try:
                self._fault_point(rec, cat, site)
            finally:
                rec.in_point -= 1
        if self.nomask:
            return
        d = self.policy.jump(self)
        if d:
            self._jump(d)
        if self.policy.want(self, rec, cat, site):
            c = [r for r in self._runnable() if r is not rec]
            if c:
                if self.policy.kind in ("pct", "replay"):
                    c.append(rec)
                    c.sort(key=lambda r: r.id)
                nxt = self.policy.choose(self, rec, c)
                self._decide(nxt, rec)
                if nxt is not rec:
                    self.count("preempt_" + cat)
                    self._switch(rec, nxt)

    def _jump(self, d):
        """The process was suspended for d seconds: every deadline within them has passed."""
        self.decisions.append((self.step, -int(round(d * 1000))))
        self.note("clock +%g" % d)
        self.count("clock_suspend")
        self.now += d
        self.t0 += d
        for r in self.recs:
            if r.state == BLOCK and r.deadline is not None and r.deadline <= self.now:
                r.timed_out = True
                r.state = RUN
                r.deadline = None
                r.waiting = None

    def _fault_point(self, rec, cat, site):
        if shielded():
            return
        key = ("m" if rec.main else "w") + "|" + site
        if self.profile is not None:
            self.profile[key] = self.profile.get(key, 0) + 1
        f = self.fault
        if f is None or (self.fault_fired is not None and not f.get("many")):
            return
        if f["site"] == key:
            n = f["_n"] = f.get("_n", 0) + 1
            if n == f["occ"] or (f.get("many") and n > f["occ"]):
                self.fault_fired = key
                self.count("fault_" + f["exc"])
                self.note("fault %s at %s" % (f["exc"], key))
                raise FAULT_EXC[f["exc"]]("injected %s at %s" % (f["exc"], key))

    def block(self, obj, timeout=None):
        """Blocks the running thread until wake(obj) or the (virtual) timeout. True if woken."""
        rec = tls.rec
        rec.state = BLOCK
        rec.waiting = obj
        rec.timed_out = False
        rec.deadline = None if timeout is None else self.now + max(0.0, timeout)
        nxt = self._pick(rec)
        if nxt is None:
            self._abort("deadlock: " + self.describe())
        self._switch(rec, nxt)
        return not rec.timed_out

    def describe(self):
        return ", ".join(
            "t%d %s at %s" % (r.id, ["run", "blocked", "done"][r.state], r.site)
            for r in self.recs if r.state != DONE
        )

    def wake(self, obj):
        for r in self.recs:
            if r.state == BLOCK and r.waiting == obj:
                r.state = RUN
                r.waiting = None
                r.deadline = None
                r.timed_out = False

    def sleep(self, d):
        rec = tls.rec
        if self.armed and rec.main and not rec.in_point:
            if self.arm_filter is None or self.arm_filter(rec, "sleep", "sleep"):
                self._fault_point(rec, "sleep", "sleep")
        if d <= 0:
            self.point("sleep", "sleep0")
            return
        self.step += 1
        if self.step > self.step_cap:
            self._abort("livelock: step cap %d reached" % self.step_cap)
        self.block(("sleep", rec.id), d)

    def _abort(self, why):
        if self.abort_reason is None:
            self.abort_reason = why
        self.dead = True
        self.tainted = True
        self.finished.release()
        # park forever: the forked process is discarded after this run
        while True:
            lk = _real_alloc()
            lk.acquire()
            lk.acquire()

    # ---- threads
    def spawn(self, fn, name="client", main=False):
        """Creates a simulated thread (runnable at once)."""
        rec = Rec(len(self.recs), name)
        rec.main = main
        self.recs.append(rec)
        self.live += 1
        self.policy.new_thread(rec)
        _real_start(self._body, (rec, fn))
        return rec

    def _body(self, rec, fn):
        rec.baton.acquire()
        if self.dead:
            return
        tls.rec = rec
        try:
            if THREAD_INIT is not None:
                THREAD_INIT(self, rec)
            rec.result = fn()
        except SimAbort:
            return
        except BaseException as e:  # recorded; the workload decides what it means
            rec.exc = e
        finally:
            tls.rec = None
        rec.state = DONE
        self.live -= 1
        self.note("exit %d" % rec.id)
        self.wake(("join", rec.id))
        if rec.id == 0:
            self.finished.release()
            return
        nxt = self._pick(rec)
        if nxt is None:
            self.abort_reason = "deadlock: " + self.describe()
            self.dead = True
            self.tainted = True
            self.finished.release()
            return
        self.cur = nxt
        if self.on_switch:
            self.on_switch(rec, nxt)
        nxt.baton.release()

    def join(self, rec, timeout=None):
        while rec.state != DONE:
            if not self.block(("join", rec.id), timeout):
                return rec.state == DONE
        return True

    def drain(self, rounds=4000):
        """Main thread: let leftover threads (e.g. workers of a failed call) finish."""
        me = tls.rec
        for _ in range(rounds):
            others = [r for r in self.recs if r is not me and r.state != DONE]
            if not others:
                return True
            if not any(r.state == RUN or r.deadline is not None for r in others):
                self.tainted = True
                self.count("leaked_threads", len(others))
                return False
            self.block(("sleep", me.id), 0.05)
        self.tainted = True
        return False

    def run(self, fn, wall=120.0):
        """Runs fn as simulated thread 0; returns its result or raises what it raised."""
        global SIM
        prev, SIM = SIM, self
        gc_was = gc.isenabled()
        gc.disable()
        try:
            rec = self.spawn(fn, "main", main=True)
            self.cur = rec
            rec.baton.release()
            if not self.finished.acquire(timeout=wall):
                self.dead = True
                self.tainted = True
                raise HarnessError("wall clock limit: " + self.describe())
        finally:
            SIM = prev
            if gc_was:
                gc.enable()
        if self.abort_reason:
            raise SimStuck(self.abort_reason)
        if any(r.state != DONE for r in self.recs):
            self.tainted = True
        if rec.exc is not None:
            raise rec.exc
        return rec.result


class SimStuck(Exception):
    """The simulated system stopped making progress (deadlock or livelock)."""


THREAD_INIT = None


def current():
    r = getattr(tls, "rec", None)
    if r is None:
        return None
    return SIM if SIM is not None and not SIM.dead else None


def point(cat, site):
    s = current()
    if s is not None:
        s.point(cat, site)


# ------------------------------------------------------------------ primitives
class SimLock:
    def __init__(self):
        self._held = False

    def acquire(self, blocking=True, timeout=-1):
        s = current()
        if s is None:
            if getattr(tls, "rec", None) is not None:
                raise SimAbort()
            if not self._held:
                self._held = True
                return True
            if not blocking:
                return False
            raise HarnessError("simulated lock contended outside the simulation")
        s.point("lock", "acquire")
        end = None if timeout is None or timeout < 0 else s.now + timeout
        while self._held:
            if not blocking:
                return False
            if end is not None and s.now >= end:
                return False
            s.count("lock_contended")
            if end is not None:
                s.policy.timed_wait()
            if not s.block(self, None if end is None else end - s.now) and self._held:
                return False
        self._held = True
        return True

    def release(self):
        if not self._held:
            raise RuntimeError("release unlocked lock")
        self._held = False
        s = current()
        if s is not None:
            s.wake(self)
            s.point("lock", "release")

    def locked(self):
        return self._held

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked

    def _at_fork_reinit(self):
        self._held = False

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


FORCE = False  # True once the libraries are loaded: every new lock is a simulated one


def _lock_factory():
    if FORCE or (getattr(tls, "rec", None) is not None and SIM is not None):
        return SimLock()
    return _real_alloc()


def _rlock_factory(*a, **k):
    if FORCE or (getattr(tls, "rec", None) is not None and SIM is not None):
        return threading._PyRLock()
    return _RealCRLock(*a, **k)


def _start_new_thread(fn, args, kwargs={}):
    s = current()
    if s is None:
        return _real_start(fn, args, kwargs)
    s.count("threads")
    me = tls.rec
    if s.armed and not me.in_point and (s.arm_filter is None or s.arm_filter(me, "spawn", "spawn")):
        s._fault_point(me, "spawn", "spawn")
    rec = s.spawn(lambda: fn(*args, **kwargs), "worker")
    th = getattr(fn, "__self__", None)
    if isinstance(th, threading.Thread):
        th._sim_rec = rec
    return rec.id + 1000000


def _join(self, timeout=None):
    rec = getattr(self, "_sim_rec", None)
    if rec is None:
        return _real_join(self, timeout)
    s = current()
    if s is None:
        return None
    s.join(rec, timeout)


def _is_alive(self):
    rec = getattr(self, "_sim_rec", None)
    if rec is None:
        return _real_is_alive(self)
    return rec.state != DONE


def _sleep(d):
    s = current()
    if s is None:
        if getattr(tls, "rec", None) is not None:
            raise SimAbort()
        return _real_sleep(d)
    s.sleep(d)


def _mk_clock(real, base):
    def clock():
        s = current()
        return real() if s is None else s.now - base
    return clock


def _simple_queue(*a):
    if getattr(tls, "rec", None) is not None and SIM is not None:
        return queue._PySimpleQueue()
    return _RealSimpleQueue(*a)


class CompilerLock:
    """numba's compiler lock: simulated, and no scheduling points while it is held."""

    def __init__(self):
        self._lk = threading._PyRLock()

    def acquire(self, blocking=True, timeout=-1):
        r = self._lk.acquire(blocking, timeout)
        rec = getattr(tls, "rec", None)
        if r and rec is not None:
            rec.in_point += 1
        return r

    def release(self):
        rec = getattr(tls, "rec", None)
        if rec is not None and rec.in_point:
            rec.in_point -= 1
        self._lk.release()

    def _is_owned(self):
        return self._lk._is_owned()


class SimNotifier:
    """multiprocessing SimpleQueue (a pipe) of a thread pool, as a simulated queue."""

    def __init__(self):
        self._items = []
        self._reader = self
        self._writer = self

    def put(self, x):
        self._items.append(x)
        s = current()
        if s is not None:
            s.wake(self)
            s.point("lock", "notify")

    def get(self):
        return self._items.pop(0)

    def empty(self):
        return not self._items

    def close(self):
        pass


def _pool_wait(objs, timeout=None):
    s = current()
    if s is None or not all(isinstance(o, SimNotifier) for o in objs):
        return _real_pool_wait(objs, timeout)
    while True:
        ready = [o for o in objs if o._items]
        if ready:
            return ready
        if not objs or not s.block(objs[0], timeout):
            return []


def _mp_simple_queue(self):
    if getattr(tls, "rec", None) is not None and SIM is not None:
        return SimNotifier()
    return _real_mp_simple_queue(self)


_installed = False
_real_pool_wait = None
_real_mp_simple_queue = None


def install():
    """Puts the simulator behind the standard library's threading and time seams."""
    global _installed, _real_pool_wait, _real_mp_simple_queue
    if _installed:
        return
    import multiprocessing.pool
    import multiprocessing.context as mpc
    _real_pool_wait = multiprocessing.pool.wait
    multiprocessing.pool.wait = _pool_wait
    _real_mp_simple_queue = mpc.BaseContext.SimpleQueue
    mpc.BaseContext.SimpleQueue = _mp_simple_queue
    _installed = True
    threading._allocate_lock = _lock_factory
    threading.Lock = _lock_factory
    threading.RLock = _rlock_factory
    threading._start_new_thread = _start_new_thread
    threading.Thread.join = _join
    threading.Thread.is_alive = _is_alive
    queue.SimpleQueue = _simple_queue
    time.sleep = _sleep
    time.time = _mk_clock(_real_time, 0.0)
    time.monotonic = _mk_clock(_real_monotonic, 0.0)
    time.perf_counter = _mk_clock(_real_perf, 0.0)
    import concurrent.futures.thread as cft
    cft._global_shutdown_lock = SimLock()
    threading._time = time.monotonic
    queue.time = time.monotonic


# ------------------------------------------------------------------ line events
_MON = sys.monitoring
_TOOL = 3
_code_cat = {}
_code_name = {}
_mon_on = False


def _walk_codes(code, out):
    if code in out:
        return
    out.add(code)
    for c in code.co_consts:
        if hasattr(c, "co_code"):
            _walk_codes(c, out)


def collect_codes(prefix, kernel_files):
    """All code objects of loaded modules whose file lies under prefix -> 'py'/'kernel'."""
    import types
    found = set()

    def add(obj, depth=0):
        if isinstance(obj, types.FunctionType):
            _walk_codes(obj.__code__, found)
        elif isinstance(obj, (classmethod, staticmethod)):
            add(obj.__func__)
        elif isinstance(obj, property):
            for f in (obj.fget, obj.fset, obj.fdel):
                if f is not None:
                    add(f)
        elif isinstance(obj, type) and depth < 2:
            for v in list(vars(obj).values()):
                add(v, depth + 1)
        elif hasattr(obj, "__wrapped__"):
            add(obj.__wrapped__)

    for name, m in list(sys.modules.items()):
        f = getattr(m, "__file__", None)
        if not f or not f.startswith(prefix):
            continue
        for v in list(vars(m).values()):
            add(v)
    for c in found:
        if c.co_filename.startswith(prefix):
            base = c.co_filename.rsplit("/", 1)[-1]
            _code_cat[c] = "kernel" if base in kernel_files else "py"
            _code_name[c] = base[:-3] + "." + c.co_name
    return len(_code_cat)


NOFAULT = {}  # file -> line numbers where no fault is injected


def scan_nofault(path):
    """Lines where an exception is not a realistic event: headers of with and try (an exception
    there would fall between acquiring and protecting a resource), except and finally bodies."""
    import ast
    out = set()
    try:
        tree = ast.parse(open(path).read())
    except Exception:
        return out
    for n in ast.walk(tree):
        if isinstance(n, (ast.With, ast.AsyncWith)):
            hi = max([n.lineno] + [i.context_expr.end_lineno for i in n.items])
            out.update(range(n.lineno, hi + 1))
        elif isinstance(n, ast.Try) or type(n).__name__ == "TryStar":
            out.add(n.lineno)
            for h in n.handlers:
                out.update(range(h.lineno, h.end_lineno + 1))
            for st in n.finalbody:
                out.update(range(st.lineno, st.end_lineno + 1))
    return out


_line_info = {}
SHIELD_PREFIX = "/repo/"
SHIELD_NAMES = {"__exit__", "__del__", "__aexit__"}


def shielded():
    """True inside clean-up code: a handler, a finally block, a context manager's entry or exit.

    An exception there cannot be defended against in Python, so none is injected."""
    f = sys._getframe(1)
    while f is not None:
        c = f.f_code
        if c.co_filename.startswith(SHIELD_PREFIX):
            nf = NOFAULT.get(c.co_filename)
            if nf is None:
                nf = NOFAULT[c.co_filename] = scan_nofault(c.co_filename)
            if f.f_lineno in nf or c.co_name in SHIELD_NAMES:
                return True
        elif c.co_name in ("dispatch_next", "dispatch_one_batch") and not tls.rec.main and c.co_filename.endswith("joblib/parallel.py"):
            # joblib pulls the next task from the caller's generator in a completion callback;
            # a failure there is not the failure of a task (and joblib cannot report it)
            return True
        f = f.f_back
    return False


def _on_line(code, line):
    rec = getattr(tls, "rec", None)
    if rec is None:
        return
    s = SIM
    if s is None or s.dead or rec.in_point:
        return
    if s.quiet and not s.armed:
        return
    k = (code, line)
    info = _line_info.get(k)
    if info is None:
        cat = _code_cat.get(code)
        if cat is None:
            return
        f = code.co_filename
        nf = NOFAULT.get(f)
        if nf is None:
            nf = NOFAULT[f] = scan_nofault(f)
        info = _line_info[k] = (cat, "%s:%d" % (_code_name[code], line - code.co_firstlineno), line in nf)
    s.point(info[0], info[1], info[2])


def _on_instr(code, off):
    if getattr(tls, "rec", None) is None:
        return
    s = SIM
    if s is None or s.dead or s.quiet or not s.cats.get("op"):
        return
    if code not in _code_cat:
        return
    s.point("op", "%s+%d" % (_code_name[code], off))


def monitor(py=True, kernel=False, op=False):
    """(Re)configures which code objects deliver scheduling points."""
    global _mon_on
    E = _MON.events
    if not _mon_on:
        _MON.use_tool_id(_TOOL, "wwsim")
        _MON.register_callback(_TOOL, E.LINE, _on_line)
        _MON.register_callback(_TOOL, E.INSTRUCTION, _on_instr)
        _mon_on = True
    for c, cat in _code_cat.items():
        if cat == "py":
            ev = (E.LINE if py else 0) | (E.INSTRUCTION if op else 0)
        else:
            ev = E.LINE if kernel else 0
        _MON.set_local_events(_TOOL, c, ev)


# ------------------------------------------------------------------ shared arrays
def _chunks(n, k):
    return [(i * n // k, (i + 1) * n // k) for i in range(k)]


def make_sim_array():
    import numpy as np

    class SimArray(np.ndarray):
        """ndarray whose in-place arithmetic is not atomic between threads.

        numpy drops the GIL inside ufunc loops and jitted kernels drop it as well, so an
        in-place update of an array shared between threads is a read, an addition and a
        write with other threads in between.  Outside a simulated thread: plain ndarray.
        """

        def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
            ins = [i.view(np.ndarray) if isinstance(i, SimArray) else i for i in inputs]
            s = current()
            if out is not None:
                outs = tuple(o.view(np.ndarray) if isinstance(o, SimArray) else o for o in out)
                if s is None or method != "__call__" or len(outs) != 1:
                    getattr(ufunc, method)(*ins, out=outs, **kw)
                else:
                    # read the operands, let others run, then store
                    s.point("array", "ufunc-read")
                    res = getattr(ufunc, method)(*ins, **kw)
                    s.point("array", "ufunc-mid")
                    o = outs[0]
                    r = np.asarray(res)
                    if o.ndim and r.shape == o.shape and o.shape[0] > 1:
                        h = o.shape[0] // 2
                        o[:h] = r[:h]
                        s.point("array", "ufunc-half")
                        o[h:] = r[h:]
                    else:
                        o[...] = r
                    s.point("array", "ufunc-write")
                return out[0] if len(out) == 1 else out
            if s is not None:
                s.point("array", "ufunc-read")
            res = getattr(ufunc, method)(*ins, **kw)
            if s is not None:
                s.point("array", "ufunc-mid")
            return res

        def __setitem__(self, k, v):
            s = current()
            if s is not None:
                s.point("array", "setitem")
            np.ndarray.__setitem__(self, k, v)

    return SimArray


GARBAGE = 0  # what fresh memory contains, a byte
_libc = None


def set_garbage(byte):
    """Decides the contents of memory nobody has written yet: malloc fills what it hands out
    with this byte (and what is freed with its complement); np.empty is filled likewise."""
    global GARBAGE, _libc
    GARBAGE = byte
    if _libc is None:
        import ctypes
        _libc = ctypes.CDLL(None)
    _libc.mallopt(-6, byte ^ 0xFF)  # M_PERTURB; alloc fills with the complement


def soil(r):
    """Fills a fresh array that numpy took from its own cache of freed blocks."""
    if r.dtype.hasobject:
        return r
    b = GARBAGE if r.dtype.kind != "b" else GARBAGE & 1
    try:
        r.view("uint8").fill(b)
    except (ValueError, TypeError):
        if r.ndim and r.size:
            r.reshape(-1, order="A").view("uint8").fill(b)
    return r


class NpProxy:
    """Stands in for the name ``np`` in modules that allocate arrays shared by workers."""

    def __init__(self, np, arr):
        self.__dict__["_np"] = np
        self.__dict__["_arr"] = arr

    def __getattr__(self, k):
        np = self.__dict__["_np"]
        v = getattr(np, k)
        if k in ("zeros", "empty", "ones", "full", "zeros_like", "empty_like", "ones_like"):
            arr = self.__dict__["_arr"]

            def alloc(*a, **kw):
                r = v(*a, **kw)
                if k.startswith("empty") and type(r) is np.ndarray:
                    soil(r)
                if arr is not None and current() is not None and type(r) is np.ndarray and r.dtype.kind in "fiu":
                    return r.view(arr)
                return r
            return alloc
        return v


def seed_of(*parts):
    h = hashlib.sha256("|".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:6], "big")
