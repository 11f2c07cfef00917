"""Boots wildwood from /repo under the simulator, in mode A (compiled kernels) or B (interpreted)."""
import contextlib
import gc
import io
import os
import pickle
import random
import sys
import time
import traceback
import warnings

from . import core

REPO = os.environ.get("WW_REPO", "/repo")
MODE = None
KFILES = set()
SIMARR = None
NCPU = 4
TWIN = False  # whether another process answers (sim/twin.py)


class Skip(Exception):
    """The scenario does not apply (e.g. its clean reference run is refused)."""


class Violation(Exception):
    def __init__(self, cls, detail):
        Exception.__init__(self, cls, detail)
        self.cls = cls
        self.detail = detail


def boot(mode):
    """Imports everything; call once per process, before forking."""
    global MODE, SIMARR
    MODE = mode
    warnings.simplefilter("ignore")
    sys.path.insert(0, REPO)
    import numpy as np
    import pandas, joblib, sklearn.ensemble, sklearn.preprocessing, tqdm, scipy.sparse  # noqa
    import joblib._parallel_backends as jpb
    import concurrent.futures.thread, multiprocessing.pool, multiprocessing.dummy  # noqa
    import numba, numba.experimental  # noqa
    if mode == "B":
        from . import modeb
        modeb.prepare(REPO + "/wildwood/")
    if mode == "D":
        from . import fsim
        fsim.publish(REPO)
        fsim.install()
    core.install()
    core.FORCE = True
    core.THREAD_INIT = _thread_init
    import numba.core.compiler_lock as ncl
    ncl.global_compiler_lock._lock = core.CompilerLock()
    jpb.cpu_count = lambda *a, **k: NCPU
    SIMARR = core.make_sim_array()
    if mode == "A":
        from numba.extending import typeof_impl

        @typeof_impl.register(SIMARR)
        def _typeof(val, c):
            return typeof_impl(val.view(np.ndarray), c)
    _register_simproc()
    _import()


def _import():
    """Imports wildwood from the working tree and puts the seams in."""
    import numpy as np
    import wildwood
    if not wildwood.__file__.startswith(REPO + "/"):
        raise core.HarnessError("imported " + wildwood.__file__)
    import wildwood.datasets  # noqa
    import logging
    logging.disable(logging.CRITICAL)
    if MODE == "B":
        from . import modeb, workload
        KFILES.update(modeb.finish())
        workload.MODE_B = True
    _patch_np(np)
    core.SHIELD_PREFIX = REPO + "/"
    core.collect_codes(REPO + "/wildwood/", KFILES)
    core.monitor(py=True, kernel=False)


def reimport():
    """A fresh wildwood (module state as after a first import) with warm libraries."""
    core.monitor(py=False, kernel=False)
    core._code_cat.clear()
    core._code_name.clear()
    core._line_info.clear()
    for k in [k for k in sys.modules if k == "wildwood" or k.startswith("wildwood.")]:
        del sys.modules[k]
    gc.collect()
    _import()


def _patch_np(np):
    """Arrays allocated by wildwood's Python layer become non-atomic between threads."""
    proxy = core.NpProxy(np, SIMARR)
    fresh = core.NpProxy(np, None)
    for name, m in list(sys.modules.items()):
        if not name.startswith("wildwood.") or not getattr(m, "__file__", None):
            continue
        if os.path.basename(m.__file__) in KFILES or ".datasets" in name or ".preprocessing" in name:
            continue
        src = open(m.__file__).read()
        shared = "Parallel" in src or "threading" in src or "concurrent" in src
        if not shared and "jit" in src:
            continue
        for k, v in list(vars(m).items()):
            if v is np:
                setattr(m, k, proxy if shared else fresh)


_nseed = None


def _numba_seed(s):
    global _nseed
    if _nseed is None:
        import numba
        import numpy as np

        @numba.njit
        def f(x):
            np.random.seed(x)
        _nseed = f
    _nseed(s)


def _thread_init(sim, rec):
    # A fresh thread's kernel generator starts in an arbitrary state
    s = core.seed_of("thread", sim.seed, rec.id) & 0x7FFFFFFF
    if MODE == "A":
        _numba_seed(s)
    elif MODE == "B":
        from . import modeb
        modeb.seed_thread(s)


def _register_simproc():
    """An ambient process-based joblib backend, simulated: tasks cross a pickle boundary."""
    import joblib
    from joblib._parallel_backends import ThreadingBackend
    from joblib.externals import cloudpickle

    class SimProcBackend(ThreadingBackend):
        supports_sharedmem = False
        uses_threads = False

        def apply_async(self, func, callback=None):
            blob = cloudpickle.dumps(func)

            def call():
                return pickle.loads(blob)()
            return ThreadingBackend.apply_async(self, call, callback)

    joblib.register_parallel_backend("simproc", SimProcBackend)


@contextlib.contextmanager
def ambient(kind, n=2):
    """The joblib backend the caller has made the ambient one."""
    import joblib
    if kind is None:
        yield
        return
    if kind.startswith("old-"):
        with joblib.parallel_backend(kind[4:], n_jobs=n):
            yield
    else:
        with joblib.parallel_config(backend=kind, n_jobs=n):
            yield


def gen_policy(rng, kernel=False):
    k = rng.random()
    if k < 0.45:
        pol = {"kind": "rand", "p": rng.choice((0.02, 0.08, 0.2, 0.5)), "kp": rng.choice((0.001, 0.004, 0.02))}
    elif k < 0.7:
        pol = {"kind": "hot", "p": 0.03, "kp": 0.003, "hotfrac": rng.choice((0.05, 0.15, 0.3)), "hotp": rng.choice((0.5, 0.9))}
    elif k < 0.9:
        pol = {"kind": "pct", "d": rng.randint(1, 5), "n": rng.choice((200, 1000, 4000)) * (20 if kernel else 1)}
    else:
        pol = {"kind": "rand", "p": 0.1, "kp": 0.004, "victim": rng.randrange(7)}
    pol["seed"] = rng.randrange(1 << 40)
    pol["kernel"] = kernel
    pol["op"] = rng.random() < 0.25 and not kernel
    pol["jump"] = rng.choice((0, 0, 0.0005, 0.005))
    return pol


STATS = None
RESOLVED = {}  # what a run decided from measurements (fault site and occurrence)
SC = None
PROBES = {}


def probe(name, n=1):
    """Counts that a rare condition was reached."""
    PROBES[name] = PROBES.get(name, 0) + n


REPLAY = None  # list of recorded decision lists, consumed by successive sims
RECORD = None


def reset_run(replay=None):
    global STATS, REPLAY, RECORD
    STATS = {"sims": 0, "steps": 0, "switches": 0, "vtime": 0.0, "counts": {}, "shapes": [], "crc": 0}
    REPLAY = list(replay) if replay is not None else None
    RECORD = []


def simulate(fn, policy=None, seed=0, fault=None, arm=None, profile=None, step_cap=600000, wall=60.0, vtime_cap=3600.0, record=True, mem=None):
    """Runs fn in a fresh simulation and accounts for it.  policy None: serial.
    mem: the byte unwritten memory is full of (by default the scenario's)."""
    if mem is None:
        mem = (SC or {}).get("mem", 0)
    core.set_garbage(mem)
    if policy is None:
        pol = core.Policy(0, {"kind": "serial"})
        serial = True
    else:
        serial = False
        if REPLAY is not None and record:
            pol = core.ReplayPolicy(REPLAY.pop(0) if REPLAY else [])
        else:
            pol = core.Policy(policy["seed"], policy)
    if policy and (policy.get("kernel") or policy.get("op")):
        step_cap *= 8
    sim = core.Sim(pol, step_cap=step_cap, seed=seed, vtime_cap=vtime_cap)
    global LASTSIM
    LASTSIM = sim
    sim.fault = dict(fault) if fault else None
    sim.arm_filter = arm
    sim.profile = profile
    kern = bool(policy and policy.get("kernel") and MODE == "B")
    op = bool(policy and policy.get("op"))
    sim.cats = {"py": True, "op": op, "kernel": kern}
    if kern or op:
        core.monitor(py=True, kernel=kern, op=op)
    try:
        return sim.run(fn, wall=wall)
    finally:
        if kern or op:
            core.monitor(py=True, kernel=False)
        if STATS is not None:
            STATS["sims"] += 1
            STATS["steps"] += sim.step
            STATS["switches"] += sim.nswitch
            STATS["vtime"] += sim.now - sim.t0
            if mem:
                STATS["counts"]["memory_garbage"] = STATS["counts"].get("memory_garbage", 0) + 1
            STATS["crc"] = (STATS["crc"] * 1000003 ^ sim.crc) & 0xFFFFFFFF
            for k, v in sim.counts.items():
                STATS["counts"][k] = STATS["counts"].get(k, 0) + v
            if not serial:
                STATS["shapes"].append(sim.shape)
        if not serial and record and RECORD is not None:
            RECORD.append(list(sim.decisions))


def serial(fn, seed=1):
    """A reference execution: alone, no preemption, no faults."""
    return simulate(fn, None, seed=seed, mem=0)


def pick_fault(profile, u, occ_u, only=None):
    """Chooses (site, occurrence) from the sites reached by a clean profiling run."""
    keys = sorted(k for k in profile if only is None or only(k))
    if not keys:
        return None
    k = keys[min(len(keys) - 1, int(u * len(keys)))]
    n = profile[k]
    return {"site": k, "occ": 1 + min(n - 1, int(occ_u * n))}


class armed:
    """Faults may be injected inside this block (of the simulated code)."""

    def __enter__(self):
        core.SIM.armed = True

    def __exit__(self, *a):
        if core.SIM is not None:
            core.SIM.armed = False


@contextlib.contextmanager
def muted():
    o, e = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = o, e


def scramble_globals(seed):
    import numpy as np
    np.random.seed(seed & 0x7FFFFFFF)
    random.seed(seed)


def is_injected(e):
    seen = 0
    while e is not None and seen < 10:
        if isinstance(e, (core.InjectedFault, core.InjKeyboardInterrupt)):
            return True
        e = e.__cause__ or e.__context__
        seen += 1
    return False


def tb_tail(e, n=3):
    fr = traceback.extract_tb(e.__traceback__)[-n:]
    return " <- ".join("%s:%d" % (f.name, f.lineno) for f in reversed(fr))
