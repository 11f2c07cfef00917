"""How many runs each check makes, and the texts that describe them in the evidence."""

FOREST = ["P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P13", "P14", "P15", "P17"]
DATA = ["P10", "P11", "P12", "P16"]

PLAN = {}
for _p in FOREST:
    PLAN[_p] = {
        "quick": {
            "B": {"workers": 7, "count": 900, "budget": 38, "min": 40},
            "A": {"workers": 7, "count": 500, "budget": 22, "min": 30},
        },
        "thorough": {
            "B": {"workers": 4, "count": 1000000, "budget": 560, "min": 200, "minbudget": 90},
            "A": {"workers": 4, "count": 1000000, "budget": 500, "min": 100, "minbudget": 90},
        },
    }
for _p in DATA:
    PLAN[_p] = {
        "quick": {"D": {"workers": 8, "count": 3000, "budget": 40, "min": 100}},
        "thorough": {"D": {"workers": 8, "count": 10000000, "budget": 560, "min": 500, "minbudget": 90}},
    }

_COMMON = (
    " One run = one scenario generated from one integer seed (data set, parameters, history, schedule policy, faults),"
    " executed in its own process. Non-trivial: it completed and contained at least one context switch, injected fault or reached probe;"
    " distinct: different deterministic event log."
)
RULES = {
    "P01": "fit once alone with n_jobs=1 and once under a seeded schedule with another n_jobs/verbosity/ambient backend; node tables compared bit for bit, answers to 1e-9.",
    "P02": "queries of a fitted forest under seeded schedules, n_jobs and ambient backends, against the sequential answers and against combining the trees one by one.",
    "P03": "2 to 4 client threads using shared and own forests under seeded schedules; each result against the same call run alone; results re-read at the end.",
    "P04": "a forest in some state, then a fit stopped by an injected exception at a seeded site or by invalid data; state before and after compared bit for bit, then refit.",
    "P05": "a parallel call with injected worker failures at seeded sites and schedules; must raise the failure or return the full result, and the next call must be right.",
    "P06": "a history of operations, then copies by pickle, joblib or deepcopy (also into another process, also with failing or interrupted dumps), then operations on original and copy.",
    "P07": "a history of assignments to step and dirichlet, interrupted ones included, against a fresh fit and against one direct assignment.",
    "P08": "calls that succeed, fail or are interrupted at seeded sites, with fingerprints of every caller-owned object before and after; objects overwritten afterwards.",
    "P09": "a history on the same and other objects and generators, then a fit, against the same fit on a fresh object; states of global generators before and after.",
    "P10": "a history of loader calls ended by crashes at seeded file operations, network and disk faults; every later call must raise or return the published data.",
    "P11": "as P10, then faults stop: the next call must succeed; once loaded, calls without network must succeed, download nothing and leave the cache as it was.",
    "P12": "several simulated processes load data sets into one directory under seeded interleavings of their file operations, with crashes of some of them.",
    "P13": "a history of queries, failing and interrupted ones included, with returned arrays overwritten; state before and after compared bit for bit.",
    "P14": "lighten at seeded points of a history, also interrupted, against an identical forest that is not lightened.",
    "P15": "a stream of requests that splits, reorders, repeats and re-lays-out the rows, over several clients and n_jobs, some lost to worker failures and repeated, against every row asked alone.",
    "P17": "a history on one encoder (fits, refused and interrupted ones, transforms, copies, overwritten results), checked after every operation against a fresh encoder and against the meaning of its attributes; then in pieces and from several threads.",
    "P16": "a history of loads, extracts, interrupted and refused ones, read faults, overwritten results and generator use, then an extract, against a fresh load and extract; also concurrently on other objects.",
}
RULES = {k: v + _COMMON for k, v in RULES.items()}

COMPONENTS = {
    "forest": {
        "real": "all of wildwood from /repo (mode A: numba-compiled kernels, in the quick tier at LLVM optimisation level 0; mode B: the same kernel source interpreted, every line a scheduling point), joblib.Parallel, its threading backend and the standard thread pool, sklearn, pandas, numpy, pickle",
        "simulated": "thread scheduling, locks, conditions, queues, sleeps and clocks with jumps and suspends (real threads parked and released one at a time), the contents of freshly allocated memory, numba's per-thread generators (arbitrary initial state per thread; mode B: numpy MT19937 with the same seeding), atomicity of numpy in-place updates of arrays allocated by wildwood's Python layer",
        "stub": "an ambient process-based joblib backend (tasks cross a pickle boundary, no shared memory); cpu_count is 4. For P06, P09, P16 and P17 a second real process, booted apart with another string hash seed, time zone and working directory, answers some requests",
    },
    "data": {
        "real": "wildwood.datasets loaders from /repo, sklearn's _fetch_remote, urllib's urlretrieve, gzip, zipfile, pandas readers and writers, joblib dump/load",
        "simulated": "the file system calls (a scratch directory with crash points, errors, short writes), the process boundary and crashes, scheduling of concurrent loads, clocks (the cache ages between calls), the contents of freshly allocated memory",
        "stub": "the HTTP servers (urlopen returns published files of several sizes with their true checksums)",
    },
    "assumptions": [
        "sampled, not exhaustive: a clean batch is evidence, not proof",
        "pre-emption happens at Python lines, (sampled) bytecodes, lock operations, in-place array updates and, in mode B, kernel lines; machine-level data races inside one compiled kernel are not modelled in mode A",
        "injected exceptions are raised at Python lines of wildwood outside handlers, finally blocks and context-manager entry and exit",
    ],
}
