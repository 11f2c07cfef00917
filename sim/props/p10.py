"""P10: the data set cache never serves wrong data after crashes, disk or download faults."""
from .loads import *  # noqa
from . import loads


def gen(rng, mode, tier):
    main = rng.choice(fsim.NAMES)
    steps = [gen_step(rng, main, faulty=rng.random() < 0.75) for _ in range(rng.randint(1, 4))]
    steps.append(gen_step(rng, main, faulty=False))
    for i, s in enumerate(steps):
        s["key"] = i
    return {"main": main, "steps": steps, "scale": gen_scale(rng)}


def run(sc):
    scale(sc, [c for s in sc["steps"] for c in s["calls"]])
    with Dir() as d:
        for st in sc["steps"]:
            run_step(d, st)
