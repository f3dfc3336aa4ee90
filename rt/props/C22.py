"""FloorDict."""
from rt.gen import rng_for
from rt.harness import call, need

from coinflip._randtests.common.collections import FloorDict
from coinflip._randtests.runs import n_defaults as runs_defaults
from coinflip._randtests.universal import n_defaults as maurer_defaults

RULE = "random dictionaries of numbers or strings, every lookup key at, between and beyond their keys, and the two tables of the tests; counted per dictionary"


def cases(tier, seed):
    for i in range(100000 if tier == "thorough" else 15000):
        yield (seed, i)


def run(case):
    rng = rng_for("C22", *case)
    m = rng.randint(0, 9)
    pool = rng.choice([list(range(-20, 21)), [x / 2 for x in range(-30, 31)], list("abcdefghijklmnopqrstuvwxyz")])
    ks = rng.sample(pool, m)
    d = {k: rng.choice([rng.random(), None, 0, (k, 1)]) for k in ks}
    if rng.random() < .002:
        fd, d = rng.choice([(runs_defaults, None), (maurer_defaults, None)])
        d = dict(fd.items())
        pool = [k + o for k in d for o in (-1, 0, 1)]
    else:
        fd = FloorDict(dict(d))
    need(list(fd) == sorted(d) and len(fd) == len(d), f"FloorDict({d}) iterates as {list(fd)}")
    for k in pool:
        below = [x for x in d if x <= k]
        o = call(fd.__getitem__, k)
        if below:
            need(o.error is None and o.result is d[max(below)] or o.result == d[max(below)], f"FloorDict({d})[{k!r}] is {o.result!r} {o.error!r}, should be {d[max(below)]!r}")
        else:
            need(isinstance(o.error, KeyError), f"FloorDict({d})[{k!r}] gave {o.result!r} {o.error!r}, should be a KeyError")
