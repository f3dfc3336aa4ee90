"""Generators."""
from rt.gen import rng_for
from rt.harness import need

from coinflip import generators

RULE = "Mersenne from seeds at, around and between the special values (0, 1, 2^30, 2^31 - 1, ..) for hundreds of steps against its recurrence in integers, Python's values; counted per seed"


def cases(tier, seed):
    k = 10 if tier == "thorough" else 1
    for s in [None, 0, 1, 2, 42, 2 ** 30, 2 ** 30 - 1, 2 ** 31 - 2, 2 ** 31 - 1, 2 ** 31, 2 ** 40 + 3, -1, -42, 16807]:
        yield ("m", s, 400)
    for i in range(1500 * k):
        r = rng_for("C25", seed, i)
        yield ("m", r.randint(-2 ** 33, 2 ** 33) if r.random() < .3 else r.randrange(1, 2 ** 31 - 1), r.choice([50, 200, 400]))
    for i in range(40 * k):
        yield ("p", i, 500)


def run(case):
    kind, s, n = case
    if kind == "p":
        g = generators.Python()
        need(iter(g) is g, "Python is not its own iterator")
        vals = [next(g) for _ in range(n)]
        need(all(type(v) is int and v in (0, 1) for v in vals), f"Python gives {set(vals)}")
        need(len(set(vals)) == 2, f"Python gave {n} equal values")
        return
    g = generators.Mersenne() if s is None else generators.Mersenne(s)
    h = generators.Mersenne() if s is None else generators.Mersenne(seed=s)
    x, M = 42 if s is None else s, 2 ** 31 - 1
    need(iter(g) is g, "Mersenne is not its own iterator")
    for i in range(n):
        x = (16807 * x) % M
        v = next(g)
        need(type(v) is int and v == (0 if 2 * x < M else 1), f"Mersenne({s}) gives {v!r} at step {i}, state {x}")
        need(next(h) == v, f"two Mersenne({s}) differ at step {i}")
    need([v for v, _ in zip(g, range(3))] is not None, "iteration")
