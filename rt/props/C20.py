"""Bins."""
import random
from fractions import Fraction

from rt.gen import rng_for
from rt.harness import Bad, call, need

from coinflip.collections import Bins

RULE = "random histories of reads, writes, increments and deletions on random interval sets with keys at, around and between intervals, at their midpoints and beyond the ends; every state is compared with a model; counted per history"


def cases(tier, seed):
    for i in range(200000 if tier == "thorough" else 30000):
        yield (seed, i)


def nearest(ivs, k):
    best = None
    for x in ivs:  # ascending: a tie goes to the larger
        d = abs(Fraction(x) - Fraction(k))
        if best is None or d <= best[0]:
            best = (d, x)
    return best[1]


def run(case):
    rng = rng_for("C20", *case)
    kind = rng.random()
    m = rng.choice([1, 2, 3, 3, 4, 5, 6, 7, 9])
    if kind < .4:
        ivs = rng.sample(range(-12, 13), m)
    elif kind < .6:
        a = rng.randint(-5, 5)
        ivs = list(range(a, a + m))
    elif kind < .8:
        ivs = rng.sample([x / 4 for x in range(-40, 41)], m)
    else:
        ivs = rng.sample([-6, -3, 0, 3, 6, 2.5, 10 ** 6, -10 ** 6, 0.125, 7, 8], m)
    if rng.random() < .1:
        dup = ivs + [rng.choice(ivs)]
        o = call(Bins, dup)
        need(isinstance(o.error, ValueError), f"Bins({dup}) gave {o.result!r} {o.error!r}")
    arg = rng.choice([list, tuple, iter, lambda v: {x: 1 for x in v}, lambda v: (x for x in v)])(ivs)
    o = call(Bins, arg)
    need(o.error is None, f"Bins({ivs}) raised {o.error!r}")
    bins = o.result
    model = {x: 0 for x in sorted(ivs)}
    log = [("init", ivs)]

    def key():
        L = sorted(model)
        r = rng.random()
        if r < .3:
            return rng.choice(L)
        if r < .5 and len(L) > 1:
            j = rng.randrange(len(L) - 1)
            mid = (L[j] + L[j + 1]) / 2
            return mid if Fraction(mid) * 2 == Fraction(L[j]) + Fraction(L[j + 1]) else L[j]
        if r < .65:
            return rng.choice([L[0] - 1, L[-1] + 1, L[0] - 10 ** 9, L[-1] + 10 ** 9, L[-1] + .5])
        if r < .7:
            return rng.choice([float("inf"), float("-inf")])
        return rng.choice([rng.randint(-15, 15), rng.uniform(-13, 13), rng.randint(-60, 60) / 8])

    def near(k):
        if k == float("inf"):
            return max(model)
        if k == float("-inf"):
            return min(model)
        return nearest(sorted(model), k)

    def same():
        need(list(bins) == list(model), f"{log}: intervals {list(bins)}, should be {list(model)}")
        need(list(bins.items()) == list(model.items()), f"{log}: {dict(bins)}, should be {model}")
        need(len(bins) == len(model) and list(bins.intervals) == list(model), f"{log}: length or intervals")
    same()
    for _ in range(rng.randint(1, 12)):
        op = rng.random()
        k = key()
        if op < .25:
            log.append(("get", k))
            v = bins[k]
            need(v == model[near(k)], f"{log}: {v}, should be {model[near(k)]}")
        elif op < .45:
            v = rng.randint(-50, 50)
            log.append(("set", k, v))
            bins[k] = v
            model[near(k)] = v
        elif op < .8:
            v = rng.randint(1, 5)
            log.append(("inc", k, v))
            bins[k] += v
            model[near(k)] += v
        else:
            log.append(("del", k))
            if k in model:
                if len(model) > 1:
                    total = sum(model.values())
                    del bins[k]
                    v = model.pop(k)
                    model[nearest(sorted(model), k)] += v
                    need(sum(bins.values()) == total, f"{log}: counts lost")
            else:
                o = call(bins.__delitem__, k)
                need(isinstance(o.error, KeyError), f"{log}: gave {o.error!r}")
        same()
