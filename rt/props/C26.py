"""Multi-results."""
from itertools import product

from rt.gen import rng_for
from rt.harness import need, ok
from rt.props.common import R
from rt.seqs import LABELS, bits, patterns, sequence

from coinflip._randtests.common.result import MultiTestResult, SubTestResult

RULE = "multi-results of one to twenty sub-tests with p-values that repeat, at the first, last and middle positions, and those of the four multi-tests; counted per result"


def cases(tier, seed):
    k = 10 if tier == "thorough" else 1
    for i in range(20000 * k):
        yield ("mk", seed, i)
    for i in range(250 * k):
        yield ("test", seed, i)


def check(res):
    items = list(res.results.items())
    ps = [r.p for _, r in items]
    need(list(res.pvalues) == ps, f"pvalues {list(res.pvalues)}, should be {ps}")
    need(list(res.statistics) == [r.statistic for _, r in items], f"statistics {list(res.statistics)}")
    j = min(range(len(ps)), key=lambda i: (ps[i], i))
    f, r = res.min
    need(f == items[j][0] and r is items[j][1], f"min of p-values {ps} is {f!r}, should be {items[j][0]!r}")


def run(case):
    rng = rng_for("C26", *case)
    if case[0] == "mk":
        n = rng.choice([1, 2, 3, rng.randint(1, 20)])
        pool = [0.0, 1.0, .5, 1e-300, rng.random(), rng.random()]
        feats = rng.choice([list(range(n)), [f"f{i}" for i in range(n)], [(i, 0) for i in range(n)], list(range(n, 0, -1))])
        check(MultiTestResult(1, 0, [], {f: SubTestResult(rng.random(), rng.choice(pool) if rng.random() < .7 else rng.random()) for f in feats}))
        return
    t = rng.choice(["non_overlapping_template_matching", "serial", "random_excursions", "random_excursions_variant"])
    n = rng.randint(8, 150)
    b = bits(next(patterns("C26", case, [n])))
    lab = rng.choice(list(LABELS))
    kw = dict(template_size=rng.randint(1, 4), blocksize=rng.randint(4, n)) if t.startswith("non") else {}
    res = ok(getattr(R, t), sequence(b, lab), **kw)
    check(res)
    keys = list(res.results)
    lo, hi = LABELS[lab]
    if t.startswith("non"):
        need(keys == list(product([hi, lo], repeat=res.template_size)), f"templates {keys}")
    elif t == "serial":
        need(len(keys) == 2 and "\u2207\u00b2" not in keys[0] and "\u2207\u00b2" in keys[1], f"sub-tests {keys}")
    else:
        m = 4 if t == "random_excursions" else 9
        need(keys == [*range(-m, 0), *range(1, m + 1)], f"states {keys}")
