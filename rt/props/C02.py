"""Representation independence."""
from rt.harness import need, need_list, ok, call, close
from rt.gen import rng_for
from rt.props.common import MINLEN, NAMES, R, faces
from rt.props.tests15 import params
from rt.seqs import CONTAINERS, LABELS, bits, patterns, sequence

RULE = "every test x every pair of value labels x containers and indexes on patterned sequences; counted when statistics, p-values and faces were compared with those of the plain list of 0 and 1"


def cases(tier, seed):
    k = 60 if tier == "thorough" else 9
    for t in NAMES:
        for lab in LABELS:
            for con in CONTAINERS:
                for i in range(k if t not in ("non_overlapping_template_matching", "linear_complexity") else max(1, k // 3)):
                    yield (t, lab, con, seed, i)


def nums(res):
    if hasattr(res, "results"):
        out = []
        for v in res.results.values():
            out += [v.statistic, v.p]
        return out
    return [res.statistic, res.p]


def run(case):
    t, lab, con, seed, i = case
    rng = rng_for("C02", *case)
    lo = MINLEN[t]
    n = rng.choice([rng.randint(lo, lo + 20), rng.randint(lo, lo + 150)])
    b = bits(next(patterns("C02", case, [n])))
    if t == "spectral" and n % 2 and len(set(b[:-1])) < 2:
        return
    kw = params(t, n, rng)
    base = nums(ok(getattr(R, t), [int(x) for x in b], **kw))
    res = ok(getattr(R, t), sequence(b, lab, con), **kw)
    faces(res, lab)
    what = f"{t} of {''.join(str(int(x)) for x in b)} {kw} as {lab} {con}"
    need_list(what, nums(res), base, lambda a, c: close(a, c) or (a != a and c != c))
