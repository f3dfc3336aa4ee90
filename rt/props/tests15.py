"""Cases for C04-C18: the fifteen tests against their oracle."""
from math import floor, sqrt

from rt.gen import rng_for
from rt.props.common import MINLEN
from rt.seqs import all_short, kind_of, patterns, show


def _mk(test, specs_kw, seed):
    for i, (spec, kw) in enumerate(specs_kw):
        lab, con = kind_of(rng_for(test, seed, i))
        yield (test, spec, tuple(sorted(kw.items())), lab, con)


def lengths(rng, lo, hi, k):
    return [rng.randint(lo, hi) for _ in range(k)]


def params(test, n, rng):
    """a valid parameter setting for length n"""
    if rng.random() < .3:
        return {}
    if test in ("frequency_within_block", "linear_complexity"):
        M = rng.choice([1, 2, 3, rng.randint(1, n), rng.randint(1, max(1, n // 2)), max(1, int(sqrt(n))), n])
        return dict(blocksize=min(M, n))
    if test == "serial":
        return dict(blocksize=min(rng.choice([1, 2, 3, 4, 5, 6, 8, rng.randint(1, min(n, 12))]), n))
    if test == "approximate_entropy":
        return dict(blocksize=min(rng.choice([1, 2, 3, 4, 5, 7, rng.randint(1, min(n, 12))]), n))
    if test == "cusum":
        return dict(reverse=rng.random() < .7)
    if test == "binary_matrix_rank":
        for _ in range(50):
            r, c = rng.randint(1, 12), rng.randint(1, 12)
            if r * c <= n:
                return dict(matrix_dimen=(r, c))
        return {}
    if test == "non_overlapping_template_matching":
        M = rng.randint(max(1, n // 12), n)
        m = min(rng.choice([1, 2, 3, 3, 4, 5, 6]), M)
        return dict(blocksize=M, template_size=m) if rng.random() < .7 else (
            dict(template_size=m) if M >= 6 and n >= 12 and m <= 2 else {})
    if test == "overlapping_template_matching":
        M = rng.randint(1, n) if rng.random() < .4 else min(n, rng.randint(2, 40))
        m = min(rng.randint(1, 5), M)
        d = dict(blocksize=M, template_size=m)
        if rng.random() < .5:
            d["matches_ceil"] = rng.randint(1, 7)
        return d
    if test == "maurers_universal":
        for _ in range(50):
            L = rng.choice([1, 2, 3, 4, 5, 6, rng.randint(1, 16)])
            N = n // L
            if N >= 2:
                return dict(blocksize=L, init_nblocks=rng.choice([1, max(1, N // 3), rng.randint(1, N - 1), N - 1]))
        return {}
    return {}


BIG = {  # (length, kwargs) of the branches that only long sequences reach
    "frequency_within_block": [(4999, {}), (5000, {}), (5001, {}), (5050, {}), (10000, {}), (9999, {}), (2001, {}), (1999, {}), (20000, {}), (100000, {}), (100, {}), (99, {}), (101, {}), (1000000, {})],
    "binary_matrix_rank": [(38 * 1024, {}), (39 * 1024 - 1, {}), (39 * 1024, {}), (40 * 1024 + 17, {}), (152, {}), (151, {}), (341, {}), (342, {}), (607, {}), (608, {}), (5000, {}), (100000, {})],
    "longest_runs": [(128, {}), (129, {}), (6271, {}), (6272, {}), (6273, {}), (10000, {}), (100000, {}), (749999, {}), (750000, {}), (750001, {}), (1000000, {})],
    "maurers_universal": [(387839, {}), (387840, {}), (400001, {}), (904959, {}), (904960, {}), (5000, {}), (100000, {})],
    "linear_complexity": [(99999, {}), (100000, {}), (199999, {}), (200000, {}), (200001, {}), (500000, {}), (1000000, {}), (1000000, dict(blocksize=500))],
    "serial": [(4096, {}), (4095, {}), (65536, {}), (100000, {}), (1024, {}), (1023, {})],
    "approximate_entropy": [(4096, {}), (4095, {}), (65536, {}), (100000, {}), (1024, {}), (512, {}), (511, {}), (255, {}), (256, {})],
    "cusum": [(10000, {}), (10000, dict(reverse=True)), (100000, {})],
    "spectral": [(10000, {}), (10001, {}), (100000, {}), (1000, {}), (999, {})],
    "monobit": [(10000, {}), (100000, {}), (1000000, {})],
    "runs": [(10000, {}), (100000, {}), (1000000, {})],
    "random_excursions": [(10000, {}), (100000, {}), (1000000, {})],
    "random_excursions_variant": [(10000, {}), (100000, {}), (1000000, {})],
    "non_overlapping_template_matching": [(1000, {}), (5000, {}), (10000, {}), (1000, dict(template_size=9))],
    "overlapping_template_matching": [(1000, {}), (10000, {}), (100000, dict(blocksize=1032, template_size=9)), (100000, {}), (10000, dict(blocksize=1000, template_size=2, matches_ceil=5))],
}
COUNT = {  # (exhaustive up to, number of random cases)
    "monobit": (11, 4000), "frequency_within_block": (11, 5000), "runs": (11, 5000),
    "longest_runs": (0, 3000), "binary_matrix_rank": (9, 2500), "spectral": (11, 4000),
    "non_overlapping_template_matching": (9, 2500), "overlapping_template_matching": (9, 3000),
    "maurers_universal": (9, 4000), "linear_complexity": (9, 3000), "serial": (10, 3500),
    "approximate_entropy": (10, 4000), "cusum": (11, 4000), "random_excursions": (9, 1500),
    "random_excursions_variant": (11, 3000),
}
MAXLEN = {"linear_complexity": 500, "non_overlapping_template_matching": 300, "spectral": 700, "longest_runs": 1500, "random_excursions": 500}


def cases(test, tier, seed):
    ex, cnt = COUNT[test]
    lo = MINLEN[test]
    if tier == "thorough":
        cnt *= 12
        ex = ex + 3 if ex else 0
    big = []
    for n, kw in BIG[test]:
        for k in ((0, 2, 11, 9) if n <= 100000 else (0, 10)):
            if test == "linear_complexity" and n >= 50000 and k != 9:
                spec = ("sparse", n, (seed, k))
                if k in (11, 10):
                    continue
            else:
                spec = ("fam", n, k, seed)
            big.append((spec, kw))
    out = list(_mk(test, big, seed)) if tier == "thorough" else \
        [c for i, c in enumerate(_mk(test, big, seed)) if not (c[1][1] > 300000 and i % 2)]
    ws = []
    if ex:
        rng = rng_for(test, "ex", seed)
        for n in range(max(lo, 2), ex + 1):
            for s in all_short([n]):
                ws.append((s, {}))
                if rng.random() < .5:
                    ws.append((s, params(test, n, rng)))
    rng = rng_for(test, "rnd", seed)
    hi = MAXLEN.get(test, 1200)
    for i in range(cnt):
        r = rng.random()
        if lo >= 128:
            n = rng.choice([128, rng.randint(128, 400), rng.randint(128, hi)])
        elif r < .5:
            n = rng.randint(lo, 40)
        elif r < .85:
            n = rng.randint(lo, min(200, hi))
        else:
            n = rng.randint(lo, hi)
        s = next(patterns(test, (seed, i), [n]))
        ws.append((s, params(test, n, rng)))
    out += [c for c in _mk(test, ws, seed)]
    if test == "spectral":
        out = [c for c in out if _spectral_ok(c)]
    return out


def _spectral_ok(c):
    s = c[1]
    if isinstance(s, str) and len(s) % 2 and len(set(s[:-1])) < 2:
        return False
    return True
