"""Input gate."""
import numpy as np
import pandas as pd

from rt.gen import family, rng_for
from rt.harness import Bad, call, need
from rt.props.common import MINLEN, NAMES, R
from rt.seqs import CONTAINERS, LABELS, all_short, bits, kind_of, patterns, sequence, show

RULE = "every test x every length around its minimum x sequences with 0, 1, 2, 3 and more distinct values, with and without missing values (None, NaN, NaT, pd.NA), in varied containers; counted when acceptance or the raised error class was compared"

MIN = {"frequency_within_block": 8, "binary_matrix_rank": 4, "maurers_universal": 4}
MISSING = [None, float("nan"), np.nan, pd.NaT]


def cases(tier, seed):
    k = 6 if tier == "thorough" else 1
    for t in NAMES:
        for n in [*range(0, 14), 126, 127, 128, 129, 200]:
            for nd in range(0, 5):
                for miss in range(0, 3):
                    for rep in range(k if n else 1):
                        if nd <= n:
                            yield (t, "vals", n, nd, miss, (seed, rep))
        for n in range(2, 9):
            for s in all_short([n]):
                yield (t, "bin", s, None, None, None)
        rng = rng_for("C01", seed, t)
        for i in range(60 * k):
            n = rng.choice([rng.randint(2, 40), rng.randint(100, 400)])
            yield (t, "bin", next(patterns("C01", (seed, t, i), [n])), *kind_of(rng), None)
    for L in range(1, 25):
        yield ("maurers_universal", "mau", L, None, None, None)


def expect(t, n, nd, miss):
    ex = R.exceptions
    if miss or nd != 2:
        return ex.NonBinarySequenceError
    if n < MIN.get(t, 2):
        return ("min", n, MIN.get(t, 2))
    if t == "longest_runs" and n < 128:
        return ex.TestNotImplementedError
    return None


def judge(o, want, what):
    ex = R.exceptions
    if want is None:
        need(o.error is None, f"{what} was rejected with {type(o.error).__name__}: {o.error}")
    elif isinstance(want, tuple):
        e = o.error
        need(e is not None, f"{what} was accepted")
        need(isinstance(e, ex.TestInputError) and not isinstance(e, (ex.NonBinarySequenceError)), f"{what} raised {type(e).__name__}: {e}")
        need(str(want[1]) in str(e) and str(want[2]) in str(e), f"{what}: the error does not report {want[1:]}: {e}")
    else:
        need(o.error is not None, f"{what} was accepted")
        need(isinstance(o.error, want), f"{what} raised {type(o.error).__name__}: {o.error}, should be {want.__name__}")


def run(case):
    t, kind = case[:2]
    fn = getattr(R, t)
    if kind == "vals":
        _, _, n, nd, miss, key = case
        rng = rng_for(*case)
        pool = rng.choice([[3, 1, 4, 5], ["b", "a", "c", "z"], [0.5, 2.0, -1.0, 9.0], [1, 0, 2, 7]])[:nd]
        if nd == 0:
            vals = [rng.choice(MISSING)] * n if miss else []
            if vals == [] and n:
                return
            n = len(vals)
        else:
            vals = pool + [rng.choice(pool) for _ in range(n - nd)]
            if nd == 2 and n >= 4:
                vals[:4] = [pool[0], pool[1], pool[0], pool[1]]  # spectral stays binary when truncated
            if miss == 0:
                if not (t == "spectral" and nd == 2):
                    rng.shuffle(vals)
            else:
                for _ in range(miss):
                    vals.insert(rng.randrange(len(vals) + 1), rng.choice(MISSING))
                n = len(vals)
        if t == "spectral" and nd == 2 and not miss and n % 2 and len(set(vals[:-1])) < 2:
            want = R.exceptions.NonBinarySequenceError
        else:
            want = expect(t, n, nd, miss or nd == 0)
        seq = vals if rng.random() < .6 else tuple(vals) if rng.random() < .5 else pd.Series(vals, dtype=object if not vals else None)
        judge(call(fn, seq), want, f"{t} of {vals!r}"[:300])
    elif kind == "mau":
        L = case[2]
        seq = bits("01" * 200)
        o = call(fn, seq, blocksize=L, init_nblocks=2)
        judge(o, R.exceptions.TestNotImplementedError if L > 16 else None, f"maurers_universal with blocksize {L}")
    else:
        _, _, s, lab, con, _ = case
        b = bits(s)
        if t == "spectral" and len(b) % 2 and len(set(b[:-1])) < 2:
            want = R.exceptions.NonBinarySequenceError
        else:
            want = expect(t, len(b), 2, 0)
        judge(call(fn, sequence(b, lab or "int", con or "list")), want, f"{t} of {s} as {lab} {con}")
