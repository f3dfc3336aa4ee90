"""Purity, history independence, progress context."""
import copy

import numpy as np
import pandas as pd

from rt.gen import rng_for
from rt.harness import Bad, call, close, need, need_list
from rt.props.C02 import nums
from rt.props.common import MINLEN, NAMES, R
from rt.props.tests15 import params
from rt.seqs import CONTAINERS, LABELS, bits, patterns, sequence

from coinflip import _randtests

RULE = "random histories: a test on a sequence in a fresh state, then up to six other tests on other sequences (equal-comparing labels such as True/1/1.0 included), then the same test again, with and without a progress context; counted when all three outcomes and the argument before and after were compared"


class Progress:
    def __init__(self):
        self.calls = 0

    def update(self, task, total=None, advance=None, **kw):
        self.calls += 1


def cases(tier, seed):
    k = 1500 if tier == "thorough" else 160
    for t in NAMES:
        for i in range(k):
            yield (t, seed, i)


LABS = list(LABELS)
TWIN = {"int": (0, 1), "bool": (False, True), "f01": (0.0, 1.0), "np": (np.int64(0), np.int64(1))}


def draw(t, rng, key):
    lo = MINLEN[t]
    n = rng.choice([rng.randint(max(2, lo - 2), lo + 30), rng.randint(lo, lo + 120)])
    b = bits(next(patterns("C03", key, [n])))
    if rng.random() < .5:
        tw = rng.choice(list(TWIN.values()))
        seq = [tw[1] if x else tw[0] for x in b]
        if rng.random() < .4:
            seq = pd.Series(seq)
    else:
        seq = sequence(b, rng.choice(LABS), rng.choice(CONTAINERS))
    kw = params(t, n, rng) if n >= lo else {}
    return seq, kw


def key_of(o):
    if o.error is not None:
        return ("err", type(o.error).__name__, str(o.error))
    r = o.result
    return ("ok", nums(r), (type(r.heads).__name__, repr(r.heads)), (type(r.tails).__name__, repr(r.tails)), list(r.failures), str_fields(r))


def str_fields(r):
    d = {k: v for k, v in vars(r).items() if k not in ("results", "heads", "tails", "failures")}
    return {k: repr(dict(v)) if hasattr(v, "items") and not isinstance(v, pd.Series) else repr(v) for k, v in d.items()}


def same(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "err":
        return a == b
    return len(a[1]) == len(b[1]) and all(close(x, y) or (x != x and y != y) for x, y in zip(a[1], b[1])) and a[2:] == b[2:]


def snapshot(seq):
    if isinstance(seq, pd.Series):
        return ("s", list(seq.index), [(type(x), x) for x in seq], str(seq.dtype), seq.name)
    return ("l", [(type(x), x) for x in seq])


def run(case):
    t = case[0]
    rng = rng_for("C03", *case)
    seq, kw = draw(t, rng, case)
    before = snapshot(seq)
    first = call(getattr(R, t), seq, **kw)
    k1 = key_of(first)
    need(snapshot(seq) == before, f"{t} changed the sequence passed to it: {before} to {snapshot(seq)}")
    hist = []
    for j in range(rng.randint(1, 6)):
        u = rng.choice(NAMES)
        s2, kw2 = draw(u, rng, (case, j))
        call(getattr(R, u), s2, **kw2)
        hist.append((u, list(s2)[:40]))
    if rng.random() < .3:
        # the same pattern under values that compare equal
        call(getattr(R, t), [bool(x) if x in (0, 1) else x for x in seq], **kw)
    again = call(getattr(R, t), seq, **kw)
    need(same(k1, key_of(again)), f"{t} of {list(seq)} {kw} gave {k1} and after {hist} it gives {key_of(again)}"[:1500])
    pr = Progress()
    withctx = call(getattr(_randtests, t), seq, ctx=(pr, 1), **kw)
    need(same(k1, key_of(withctx)), f"{t} of {list(seq)} {kw} gave {k1} and with a progress context {key_of(withctx)}"[:1500])
    need(not withctx.warns, f"{t} warns although a progress context is passed")
    need(snapshot(seq) == before, f"{t} changed the sequence passed to it")
