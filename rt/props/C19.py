"""p-values in the unit interval, no numerical failure."""
import math
import numbers

from rt.gen import rng_for
from rt.harness import call, need
from rt.props import tests15
from rt.props.common import MINLEN, NAMES, R
from rt.seqs import LABELS, materialise, sequence

RULE = "the cases of the fifteen tests (small exhaustive, degenerate, regular and random sequences, all valid parameters); counted when each p-value was looked at"


def cases(tier, seed):
    for t in NAMES:
        cs = [c for c in tests15.cases(t, tier, seed + 1000) if isinstance(c[1], str) or c[1][1] <= 100000]
        if tier != "thorough":
            cs = cs[:: max(1, len(cs) // 2600)]
        yield from cs


def run(case):
    t, spec, kw, lab, con = case
    b = materialise(spec)
    kw = dict(kw)
    if t == "overlapping_template_matching" and kw:
        M, m, K = kw["blocksize"], kw["template_size"], kw.get("matches_ceil", 5)
        # the chi-square test needs positive expected tallies: those of the formula, at the precision of floats
        from rt import oracle as O
        if min(O.overlapping(b, m, M, K)["expected_tallies"]) <= 1e-7:
            return
    o = call(getattr(R, t), sequence(b, lab, con), **kw)
    if o.error is not None:
        need(isinstance(o.error, R.exceptions.TestError), f"{t} of {spec} {kw} failed with {type(o.error).__name__}: {o.error}")
        return
    r = o.result
    ps = [s.p for s in r.results.values()] if hasattr(r, "results") else [r.p]
    sts = [s.statistic for s in r.results.values()] if hasattr(r, "results") else [r.statistic]
    for p in ps:
        need(isinstance(p, numbers.Real), f"{t} of {spec} {kw}: p-value {p!r} is not a number")
        p = float(p)
        need(not math.isnan(p) and 0 <= p <= 1, f"{t} of {spec} {kw}: p-value {p!r}")
    for s in sts:
        need(math.isfinite(float(s)), f"{t} of {spec} {kw}: statistic {s!r}")
