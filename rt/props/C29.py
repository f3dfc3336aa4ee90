"""Recommendations."""
from rt.gen import rng_for
from rt.harness import call, need
from rt.props.C03 import Progress
from rt.props.common import MINLEN, NAMES, R
from rt.props.tests15 import params
from rt.seqs import bits, patterns, sequence

from coinflip import _randtests

RULE = "every test on sequences with lengths around its recommendations, with and without a progress context; counted when warnings and failures were compared"

LIM = {"monobit": ("n \u2265 100", 100), "runs": ("n \u2265 100", 100), "cusum": ("n \u2265 100", 100),
       "spectral": ("n \u2265 1000", 1000), "random_excursions": ("n \u2265 1000000", 1000000),
       "random_excursions_variant": ("n \u2265 1000000", 1000000)}


def cases(tier, seed):
    k = 8 if tier == "thorough" else 1
    for t in NAMES:
        ns = [*range(max(2, MINLEN[t]), max(2, MINLEN[t]) + 30), 98, 99, 100, 101, 150, 151, 152, 153, 287, 288, 289, 511, 512, 998, 999, 1000, 1001, 1002]
        ns = [n for n in ns if n >= MINLEN[t]]
        if t in ("random_excursions", "random_excursions_variant"):
            ns += [999999, 1000000]
        for n in ns:
            for i in range(k * (4 if n < 1100 else 1)):
                yield (t, n, seed, i)


def run(case):
    t, n, seed, i = case
    rng = rng_for("C29", *case)
    b = bits(next(patterns("C29", case, [n])))
    kw = params(t, n, rng) if i % 2 and n < 400 else {}
    if t == "spectral" and n % 2 and len(set(b[:-1])) < 2:
        b[0] = not b[1]
    seq = [int(x) for x in b]
    o = call(getattr(R, t), seq, **kw)
    need(o.error is None, f"{t} raised {o.error!r}")
    fails = list(o.result.failures)
    want = 1 if fails else 0
    need(len(o.warns) == want, f"{t} of length {n} {kw}: {len(o.warns)} warnings with failures {fails}")
    for f in fails:
        need(f in str(o.warns[0].message), f"{t}: the warning does not name {f!r}: {o.warns[0].message}")
    if t in LIM:
        lab, lim = LIM[t]
        need(fails == ([lab] if n < lim else []), f"{t} of length {n}: failures {fails}")
    c = call(getattr(_randtests, t), seq, ctx=(Progress(), 0), **kw)
    need(c.error is None and not c.warns and list(c.result.failures) == fails, f"{t} with a progress context: {c.warns} {c.error} {c.result and c.result.failures}, without: {fails}")
