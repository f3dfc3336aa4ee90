"""Comparison of a result of the real code with the oracle, test by test."""
import math

import numpy as np

from rt import oracle as O
from rt.harness import Bad, call, close, need, need_close, need_eq, need_list, ok
from rt.seqs import LABELS, materialise, sequence

from coinflip import randtests as R


def faces(res, label):
    t, h = LABELS[label]
    need(type(res.heads) in (type(h),) or res.heads == h, f"heads is {res.heads!r}, should be {h!r}")
    need(res.heads == h and res.tails == t, f"heads, tails are {res.heads!r}, {res.tails!r}, should be {h!r}, {t!r}")


def head_of(label):
    return LABELS[label][1]


def stat_p(res, want):
    need_close("statistic", res.statistic, want["statistic"])
    need_close("p", res.p, want["p"])


def chisq_p(res, obs, exp, rel=1e-7):
    if any(e <= 0 for e in exp):
        raise SkipCase
    s, p = O.chisq(obs, exp)
    need_close("statistic", res.statistic, s, rel=rel)
    need_close("p", res.p, p, rel=rel)


class SkipCase(Exception):
    pass


def c_monobit(b, res, kw, label):
    w = O.monobit(b)
    stat_p(res, w)
    need_eq("n", res.n, w["n"])
    need_eq("diff", res.diff, w["diff"])
    need_eq("heads count", (res.counts.heads.value, res.counts.heads.count), (res.heads, w["nheads"]))
    need_eq("tails count", (res.counts.tails.value, res.counts.tails.count), (res.tails, w["ntails"]))
    need_eq("max count", res.counts.max.count, max(w["nheads"], w["ntails"]))
    need_eq("min count", res.counts.min.count, min(w["nheads"], w["ntails"]))


def c_frequency_within_block(b, res, kw, label):
    w = O.frequency_within_block(b, kw.get("blocksize"))
    need_eq("blocksize", res.blocksize, w["blocksize"])
    need_eq("nblocks", res.nblocks, w["nblocks"])
    need_list("counts", res.counts, w["counts"])
    stat_p(res, w)


def c_runs(b, res, kw, label):
    w = O.runs(b)
    for k in ("n", "nheads", "ntails"):
        need_eq(k, getattr(res, k), w[k])
    for k in ("prop_heads", "prop_tails"):
        need_close(k, getattr(res, k), w[k])
    stat_p(res, w)


def c_longest_runs(b, res, kw, label):
    w = O.longest_runs(b)
    need_eq("blocksize", res.blocksize, w["blocksize"])
    need_eq("nblocks", res.nblocks, w["nblocks"])
    need_eq("class counts", dict(res.maxlen_bins), w["bins"])
    need_list("expected", res.expected_bincounts, w["expected_bincounts"], close)
    stat_p(res, w)


def c_binary_matrix_rank(b, res, kw, label):
    w = O.binary_matrix_rank(b, kw.get("matrix_dimen"))
    for k in ("nrows", "ncols", "fullrank"):
        need_eq(k, getattr(res, k), w[k])
    c, e = res.rankcounts, res.expected_rankcounts
    need_eq("rank counts", [c.remaining, c.runnerup, c.full], w["counts"])
    need_list("expected", [e.remaining, e.runnerup, e.full], w["expected"], close)
    stat_p(res, w)


def c_spectral(b, res, kw, label):
    w = O.spectral(b)
    need_eq("n", res.n, len(b))
    need_list("peaks", res.peaks, w["peaks"], lambda a, c: close(a, c, rel=1e-6, abs_=1e-6 * max(1, len(b) ** .5)))
    need_close("threshold", res.threshold, w["threshold"])
    need_close("nbelow_expect", res.nbelow_expect, w["nbelow_expect"])
    for alt in w["alternatives"]:
        if res.nbelow == alt["nbelow"]:
            need_close("diff", res.diff, alt["diff"])
            stat_p(res, alt)
            return
    raise Bad(f"nbelow is {res.nbelow!r}, should be one of {[a['nbelow'] for a in w['alternatives']]}")


def c_non_overlapping_template_matching(b, res, kw, label):
    m, M = res.template_size, res.blocksize
    if kw.get("template_size"):
        need_eq("template_size", m, kw["template_size"])
    if kw.get("blocksize"):
        need_eq("blocksize", M, kw["blocksize"])
    need(1 <= m and 1 <= M <= len(b), f"template size {m}, blocksize {M}")
    w = O.non_overlapping(b, m, M)
    need_eq("nblocks", res.nblocks, w["nblocks"])
    need_close("matches_expect", res.matches_expect, w["matches_expect"])
    need_close("variance", res.variance, w["variance"])
    t, h = LABELS[label]
    need_eq("number of templates", len(res.results), len(w["results"]))
    for tpl, W, s, p in w["results"]:
        key = tuple(h if x else t for x in tpl)
        need(key in res.results, f"no template {key}")
        sub = res.results[key]
        need_eq(f"template of {key}", tuple(sub.template), key)
        need_list(f"matches of {key}", sub.block_matches, W)
        need_list(f"differences of {key}", sub.match_diffs, [x - w["matches_expect"] for x in W], close)
        need_close(f"statistic of {key}", sub.statistic, s)
        need_close(f"p of {key}", sub.p, p)


def c_overlapping_template_matching(b, res, kw, label):
    m, M, K = res.template_size, res.blocksize, res.matches_ceil
    for k in ("template_size", "blocksize", "matches_ceil"):
        if kw.get(k):
            need_eq(k, getattr(res, k), kw[k])
    need(1 <= m and 1 <= M <= len(b) and K >= 1, f"template size {m}, blocksize {M}, ceil {K}")
    w = O.overlapping(b, m, M, K)
    need_eq("nblocks", res.nblocks, w["nblocks"])
    need_list("tallies", res.tallies, w["tallies"])
    need_list("expected tallies", res.expected_tallies, w["expected_tallies"], lambda a, c: close(a, c, rel=1e-6, abs_=1e-9))
    need_eq("template", list(res.template), [res.heads] * m)
    if min(w["expected_tallies"]) > 1e-6:
        chisq_p(res, w["tallies"], w["expected_tallies"], rel=1e-5)


def c_maurers_universal(b, res, kw, label):
    w = O.maurers_universal(b, kw.get("blocksize"), kw.get("init_nblocks"))
    for k in ("blocksize", "init_nblocks", "segment_nblocks"):
        need_eq(k, getattr(res, k), w[k])
    need_close("mean", res.mean_expect, w["mean_expect"])
    need_close("variance", res.variance, w["variance"])
    stat_p(res, w)


def c_linear_complexity(b, res, kw, label):
    w = O.linear_complexity(b, kw.get("blocksize"))
    need_eq("blocksize", res.blocksize, w["blocksize"])
    need_close("mean", res.mean_expect, w["mean_expect"])
    need_eq("class counts", dict(res.variance_bins), w["bins"])
    need_list("expected", res.expected_bincounts, w["expected_bincounts"], close)
    stat_p(res, w)


def c_serial(b, res, kw, label):
    w = O.serial(b, kw.get("blocksize"))
    need_eq("blocksize", res.blocksize, w["blocksize"])
    subs = list(res.results.values())
    need_eq("number of sub-tests", len(subs), 2)
    tol = 1e-9 * len(b) * 2
    for nm, sub, s, p in (("first", subs[0], w["first"], w["p1"]), ("second", subs[1], w["second"], w["p2"])):
        need_close(f"{nm} statistic", sub.statistic, s, abs_=tol)
        need_close(f"{nm} p", sub.p, p, rel=1e-5, abs_=1e-7)


def c_approximate_entropy(b, res, kw, label):
    w = O.approximate_entropy(b, kw.get("blocksize"))
    need_eq("blocksize", res.blocksize, w["blocksize"])
    need_close("approx_entropy", res.approx_entropy, w["approx_entropy"], abs_=1e-9)
    need_close("statistic", res.statistic, w["statistic"], abs_=1e-9 * len(b) * 2)
    need_close("p", res.p, w["p"], rel=1e-5, abs_=1e-7)


def c_cusum(b, res, kw, label):
    w = O.cusum(b, kw.get("reverse", False))
    need_eq("n", res.n, w["n"])
    need_eq("reverse", bool(res.reverse), bool(w["reverse"]))
    need_list("walk", res.walk, w["walk"])
    stat_p(res, w)


def _multi(res, w):
    need_eq("n", res.n, w["n"])
    need_list("walk", res.walk, w["walk"])
    need_eq("states", list(res.results), [x for x, _, _ in w["results"]])
    for x, s, p in w["results"]:
        sub = res.results[x]
        need_eq("state", sub.state, x)
        need_close(f"statistic of {x}", sub.statistic, s)
        need_close(f"p of {x}", sub.p, p)


def c_random_excursions(b, res, kw, label):
    _multi(res, O.random_excursions(b))


def c_random_excursions_variant(b, res, kw, label):
    _multi(res, O.random_excursions_variant(b))


CHECKS = {n: globals()["c_" + n] for n in R.__all__ if n != "exceptions"}
NAMES = list(CHECKS)
MINLEN = {n: 2 for n in NAMES}
MINLEN.update(frequency_within_block=8, binary_matrix_rank=4, maurers_universal=4, longest_runs=128)


def compare(test, spec, kw, label="int", container="list"):
    b = materialise(spec)
    seq = sequence(b, label, container)
    if test == "spectral" and len(b) % 2 and len(set(b[:-1])) < 2:
        o = call(R.spectral, seq)
        need(isinstance(o.error, R.exceptions.NonBinarySequenceError), f"gave {o.result or o.error!r} on a sequence that is constant when truncated")
        return
    res = ok(getattr(R, test), seq, **kw)
    faces(res, label)
    try:
        CHECKS[test](b, res, kw, label)
    except SkipCase:
        pass


def run_test_case(case):
    test, spec, kw, label, container = case
    compare(test, spec, dict(kw), label, container)
