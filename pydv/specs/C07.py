from pydv.spec import *

CLASSES = {0: (128, 6272, 8, 16, [1, 2, 3, 4], ["0.2148", "0.3672", "0.2305", "0.1875"]),
           1: (6272, 750000, 128, 49, [4, 5, 6, 7, 8, 9], ["0.1174", "0.2430", "0.2493", "0.1752", "0.1027", "0.1124"]),
           2: (750000, None, 10000, 75, [10, 11, 12, 13, 14, 15, 16], ["0.0882", "0.2092", "0.2483", "0.1933", "0.1208", "0.0675", "0.0727"])}


def spec(rep, which):
    lo, hi, M, N, cls, pi = CLASSES[which]
    inp = Input()
    n, H = inp.n, inp.H
    pi = [Fraction(x) for x in pi]

    def longest(b):
        def step(i, cur, best):
            c = z3.If(H(b * M + i), cur + 1, 0)
            return [c, zmax(best, c)]
        return Rec([0, 0], step, M)[1]

    def sampler(rng):
        if which:  # (only hints; too long to evaluate results on)
            bits = sample_bits(rng, 600)
            return dict(inp.env(bits), n=lo + rng.randint(0, 200), H=lambda i: bits[i % len(bits)], **{"%max": 10 ** 7, "%limit": 700})
        return dict(inp.env(sample_bits(rng, rng.randint(128, 140))), **{"%max": 140})

    def body(g):
        def in_class(j, x):
            return x <= cls[0] if j == 0 else x >= cls[-1] if j == len(cls) - 1 else x == cls[j]
        nu = [Sum(0, N, lambda b: in_class(j, longest(b))) for j in range(len(cls))]
        stat = sum(((real(v) - N * p) * (real(v) - N * p) / (N * p) for v, p in zip(nu, pi)), lift(Fraction(0)))
        g.eq("heads", g.attr("heads"), FaceV(True))
        g.eq("tails", g.attr("tails"), FaceV(False))
        g.eq("blocksize", g.attr("blocksize"), M)
        g.eq("nblocks", g.attr("nblocks"), N)
        bins = g.attr("maxlen_bins")
        g.eq("classes in order", g.do(lambda: g.M.concrete(bins)), tuple(cls))
        for j, k in enumerate(cls):
            g.eq(f"count of class {k}", g.do(lambda: g.M.getitem(bins, k)), nu[j])
        g.eq("expected_bincounts", g.attr("expected_bincounts"), [N * p for p in pi])
        g.eq("statistic", g.attr("statistic"), stat)
        g.eq("p", g.attr("p"), decl("CHI2SF", I, R, R)(lift(len(cls) - 1), stat))
    m = machine()
    m.unrolled_limit = 3
    call_test(rep, "longest_runs", inp, {}, body, M=m, hyps=[n >= lo] + ([n < hi] if hi else []), sampler=sampler, label=f"longest_runs (blocks of {M})")


def prove(rep):
    inp = Input()
    call_test(rep, "longest_runs", inp, {}, lambda g: g.holds("no result below 128 values", False), hyps=[inp.n < 128],
              allow=[("TestNotImplementedError", inp.n < 128)], label="longest_runs (short)", needs_result=False)
    for which in CLASSES:
        spec(rep, which)
