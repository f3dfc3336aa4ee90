from pydv.spec import *


def spec(rep, kind):
    inp = Input()
    n, H = inp.n, inp.H
    if kind == "given":
        M = M0 = z3.Int("M")
        kw = {"blocksize": M}
        hyps = [M >= 1, M <= n]
    else:
        c = ceil(real(n) / 100)
        c = z3.If(c > 20, c, lift(20))
        M0 = z3.If(n < 100, lift(8), z3.If(z3.And(n / c >= 100, n > 5000), n / 50, c))
        kw, hyps = {}, []

    def sampler(rng):
        e = inp.env(sample_bits(rng, rng.randint(8, 40) if kind == "given" or rng.random() < .6 else rng.randint(90, 300)))
        e["M"] = rng.randint(1, max(1, e["n"]))
        return e

    def body(g):
        M = g.resolve(M0)
        N = n / M
        count = lambda b: Sum(0, M, lambda j: H(b * M + j))
        stat = 4 * real(M) * Sum(0, N, lambda b: (real(count(b)) / real(M) - lift(Fraction(1, 2))) * (real(count(b)) / real(M) - lift(Fraction(1, 2))))
        g.eq("heads", g.attr("heads"), FaceV(True))
        g.eq("tails", g.attr("tails"), FaceV(False))
        g.eq("blocksize", g.attr("blocksize"), M)
        g.eq("nblocks", g.attr("nblocks"), N)
        g.eq("counts", g.attr("counts"), SymSeq(N, count))
        g.eq("statistic", g.attr("statistic"), stat)
        g.eq("p", g.attr("p"), igamc(real(N) / 2, stat / 2))
    call_test(rep, "frequency_within_block", inp, kw, body, hyps=hyps, sampler=sampler,
              allow=[("MinimumInputError", n < 8)], label=f"frequency_within_block ({kind} blocksize)")


def prove(rep):
    spec(rep, "given")
    spec(rep, "omitted")
