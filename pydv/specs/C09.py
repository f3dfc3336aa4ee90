from pydv.spec import *


def prove(rep):
    inp = Input()
    n, H, h = inp.n, inp.H, inp.heads

    def sampler(rng):
        return inp.env(sample_bits(rng, rng.randint(2, 24)))

    m = n - n % 2
    j_ = z3.Int("j_")
    l = lam([j_], z3.If(H(j_), real(1), real(-1)))
    F = lambda i: decl("FFTMOD", z3.ArraySort(I, R), I, I, R)(l, m, i)

    def body(g):
        T = sqrt(real(n) * fn("LOG", Fraction(20)))
        N1 = Sum(0, n / 2, lambda i: F(i) < T)
        N0 = Fraction(95, 100) * real(n) / 2
        s = (real(N1) - N0) / sqrt(real(n) * Fraction(95, 100) * Fraction(5, 100) / 4)
        g.eq("heads", g.attr("heads"), FaceV(True))
        g.eq("tails", g.attr("tails"), FaceV(False))
        g.eq("n", g.attr("n"), n)
        g.eq("threshold", g.attr("threshold"), T)
        g.eq("nbelow_expect", g.attr("nbelow_expect"), N0)
        g.eq("peaks", g.attr("peaks"), SymSeq(n / 2, F))
        g.eq("nbelow", g.attr("nbelow"), N1)
        g.eq("diff", g.attr("diff"), real(N1) - N0)
        g.eq("statistic", g.attr("statistic"), s)
        g.eq("p", g.attr("p"), erfc(zabs(s) / sqrt(2)))
    call_test(rep, "spectral", inp, {}, body, sampler=sampler,
              allow=[("NonBinaryTruncatedSequenceError", z3.And(n % 2 == 1, z3.Or(All(0, n - 1, lambda i: H(i)), All(0, n - 1, lambda i: z3.Not(H(i))))))])
