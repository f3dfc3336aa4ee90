from pydv.spec import *


def prove(rep):
    inp = Input()
    n, h, H = inp.n, inp.heads, inp.H

    def sampler(rng):
        return inp.env(sample_bits(rng, rng.randint(2, 24)))

    def body(g):
        V = 1 + Sum(0, n, lambda i: z3.And(i > 0, H(i) != H(i - 1)))
        q = real(h) / real(n)
        g.eq("heads", g.attr("heads"), FaceV(True))
        g.eq("tails", g.attr("tails"), FaceV(False))
        g.eq("n", g.attr("n"), n)
        g.eq("nheads", g.attr("nheads"), h)
        g.eq("ntails", g.attr("ntails"), n - h)
        g.eq("prop_heads", g.attr("prop_heads"), q)
        g.eq("prop_tails", g.attr("prop_tails"), 1 - q)
        g.eq("statistic", g.attr("statistic"), V)
        nq = real(n)
        g.eq("p", g.attr("p"), erfc(zabs(real(V) - 2 * nq * q * (1 - q)) / (2 * sqrt(2 * nq) * q * (1 - q))))
    call_test(rep, "runs", inp, {}, body, sampler=sampler)
