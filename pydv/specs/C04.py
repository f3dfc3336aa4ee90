from pydv.spec import *


def sampler(inp):
    def f(rng):
        return inp.env(sample_bits(rng, rng.randint(2, 24)))
    return f


def prove(rep):
    inp = Input()
    n, h = inp.n, inp.heads
    t = n - h

    def body(g):
        d = z3.If(h >= t, h - t, t - h)
        s = real(d) / sqrt(n)
        g.eq("n", g.attr("n"), n)
        g.eq("heads", g.attr("heads"), FaceV(True))
        g.eq("tails", g.attr("tails"), FaceV(False))
        g.eq("count of heads", g.attr("counts.heads.count"), h)
        g.eq("count of tails", g.attr("counts.tails.count"), t)
        g.eq("counted face heads", g.attr("counts.heads.value"), FaceV(True))
        g.eq("counted face tails", g.attr("counts.tails.value"), FaceV(False))
        g.eq("diff", g.attr("diff"), d)
        g.eq("statistic", g.attr("statistic"), s)
        g.eq("p", g.attr("p"), erfc(s / sqrt(2)))
    call_test(rep, "monobit", inp, {}, body, sampler=sampler(inp))
