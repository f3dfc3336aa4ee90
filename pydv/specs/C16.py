from pydv.spec import *


def spec(rep, rev):
    inp = Input()
    n, H = inp.n, inp.H
    step = (lambda j: z3.If(H(n - 1 - j), 1, -1)) if rev else (lambda j: z3.If(H(j), 1, -1))
    walk = lambda i: Sum(0, i, step)

    def sampler(rng):
        return inp.env(sample_bits(rng, rng.randint(2, 16)))

    def body(g):
        z = Max(0, n + 1, 0, lambda i: zabs(walk(i)))
        zr, nr = real(z), real(n)
        Phi = lambda x: fn("NORMCDF", x)
        s = sqrt(nr)
        a1, a2 = floor((1 - nr / zr) / 4), floor((-nr / zr - 3) / 4)
        b = floor((nr / zr - 1) / 4) + 1
        p = (1 - Sum(a1, b, lambda k: Phi((4 * real(k) + 1) * zr / s) - Phi((4 * real(k) - 1) * zr / s))
             + Sum(a2, b, lambda k: Phi((4 * real(k) + 3) * zr / s) - Phi((4 * real(k) + 1) * zr / s)))
        p = z3.If(p < 0, real(0), z3.If(p > 1, real(1), p))
        g.eq("heads", g.attr("heads"), FaceV(True))
        g.eq("tails", g.attr("tails"), FaceV(False))
        g.eq("n", g.attr("n"), n)
        g.eq("walk", g.attr("walk"), SymSeq(n + 1, walk))
        g.eq("reverse", g.attr("reverse"), rev)
        g.eq("statistic", g.attr("statistic"), z)
        g.eq("p", g.attr("p"), p)
    call_test(rep, "cusum", inp, {"reverse": rev}, body, sampler=sampler, label=f"cusum (reverse={rev})")


def prove(rep):
    spec(rep, False)
    spec(rep, True)
