from pydv.spec import *


def prove(rep):
    inp = Input()
    n, H = inp.n, inp.H
    walk = lambda i: Sum(0, i, lambda j: z3.If(H(j), 1, -1))

    def sampler(rng):
        return inp.env(sample_bits(rng, rng.randint(2, 30)))

    # J: the returns to 0, and one more if the walk does not end at 0
    J0 = Sum(1, n + 1, lambda i: walk(i) == 0) + z3.If(walk(n) == 0, 0, 1)
    J = Sum(0, n + 1, lambda i: walk(i) == 0) - z3.If(walk(n) == 0, 1, 0)
    lem = rep.lemma("cycles counted from the first value", inp.hyps, J == J0, sampler)
    lem += rep.lemma("there is a cycle", inp.hyps + lem, J >= 1, sampler)

    def body(g):
        g.eq("heads", g.attr("heads"), FaceV(True))
        g.eq("tails", g.attr("tails"), FaceV(False))
        g.eq("n", g.attr("n"), n)
        g.eq("walk", g.attr("walk"), SymSeq(n + 1, walk))
        states = [x for x in range(-9, 10) if x]
        r = g.attr("results")
        keys = g.do(lambda: g.M.concrete(r))
        g.eq("states in order", keys, tuple(states))
        for x in states:
            sub = g.do(lambda: g.M.getitem(r, x))
            xi = Sum(0, n + 1, lambda i: walk(i) == x)
            g.eq(f"count of state {x}", g.attr("statistic", sub), xi)
            g.eq(f"state {x}", g.attr("state", sub), x)
            g.eq(f"p of state {x}", g.attr("p", sub), erfc(zabs(real(xi) - real(J)) / sqrt(2 * real(J) * (4 * abs(x) - 2))))
    call_test(rep, "random_excursions_variant", inp, {}, body, hyps=lem, sampler=sampler)
