from pydv.spec import *


def spec(rep, kind):
    inp = Input()
    n, H = inp.n, inp.H
    if kind == "given":
        m0 = z3.Int("m")
        kw, hyps = {"blocksize": m0}, [m0 >= 1, m0 <= n]
    else:
        f = floor(fn("LOG2", real(n))) - 6
        m0 = z3.If(f > 2, f, lift(2))
        kw, hyps = {}, []

    def sampler(rng):
        e = inp.env(sample_bits(rng, rng.randint(2, 20)))
        e["m"] = rng.randint(1, min(6, e["n"]))
        return e

    def body(g):
        g.eq("heads", g.attr("heads"), FaceV(True))
        g.eq("tails", g.attr("tails"), FaceV(False))
        g.eq("blocksize", g.attr("blocksize"), m0)
        m = lift(g.attr("blocksize"))
        c = lambda k: H(z3.If(k >= n, k - n, k))
        same = lambda w, i, k: All(0, w, lambda j: c(i + j) == c(k + j))
        nu = lambda w, i: Sum(0, n, lambda k: same(w, i, k))
        first = lambda w, i: All(0, i, lambda k: z3.Not(same(w, i, k)))
        fr = lambda w, i: real(nu(w, i)) / real(n)

        def phi(w):
            return Sum(0, n, lambda i: z3.If(first(w, i), fr(w, i) * fn("LOG", fr(w, i)), real(0)))
        phis, pc = g.attr("phis"), g.attr("permutation_counts")
        got = []
        for name, w in (("m", m), ("m+1", m + 1)):
            d = g.do(lambda: g.M.getitem(pc, w))
            at = fresh("at")
            win = TupV(SymSeq(w, lambda j: FaceV(c(at + lift(j)))))
            g.holds(f"count of every pattern of {name}", z3.Implies(z3.And(0 <= at, at < n), lift(g.do(lambda: g.M.getitem(d, win))) == nu(w, at)))
            got.append(real(lift(g.do(lambda: g.M.getitem(phis, w)))))
            g.eq(f"phi of {name}", got[-1], phi(w))
        apen = got[0] - got[1]
        g.eq("approx_entropy", g.attr("approx_entropy"), apen)
        d = 2 * real(n) * (fn("LOG", real(2)) - apen)
        d = z3.If(d >= 0, d, real(0))
        g.eq("statistic", g.attr("statistic"), d)
        g.eq("p", g.attr("p"), igamc(pow2(m - 1), d / 2))
    M = machine()
    call_test(rep, "approximate_entropy", inp, kw, body, M=M, hyps=hyps, sampler=sampler, label=f"approximate_entropy ({kind} blocksize)")


def prove(rep):
    spec(rep, "given")
    spec(rep, "omitted")
