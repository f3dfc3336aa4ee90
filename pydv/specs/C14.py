from pydv.spec import *


def spec(rep, kind):
    inp = Input()
    n, H = inp.n, inp.H
    if kind == "given":
        m0 = z3.Int("m")
        kw, hyps = {"blocksize": m0}, [m0 >= 1, m0 <= n]
    else:
        f = floor(fn("LOG2", real(n))) - 3
        m0 = z3.If(f > 2, f, lift(2))
        kw, hyps = {}, []

    def sampler(rng):
        e = inp.env(sample_bits(rng, rng.randint(2, 20)))
        e["m"] = rng.randint(1, min(6, e["n"]))
        return e

    def body(g):
        g.eq("blocksize", g.attr("blocksize"), m0)
        m = lift(g.attr("blocksize"))
        c = lambda k: H(z3.If(k >= n, k - n, k))
        same = lambda w, i, k: All(0, w, lambda j: c(i + j) == c(k + j))
        nu = lambda w, i: Sum(0, n, lambda k: same(w, i, k))
        first = lambda w, i: All(0, i, lambda k: z3.Not(same(w, i, k)))

        def psi2(w):
            squares = Sum(0, n, lambda i: z3.If(first(w, i), nu(w, i) * nu(w, i), 0))
            return z3.If(w > 0, pow2(w) / real(n) * real(squares) - real(n), real(0))
        psi = [psi2(m), psi2(m - 1), psi2(m - 2)]
        g.eq("heads", g.attr("heads"), FaceV(True))
        g.eq("tails", g.attr("tails"), FaceV(False))
        ns, pc = g.attr("normalised_sums"), g.attr("permutation_counts")
        got = []
        for name, w, v in zip(("m", "m-1", "m-2"), (m, m - 1, m - 2), psi):
            got.append(real(lift(g.do(lambda: g.M.getitem(ns, w)))))
            g.eq(f"psi^2 of {name}", got[-1], v)
            d = g.do(lambda: g.M.getitem(pc, w))
            at = fresh("at")
            win = TupV(SymSeq(w, lambda j: FaceV(c(at + lift(j)))))
            g.holds(f"count of every pattern of {name}", z3.Implies(z3.And(0 <= at, at < n, w > 0), lift(g.do(lambda: g.M.getitem(d, win))) == nu(w, at)))
        r = g.attr("results")
        keys = g.do(lambda: g.M.concrete(r))
        g.eq("results in order", keys, ("∇ψ²ₘ", "∇²ψ²ₘ"))
        for k, d, e in zip(keys, (got[0] - got[1], got[0] - 2 * got[1] + got[2]), (2, 3)):  # (got = psi, proved above)
            sub = g.do(lambda: g.M.getitem(r, k))
            d = z3.If(d >= 0, d, real(0))
            g.eq(f"statistic {k}", g.attr("statistic", sub), d)
            g.eq(f"p {k}", g.attr("p", sub), igamc(pow2(m - e), d / 2))
    M = machine()
    call_test(rep, "serial", inp, kw, body, M=M, hyps=hyps, sampler=sampler, label=f"serial ({kind} blocksize)")


def prove(rep):
    spec(rep, "given")
    spec(rep, "omitted")
