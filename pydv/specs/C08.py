from pydv.spec import *

RANK = None


def rank_term(rows, cols, f):
    i, j = fresh("i"), fresh("j")
    l = lam([i, j], simp(lift(f(i, j))))
    return decl("RANK", l.sort(), I, I, I)(l, lift(rows), lift(cols))


def contract_rank(M, a, k):
    """matrix_rank: the rank over GF(2) (C27); here only: a function of the matrix, between 0 and both sides"""
    m = M.models.collect_seq(M, a[0] if a else k["matrix"])
    s = seq_of(m)
    i0 = fresh("i")
    row = seq_of(s.get(i0))
    nc = row.n
    if s.guard is not None or any(c.eq(i0) for c in consts_in(lift(nc))):
        raise Unsupported("a matrix with rows of different lengths")

    def bit(i, j):
        v = seq_of(s.get(i)).get(j)
        if not is_num(v):
            raise Unsupported("matrix entries")
        return lift(v) if not z3.is_bool(lift(v)) else as_int(lift(v))
    return rank_term(s.n, nc, bit)


def spec(rep, kind):
    inp = Input()
    n, H = inp.n, inp.H
    if kind == "given":
        nr, nc = z3.Int("nr"), z3.Int("nc")
        kw = {"matrix_dimen": (nr, nc)}
        hyps = [nr >= 1, nc >= 1, nr * nc <= n]
    else:
        bs = z3.If(n / 38 > 4, n / 38, lift(4))
        side = z3.If(n / 1024 > 38, lift(32), floor(sqrt(real(bs))))
        nr = nc = side
        kw, hyps = {}, []

    def sampler(rng):
        e = inp.env(sample_bits(rng, rng.randint(4, 40)))
        e["nr"], e["nc"] = rng.randint(1, 3), rng.randint(1, 3)
        return e

    def body(g):
        r, c = g.resolve(nr), g.resolve(nc)
        N = n / (r * c)
        g.given("there is a block", N >= 1)
        full = zmin(r, c)
        rank = lambda b: rank_term(r, c, lambda i, j: z3.If(H(b * (r * c) + i * c + j), 1, 0))
        F = Sum(0, N, lambda b: rank(b) == full)
        F1 = Sum(0, N, lambda b: rank(b) == full - 1)
        rest = N - F - F1
        g.eq("heads", g.attr("heads"), FaceV(True))
        g.eq("tails", g.attr("tails"), FaceV(False))
        g.eq("nrows", g.attr("nrows"), r)
        g.eq("ncols", g.attr("ncols"), c)
        g.eq("fullrank", g.attr("fullrank"), full)
        g.eq("count of full rank", g.attr("rankcounts.full"), F)
        g.eq("count of rank one below", g.attr("rankcounts.runnerup"), F1)
        g.eq("count of the rest", g.attr("rankcounts.remaining"), rest)
        pi = [Fraction(2888, 10000), Fraction(5776, 10000), Fraction(1336, 10000)]
        for a, p in zip(("full", "runnerup", "remaining"), pi):
            g.eq("expected " + a, g.attr("expected_rankcounts." + a), real(N) * p)
        stat = sum(((real(v) - real(N) * p) * (real(v) - real(N) * p) / (real(N) * p) for v, p in zip((F, F1, rest), pi)), lift(Fraction(0)))
        g.eq("statistic", g.attr("statistic"), stat)
        g.eq("p", g.attr("p"), decl("CHI2SF", I, R, R)(lift(2), stat))
    m = machine({"coinflip._randtests.matrix.matrix_rank": contract_rank})
    m.unrolled_limit = 3
    call_test(rep, "binary_matrix_rank", inp, kw, body, M=m, hyps=hyps, sampler=sampler,
              allow=[("MinimumInputError", n < 4)], label=f"binary_matrix_rank ({kind} dimensions)")


def prove(rep):
    spec(rep, "given")
    spec(rep, "omitted")
