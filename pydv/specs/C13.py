from pydv.spec import *

PROBS = ["0.010417", "0.03125", "0.125", "0.5", "0.25", "0.0625", "0.020833"]


def bm_term(n, f):
    j = fresh("j")
    l = lam([j], simp(lift(f(j))))
    return decl("BM", l.sort(), I, I)(l, lift(n))


def contract_bm(M, a, k):
    """berlekamp_massey (C28): here only: a function of the bits it is given"""
    s = seq_of(M.models.collect_seq(M, a[0] if a else k["sequence"]))
    if s.guard is not None:
        raise Unsupported("conditional bits")

    def bit(j):
        v = s.get(j)
        if not is_num(v):
            raise Unsupported("bits")
        v = lift(v)
        return as_int(v) if z3.is_bool(v) else v
    M.oblige("berlekamp_massey of at least one bit", lift(s.n) >= 1)
    return bm_term(s.n, bit)


def spec(rep, kind):
    inp = Input()
    n, H = inp.n, inp.H
    if kind == "given":
        L = z3.Int("M")
        kw, hyps = {"blocksize": L}, [L >= 1, L <= n]
    else:
        r = floor(sqrt(real(n)))
        L = z3.If(n >= 200000, lift(1000), z3.If(n >= 100000, lift(500), z3.If(r > 2, r, lift(2))))
        kw, hyps = {}, []

    def sampler(rng):
        e = inp.env(sample_bits(rng, rng.randint(2, 40)))
        e["M"] = rng.randint(1, min(12, e["n"]))
        return e

    def body(g):
        M = g.resolve(L)
        N = n / M
        g.given("there is a block", N >= 1)
        sign = z3.If(M % 2 == 0, lift(1), lift(-1))
        mu = real(M) / 2 + real(9 - sign) / 36 - (real(M) / 3 + Fraction(2, 9)) / pow2(M)
        T = lambda b: real(sign) * (real(bm_term(M, lambda j: z3.If(H(b * M + j), 1, 0))) - mu) + Fraction(2, 9)

        def in_class(k, x):
            lo, hi = Fraction(2 * k - 1, 2), Fraction(2 * k + 1, 2)
            return x < hi if k == -3 else x >= lo if k == 3 else z3.And(lo <= x, x < hi)
        nu = [Sum(0, N, lambda b: in_class(k, T(b))) for k in range(-3, 4)]
        pi = [Fraction(p) for p in PROBS]
        stat = sum(((real(v) - real(N) * p) * (real(v) - real(N) * p) / (real(N) * p) for v, p in zip(nu, pi)), lift(Fraction(0)))
        g.eq("heads", g.attr("heads"), FaceV(True))
        g.eq("tails", g.attr("tails"), FaceV(False))
        g.eq("blocksize", g.attr("blocksize"), M)
        g.eq("mean_expect", g.attr("mean_expect"), mu)
        bins = g.attr("variance_bins")
        g.eq("classes in order", g.do(lambda: g.M.concrete(bins)), tuple(range(-3, 4)))
        for k, v in zip(range(-3, 4), nu):
            g.eq(f"count of class {k}", g.do(lambda: g.M.getitem(bins, k)), v)
        g.eq("expected_bincounts", g.attr("expected_bincounts"), [real(N) * p for p in pi])
        g.eq("statistic", g.attr("statistic"), stat)
        g.eq("p", g.attr("p"), decl("CHI2SF", I, R, R)(lift(6), stat))
    m = machine({"coinflip._randtests.complexity.berlekamp_massey": contract_bm})
    m.unrolled_limit = 7
    call_test(rep, "linear_complexity", inp, kw, body, M=m, hyps=hyps, sampler=sampler, label=f"linear_complexity ({kind} blocksize)")


def prove(rep):
    spec(rep, "given")
    spec(rep, "omitted")
