from pydv.spec import *


def spec(rep, kind, K=5):
    inp = Input()
    n, H = inp.n, inp.H
    if kind == "given":
        M0, m0 = z3.Int("M"), z3.Int("m")
        kw, hyps = {"blocksize": M0, "template_size": m0, "matches_ceil": K}, [m0 >= 1, m0 <= M0, M0 <= n]
    else:
        r = floor(sqrt(real(n)))
        M0 = z3.If(r > 2, r, lift(2))
        r = floor(sqrt(real(M0)))
        r = z3.If(r > 2, r, lift(2))
        m0 = z3.If(r < 12, r, lift(12))
        kw, hyps = {}, []

    def sampler(rng):
        e = inp.env(sample_bits(rng, rng.randint(2, 40)))
        e["M"] = rng.randint(1, min(20, e["n"]))
        e["m"] = rng.randint(1, min(4, e["M"]))
        return e

    def probs(M, m):
        eta = (real(M) - real(m) + 1) / pow2(m) / 2
        p = lambda u: eta * fn("EXP", -2 * eta) / real(pow2(u)) * fn("HYP1F1", real(u) + 1, 2, eta)
        total = sum((p(lift(u)) for u in range(1, K)), fn("EXP", -eta))
        return eta, p, 1 - total
    # the probabilities of at least K matches: positive (their sum over all counts is 1)
    positive = probs(M0, m0)[2] > 0

    def body(g):
        M, m = g.resolve(M0), g.resolve(m0)
        N = n / M
        g.given("there is a block", N >= 1)
        eta, p, last = probs(M, m)
        matches = lambda b: Sum(0, M - m + 1, lambda s: All(0, m, lambda j: H(b * M + s + j)))
        nu = lambda k: Sum(0, N, lambda b: matches(b) == k)
        nu_last = Sum(0, N, lambda b: matches(b) >= K)
        pi = lambda k: fn("EXP", -eta) if k == 0 else last if k == K else p(lift(k))
        g.eq("heads", g.attr("heads"), FaceV(True))
        g.eq("tails", g.attr("tails"), FaceV(False))
        g.eq("blocksize", g.attr("blocksize"), M)
        g.eq("template_size", g.attr("template_size"), m)
        g.eq("nblocks", g.attr("nblocks"), N)
        g.eq("matches_ceil", g.attr("matches_ceil"), K)
        g.eq("lambda", g.attr("lambda_"), 2 * eta)
        g.eq("template", g.attr("template"), SymSeq(m, lambda i: FaceV(True)))
        obs = [nu(k) for k in range(K)] + [nu_last]
        exp = [real(N) * pi(k) for k in range(K + 1)]
        g.eq("tallies", g.attr("tallies"), obs)
        g.eq("expected_tallies", g.attr("expected_tallies"), exp)
        stat = z3.Sum(*[(real(o) - e) * (real(o) - e) / e for o, e in zip(obs, exp)])
        g.eq("statistic", g.attr("statistic"), stat)
        g.eq("p", g.attr("p"), decl("CHI2SF", I, R, R)(lift(K), stat))
    m = machine()
    m.unrolled_limit = 7
    call_test(rep, "overlapping_template_matching", inp, kw, body, M=m, hyps=hyps + [positive], sampler=sampler, label=f"overlapping_template_matching ({kind} parameters, {K} classes)")


def prove(rep):
    rep.assumptions.append("the probabilities of 0, 1, .. matches (Polya-Aeppli) are positive and sum to 1")
    for K in (1, 2, 3, 4, 5, 6):
        spec(rep, "given", K)
    rep.bounded.append("matches_ceil from 1 to 6 (5 is the default); blocksize, template_size and the sequence are arbitrary")
    spec(rep, "omitted")
