"""berlekamp_massey."""
from rt import oracle as O
from rt.gen import family, rng_for
from rt.harness import need

from coinflip.algorithms import berlekamp_massey

RULE = "every sequence up to length 12 (thorough: 15) against the least L for which the linear system of the definition has a solution, and random and LFSR-generated ones up to length 400 against an independent implementation validated on the former; counted per sequence"


def cases(tier, seed):
    top = 15 if tier == "thorough" else 12
    for n in range(1, top + 1):
        for v in range(0, 2 ** n, 128):
            yield ("all", n, v)
    for i in range(30000 if tier == "thorough" else 5000):
        yield ("rnd", seed, i)


def check(s, w, what=""):
    got = berlekamp_massey(s)
    need(got == w, f"berlekamp_massey({s}) is {got!r}, should be {w}")


def run(case):
    if case[0] == "all":
        _, n, v0 = case
        for v in range(v0, min(v0 + 128, 2 ** n)):
            s = [v >> j & 1 for j in range(n)]
            w = O.lfsr_length(s)
            need(O.bm(s) == w, f"oracles disagree on {s}")
            check(tuple(s), w)
            if v % 7 == 0:
                check(s, w)
        return
    rng = rng_for("C28", *case)
    n = rng.choice([rng.randint(1, 30), rng.randint(1, 120), rng.randint(1, 400)])
    k = rng.random()
    if k < .3:
        s = [int(x) for x in family(n, rng, rng.randrange(12))]
    elif k < .6:
        z = rng.randint(0, n)
        s = [0] * z + [rng.getrandbits(1) for _ in range(n - z)]
    else:
        L = rng.randint(1, 30)
        c = [rng.getrandbits(1) for _ in range(L)]
        s = [rng.getrandbits(1) for _ in range(L)][:n]
        while len(s) < n:
            s.append(sum(a & b for a, b in zip(c, s[::-1])) & 1)
        if rng.random() < .3:
            s[-1] ^= 1
    w = O.bm(s)
    if n <= 40:
        need(O.lfsr_length(s) == w, f"oracles disagree on {s}")
    check(tuple(s) if rng.random() < .5 else s, w)
