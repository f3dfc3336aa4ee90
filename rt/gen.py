"""Deterministic input families (lists of booleans; True = the larger value)."""
import random


def de_bruijn(k):
    a, seq = [0] * k * 2, []

    def db(t, p):
        if t > k:
            if k % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, 2):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return [bool(x) for x in seq]


def fix(b):
    """force both values"""
    if len(b) >= 2 and len(set(b)) < 2:
        b = list(b)
        b[-1] = not b[-1]
    return b


def family(n, rng, i):
    """the i-th kind of sequence of length n"""
    k = i % 12
    if k == 0:
        b = [rng.random() < .5 for _ in range(n)]
    elif k == 1:
        p = rng.choice([.03, .1, .25, .75, .9, .97])
        b = [rng.random() < p for _ in range(n)]
    elif k == 2:  # sticky / oscillating Markov
        p = rng.choice([.05, .2, .35, .7, .9])
        b, x = [], rng.random() < .5
        for _ in range(n):
            if rng.random() < p:
                x = not x
            b.append(x)
    elif k == 3:  # periodic
        m = rng.randint(1, 9)
        pat = [rng.random() < .5 for _ in range(m)]
        b = [pat[j % m] for j in range(n)]
    elif k == 4:  # one odd value out
        v = rng.random() < .5
        b = [v] * n
        b[rng.choice([0, n - 1, rng.randrange(n)])] = not v
    elif k == 5:  # halves
        c = rng.randint(1, max(n - 1, 1))
        v = rng.random() < .5
        b = [v] * c + [not v] * (n - c)
    elif k == 6:  # alternating with a defect
        b = [j % 2 == 0 for j in range(n)]
        if n > 2 and rng.random() < .7:
            b[rng.randrange(n)] ^= True
    elif k == 7:  # de Bruijn, repeated
        d = de_bruijn(rng.randint(1, 6))
        o = rng.randrange(len(d))
        b = [d[(j + o) % len(d)] for j in range(n)]
    elif k == 8:  # long runs
        b = []
        v = rng.random() < .5
        while len(b) < n:
            b += [v] * rng.choice([1, 2, 3, 4, 5, 7, 9, 12, 17])
            v = not v
        b = b[:n]
    elif k == 9:  # lfsr
        L = rng.randint(2, 8)
        taps = [rng.random() < .5 for _ in range(L)]
        b = [rng.random() < .5 for _ in range(L)]
        while len(b) < n:
            b.append(sum(t and x for t, x in zip(taps, b[-L:])) % 2 == 1)
        b = b[:n]
    elif k == 10:  # balanced excursions around 0: blocks of +- equal
        b = []
        while len(b) < n:
            m = rng.randint(1, 6)
            v = rng.random() < .5
            b += [v] * m + [not v] * m
        b = b[:n]
    else:  # mixture: random with a constant stretch
        b = [rng.random() < .5 for _ in range(n)]
        lo = rng.randrange(n)
        hi = min(n, lo + rng.randint(1, max(1, n // 3)))
        v = rng.random() < .5
        for j in range(lo, hi):
            b[j] = v
    return fix(b[:n])


def exhaustive(n):
    for v in range(1, 2 ** n - 1):
        yield [bool(v >> (n - 1 - j) & 1) for j in range(n)]


def rng_for(*key):
    return random.Random(repr(key))


def sparse(n, rng, heads=6):
    b = [False] * n
    for _ in range(heads):
        b[rng.randrange(n)] = True
    return fix(b)
