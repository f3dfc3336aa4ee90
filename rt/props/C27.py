"""matrix_rank."""
from itertools import product

import numpy as np

from rt import oracle as O
from rt.gen import rng_for
from rt.harness import need

from coinflip.algorithms import matrix_rank

RULE = "every matrix up to 3x4 and 4x3 (thorough: 4x4), and random ones (dense, sparse, low rank, with equal, zero and permuted rows) up to 40x40 against the dimension of their span; counted per matrix"


def cases(tier, seed):
    dims = [(r, c) for r in range(1, 5) for c in range(1, 5) if r * c <= (16 if tier == "thorough" else 12)]
    for r, c in dims:
        for v in range(0, 2 ** (r * c), 64):
            yield ("all", r, c, v)
    for i in range(60000 if tier == "thorough" else 12000):
        yield ("rnd", seed, i)


def check(m):
    w = O.gf2_rank(m)
    if len(m) <= 10:
        need(w == O.span_rank(m), "the oracles disagree")
    for conv in (list, tuple):
        got = matrix_rank(conv([conv([int(x) for x in row]) for row in m]))
        need(got == w, f"matrix_rank({[[int(x) for x in r] for r in m]}) is {got!r}, should be {w}")
    if len(m) * len(m[0]) < 30:
        got = matrix_rank(np.array([[int(x) for x in r] for r in m]))
        need(got == w, f"matrix_rank of the array {m} is {got!r}, should be {w}")


def run(case):
    if case[0] == "all":
        _, r, c, v0 = case
        for v in range(v0, min(v0 + 64, 2 ** (r * c))):
            check([[bool(v >> (i * c + j) & 1) for j in range(c)] for i in range(r)])
        return
    rng = rng_for("C27", *case)
    r, c = rng.randint(1, 12), rng.randint(1, 12)
    if rng.random() < .08:
        r, c = rng.randint(20, 40), rng.randint(20, 40)
    k = rng.random()
    if k < .4:
        d = rng.choice([.1, .5, .9])
        m = [[rng.random() < d for _ in range(c)] for _ in range(r)]
    elif k < .8:
        q = rng.randint(0, min(r, c))
        base = [[rng.random() < .5 for _ in range(c)] for _ in range(q)]
        m = []
        for _ in range(r):
            row = [False] * c
            for x in base:
                if rng.random() < .5:
                    row = [a != b for a, b in zip(row, x)]
            m.append(row)
    else:
        p = list(range(c))
        rng.shuffle(p)
        m = [[p[i % c] == j for j in range(c)] for i in range(r)]
    check(m)
