"""Concrete oracles: what each property's statement says, computed plainly.

`b` is always a list of booleans (True = heads).  Nothing here calls coinflip.
SciPy's special functions (erfc, gammaincc, ndtr, hyp1f1) are trusted.
"""
from collections import Counter
from fractions import Fraction
from itertools import product
from math import ceil, erfc, exp, floor, log, log2, sqrt

import numpy as np
from scipy.special import gammaincc, hyp1f1, ndtr


def chisq(obs, exp_):
    stat = sum((o - e) ** 2 / e for o, e in zip(obs, exp_))
    return stat, float(gammaincc((len(obs) - 1) / 2, stat / 2))


def blocks(b, M):
    return [b[i * M:(i + 1) * M] for i in range(len(b) // M)]


def monobit(b):
    n, h = len(b), sum(b)
    t = n - h
    s = abs(h - t) / sqrt(n)
    return dict(n=n, nheads=h, ntails=t, diff=abs(h - t), statistic=s, p=erfc(s / sqrt(2)))


def block_default(n):
    if n < 100:
        return 8
    M = max(-(-n // 100), 20)
    if n // M >= 100 and n > 5000:
        M = n // 50
    return M


def frequency_within_block(b, M=None):
    n = len(b)
    M = M or block_default(n)
    N = n // M
    counts = [sum(x) for x in blocks(b, M)]
    s = float(4 * M * sum((Fraction(c, M) - Fraction(1, 2)) ** 2 for c in counts))
    return dict(blocksize=M, nblocks=N, counts=counts, statistic=s, p=float(gammaincc(N / 2, s / 2)))


def nruns(b):
    return 1 + sum(1 for i in range(1, len(b)) if b[i] != b[i - 1])


def runs(b):
    n, h = len(b), sum(b)
    q = h / n
    V = nruns(b)
    p = erfc(abs(V - 2 * n * q * (1 - q)) / (2 * sqrt(2 * n) * q * (1 - q)))
    return dict(statistic=V, p=p, n=n, nheads=h, ntails=n - h, prop_heads=q, prop_tails=1 - q)


LONGEST = {
    8: (16, 1, [0.2148, 0.3672, 0.2305, 0.1875]),
    128: (49, 4, [0.1174, 0.2430, 0.2493, 0.1752, 0.1027, 0.1124]),
    10000: (75, 10, [0.0882, 0.2092, 0.2483, 0.1933, 0.1208, 0.0675, 0.0727]),
}


def longest(b):
    best = cur = 0
    for x in b:
        cur = cur + 1 if x else 0
        best = max(best, cur)
    return best


def longest_runs(b):
    n = len(b)
    M = 8 if n < 6272 else 128 if n < 750000 else 10000
    N, first, probs = LONGEST[M]
    tally = [0] * len(probs)
    for i in range(N):
        v = longest(b[i * M:(i + 1) * M])
        tally[min(max(v - first, 0), len(probs) - 1)] += 1
    s, p = chisq(tally, [N * q for q in probs])
    return dict(blocksize=M, nblocks=N, bins=dict(zip(range(first, first + len(probs)), tally)),
                expected_bincounts=[N * q for q in probs], statistic=s, p=p)


def gf2_rank(rows):
    """rank by growing the span of the rows (independent of elimination)"""
    basis = {}
    r = 0
    for row in rows:
        v = 0
        for x in row:
            v = 2 * v + (1 if x else 0)
        while v:
            hb = v.bit_length()
            if hb not in basis:
                basis[hb] = v
                r += 1
                break
            v ^= basis[hb]
    return r


def span_rank(rows):
    """log2 of the size of the span: the definition, for small matrices"""
    span = {0}
    for row in rows:
        v = int("0" + "".join("1" if x else "0" for x in row), 2)
        span |= {v ^ w for w in span}
    return len(span).bit_length() - 1


def matrix_default(n):
    if n // 1024 > 38:
        return 32, 32
    bs = max(n // 38, 4)
    k = int(sqrt(bs))
    while k * k > bs:
        k -= 1
    while (k + 1) ** 2 <= bs:
        k += 1
    return k, k


def binary_matrix_rank(b, dimen=None):
    r, c = dimen or matrix_default(len(b))
    full = min(r, c)
    cnt = [0, 0, 0]  # remaining, runnerup, full
    N = len(b) // (r * c)
    for blk in blocks(b, r * c):
        k = gf2_rank([blk[i * c:(i + 1) * c] for i in range(r)])
        cnt[2 if k == full else 1 if k == full - 1 else 0] += 1
    e = [0.1336 * N, 0.5776 * N, 0.2888 * N]
    s, p = chisq(cnt, e)
    return dict(nrows=r, ncols=c, fullrank=full, counts=cnt, expected=e, statistic=s, p=p)


def spectral(b):
    n = len(b)
    x = [1.0 if v else -1.0 for v in (b if n % 2 == 0 else b[:-1])]
    peaks = np.abs(np.fft.fft(x))[: n // 2]
    T = sqrt(log(1 / 0.05) * n)
    # peaks that are as good as at the threshold may be on either side of it
    lo = int(sum(peaks < T * (1 - 1e-9)))
    hi = int(sum(peaks < T * (1 + 1e-9)))
    N0 = 0.95 * n / 2
    outs = []
    for N1 in range(lo, hi + 1):
        d = (N1 - N0) / sqrt(n * 0.95 * 0.05 / 4)
        outs.append(dict(nbelow=N1, statistic=d, p=erfc(abs(d) / sqrt(2)), diff=N1 - N0))
    return dict(peaks=list(peaks), threshold=T, nbelow_expect=N0, alternatives=outs)


def greedy(block, tpl):
    m, i, c = len(tpl), 0, 0
    while i + m <= len(block):
        if block[i:i + m] == tpl:
            c += 1
            i += m
        else:
            i += 1
    return c


def non_overlapping(b, m, M):
    N = len(b) // M
    mu = (M - m + 1) / 2 ** m
    var = M * (1 / 2 ** m - (2 * m - 1) / 2 ** (2 * m))
    blks = blocks(b, M)
    res = []
    for tpl in product([True, False], repeat=m):
        tpl = list(tpl)
        W = [greedy(x, tpl) for x in blks]
        s = sum((w - mu) ** 2 / var for w in W)
        res.append((tuple(tpl), W, s, float(gammaincc(N / 2, s / 2))))
    return dict(matches_expect=mu, variance=var, nblocks=N, results=res)


def overlapping(b, m, M, K):
    N = len(b) // M
    tally = [0] * (K + 1)
    for x in blocks(b, M):
        c = sum(1 for i in range(M - m + 1) if all(x[i:i + m]))
        tally[min(c, K)] += 1
    eta = (M - m + 1) / 2 ** (m + 1)
    pi = [exp(-eta)]
    for u in range(1, K):
        pi.append(eta * exp(-2 * eta) * 2.0 ** -u * float(hyp1f1(u + 1, 2, eta)))
    pi.append(1 - sum(pi))
    e = [N * q for q in pi]
    return dict(nblocks=N, tallies=tally, expected_tallies=e, alternatives=None, chisq=(tally, e))


MAURER = {1: (0.7326495, 0.690), 2: (1.5374383, 1.338), 3: (2.4016068, 1.901), 4: (3.3112247, 2.358),
          5: (4.2534266, 2.705), 6: (5.2177052, 2.954), 7: (6.1962507, 3.125), 8: (7.1836656, 3.238),
          9: (8.1764248, 3.311), 10: (9.1723243, 3.356), 11: (10.170032, 3.384), 12: (11.168765, 3.401),
          13: (12.168070, 3.410), 14: (13.167693, 3.416), 15: (14.167488, 3.419), 16: (15.167379, 3.421)}
MAURER_N = [(387840, 6), (904960, 7), (2068480, 8), (4654080, 9), (10342400, 10), (22753280, 11),
            (49643520, 12), (107560960, 13), (231669760, 14), (496435200, 15), (1059061760, 16)]


def maurer_default(n):
    if n >= 387840:
        L = [l for t, l in MAURER_N if n >= t][-1]
        return L, 10 * 2 ** L
    L = max(ceil(log(n)), 2)
    return L, max(n // L // 100, 1)


def maurers_universal(b, L=None, Q=None):
    n = len(b)
    if not L or not Q:
        L, Q = maurer_default(n)
    K = n // L - Q
    last, total = {}, 0.0
    for i, x in enumerate(blocks(b, L), 1):
        x = tuple(x)
        if i > Q:
            total += log2(i - last.get(x, 0))
        last[x] = i
    s = total / K
    mean, var = MAURER[L]
    return dict(blocksize=L, init_nblocks=Q, segment_nblocks=K, mean_expect=mean, variance=var,
                statistic=s, p=erfc(abs(s - mean) / sqrt(var) / sqrt(2)))


def lfsr_ok(s, L):
    """is there an LFSR of length L generating s: linear system over GF(2)"""
    rows = []
    for i in range(L, len(s)):
        v = 0
        for j in range(1, L + 1):
            v |= s[i - j] << (j - 1)
        v |= s[i] << L
        rows.append(v)
    basis = {}
    for v in rows:  # eliminate on the coefficient bits
        while v & ((1 << L) - 1):
            low = (v & -v).bit_length()
            if low not in basis:
                basis[low] = v
                break
            v ^= basis[low]
        else:
            if v:
                return False
    return True


def lfsr_length(s):
    """least L by definition (feasibility is monotone in L only from the least one on: search upwards)"""
    for L in range(len(s) + 1):
        if lfsr_ok(s, L):
            return L


def bm(s):
    """Linear complexity by Berlekamp-Massey on integers (checked against lfsr_length in the self-test)"""
    C, B, L, m = 1, 1, 0, -1
    w = 0  # s_i .. s_0, newest at bit 0
    for i, x in enumerate(s):
        w = (w << 1) | x
        if bin(C & w).count("1") & 1:
            T = C
            C ^= B << (i - m)
            if 2 * L <= i:
                L, m, B = i + 1 - L, i, T
    return L


LC_P = [0.010417, 0.03125, 0.125, 0.5, 0.25, 0.0625, 0.020833]


def linear_complexity(b, M=None):
    n = len(b)
    if not M:
        if n >= 200000:
            M = 1000
        elif n >= 100000:
            M = 500
        else:
            M = max(int(sqrt(n)), 2)
    N = n // M
    mu = Fraction(M, 2) + Fraction(9 + (-1) ** (M + 1), 36) - (Fraction(M, 3) + Fraction(2, 9)) / 2 ** M
    tally = [0] * 7
    for x in blocks(b, M):
        T = (-1) ** M * (bm([int(v) for v in x]) - mu) + Fraction(2, 9)
        k = floor(T + Fraction(1, 2))  # nearest, ties up
        tally[min(max(k, -3), 3) + 3] += 1
    e = [N * q for q in LC_P]
    s, p = chisq(tally, e)
    return dict(blocksize=M, mean_expect=float(mu), bins=dict(zip(range(-3, 4), tally)), expected_bincounts=e,
                statistic=s, p=p)


def circ_counts(b, k):
    n = len(b)
    x = b + b[:k - 1] if k > 0 else b
    return Counter(tuple(x[i:i + k]) for i in range(n))


def psi2(b, k):
    n = len(b)
    if k <= 0:
        return Fraction(0)
    return Fraction(2 ** k * sum(c * c for c in circ_counts(b, k).values()), n) - n


def serial(b, m=None):
    n = len(b)
    m = m or max(n.bit_length() - 1 - 3, 2)
    P = [psi2(b, m - i) for i in range(3)]
    d1, d2 = float(P[0] - P[1]), float(P[0] - 2 * P[1] + P[2])
    return dict(blocksize=m, first=d1, second=d2, p1=float(gammaincc(2.0 ** (m - 2), d1 / 2)),
                p2=float(gammaincc(2.0 ** (m - 3), d2 / 2)))


def approximate_entropy(b, m=None):
    n = len(b)
    m = m or max(n.bit_length() - 1 - 6, 2)
    phi = [sum(c / n * log(c / n) for c in circ_counts(b, k).values()) for k in (m, m + 1)]
    apen = phi[0] - phi[1]
    s = max(2 * n * (log(2) - apen), 0.0)
    return dict(blocksize=m, approx_entropy=apen, statistic=s, p=float(gammaincc(2.0 ** (m - 1), s / 2)))


def walk(b):
    w = [0]
    for x in b:
        w.append(w[-1] + (1 if x else -1))
    return w


def cusum(b, reverse=False):
    n = len(b)
    w = walk(b[::-1] if reverse else b)
    z = max(abs(x) for x in w)
    lo1, lo2, hi = (z - n) // (4 * z), (-n - 3 * z) // (4 * z), (n - z) // (4 * z)
    r = sqrt(n)
    p = 1.0
    p -= sum(float(ndtr((4 * k + 1) * z / r) - ndtr((4 * k - 1) * z / r)) for k in range(lo1, hi + 1))
    p += sum(float(ndtr((4 * k + 3) * z / r) - ndtr((4 * k + 1) * z / r)) for k in range(lo2, hi + 1))
    return dict(n=n, reverse=reverse, walk=w, statistic=z, p=min(max(p, 0.0), 1.0))


def cycles(b):
    w = walk(b)
    out, cur = [], []
    for x in w[1:]:
        cur.append(x)
        if x == 0:
            out.append(cur)
            cur = []
    if cur:
        out.append(cur)
    return out


def random_excursions(b):
    cyc = cycles(b)
    J = len(cyc)
    res = []
    for x in (-4, -3, -2, -1, 1, 2, 3, 4):
        v = [0] * 6
        for c in cyc:
            v[min(c.count(x), 5)] += 1
        a = 1 - 1 / (2 * abs(x))
        pi = [a] + [a ** (k - 1) / (4 * x * x) for k in range(1, 5)] + [a ** 4 / (2 * abs(x))]
        s, p = chisq(v, [J * q for q in pi])
        res.append((x, s, p))
    return dict(results=res, walk=walk(b), n=len(b))


def random_excursions_variant(b):
    w = walk(b)
    J = sum(1 for x in w[1:] if x == 0) + (1 if w[-1] != 0 else 0)
    c = Counter(w)
    res = [(x, c[x], erfc(abs(c[x] - J) / sqrt(2 * J * (4 * abs(x) - 2)))) for x in
           [*range(-9, 0), *range(1, 10)]]
    return dict(results=res, walk=w, n=len(b))
