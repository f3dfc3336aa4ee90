"""From patterns to sequences as a user would pass them."""
import datetime as dt

import numpy as np
import pandas as pd

from rt.gen import exhaustive, family, rng_for, sparse

LABELS = {  # name -> (tails, heads): heads is the larger
    "int": (0, 1), "neg": (-1, 1), "big": (3, 10 ** 12), "two": (1, 2), "bool": (False, True),
    "float": (0.25, 1.5), "str": ("a", "b"), "word": ("heads", "tails"), "digit": ("0", "1"),
    "ts": (pd.Timestamp("2020-01-01"), pd.Timestamp("2021-06-01")), "mixed": (0, 2.5), "negneg": (-7, -3),
    "npint": (np.int64(4), np.int64(9)), "date": (dt.date(2020, 1, 1), dt.date(2020, 1, 2)),
    "td": (pd.Timedelta(1, "s"), pd.Timedelta(2, "s")), "long": ("x" * 9, "xy"), "inf": (-1.0, float("inf")),
}


def bits(s):
    return [c == "1" for c in s]


def show(b):
    return "".join("1" if x else "0" for x in b)


def sequence(b, label="int", container="list"):
    t, h = LABELS[label]
    vals = [h if x else t for x in b]
    n = len(vals)
    if container == "list":
        return vals
    if container == "tuple":
        return tuple(vals)
    if container == "array":
        return np.array(vals) if label not in ("date", "ts", "td") else np.array(vals, dtype=object)
    s = pd.Series(vals)
    if container == "series":
        return s
    if container == "cat":
        return s.astype("category")
    if container == "object":
        return s.astype(object)
    if container == "revindex":
        s.index = range(n)[::-1]
    elif container == "strindex":
        s.index = [f"r{i}" for i in range(n)]
    elif container == "dupindex":
        s.index = [0] * n
    elif container == "floatindex":
        s.index = [i / 3 for i in range(n)]
    elif container == "tail":  # a slice of a longer series
        s = pd.concat([pd.Series([vals[0]] * 5), s])[5:]
    elif container == "dateindex":
        s.index = pd.date_range("2020-01-01", periods=n, freq="s")
    elif container == "shuffled":
        s.index = [(i * 7 + 3) % (n + 8) for i in range(n)]
    else:
        raise ValueError(container)
    return s


CONTAINERS = ["list", "tuple", "array", "series", "cat", "object", "revindex", "strindex", "dupindex",
              "floatindex", "tail", "dateindex", "shuffled"]


def kind_of(rng):
    """mostly plain, sometimes other labels and containers"""
    if rng.random() < .6:
        return "int", "list"
    lab = rng.choice(list(LABELS))
    con = rng.choice(CONTAINERS)
    return lab, con


def patterns(tag, seed, lengths, per=1):
    """(bits-string) for each length, `per` of varied kinds"""
    for n in lengths:
        for i in range(per):
            rng = rng_for(tag, seed, n, i)
            yield show(family(n, rng, i if per >= 12 else rng.randrange(12)))


def materialise(spec):
    """'0101' or ('fam', n, kind, key) or ('sparse', n, key)"""
    if isinstance(spec, str):
        return bits(spec)
    if spec[0] == "fam":
        return family(spec[1], rng_for(spec), spec[2])
    if spec[0] == "sparse":
        return sparse(spec[1], rng_for(spec))
    raise ValueError(spec)


def all_short(ns):
    for n in ns:
        for b in exhaustive(n):
            yield show(b)
