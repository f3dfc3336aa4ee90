"""Parsing of data files."""
import os
import tempfile

import numpy as np
from click.testing import CliRunner

from rt.gen import family, rng_for
from rt.harness import call, need

from coinflip._randtests.common.exceptions import NonBinarySequenceError
from coinflip.cli import commands, parsing

RULE = "random byte strings (every byte value) and text files of every value kind, line ending, trailing newline and number of distinct values, written to scratch files; counted when the parsed sequence or error was compared; some go through the run command"


def cases(tier, seed):
    k = 10 if tier == "thorough" else 1
    for v in range(256):
        yield ("byte", v, seed)
    for i in range(4000 * k):
        yield ("bin", i, seed)
    for i in range(5000 * k):
        yield ("text", i, seed)
    for i in range(60 * k):
        yield ("cli", i, seed)


def want_bits(data):
    return [(byte >> (7 - j)) & 1 for byte in data for j in range(8)]


def check_bin(path, data):
    o = call(parsing.parse_binary, path)
    w = want_bits(data)
    if len(set(w)) != 2:
        need(isinstance(o.error, NonBinarySequenceError), f"parse_binary of {data!r} gave {o.result!r} {o.error!r}")
    else:
        need(o.error is None, f"parse_binary of {data!r} raised {o.error!r}")
        need([int(x) for x in o.result] == w and list(o.result.index) == list(range(len(w))), f"parse_binary of {data[:20]!r}.. gave {list(o.result)[:64]}, should be {w[:64]}")


PAIRS = [("0", "1", 0, 1), ("1", "2", 1, 2), ("-3", "7", -3, 7), ("0.5", "1.5", .5, 1.5), ("heads", "tails", "heads", "tails"),
         ("True", "False", True, False), ("a", "b c", "a", "b c"), ("1", "x", "1", "x"), ("H", "T", "H", "T"), ("10", "01x", "10", "01x"),
         ("2147483648", "0", 2147483648, 0), ("1e3", "2", 1000.0, 2.0)]


def run(case):
    rng = rng_for("C23", *case)
    with tempfile.TemporaryDirectory() as td:
        path = os.path.join(td, "data")
        out = os.path.join(td, "out")
        if case[0] in ("byte", "bin"):
            if case[0] == "byte":
                data = bytes([case[1]])
            else:
                n = rng.choice([0, 1, 2, 3, rng.randint(1, 60)])
                data = bytes(rng.choice([0, 255, 1, 128, rng.randrange(256)]) if rng.random() < .3 else rng.randrange(256) for _ in range(n))
                if rng.random() < .05:
                    data = bytes([rng.choice([0, 255])]) * n
            open(path, "wb").write(data)
            check_bin(path, data)
        elif case[0] == "text":
            a, b, va, vb = rng.choice(PAIRS)
            n = rng.choice([1, 2, 3, rng.randint(2, 50)])
            kind = rng.choice(["two"] * 6 + ["one", "three", "cols", "ragged", "empty", "missing"])
            pat = [rng.random() < .5 for _ in range(n)]
            nl = rng.choice(["\n", "\n", "\r\n"])
            lines = [a if x else b for x in pat]
            vals = [va if x else vb for x in pat]
            if kind == "one":
                lines = [a] * n
            elif kind == "three":
                lines += [a, b, "77"]
                rng.shuffle(lines)
            elif kind == "cols":
                lines = [x + ",1" for x in lines]
            elif kind == "ragged":
                lines = ["1"] + ["1,0"] * n
            elif kind == "empty":
                lines = []
            elif kind == "missing":
                lines += [a, b, "NA"]
                rng.shuffle(lines)
            with open(path, "w", newline="") as f:
                f.write(nl.join(lines) + (nl if rng.random() < .7 and lines else ""))
            o = call(parsing.parse_text, path)
            what = f"parse_text of {lines[:60]!r}"
            if kind == "two" and len(set(pat)) == 2:
                need(o.error is None, f"{what} raised {o.error!r}")
                need(list(o.result) == vals, f"{what} gave {list(o.result)}, should be {vals}")
            elif kind in ("cols", "ragged"):
                need(isinstance(o.error, parsing.DataParsingError), f"{what} gave {o.result!r} {o.error!r}, should be a DataParsingError")
            else:
                need(isinstance(o.error, NonBinarySequenceError), f"{what} gave {o.result!r} {o.error!r}, should be a NonBinarySequenceError")
        else:
            binary = rng.random() < .5
            if binary:
                data = bytes(rng.choice([0, 255, 85]) for _ in range(rng.randint(0, 4)))
                good = len(set(want_bits(data))) == 2
            else:
                lines = rng.choice([[], ["1"], ["1", "1"], ["1,0", "0,1"], ["1", "0,1"], ["a", "b", "c"], ["1", "NA", "0"], ["0", "1", "1"], ["x", "y"]])
                data = "\n".join(lines).encode()
                good = lines in (["0", "1", "1"], ["x", "y"])
            open(path, "wb").write(data)
            r = CliRunner().invoke(commands.run, [path, out] + (["-b"] if binary else []))
            if good:
                need(r.exit_code == 0, f"run on {data!r} binary={binary} exits {r.exit_code}: {r.exception!r}")
            else:
                need(r.exit_code == 1 and isinstance(r.exception, SystemExit), f"run on {data!r} binary={binary} ends with {r.exception!r}, code {r.exit_code}")
                need(not os.path.exists(out), f"run on {data!r} wrote results")
