"""run_all_tests, run, store/load, summary."""
import io
import os
import tempfile

import pandas as pd
from click.testing import CliRunner
from rich.console import Console

from rt.gen import rng_for
from rt.harness import call, close, need
from rt.props.C03 import key_of, same
from rt.props.common import NAMES, R
from rt.seqs import LABELS, bits, patterns, sequence

from coinflip import _randtests
from coinflip._randtests.common import exceptions as EX
from coinflip._randtests.common.result import MultiTestResult
from coinflip.cli import commands, report, runner
from coinflip.cli import pprint as cpp

RULE = "random sequences through run_all_tests, run and read with the console captured, some with tests replaced by ones that fail or give chosen p-values (around 0.01); counted per run"
TITLES = runner.f_randtest_names


def cases(tier, seed):
    k = 12 if tier == "thorough" else 1
    for i in range(220 * k):
        yield ("all", i, seed)
    for i in range(160 * k):
        yield ("fail", i, seed)
    for i in range(120 * k):
        yield ("cli", i, seed)
    for i in range(400 * k):
        yield ("summary", i, seed)


class Capture:
    """the console's output of everything that prints through coinflip.cli"""

    def __enter__(self):
        self.buf = io.StringIO()
        con = Console(file=self.buf, width=120, force_jupyter=False)
        self.old = [(m, m.console) for m in (runner, cpp, commands) if hasattr(m, "console")]
        for m, _ in self.old:
            m.console = con
        return self

    def __exit__(self, *a):
        for m, c in self.old:
            m.console = c

    @property
    def text(self):
        return self.buf.getvalue()


def summary_rows(text):
    rows = {}
    for line in text.split("Test Results Summary")[-1].splitlines():
        if line.startswith("\u2551"):
            parts = [p.strip() for p in line.strip("\u2551\n ").split("\u2551")]
            if len(parts) == 3:
                rows[parts[0]] = (parts[1], parts[2])
    return rows


def check_rows(rows, results):
    for name, r in results.items():
        if r is None:
            got = rows.get(TITLES[name])
            need(got is not None and got[1] not in ("PASS", "FAIL"), f"summary of failed {name} is {got}")
        elif not isinstance(r, MultiTestResult):
            got = rows.get(TITLES[name])
            want = "PASS" if r.p >= 0.01 else "FAIL"
            need(got is not None and got[1] == want, f"summary of {name} with p = {r.p!r} is {got}, should be {want}")
            need(close(float(got[0]), round(float(r.p), 3), abs_=1e-6), f"summary of {name} with p = {r.p!r} shows {got[0]}")


def draw(rng, case):
    n = rng.choice([rng.randint(2, 12), rng.randint(2, 140), rng.randint(100, 400)])
    b = bits(next(patterns("C24", case, [n])))
    lab = rng.choice(["int", "int", "str", "bool", "neg", "float", "ts"])
    return b, lab, sequence(b, lab, "series")


def expected(name, s):
    o = call(getattr(R, name), s)
    return o


def run(case):
    rng = rng_for("C24", *case)
    kind = case[0]
    if kind == "all":
        b, lab, s = draw(rng, case)
        with Capture() as cap:
            got = []
            for name, res, e in runner.run_all_tests(s):
                got.append((name, res, e))
        need([g[0] for g in got] == NAMES, f"run_all_tests yields {[g[0] for g in got]}")
        for name, res, e in got:
            o = expected(name, s)
            if o.error is not None:
                need(res is None and type(e) is type(o.error) and str(e) == str(o.error), f"{name}: yields {res!r} {e!r}, the test raises {o.error!r}")
            else:
                need(e is None and res is not None, f"{name}: yields {res!r} {e!r}")
                need(same(key_of(o), ("ok",) + key_of(type(o)(result=res))[1:]), f"{name}: another result than the function gives")
        check_rows(summary_rows(cap.text), {n: r for n, r, e in got})
    elif kind == "fail":
        b, lab, s = draw(rng, case)
        errs = [EX.TestError("boom"), EX.TestInputError("in"), EX.TestNotImplementedError("ni"), EX.NonBinarySequenceError()]
        plan = {n: rng.choice(errs) for n in NAMES if rng.random() < rng.choice([.1, .5, 1])}
        olds = {n: getattr(_randtests, n) for n in plan}

        def mk(e):
            def f(*a, **k):
                raise e
            return f
        try:
            for n, e in plan.items():
                setattr(_randtests, n, mk(e))
            with Capture() as cap:
                got = list(runner.run_all_tests(s))
        finally:
            for n, f in olds.items():
                setattr(_randtests, n, f)
        need([g[0] for g in got] == NAMES, f"with {plan} failing, run_all_tests yields {[g[0] for g in got]}")
        for name, res, e in got:
            if name in plan:
                need(res is None and e is plan[name], f"{name}: yields {res!r} {e!r}")
            else:
                o = expected(name, s)
                need((e is None) == (o.error is None), f"{name}: yields {e!r}, the test gives {o.error!r}")
        check_rows(summary_rows(cap.text), {n: r for n, r, e in got})
    elif kind == "cli":
        b, lab, s = draw(rng, case)
        if lab == "ts":
            lab, s = "int", sequence(b, "int", "series")
        with tempfile.TemporaryDirectory() as td:
            path, out = os.path.join(td, "d"), os.path.join(td, "o")
            with open(path, "w") as f:
                f.write("".join(f"{x}\n" for x in s))
            with Capture():
                r = CliRunner().invoke(commands.run, [path, out])
            need(r.exit_code == 0, f"run exits {r.exit_code}: {r.exception!r}")
            rep = report.load_results(out)
            need(list(rep.series) == list(s), f"the stored sequence is {list(rep.series)}")
            want = {}
            for n in NAMES:
                o = expected(n, s)
                if o.error is None:
                    want[n] = o
            need(list(rep.results) == list(want), f"stored results of {list(rep.results)}, should be of {list(want)}")
            for n, o in want.items():
                need(same(key_of(o), key_of(type(o)(result=rep.results[n]))), f"the stored result of {n} differs")
            with Capture() as cap:
                r = CliRunner().invoke(commands.read, [out])
            need(r.exit_code == 0, f"read exits {r.exit_code}: {r.exception!r}")
            check_rows(summary_rows(cap.text), rep.results)
            out2 = os.path.join(td, "o2")
            report.store_results(rep.series, rep.results, out2)
            rep2 = report.load_results(out2)
            need(list(rep2.series) == list(rep.series) and list(rep2.results) == list(rep.results), "storing loaded results again")
    else:
        from coinflip._randtests.common.result import TestResult
        from coinflip._randtests.runs import RunsTestResult
        names = rng.sample([n for n in NAMES if n not in ("serial", "non_overlapping_template_matching", "random_excursions", "random_excursions_variant")], rng.randint(1, 6))
        results = {}
        for n in names:
            p = rng.choice([0.01, 0.0099999, 0.010000001, 0.0095, 0.0104, 0.0, 1.0, 1e-12, rng.random(), rng.random() / 50])
            results[n] = RunsTestResult(1, 0, rng.choice([[], ["x"]]), 3, p, 5, 2, 3, .4, .6) if rng.random() < .85 else None
        with Capture() as cap:
            runner.print_results_summary(results)
        check_rows(summary_rows(cap.text), results)
