"""Runs concrete cases of a property against the real code of /repo.

A case is a picklable tuple; a property module gives
    cases(tier, seed) -> iterable of cases,   run(case) -> None or dict (what failed)
"""
import io
import json
import base64
import math
import multiprocessing as mp
import os
import pickle
import resource
import signal
import sys
import time
import traceback
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Bad(Exception):
    """the property does not hold on this case"""


def need(cond, msg, **kw):
    if not cond:
        raise Bad(msg + (" " + repr(kw) if kw else ""))


def close(a, b, rel=1e-7, abs_=1e-9):
    try:
        a, b = float(a), float(b)
    except Exception:
        return False
    if math.isnan(a) or math.isnan(b):
        return False
    if a == b:
        return True
    return math.isclose(a, b, rel_tol=rel, abs_tol=abs_)


def need_close(name, got, want, **kw):
    need(close(got, want, **kw), f"{name} is {got!r}, should be {want!r}")


def need_eq(name, got, want):
    ok = False
    try:
        ok = bool(got == want)
    except Exception:
        pass
    need(ok, f"{name} is {got!r}, should be {want!r}")


def need_list(name, got, want, cmp=None):
    got = list(got)
    want = list(want)
    need(len(got) == len(want), f"{name} has length {len(got)}, should be {len(want)}")
    for i, (g, w) in enumerate(zip(got, want)):
        need(cmp(g, w) if cmp else g == w, f"{name}[{i}] is {g!r}, should be {w!r}")


class Outcome:
    def __init__(self, result=None, error=None, warns=()):
        self.result, self.error, self.warns = result, error, list(warns)


def call(fn, *a, **kw):
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            r = fn(*a, **kw)
            return Outcome(result=r, warns=[w for w in ws if w.category is UserWarning])
        except Exception as e:  # noqa
            return Outcome(error=e, warns=[w for w in ws if w.category is UserWarning])


def ok(fn, *a, **kw):
    o = call(fn, *a, **kw)
    if o.error is not None:
        tb = "".join(traceback.format_exception(o.error)[-3:])
        raise Bad(f"raised {type(o.error).__name__}: {o.error}", ) from o.error
    return o.result


LIMIT_S = 150  # a case takes less than 5 s on the pinned tree


class _Hang(BaseException):
    pass


def _alarm(*_):
    raise _Hang()


def _worker(args):
    mod, idx, case = args
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(getattr(mod, "LIMIT_S", LIMIT_S))
    try:
        mod.run(case)
        return idx, None
    except Bad as e:
        return idx, str(e)
    except _Hang:
        return idx, "no result within the time limit"
    except SystemExit as e:
        return idx, f"SystemExit: {e}"
    except Exception as e:  # an unexpected exception of the real code, or a malformed result
        return idx, f"{type(e).__name__}: {e} [{traceback.format_exc(limit=-3)[-600:]}]"
    finally:
        signal.alarm(0)


def _init():
    warnings.simplefilter("ignore")
    try:
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    except Exception:
        pass


_MOD = None


def _run_idx(job):
    idx, case = job
    return _worker((_MOD, idx, case))


def explore(mod, tier, seed, procs=8, wall=None):
    """returns (evaluated, failures[list of (case, message)], samples)"""
    global _MOD
    _MOD = mod
    wall = wall or float(os.environ.get("VERIF_WALL") or (120 if tier == "quick" else 1500))
    scale = int(os.environ.get("VERIF_SCALE", "1"))
    cases = []
    for k in range(scale):  # further rounds: other seeds
        cases += list(mod.cases(tier, seed + 1000003 * k))
    t0 = time.time()
    n, fails, samples = 0, [], []
    order = list(range(len(cases)))
    cost = getattr(mod, "cost", None)
    if cost:
        order.sort(key=lambda i: -cost(cases[i]))
    jobs = [(i, cases[i]) for i in order]
    chunk = 1 if cost else max(1, min(64, len(jobs) // (procs * 8) or 1))
    with mp.get_context("fork").Pool(procs, initializer=_init) as pool:
        for idx, msg in pool.imap_unordered(_run_idx, jobs, chunksize=chunk):
            n += 1
            if len(samples) < 3 and msg is None:
                samples.append(repr(cases[idx])[:200])
            if msg is not None:
                fails.append((cases[idx], msg, base64.b64encode(pickle.dumps(cases[idx])).decode()))
                if len(fails) >= 3:
                    pool.terminate()
                    break
            if time.time() - t0 > wall:
                pool.terminate()
                break
    return dict(evaluations=n, planned=len(cases), failures=fails, samples=samples,
                distinct=len({repr(c) for c in cases}), wall=time.time() - t0)


def pretty(case):
    return json.loads(json.dumps(case, default=repr))


def main(modname):
    """concrete part of a check: prints a JSON report"""
    import importlib
    sys.path.insert(0, HERE)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    real = os.dup(1)
    os.dup2(2, 1)  # whatever the code under test prints stays out of the report
    mod = importlib.import_module("rt.props." + modname)
    rep = explore(mod, tier, seed)
    rep["rule"] = getattr(mod, "RULE", "")
    rep["failures"] = [(repr(c)[:2000], m[:3000], e) for c, m, e in rep["failures"]]
    os.write(real, (json.dumps(rep, default=repr) + "\n").encode())


if __name__ == "__main__":
    import rt.harness
    rt.harness.main(sys.argv[1])
