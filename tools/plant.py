"""Confirms planted bugs: builds seeded/<id>/ from tools/bugs.py, tests each in a scratch copy.

python3 tools/plant.py [id ...]   (scratch copies under /tmp/plant; several minutes per bug)
"""
import json, os, shutil, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
from bugs import BUGS

STABLE = json.load(open("/opt/vp/BASELINE.json"))


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tests(copy):
    work = copy + "_work"
    os.makedirs(work + "/tmp", exist_ok=True)
    env = dict(os.environ, HOME="/root", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               PYTHONPATH=f"/opt/vp/pytest_plugins:{copy}/src", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               TMPDIR=work + "/tmp", HYPOTHESIS_STORAGE_DIRECTORY=work + "/hyp")
    p = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider -p vp_hypothesis_profile --run-slow -n auto --timeout=600 "
           "--continue-on-collection-errors --hypothesis-seed=0 --hypothesis-profile=vp -W ignore::DeprecationWarning "
           f"--tb=line --basetemp={work}/pytest -o junit_family=xunit2 --junitxml={work}/junit.xml tests", copy, env=env)
    sh(["python3", "/opt/vp/results.py", work + "/out.json", f"junit:{work}/junit.xml"], copy)
    out = json.load(open(work + "/out.json"))
    shutil.rmtree(work, ignore_errors=True)
    return out


def demo(copy, d):
    env = dict(os.environ)
    env.pop("PYTHONPATH", None)
    return sh(["bash", os.path.join(d, "demo.sh")], copy, env=env, timeout=300)


def stable_ids():
    s = STABLE
    for k in ("stable", "passed", "tests"):
        if isinstance(s, dict) and k in s:
            return set(s[k])
    return set(s)


def one(b):
    bid = b["id"]
    copy = f"/tmp/plant/{bid}"
    shutil.rmtree(copy, ignore_errors=True)
    os.makedirs("/tmp/plant", exist_ok=True)
    sh(["cp", "-a", "/repo", copy], "/")
    d = os.path.join("/tmp/plant", bid + "_seed")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    open(d + "/demo.py", "w").write(b["demo"].strip() + "\n")
    r = demo(copy, d)
    if r.returncode != 0:
        return f"{bid}: demo fails on the unchanged tree: {r.stdout[-800:]}"
    for f, old, new in b["edits"]:
        p = os.path.join(copy, "src/coinflip", f)
        s = open(p).read()
        if s.count(old) != 1:
            return f"{bid}: {old!r} occurs {s.count(old)} times in {f}"
        open(p, "w").write(s.replace(old, new))
    diff = sh(["git", "diff"], copy).stdout
    r = demo(copy, d)
    if r.returncode == 0:
        return f"{bid}: demo passes with the change"
    out = tests(copy)
    broken = sorted(stable_ids() - set(out["passed"]))
    if broken:
        return f"{bid}: breaks tests {broken[:4]}"
    open(d + "/patch.diff", "w").write(diff)
    json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
    dst = os.path.join(H, "seeded", bid)
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    shutil.move(d, dst)
    shutil.rmtree(copy, ignore_errors=True)
    return f"{bid}: ok"


for b in BUGS:
    if len(sys.argv) > 1 and b["id"] not in sys.argv[1:]:
        continue
    if len(sys.argv) == 1 and os.path.exists(os.path.join(H, "seeded", b["id"])):
        continue
    try:
        print(one(b), flush=True)
    except Exception as e:
        print(b["id"], "error", repr(e), flush=True)
