#!/usr/bin/env python3
"""Decides one property:  python3 check.py C04

1. proof part (pydv, python3-vt): obligations generated from /repo's current source
2. concrete part (rt, /opt/venv): the same contracts evaluated on the real code; finds the failing
   input of a failed obligation, and is the labelled bounded stand-in where there is no proof
Exit 0: held.  Exit 1 and a VIOLATION line: broken.
"""
import glob
import hashlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
PY = "/opt/venv/bin/python"
PYVT = "python3-vt"
OUT = os.path.join(HERE, "out")
BOUNDED_ONLY = {"C23", "C24", "C25"}


def sub(cmd, timeout, env=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", **(env or {}))
    try:
        p = subprocess.run(cmd, cwd=HERE, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        return None, (x.stderr or b"").decode(errors="replace")[-3000:] + "\n[time limit reached]"
    txt = p.stdout.decode(errors="replace").strip()
    try:
        return json.loads(txt.splitlines()[-1]), p.stderr.decode(errors="replace")[-3000:]
    except Exception:
        return None, (txt[-2000:] + "\n" + p.stderr.decode(errors="replace")[-3000:] + f"\n[exit {p.returncode}]")


def concrete(pid, scale="1", wall=None):
    env = {"VERIF_SCALE": scale}
    if wall:
        env["VERIF_WALL"] = str(wall)
    return sub([PY, "-B", "-m", "rt.harness", pid], 800 if TIER == "quick" else 7200, env)


def proof(pid):
    if not os.path.exists(os.path.join(HERE, "pydv", "specs", pid + ".py")):
        return None, ""
    return sub([PYVT, "-B", "-m", "pydv.run", pid], 420 if TIER == "quick" else 3600)


def known():
    rows = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: "):
                rows.append(json.loads(line[len("finding: "):]))
    return rows


def main(pid):
    t0 = time.time()
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    pr, perr = proof(pid)
    con, cerr = concrete(pid)
    crashed = con is None
    failed = list(pr["failed"]) if pr else []
    undecided = list(pr["undecided"]) if pr else []
    if pr is None and perr:
        undecided = [{"name": "proof part", "why": perr[-1500:]}]
    if (failed or undecided) and not crashed and not con["failures"]:
        # look harder for an input on which a failed obligation matters
        con2, cerr2 = concrete(pid, scale="4", wall=150 if TIER == "quick" else 1200)
        if con2 is not None:
            con2["evaluations"] += con["evaluations"]
            con2["distinct"] = max(con["distinct"], con2["distinct"])
            con = con2
    listed = [k for k in known() if k["property"] == pid]
    for k in listed:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    fails = []
    for case, msg, enc in (con["failures"] if con else []):
        if not any(k["case"] == case for k in listed):
            fails.append((case, msg, enc))
    violation = None
    if fails or failed or crashed:
        body = dict(property=pid, tier=TIER, seed=SEED, failed_obligations=failed, undecided=undecided)
        if fails:
            body["case"], body["message"], body["encoded"] = fails[0]
            body["replay"] = f"{PY} -B -m rt.replay <this file>   (run in /verif)"
        elif crashed:
            body["message"] = "the code under test could not be run"
            body["output"] = cerr
        else:
            body["message"] = "no failing input was found; the failed obligations and the verifier's output are above"
        name = f"{pid}-{hashlib.sha1(json.dumps(body, default=repr).encode()).hexdigest()[:10]}.json"
        path = os.path.join(OUT, name)
        with open(path, "w") as f:
            json.dump(body, f, indent=1, default=repr)
        violation = f"VIOLATION property={pid} replay={path}" + ("" if (fails or crashed) else " no-failing-input-found")
    proved = bool(pr) and not undecided and not failed and pr["obligations"] > 0
    ev = dict(property=pid, tier=TIER, seed=SEED, level="proof" if proved else "exploration",
              wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
    cov = {}
    if con:
        cov.update(evaluations=con["evaluations"], distinct_nontrivial=min(con["distinct"], con["evaluations"]),
                   rule=con["rule"], samples=con["samples"], concrete_wall_s=round(con["wall"], 2))
    if pr:
        cov.update(obligations=pr["obligations"], discharged=pr["discharged"], checker_cmd=f"{PYVT} -B -m pydv.run {pid}",
                   trusted_base=pr["trusted_base"], functions=pr["functions"], backends=pr["backends"],
                   solver_s=pr["solver_s"], obligation_names=pr["names"], bounded_parts=pr.get("bounded", []),
                   reachability=pr.get("reachability", []))
        ev["assumptions"] = pr["assumptions"]
    if undecided:
        cov["undecided"] = undecided
        cov["explanation"] = "these functions could not be brought within the verifier's reach on this tree; the concrete part stands in for them, bounded to its cases"
    elif not pr:
        cov["explanation"] = "bounded: contracts evaluated on the real code for the cases counted here; nothing is proved"
    ev["coverage"] = cov or {"explanation": "nothing ran"}
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    print(f"{pid}: {ev['level']}: obligations {cov.get('obligations', 0)} discharged {cov.get('discharged', 0)}"
          f" undecided {len(undecided)}; concrete cases {cov.get('evaluations', 0)}; {ev['wall_s']} s")
    for u in undecided:
        print(f"  undecided (bounded stand-in): {u['name']}: {str(u['why'])[:300]}")
    for f_ in failed:
        print(f"  FAILED OBLIGATION {f_['name']}: {str(f_['why'])[:600]}")
    if fails:
        print(f"  failing input {fails[0][0]}: {fails[0][1]}")
    if crashed:
        print("  " + cerr[-1500:])
    if violation:
        print(violation)
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
