"""python3-vt -B -m pydv.run C04 [-v]: generates and discharges the obligations of one property."""
import importlib
import json
import sys
import traceback

sys.setrecursionlimit(20000)


def main():
    pid = sys.argv[1]
    from pydv.spec import Report
    import os
    rep = Report(pid, 330 if os.environ.get("VERIF_TIER", "quick") == "quick" else 3000)
    rep.verbose = "-v" in sys.argv
    try:
        importlib.import_module(f"pydv.specs.{pid}").prove(rep)
    except Exception as e:
        if rep.verbose:
            traceback.print_exc()
        rep.undecided.append(dict(name="verifier", why=f"{type(e).__name__}: {e} at " + " / ".join(traceback.format_exc().strip().splitlines()[-7:-1])[-700:]))
    o = rep.out()
    if rep.verbose:
        print(json.dumps({k: (v if k not in ("failed", "undecided") else [f["name"] + ": " + str(f["why"])[:200] for f in v]) for k, v in o.items() if k not in ("names", "trusted_base", "functions", "backends", "assumptions")}, default=str)[:4000])
    else:
        print(json.dumps(o, default=str))


main()
