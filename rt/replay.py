"""Re-runs a stored failing case against the real code: python -B -m rt.replay FILE (in /verif)"""
import base64
import importlib
import json
import pickle
import sys


def main(path):
    body = json.load(open(path))
    for f in body.get("failed_obligations", []):
        print("failed obligation:", f["name"])
        print("   ", f["why"])
    if "encoded" not in body:
        print(body.get("message"))
        print(body.get("output", ""))
        return 1
    import rt.harness as H
    mod = importlib.import_module("rt.props." + body["property"])
    case = pickle.loads(base64.b64decode(body["encoded"]))
    print("case:", repr(case)[:2000])
    H._init()
    _, msg = H._worker((mod, 0, case))
    print("holds" if msg is None else "FAILS: " + msg)
    return 0 if msg is None else 1


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
