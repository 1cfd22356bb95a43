"""Decide one property from /repo's current source.

    /opt/venv/bin/python /verif/check.py C01 --tier quick
"""
import argparse
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    from sa import report

    t0 = time.time()
    mod = importlib.import_module("checks." + a.property.lower())
    res = mod.run(a.tier)
    sys.exit(report.finish(a.property, a.tier, res, time.time() - t0, a.v))


if __name__ == "__main__":
    import threading

    threading.stack_size(512 * 1024 * 1024)
    main()
