#!/usr/bin/env python3
"""python3 /verif/check.py C01 [C02 ...] [--thorough]"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from engine import check  # noqa: E402


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    if "--thorough" in sys.argv:
        os.environ["VERIF_TIER"] = "thorough"
    rc = 0
    for i in ids:
        m = importlib.import_module("checks." + i.lower())
        r = check.run(i, m.run, m.RULE, assumptions=getattr(m, "ASSUMPTIONS", ()), trusted=getattr(m, "TRUSTED", ()))
        rc = max(rc, r) if r != 1 and rc != 1 else 1
    return rc


if __name__ == "__main__":
    sys.exit(main())
