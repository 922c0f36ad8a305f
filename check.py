#!/usr/bin/env python3
"""python3 check.py <property> [quick|thorough]   run one check;  --list prints all;  --setup builds the extractor."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from lib import cxx, report  # noqa: E402

MODULES = ["capture", "base64", "graph", "rpc", "instr", "trace", "instrcfg", "rtlhdr", "serial", "libnodes", "codegen", "pyfront", "pykey", "pyops", "pyarrays", "pyfuncs", "pycall", "emit"]


def registry():
    reg = {}
    for m in MODULES:
        mod = importlib.import_module("checks." + m)
        reg.update(mod.CHECKS)
    return reg


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        cxx.extractor()
        return 0
    reg = registry()
    if not a or a[0] == "--list":
        print("\n".join(sorted(reg)))
        return 0
    if a[0] == "all":
        bad = 0
        for p in sorted(reg):
            bad |= report.run(p, "quick", reg[p])
        return bad
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return report.run(a[0], tier, reg[a[0]])


if __name__ == "__main__":
    sys.exit(main())
