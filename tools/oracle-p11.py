#!/usr/bin/env python3-vt
"""Compare the reference of P11 with the packaging library: target/debug/posy dump-p11 | tools/oracle-p11.py"""
import sys
from packaging.version import Version
from packaging.specifiers import Specifier
ops = ["<", "<=", "==", "!=", ">=", ">", "~=", "==*", "!=*"]
vs, specs, n, bad, unjudged = {}, {}, 0, 0, 0
for l in sys.stdin:
    s, p, row, c = l.rstrip("\n").split("\t")
    V = vs.setdefault(p, Version(p)); S = vs.setdefault(s, Version(s))
    if (S > V) - (S < V) != int(c):
        bad += 1; print("order", s, p, c)
    for op, r in zip(ops, row):
        if r == "x":
            continue
        k = op + s
        if k not in specs:
            try:
                specs[k] = Specifier(op.rstrip("*") + s + (".*" if op.endswith("*") else ""))
            except Exception:
                specs[k] = None
                print("refused by packaging:", k)
        if specs[k] is None:
            continue
        got = specs[k].contains(V, prereleases=True)
        n += 1
        if r == "?":
            unjudged += 1
        elif got != (r == "1"):
            bad += 1
            if bad < 30: print(k, p, "packaging:", got)
print(n, "decisions,", unjudged, "not judged,", bad, "differ")
