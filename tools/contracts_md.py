#!/usr/bin/env python3
"""Write CONTRACTS.md: every contract, what it says, what it covers, how it is decided."""
import glob
import importlib
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[0:1] = [HERE]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from vx import harness as h  # noqa: E402

out = ["# Contracts", "", "Written by tools/contracts_md.py. `proof`: all paths, obligations decided by the solver; `bounded`: run-time checks on the untouched code; `both`.", ""]
n = 0
for f in sorted(glob.glob(os.path.join(HERE, "contracts", "C*.py"))):
    m = importlib.import_module("contracts." + os.path.basename(f)[:-3])
    out += [f"## {m.P}: {(m.__doc__ or '').strip()}", ""]
    for a in m.ASSUMES:
        out.append(f"* assumes: {a}")
    out.append("")
    for c in h.REGISTRY[m.P]:
        n += 1
        kind = {"both": "both", "sym": "proof", "conc": "bounded"}[c.mode] + (" (complete over the data)" if c.mode == "conc" and c.opts.get("exhaustive") else "")
        out.append(f"* **{c.name.split('.')[-1]}** [{kind}] {' '.join((c.fn.__doc__ or '').split())} — `{'`, `'.join(c.covers)}`")
    out.append("")
open(os.path.join(HERE, "CONTRACTS.md"), "w", encoding="utf-8").write("\n".join(out) + "\n")
print(n, "contracts")
