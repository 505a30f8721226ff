#!/usr/bin/env python3
"""Which checks catch which planted bugs: hunt.py [ID ...] [--all-checks].
Runs each bug's own property's check on a changed copy of /repo."""

import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(HERE, "seeded")


def one(id):
    prop = json.load(open(os.path.join(S, id, "meta.json")))["property"]
    tmp = tempfile.mkdtemp(prefix="hunt")
    try:
        copy = os.path.join(tmp, "repo")
        shutil.copytree("/repo", copy, symlinks=True)
        subprocess.run(["git", "apply", os.path.join(S, id, "patch.diff")], cwd=copy, check=True)
        env = dict(os.environ, VX_REPO=copy, VX_EVIDENCE=os.path.join(tmp, "ev"), VERIF_SEED="1")
        r = subprocess.run([os.path.join(HERE, "bin", "check"), prop, "--tier", "quick"], cwd=HERE, env=env, capture_output=True, text=True, timeout=900)
        lines = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        named = [l for l in r.stdout.splitlines() if "violation" in l.lower() or "FAILED" in l or "refuted" in l]
        return id, prop, r.returncode, lines[:2], named[:3]
    finally:
        shutil.rmtree(tmp)


ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(S))
with ThreadPoolExecutor(4) as ex:
    for id, prop, rc, lines, named in ex.map(one, ids):
        print(f"{id:28s} {prop} {'CAUGHT' if rc == 1 and lines else 'missed rc=%d' % rc} {lines[0] if lines else ''}", flush=True)
        if "-v" in sys.argv:
            print("   ", "\n    ".join(named))
