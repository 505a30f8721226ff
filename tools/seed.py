#!/usr/bin/env python3
"""Keep a planted bug: seed.py FILE.py, where FILE.py sets
ID, PROPERTY, EDITS = [(path, old, new)], DEMO, NEEDS, BREAKS.
A copy of /repo is changed, the stable tests are run there and the demo in both."""

import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHIM = '''import importlib.util
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())


def bare(name):
    """The package without its __init__ (which needs a file that is not shipped)."""
    spec = importlib.util.find_spec(name)
    m = importlib.util.module_from_spec(spec)
    sys.modules[name] = m
    p, _, c = name.rpartition(".")
    if p:
        setattr(sys.modules[p], c, m)


bare("neutrinomass")
bare("neutrinomass.database")
'''
SH = '#!/bin/bash\nexport PYTHONHASHSEED=0 MPLBACKEND=Agg LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'


def main(path, tests=True):
    d = {}
    exec(open(path, encoding="utf-8").read(), d)
    out = os.path.join(HERE, "seeded", d["ID"])
    os.makedirs(out, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="seed")
    copy = os.path.join(tmp, "repo")
    try:
        shutil.copytree("/repo", copy, symlinks=True)
        for f, old, new in d["EDITS"]:
            p = os.path.join(copy, f)
            s = open(p, encoding="utf-8").read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, "w", encoding="utf-8").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=copy, capture_output=True, text=True).stdout
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "shim.py"), "w").write(SHIM)
        open(os.path.join(out, "demo.py"), "w").write("import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nimport shim\n" + d["DEMO"])
        open(os.path.join(out, "demo.sh"), "w").write(SH)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({"property": d["PROPERTY"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        a = subprocess.run([os.path.join(out, "demo.sh")], cwd="/repo", capture_output=True, text=True)
        b = subprocess.run([os.path.join(out, "demo.sh")], cwd=copy, capture_output=True, text=True)
        print(d["ID"], "demo unchanged", a.returncode, a.stderr[-300:] if a.returncode else "")
        print(d["ID"], "demo changed", b.returncode, b.stderr[-200:])
        ok = a.returncode == 0 and b.returncode != 0
        if tests and ok:
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", LANG="C.UTF-8", LC_ALL="C.UTF-8", PYTHONPATH="/opt/vp/plugin")
            stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            files = sorted({t.split("::")[0].replace(".", "/") + ".py" for t in stable})
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "nm_scope", "-p", "no:cacheprovider", "-p", "no:xdist", "-rfE", *files],
                               cwd=copy, env=env, capture_output=True, text=True)
            failed = [l.split()[1] for l in r.stdout.splitlines() if l.startswith(("FAILED", "ERROR"))]
            bad = [t for t in failed if t.replace("/", ".").replace(".py::", "::") in stable]
            print(d["ID"], "tests", r.stdout.strip().splitlines()[-1], "stable failing:", bad)
            ok = not bad
        print(d["ID"], "KEPT" if ok else "REJECTED")
        if not ok:
            shutil.move(out, os.path.join(tempfile.gettempdir(), "rejected_" + d["ID"] + str(os.getpid())))
    finally:
        shutil.rmtree(tmp)


main(sys.argv[1], "--notests" not in sys.argv)
