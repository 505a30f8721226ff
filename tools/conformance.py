"""See bin/conformance."""

import argparse
import json
import multiprocessing as mp
import os
import random
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[0:0] = [HERE]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

from vx import driver, harness, repo


def outcome(con, g):
    try:
        with g.world:
            con.fn(g)
        return "holds", g.evals
    except harness.Skip:
        return "skipped", 0
    except harness.Violation as v:
        return "fails " + v.label, 0
    except Exception as e:
        return f"raises {type(e).__name__}: {e}"[:160], 0
    finally:
        harness.unpatch()


def compare(con, runs, secs, seed):
    """How the runs of a contract came out, and those that differ."""
    other = con.opts.get("world", True)
    rng, t0, same, odd = random.Random(f"{seed}/{con.name}"), time.time(), 0, []
    for _ in range(runs):
        if time.time() - t0 > secs:
            break
        g = harness.Conc(rng=random.Random(rng.random()))
        a = outcome(con, g)
        h = harness.Conc(values=dict(g.used))
        h.world = repo.world(other)
        b = outcome(con, h)
        if a == b:
            same += a[0] != "skipped"
        else:
            odd.append((a, b, dict(g.used)))
    return same, odd


def job(prop, index, runs, secs, seed, out):
    mod, cons = driver.load_contracts(prop)
    for w in (False, cons[index].opts.get("world", True)):
        driver.preload(w, getattr(mod, "PRELOAD", driver.PRELOAD))
    out.send(compare(cons[index], runs, secs, seed))


def main():
    a = argparse.ArgumentParser()
    a.add_argument("props", nargs="*")
    a.add_argument("-n", type=int, default=60)
    a.add_argument("--secs", type=float, default=30)
    a.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    a.add_argument("--workers", type=int, default=6)
    a = a.parse_args()
    props = a.props or [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    todo, running, bad, total, runs = [], [], 0, 0, 0
    for p in sorted(props):
        _, cons = driver.load_contracts(p)
        todo += [(p, i, c.name) for i, c in enumerate(cons) if c.mode == "both"]
    while todo or running:
        while todo and len(running) < a.workers:
            p, i, name = todo.pop(0)
            r, w = mp.Pipe(False)
            k = mp.get_context("fork").Process(target=job, args=(p, i, a.n, a.secs, a.seed, w))
            k.start()
            w.close()
            running.append((k, r, name))
        k, r, name = running.pop(0)
        try:
            same, odd = r.recv()
        except EOFError:
            same, odd = 0, [("no answer", "", {})]
        k.join()
        total, runs, bad = total + 1, runs + same, bad + bool(odd)
        print(f"{'differs' if odd else 'agrees '} {name}: {same} runs the same, {len(odd)} not", flush=True)
        for x, y, used in odd[:2]:
            print("   untouched:", x, "| rewritten:", y, "|", json.dumps(used, default=str)[:300])
    print(f"{total} contracts, {runs} runs the same in both, {bad} contracts differ")
    return 1 if bad else 0


sys.exit(main())
