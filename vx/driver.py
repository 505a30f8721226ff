"""Decide one property: run its contracts, judge, write evidence.

Every contract is a job.  Deductive jobs run in processes forked from one that
has loaded the instrumented /repo; bounded jobs and replays in processes forked
from one that has loaded /repo untouched.  A job that dies or runs over its time
is reported as undecided, never as a violation.
"""

import json
import os
import resource
import select
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[0:1] = [VERIF]
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)

EVIDENCE = os.environ.get("VX_EVIDENCE", os.path.join(VERIF, "evidence"))
NCPU = int(os.environ.get("VX_JOBS", "8"))
MEM = 6 << 30


def _child(fn, args, wfd, secs):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        dn = os.open(os.devnull, os.O_RDWR)
        os.dup2(dn, 0)
        if not os.environ.get("VX_DEBUG"):
            os.dup2(dn, 1)
            os.dup2(dn, 2)
        sys.setrecursionlimit(6000)
        try:
            r = fn(*args)
        except MemoryError:
            r = {"died": "out of memory"}
        except BaseException as e:
            r = {"died": "".join(traceback.format_exception(e))[-1500:]}
        data = json.dumps(r, default=repr, ensure_ascii=True).encode()
        with os.fdopen(wfd, "wb") as f:
            f.write(data)
    finally:
        os._exit(0)


class Pool:
    """Run jobs [(fn, args, secs)] in forked children, at most n at a time."""

    def __init__(self, n):
        self.n = n

    def run(self, jobs):
        results = [None] * len(jobs)
        todo = list(range(len(jobs)))[::-1]
        live = {}
        while todo or live:
            while todo and len(live) < self.n:
                i = todo.pop()
                fn, args, secs = jobs[i]
                r, w = os.pipe()
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    _child(fn, args, w, secs)
                os.close(w)
                live[r] = [i, pid, time.time() + secs, b""]
            ready, _, _ = select.select(list(live), [], [], 0.25)
            now = time.time()
            for fd in list(live):
                i, pid, dl, buf = live[fd]
                if fd in ready:
                    d = os.read(fd, 1 << 16)
                    if d:
                        live[fd][3] = buf + d
                        continue
                    os.close(fd)
                    os.waitpid(pid, 0)
                    del live[fd]
                    try:
                        results[i] = json.loads(buf.decode())
                    except Exception:
                        results[i] = {"died": "killed"}
                elif now > dl:
                    os.kill(pid, signal.SIGKILL)
                    os.close(fd)
                    os.waitpid(pid, 0)
                    del live[fd]
                    results[i] = {"died": f"timeout after {jobs[i][2]} s"}
        return results


def load_contracts(prop):
    import importlib
    import vx.harness as h

    mod = None
    for f in sorted(os.listdir(os.path.join(VERIF, "contracts"))):
        if f.endswith(".py") and f.split("_")[0] == prop:
            mod = importlib.import_module("contracts." + f[:-3])
            break
    if mod is None:
        raise SystemExit(f"no contracts for {prop}")
    return mod, h.REGISTRY.get(prop, [])


PRELOAD = (
    "tensormethod.core",
    "tensormethod.sm",
    "tensormethod.contract",
    "tensormethod.parse_hs",
    "completions.core",
    "completions.completions",
    "completions.operators",
    "completions.topologies",
    "completions.utils",
    "completions.tikzfeynman",
    "database.closures",
    "database.database",
    "database.export",
    "database.utils",
)


def preload(sym, mods):
    from vx import repo

    errs = []
    W = repo.world(sym)
    with W:
        for m in mods:
            try:
                W.mod(m)
            except Exception as e:
                errs.append(f"{m}: {e!r}")
    return errs


def side(sym, jobs, mods, n):
    """One loaded process; returns results of its jobs (run in its children)."""
    errs = preload(sym, mods)
    return {"errs": errs, "results": Pool(n).run(jobs)}


def job_prove(prop, i, thorough, secs, cross):
    import vx.harness as h

    return h.prove(h.REGISTRY[prop][i], thorough, secs, cross)


def job_ground(prop, i, seed, runs, secs, thorough):
    import vx.harness as h

    return h.ground(h.REGISTRY[prop][i], seed, runs, secs, thorough)


def job_replay(prop, i, values, thorough=False):
    import vx.harness as h

    r = h.replay(h.REGISTRY[prop][i], values, thorough)
    return {"fail": r}


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line and not line.startswith(("#", "fixed:")):
                d = json.loads(line)
                if d["property"] == prop:
                    out.append(d)
    return out


def match_finding(kf, con, fail):
    for d in kf:
        if d["contract"] != con:
            continue
        if d.get("label") and not fail["label"].startswith(d["label"]):
            continue
        want = d.get("inputs", {})
        got = fail.get("inputs", {})
        if all(got.get(k) == v for k, v in want.items()):
            return d
    return None


def main(argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--verbose", "-v", action="store_true")
    a = ap.parse_args(argv)
    thorough = a.tier == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    deadline = t0 + (3000 if thorough else 600)
    prop = a.property
    mod, cons = load_contracts(prop)
    mods = getattr(mod, "PRELOAD", PRELOAD)
    scale = 6 if thorough else 1
    sel = [i for i, c in enumerate(cons) if not a.only or a.only in c.name]

    pj = [(i, (job_prove, (prop, i, thorough, cons[i].secs * scale, 40 if thorough else 4),
               cons[i].secs * scale + 15))
          for i in sel if cons[i].mode in ("both", "sym")]
    gj = [(i, (job_ground, (prop, i, seed, cons[i].runs * (20 if thorough else 1),
                            cons[i].gsecs * scale, thorough), cons[i].gsecs * scale + 15))
          for i in sel if cons[i].mode in ("both", "conc")]
    total = 60 + (2000 if thorough else 500)
    groups = []
    for w in (True, "ghost"):
        js = [(i, j) for i, j in pj if cons[i].opts.get("world", True) == w]
        if js:
            groups.append((w, js))
    if gj:
        groups.append((False, gj))
    share = max(2, -(-NCPU // max(1, len(groups))))
    res = Pool(3).run([(side, (w, [j for _, j in js], mods, share), total) for w, js in groups])
    proofs, grounds, load_errs = {}, {}, {}
    for (w, js), r in zip(groups, res):
        r = r or {}
        rs = r.get("results") or [{"died": str(r)}] * len(js)
        (grounds if w is False else proofs).update(zip([i for i, _ in js], rs))
        load_errs[{True: "instrumented", False: "native"}.get(w, w)] = r.get("errs")

    # ---- judge ----------------------------------------------------------------
    # candidates from the verifier, replayed on the untouched code
    cands = []
    for i, r in proofs.items():
        for name, ob in (r.get("obligations") or {}).items():
            for m in ob.get("models", []):
                cands.append((i, "obligation", name, m))
        for desc, m, tb in r.get("exceptions", []):
            cands.append((i, "exception", desc, m))
    reps = []
    if cands:
        out = Pool(1).run([(side, (False, [(job_replay, (prop, i, m, thorough), 60) for i, _, _, m in cands], mods, NCPU), 300)])[0]
        reps = (out or {}).get("results") or [None] * len(cands)
    viol, known, undecided = [], [], []
    kf = known_findings(prop)

    def report(i, source, name, fail):
        d = match_finding(kf, cons[i].name, fail)
        if d:
            if d["id"] not in [x["id"] for x in known]:
                known.append(d)
            return
        viol.append({"contract": cons[i].name, "index": i, "source": source, "obligation": name, **fail})

    confirmed = set()
    for (i, kind, name, m), r in zip(cands, reps):
        f = (r or {}).get("fail")
        if f:
            confirmed.add((i, kind, name))
            report(i, "counterexample of the verifier, replayed on the untouched code", name, f)
    for i, r in grounds.items():
        for f in r.get("fails", []):
            report(i, "bounded run-time check of the contract on the untouched code", f["label"], f)

    noinput = []
    for i, r in proofs.items():
        c = cons[i]
        if r.get("died"):
            undecided.append(f"{c.name}: {r['died'][-300:]}")
            continue
        for u in r.get("unsupported", []):
            undecided.append(f"{c.name}: {u}")
        for desc, m, tb in r.get("exceptions", []):
            if (i, "exception", desc) not in confirmed:
                undecided.append(f"{c.name}: exception on a symbolic path that does not replay: {desc}")
        for name, ob in r.get("obligations", {}).items():
            if ob["refuted"] and (i, "obligation", name) not in confirmed and ob.get("soft"):
                undecided.append(f"{c.name}: {name}: refuted only for an uninterpreted sum, and does not replay")
            elif ob["refuted"] and (i, "obligation", name) not in confirmed:
                noinput.append((i, name, ob))
            if ob["unknown"]:
                undecided.append(f"{c.name}: {name}: solver says unknown ({ob.get('note', '')})")
        if not r.get("n") and not r.get("unsupported"):
            undecided.append(f"{c.name}: no obligation generated")
        for lab in c.opts.get("must_cover", ()):
            if lab not in r.get("covers_hit", {}):
                undecided.append(f"{c.name}: cover {lab} not reached")
    if noinput and not viol and not known:
        # a failed obligation whose counterexample does not replay: look harder
        sup = {i for i, _, _ in noinput if proofs[i].get("unsupported")}
        js = [(i, (job_ground, (prop, i, seed + 1, cons[i].runs * 10, 40, thorough), 60))
              for i in sorted({i for i, _, _ in noinput}) if cons[i].mode != "sym"]
        if js:
            out = Pool(1).run([(side, (False, [j for _, j in js], mods, NCPU), 150)])[0]
            for (i, _), r in zip(js, (out or {}).get("results") or []):
                for f in (r or {}).get("fails", []):
                    report(i, "bounded search after a failed obligation", f["label"], f)
        if not viol:
            for i, name, ob in noinput:
                viol.append({"contract": cons[i].name, "index": i, "source": "verifier", "obligation": name,
                             "label": name, "detail": json.dumps(ob, default=repr)[:3000], "inputs": {},
                             "noinput": True})
    for i, r in grounds.items():
        if r.get("died"):
            undecided.append(f"{cons[i].name}: bounded run: {r['died'][-300:]}")
        for e in r.get("errors", [])[:1]:
            undecided.append(f"{cons[i].name}: contract could not run: {e[-300:]}")

    # ---- evidence -------------------------------------------------------------
    rdir = os.path.join(EVIDENCE, "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(rdir, f))
    lines = []
    seen = set()
    for v in viol:
        k = (v["contract"], v["label"])
        if k in seen or len(lines) >= 8:
            continue
        seen.add(k)
        p = os.path.join(rdir, f"{prop}-{len(lines)}.json")
        with open(p, "w", encoding="utf-8") as f:
            json.dump({"property": prop, **v, "how": f"bin/replay {p}"}, f, indent=1, default=repr)
        lines.append(f"VIOLATION property={prop} replay={p}" + (" no-failing-input-found" if v.get("noinput") else ""))
    ob = sum(r.get("n", 0) for r in proofs.values())
    di = sum(r.get("discharged", 0) for r in proofs.values())
    per = []
    for i in sel:
        c = cons[i]
        e = {"contract": c.name, "functions": list(c.covers), "doc": (c.fn.__doc__ or "").strip()}
        r = proofs.get(i)
        if r is not None:
            full = not r.get("died") and not r.get("unsupported") and not r.get("unknown") and not r.get("refuted") and r.get("n", 0) > 0 and not r.get("exceptions")
            e["deductive"] = {k: r.get(k) for k in ("n", "discharged", "refuted", "unknown", "trivial", "paths", "completed", "queries", "solver_s", "unsupported", "died", "cross", "wall_s") if r.get(k) is not None}
            e["deductive"]["obligation_names"] = {k: v["discharged"] for k, v in (r.get("obligations") or {}).items()}
            e["status"] = "proved" if full else "not proved on this run"
        else:
            e["status"] = "bounded"
        r = grounds.get(i)
        if r is not None:
            e["bounded"] = {k: r.get(k) for k in ("evaluations", "runs", "skipped", "distinct", "exhaustive", "samples", "died", "wall_s") if r.get(k) is not None}
        per.append(e)
    ev = sum(r.get("evaluations", 0) for r in grounds.values())
    level = mod.LEVEL
    samples = [s for r in grounds.values() for s in r.get("samples", [])][:5]
    cov = {
        "obligations": ob,
        "discharged": di,
        "checker_cmd": f"bin/check {prop} --tier {a.tier}  (back end: z3 {_z3v()} through its API; cvc5 on a sample)",
        "trusted_base": list(getattr(mod, "TRUSTED", ())) + TRUSTED,
        "solver_s": round(sum(r.get("solver_s", 0) or 0 for r in proofs.values()), 2),
        "functions_under_contract": sorted({f for i in sel for f in cons[i].covers}),
        "contracts_proved": [e["contract"] for e in per if e["status"] == "proved"],
        "contracts_not_proved": [e["contract"] for e in per if e["status"] == "not proved on this run"],
        "contracts_bounded_only": [e["contract"] for e in per if e["status"] == "bounded"],
        "contracts": per,
        "undecided": undecided[:40],
        "evaluations": ev,
        "distinct_nontrivial": sum(r.get("distinct", 0) for r in grounds.values()),
        "rule": "bounded part: inputs drawn from VERIF_SEED or enumerated by each contract; non-trivial: satisfies the precondition and evaluates at least one postcondition; distinct by input values",
        "samples": samples or [{"note": "no bounded run"}],
        "explanation": getattr(mod, "EXPLAIN", "") or "contracts on the real functions of /repo; see contracts",
        "load_errors": load_errs,
    }
    crosses = [r["cross"] for r in proofs.values() if r.get("cross")]
    if crosses:
        cov["cvc5_second_opinion"] = {k: sum(c[k] for c in crosses) for k in crosses[0]}
    doc = {
        "property": prop,
        "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": seed,
        "level": level,
        "coverage": cov,
        "assumptions": list(getattr(mod, "ASSUMES", ())),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(lines),
    }
    with open(os.path.join(EVIDENCE, prop + ".json"), "w", encoding="utf-8") as f:
        json.dump(doc, f, indent=1, default=repr)
    for d in known:
        print(f"KNOWN-FINDING: property={prop} {d['what']}")
    if a.verbose:
        for e in per:
            d, b = e.get("deductive", {}), e.get("bounded", {})
            print(f"{e['status']:24s} {e['contract']}: ob {d.get('discharged')}/{d.get('n')} triv {d.get('trivial')} paths {d.get('completed')}/{d.get('paths')} "
                  f"{d.get('wall_s')}s | eval {b.get('evaluations')} runs {b.get('runs')} distinct {b.get('distinct')} skip {b.get('skipped')} exh {b.get('exhaustive')} {b.get('wall_s')}s")
        for v in viol:
            print("  VIOL", v["contract"], v["label"], v.get("inputs"), v.get("detail", "")[-(700 if len(viol) < 3 else 120):])
        for u in undecided:
            print("  undecided:", u[-700:])
        if any(load_errs.values()):
            print("  load:", load_errs)
    for l in lines:
        print(l)
    print(f"{prop}: obligations {di}/{ob} discharged, {ev} bounded evaluations, {len(lines)} violation(s), {time.time()-t0:.1f} s")
    return 1 if lines else 0


TRUSTED = [
    "z3 5.3 (SMT solver)",
    "vx: instrumentation of /repo's source and symbolic values (transform.py, runtime.py, core.py, seq.py)",
    "CPython 3.12 executing the instrumented code; Python integers and sympy Rationals taken as mathematical numbers",
]


def _z3v():
    try:
        import z3

        return z3.get_version_string()
    except Exception:
        return "?"


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
