"""Parent: ``run_check.py PXX [--replay FILE] [--tier T]``.

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.
Exit 2: the machinery could not run (no verdict).
"""
import argparse
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)

from harness import core, env  # noqa: E402


HANG_S = 240.0  # the slowest case takes a few seconds


def known_findings():
    p = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def run_one(prop, payload):
    mod = core.load_property(prop)
    sub = {s.name: s for s in list(mod.CHECKS) + list(getattr(mod, "PROBES", []))}[
        payload["check"]
    ]
    scratch = tempfile.mkdtemp(prefix=f"vf_{prop}_r_", dir=core.scratch_root())
    try:
        return core.execute(sub, payload["case"], scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int, default=None)
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--only", default=None)
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    prop = a.prop.upper()

    if a.replay:
        with open(a.replay) as f:
            payload = json.load(f)
        status, msg, _ = run_one(prop, payload)
        print(f"replay {payload['check']}: {status}\n{msg}")
        if status == "violation":
            print(f"VIOLATION property={prop} replay={a.replay}")
            return 1
        return 0

    t0 = time.monotonic()
    mod = core.load_property(prop)  # an import error here is a harness error
    nworkers = a.workers or getattr(mod, "WORKERS", 8)
    budget = a.budget or (
        getattr(mod, "QUICK_BUDGET", 150.0) if a.tier == "quick" else 780.0
    )
    evdir = os.path.join(VERIF, "evidence")
    rdir = os.path.join(evdir, "replays")
    os.makedirs(rdir, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix=f"vfp_{prop}_", dir=core.scratch_root())
    procs = []
    ncpu = os.cpu_count() or 8
    try:
        threads = getattr(mod, "NUMBA_THREADS", 1)
        for w in range(nworkers):
            e = dict(os.environ)
            nt = threads if isinstance(threads, int) else threads[w % len(threads)]
            e.update(
                PYTHONDONTWRITEBYTECODE="1",
                PYTHONHASHSEED="0",
                MPLBACKEND="Agg",
                NUMBA_NUM_THREADS=str(min(nt, ncpu)),
                NUMBA_CACHE_DIR=os.path.join(tmp, "numba"),
                MPLCONFIGDIR=os.path.join(tmp, "mpl"),
                OMP_NUM_THREADS="1",
                OPENBLAS_NUM_THREADS="1",
                PYTHONPATH=VERIF,
                HDF5_USE_FILE_LOCKING="FALSE",
                XDG_CACHE_HOME=tmp,
                HOME=tmp,
            )
            log = open(os.path.join(tmp, f"log{w}"), "wb")
            out = os.path.join(tmp, f"out{w}.json")
            p = subprocess.Popen(
                [
                    sys.executable, "-W", "ignore", "-m", "harness.core", prop, a.tier,
                    str(a.seed), str(w), str(nworkers), str(budget), out,
                ],
                stdout=log, stderr=subprocess.STDOUT, env=e, cwd=tmp,
                start_new_session=True,
            )
            procs.append((p, out, os.path.join(tmp, f"log{w}")))
        results = [None] * nworkers
        errors = []
        crashed = []
        pending = set(range(nworkers))
        violation_t = None
        while pending:
            for w in sorted(pending):
                p, out, log = procs[w]
                if p.poll() is not None:
                    pending.discard(w)
                    if p.returncode == 0 and os.path.exists(out):
                        with open(out) as f:
                            results[w] = json.load(f)
                        if results[w]["violations"]:
                            violation_t = violation_t or time.monotonic()
                    else:
                        with open(log, "rb") as f:
                            tail = f.read()[-3000:].decode(errors="replace")
                        if p.returncode < 0 and -p.returncode in (
                            signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL
                        ):
                            try:
                                with open(out + ".cur") as f:
                                    cur = json.load(f)
                            except (OSError, ValueError):
                                cur = {"check": "crash", "case": None}
                            crashed.append((w, p.returncode, tail, cur))
                        else:
                            errors.append((w, p.returncode, tail))
            now = time.time()
            for w in sorted(pending):
                p, out, log = procs[w]
                try:
                    age = now - os.path.getmtime(out + ".cur")
                except OSError:
                    continue
                if age > HANG_S and not os.path.exists(out):
                    # one case has been running for minutes: the code under test does not come back
                    try:
                        with open(out + ".cur") as f:
                            cur = json.load(f)
                    except (OSError, ValueError):
                        continue
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    pending.discard(w)
                    crashed.append((w, -9, f"case still running after {age:.0f} s", cur))
                    violation_t = violation_t or time.monotonic()
            if violation_t and time.monotonic() - violation_t > 5:
                for w in sorted(pending):
                    try:
                        os.killpg(procs[w][0].pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    procs[w][0].wait()
                pending.clear()
                break
            time.sleep(0.02)
    finally:
        for p, _, _ in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
        shutil.rmtree(tmp, ignore_errors=True)

    ev = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": []}
    per = {}
    budget_hit = False
    violations = []
    for r in results:
        if r is None:
            continue
        budget_hit |= r["budget_hit"]
        violations += r["violations"]
        for name, rec in r["subs"].items():
            d = per.setdefault(
                name,
                {"evaluations": 0, "nt": set(), "labels": {}, "samples": [], "rule": rec["rule"], "wall_s": 0.0},
            )
            d["evaluations"] += rec["evaluations"]
            d["nt"].update(rec["nontrivial"])
            d["wall_s"] += rec["wall_s"]
            for k, v in rec["labels"].items():
                d["labels"][k] = d["labels"].get(k, 0) + v
            if len(d["samples"]) < 2:
                d["samples"] += rec["samples"]
    for name in sorted(per):
        d = per[name]
        d["distinct_nontrivial"] = len(d.pop("nt"))
        ev["evaluations"] += d["evaluations"]
        ev["distinct_nontrivial"] += d["distinct_nontrivial"]
        for s in d.pop("samples")[:2]:
            txt = json.dumps(s)
            ev["samples"].append({"check": name, "case": s if len(txt) < 3000 else txt[:3000]})
        d["wall_s"] = round(d["wall_s"], 2)
    ev["rule"] = getattr(mod, "RULE", "") + " | " + " | ".join(
        f"{n}: {per[n]['rule']}" for n in sorted(per) if per[n]["rule"]
    )
    ev["per_check"] = per
    ev["time_budget_hit"] = budget_hit
    ev["workers"] = nworkers

    # known findings: re-run each listed probe so that it stays a live statement
    rc = 0
    for kf in known_findings():
        if kf.get("property") != prop or kf.get("status") != "open":
            continue
        status, msg, _ = run_one(prop, kf["replay"])
        if status == "violation":
            print(f"KNOWN-FINDING: property={prop} {kf['what']}")
        else:
            print(f"note: listed finding no longer reproduces: {kf['what']}")

    evidence = {
        "property": prop,
        "tier": a.tier,
        "seed": a.seed,
        "level": "exploration",
        "coverage": ev,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(violations),
    }
    tmpf = os.path.join(evdir, f".{prop}.json.tmp{os.getpid()}")
    with open(tmpf, "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(tmpf, os.path.join(evdir, f"{prop}.json"))

    if violations:
        # smallest reproduction per sub-check
        best = {}
        for v in violations:
            k = v["check"]
            if k not in best or len(json.dumps(v["case"])) < len(json.dumps(best[k]["case"])):
                best[k] = v
        for k, v in sorted(best.items()):
            rp = os.path.join(rdir, f"{prop}-{k}-{core.case_hash(k, v['case'])}.json")
            with open(rp, "w") as f:
                json.dump(
                    {"property": prop, "check": k, "case": v["case"], "message": v["message"]}, f, indent=1
                )
            print(f"--- {prop}/{k}: {v['message'][-1500:]}")
            print(f"    case: {json.dumps(v['case'])[:1500]}")
            print(f"VIOLATION property={prop} replay={rp}")
        return 1
    if crashed:
        # the interpreter itself died while running a case (memory corruption by the code under test)
        w, code, tail, cur = crashed[0]
        rp = os.path.join(rdir, f"{prop}-crash-w{w}-seed{a.seed}.json")
        with open(rp, "w") as f:
            json.dump({"property": prop, **cur, "worker": w, "seed": a.seed,
                       "tier": a.tier, "signal": -code, "tail": tail}, f)
        print(tail)
        print(f"worker {w} ended with signal {-code}")
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    if errors:
        w, code, tail = errors[0]
        print(f"HARNESS-ERROR in {len(errors)} workers, e.g. worker {w} exit {code}\n{tail[-1500:]}", file=sys.stderr)
        return 2
    if ev["evaluations"] == 0:
        print("HARNESS-ERROR: no case was evaluated", file=sys.stderr)
        return 2
    print(
        f"{prop}: held on {ev['evaluations']} cases ({ev['distinct_nontrivial']} distinct non-trivial), "
        f"{evidence['wall_s']} s" + (" [time budget hit]" if budget_hit else "")
    )
    return rc


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        import traceback

        traceback.print_exc()
        sys.exit(2)
