"""Core of the property-based checking harness.

A property module (harness/checks/pXX.py) exposes ``CHECKS``: a list of SubCheck.
Each SubCheck has

* ``strategy``: zero-argument callable returning a hypothesis strategy that yields a
  JSON-able *case* (plain dict / list / str / number),
* ``run(case, ctx)``: executes the code under test on the case and compares it with the
  oracle.  ``ctx.fail(msg)`` / any escaping exception is a violation.
* ``quick`` / ``thorough``: total number of cases over all the workers.

A case is a pure function of the JSON value, so the replay file is just
``{"property", "check", "case"}`` and is re-run without hypothesis.
"""
import errno
import hashlib
import json
import os
import shutil
import sys
import tempfile
import time
import traceback

from . import env

SHRINK_CAP_S = {"quick": 25.0, "thorough": 90.0}


class Violation(Exception):
    """The property does not hold for the case."""


class HarnessError(Exception):
    """The machinery itself cannot run (not a verdict)."""


class Skip(Exception):
    """The case lies outside the domain of the property (counted, not a verdict)."""


class SubCheck:
    def __init__(self, name, strategy, run, quick, thorough=None, rule="", weight=1.0):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.rule = rule
        self.weight = weight


class Ctx:
    """Per-case context handed to ``run``."""

    def __init__(self, tmp):
        self.tmp = tmp
        self.labels = []
        self.is_nontrivial = True
        self._n = 0

    def label(self, *labels):
        self.labels.extend(str(x) for x in labels)

    def trivial(self):
        self.is_nontrivial = False

    def path(self, name="f.hdf5"):
        self._n += 1
        return os.path.join(self.tmp, f"{self._n}_{name}")

    def fail(self, msg):
        raise Violation(msg)

    def check(self, cond, msg):
        if not cond:
            raise Violation(msg() if callable(msg) else msg)


def case_hash(name, case):
    return hashlib.sha1(
        (name + json.dumps(case, sort_keys=True)).encode()
    ).hexdigest()[:16]


def scratch_root():
    base = os.environ.get("VERIF_SCRATCH")
    if base is None:
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    return base


def execute(sub, case, tmp_parent):
    """Run one case.  Returns (status, message, ctx); status in ok/violation/skip."""
    tmp = tempfile.mkdtemp(prefix="c_", dir=tmp_parent)
    ctx = Ctx(tmp)
    try:
        try:
            sub.run(case, ctx)
            return "ok", "", ctx
        except Skip:
            ctx.label("skipped")
            ctx.trivial()
            return "skip", "", ctx
        except Violation as e:
            return "violation", str(e), ctx
        except (MemoryError, HarnessError, KeyboardInterrupt):
            raise
        except OSError as e:
            if e.errno in (errno.ENOSPC, errno.ENOMEM, errno.EMFILE, errno.EDQUOT):
                raise HarnessError(f"resource exhaustion: {e!r}")
            return "violation", "unexpected exception: " + _short_tb(), ctx
        except BaseException as e:
            if isinstance(e, SystemExit):
                raise
            return "violation", "unexpected exception: " + _short_tb(), ctx
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _short_tb():
    t, v, tb = sys.exc_info()
    lines = traceback.format_exception(t, v, tb)
    return "".join(lines)[-1800:]


SHARD = 0  # index of this worker: strategies may use it to spread compilation costs


class Worker:
    """Runs all sub-checks of one property in this process."""

    def __init__(self, prop, tier, seed, worker, nworkers, budget):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.worker = worker
        self.nworkers = nworkers
        self.budget = budget
        global SHARD
        SHARD = self.worker

    def go(self, subs):
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings

        t_start = time.monotonic()
        out = {"subs": {}, "violations": [], "budget_hit": False}
        scratch = tempfile.mkdtemp(prefix=f"vf_{self.prop}_", dir=scratch_root())
        total_weight = sum(s.weight for s in subs)
        used_weight = 0.0
        try:
            # rotate order between workers, so a time budget hit never starves a sub-check
            k = self.worker % len(subs)
            for sub in subs[k:] + subs[:k]:
                n_total = getattr(sub, self.tier)
                n = n_total // self.nworkers + (
                    1 if self.worker < n_total % self.nworkers else 0
                )
                used_weight += sub.weight
                if n == 0:
                    continue
                rec = {
                    "evaluations": 0,
                    "nontrivial": set(),
                    "labels": {},
                    "samples": [],
                    "rule": sub.rule,
                    "wall_s": 0.0,
                }
                sub_t0 = time.monotonic()
                sub_deadline = t_start + self.budget * used_weight / total_weight
                state = {"best": None, "first_fail_t": None}

                def body(case, sub=sub, rec=rec, state=state, sub_deadline=sub_deadline):
                    now = time.monotonic()
                    if state["first_fail_t"] is not None:
                        if now - state["first_fail_t"] > SHRINK_CAP_S[self.tier]:
                            return
                    elif now > sub_deadline:
                        out["budget_hit"] = True
                        return
                    with open(self.curfile, "w") as f:
                        json.dump({"check": sub.name, "case": case}, f)
                    status, msg, ctx = execute(sub, case, scratch)
                    if state["first_fail_t"] is None:
                        rec["evaluations"] += 1
                        h = case_hash(sub.name, case)
                        if ctx.is_nontrivial:
                            rec["nontrivial"].add(h)
                        for lab in set(ctx.labels):
                            rec["labels"][lab] = rec["labels"].get(lab, 0) + 1
                        if ctx.is_nontrivial and len(rec["samples"]) < 1:
                            rec["samples"].append(case)
                    if status == "violation":
                        if state["first_fail_t"] is None:
                            state["first_fail_t"] = now
                        size = len(json.dumps(case))
                        if state["best"] is None or size <= state["best"][0]:
                            state["best"] = (size, case, msg)
                        raise Violation(msg.splitlines()[-1] if msg else "")

                test = given(sub.strategy())(lambda case: body(case))
                test = settings(
                    max_examples=n,
                    database=None,
                    deadline=None,
                    derandomize=False,
                    print_blob=False,
                    report_multiple_bugs=False,
                    suppress_health_check=list(HealthCheck),
                    phases=(Phase.generate, Phase.shrink),
                )(test)
                test = hypothesis.seed(
                    int.from_bytes(
                        hashlib.sha256(
                            f"{self.seed}/{self.worker}/{self.prop}/{sub.name}".encode()
                        ).digest()[:8],
                        "big",
                    )
                )(test)
                try:
                    # keep hypothesis' chatter off stdout
                    test()
                except (MemoryError, HarnessError, KeyboardInterrupt, SystemExit):
                    raise
                except BaseException:
                    if state["best"] is None:
                        raise
                rec["wall_s"] = time.monotonic() - sub_t0
                rec["nontrivial"] = sorted(rec["nontrivial"])
                out["subs"][sub.name] = rec
                if state["best"] is not None:
                    _, case, msg = state["best"]
                    out["violations"].append(
                        {"check": sub.name, "case": case, "message": msg}
                    )
                    break
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        return out


def load_property(prop):
    import importlib

    env.bootstrap()
    env.check_origin()
    mod = importlib.import_module(f"harness.checks.{prop.lower()}")
    return mod


def worker_main(argv):
    prop, tier, seed, worker, nworkers, budget, outfile = argv
    stop = None
    if os.environ.get("VERIF_COV"):  # development only
        from harness import cov

        stop = cov.start(os.environ["VERIF_COV"], (env.VERIF + "/harness/", os.path.realpath(env.REPO) + "/swiftsimio/"))
    mod = load_property(prop)
    w = Worker(prop, tier, int(seed), int(worker), int(nworkers), float(budget))
    w.curfile = outfile + ".cur"
    out = w.go(mod.CHECKS)
    if stop:
        stop(f"{prop}-{worker}")
    tmp = outfile + ".tmp"
    with open(tmp, "w") as f:
        json.dump(out, f)
    os.replace(tmp, outfile)


if __name__ == "__main__":
    from harness.core import worker_main as _main  # one copy of the exception classes

    _main(sys.argv[1:])
