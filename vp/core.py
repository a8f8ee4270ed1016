"""Runner: drives generated cases against an oracle, shrinks, writes evidence.

A check module (checks/<ID>.py) declares PROPERTY and a list TESTS of `Test`.
Each Test has a Hypothesis strategy producing a JSON-able *case*, and a function
`fn(case, ctx)` that builds real inputs from the case, runs mergekit and raises
`Violation` (or lets mergekit raise) if the property fails.  A case is a plain
value, so a shrunk failure is written out as a replay file that runs without
the generator library.
"""
import contextlib
import hashlib
import importlib
import json
import logging
import os
import shutil
import sys
import tempfile
import time
import traceback
import warnings
from dataclasses import dataclass, field
from typing import Any, Callable, Optional

from vp.boot import REPO, VERIF

TIERS = ("quick", "thorough")
# for judging mutants: report the first failure without shrinking it
FAST = bool(os.environ.get("VP_FAST"))


class Violation(AssertionError):
    """The property does not hold on this case."""


class Rejected(Exception):
    """The case is outside the property's domain (counted, not evaluated)."""


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else str(msg))


class Ctx:
    """Per-case context: scratch directory and classification labels."""

    def __init__(self, job):
        self.labels = set()
        self.nontrivial = False
        self.job = job
        self._dirs = []

    def label(self, *names):
        for n in names:
            self.labels.add(str(n))

    def interesting(self, flag=True):
        if flag:
            self.nontrivial = True

    def tmp(self):
        d = tempfile.mkdtemp(prefix="case-", dir=self.job["scratch"] if self.job else None)
        self._dirs.append(d)
        return d

    def close(self):
        for d in self._dirs:
            shutil.rmtree(d, ignore_errors=True)
        self._dirs = []


@dataclass
class Test:
    name: str
    strategy: Callable[[], Any]
    fn: Callable[[Any, Ctx], None]
    quick: int = 200  # cases, quick tier, over all shards
    thorough: int = 4000
    shards: int = 1  # processes the quick cases are split over
    budget: float = 100.0  # seconds of generation per shard, quick tier
    thorough_budget: float = 1500.0
    max_shrinks_s: float = 40.0
    rule: str = ""


def _stable_seed(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], "big")


def _through_repo(tb):
    root = os.path.realpath(REPO) + os.sep
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(root):
            return True
        tb = tb.tb_next
    return False


def _is_violation(exc):
    """Property failure, as opposed to a fault of this machinery."""
    if isinstance(exc, Violation):
        return True
    if isinstance(exc, (MemoryError, KeyboardInterrupt)):
        return False
    seen = set()
    e = exc
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        if isinstance(e, Violation) or _through_repo(e.__traceback__):
            return True
        e = e.__cause__ or e.__context__
    return False


@contextlib.contextmanager
def quiet_output():
    """mergekit and its libraries print; keep the check's own stdout clean."""
    logging.disable(logging.CRITICAL)
    with open(os.devnull, "w") as dn, contextlib.redirect_stdout(dn), contextlib.redirect_stderr(dn):
        yield


def evaluate(test, case, job, ctx=None):
    own = ctx is None
    ctx = ctx or Ctx(job)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with quiet_output():
                test.fn(case, ctx)
    finally:
        if own:
            ctx.close()
    return ctx


def run_job(module, test, job):
    """One shard of one test, in its own process.  Returns a result dict."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    t0 = time.monotonic()
    stats = {
        "evaluations": 0,
        "skipped_after_budget": 0,
        "rejected": 0,
        "labels": {},
        "nontrivial": set(),
        "samples": [],
    }
    state = {"failed_at": None, "last_case": None, "last_exc": None}

    def body(case):
        now = time.monotonic()
        if state["failed_at"] is None:
            if now - t0 > job["budget"]:
                stats["skipped_after_budget"] += 1
                return
        elif now - state["failed_at"] > (0 if FAST else test.max_shrinks_s) and state.get("stop_shrink") is None:
            state["stop_shrink"] = True
        key = json.dumps(case, sort_keys=True, default=str)
        if state.get("stop_shrink") and key != state["last_key"]:
            # out of shrinking time: only the best failure so far still fails
            return
        ctx = Ctx(job)
        try:
            try:
                evaluate(test, case, job, ctx)
            finally:
                ctx.close()
        except Rejected:
            stats["rejected"] += 1
            hypothesis.reject()
        except BaseException as e:
            if isinstance(e, Exception):
                if state["failed_at"] is None:
                    state["failed_at"] = time.monotonic()
                state["last_case"] = case
                state["last_key"] = key
                state["last_exc"] = e
                state["last_tb"] = traceback.format_exc()
                state["is_violation"] = _is_violation(e)
            raise
        if state["failed_at"] is None:
            stats["evaluations"] += 1
            for lb in ctx.labels:
                stats["labels"][lb] = stats["labels"].get(lb, 0) + 1
            if ctx.nontrivial:
                h = hashlib.sha256(key.encode()).hexdigest()[:16]
                if h not in stats["nontrivial"]:
                    stats["nontrivial"].add(h)
                    if len(stats["samples"]) < 2 and len(key) < 3000:
                        stats["samples"].append(case)

    runner = given(case=test.strategy())(body)
    runner = hypothesis.seed(job["seed"])(runner)
    runner = settings(
        max_examples=max(1, job["examples"]),
        deadline=None,
        database=None,
        report_multiple_bugs=False,
        print_blob=False,
        suppress_health_check=list(HealthCheck),
        phases=(Phase.generate, Phase.shrink),
    )(runner)
    failure = None
    try:
        with open(os.devnull, "w") as dn, contextlib.redirect_stdout(dn):
            runner()
    except BaseException as e:  # noqa: BLE001
        if state["last_case"] is not None:
            failure = {
                "test": test.name,
                "case": state["last_case"],
                "error": f"{type(state['last_exc']).__name__}: {state['last_exc']}"[:2000],
                "traceback": state["last_tb"][-6000:],
                "kind": "violation" if state["is_violation"] else "harness",
            }
        else:
            failure = {
                "test": test.name,
                "case": None,
                "error": f"{type(e).__name__}: {e}"[:2000],
                "traceback": traceback.format_exc()[-6000:],
                "kind": "harness",
            }
    stats["nontrivial"] = sorted(stats["nontrivial"])
    stats["failure"] = failure
    stats["test"] = test.name
    stats["wall"] = time.monotonic() - t0
    return stats


def _child(module, test, job, out):
    os.environ["TMPDIR"] = job["scratch"]
    tempfile.tempdir = job["scratch"]
    try:
        if job["kind"] == "corpus":
            res = run_corpus(module, job)
        else:
            res = run_job(module, test, job)
    except BaseException:  # noqa: BLE001
        res = {"test": test.name if test else "corpus", "fatal": traceback.format_exc()[-6000:]}
    with open(out, "w") as f:
        json.dump(res, f, default=str)
    sys.stdout.flush()
    os._exit(0)


def run_corpus(module, job):
    """Replay the committed regression cases of this property."""
    tests = {t.name: t for t in module.TESTS}
    res = {"test": "corpus", "evaluations": 0, "nontrivial": [], "labels": {}, "samples": [],
           "rejected": 0, "skipped_after_budget": 0, "failure": None, "wall": 0.0}
    t0 = time.monotonic()
    d = os.path.join(VERIF, "corpus", module.PROPERTY)
    for fn in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        if not fn.endswith(".json"):
            continue
        with open(os.path.join(d, fn)) as f:
            rec = json.load(f)
        test = tests[rec["test"]]
        try:
            evaluate(test, rec["case"], job)
            res["evaluations"] += 1
            res["nontrivial"].append("corpus:" + fn)
        except Rejected:
            res["rejected"] += 1
        except Exception as e:  # noqa: BLE001
            res["failure"] = {
                "test": test.name,
                "case": rec["case"],
                "error": f"{type(e).__name__}: {e}"[:2000],
                "traceback": traceback.format_exc()[-6000:],
                "kind": "violation" if _is_violation(e) else "harness",
            }
            break
    res["labels"] = {"corpus": res["evaluations"]} if res["evaluations"] else {}
    res["wall"] = time.monotonic() - t0
    return res


def _run_jobs(module, jobs, workers, hard_limit):
    """Fork one process per job, at most `workers` at once."""
    results = []
    pending = list(jobs)
    running = {}
    t0 = time.monotonic()
    stop = False
    while pending or running:
        while pending and len(running) < workers and not stop:
            test, job = pending.pop(0)
            out = os.path.join(job["scratch"], "result.json")
            pid = os.fork()
            if pid == 0:
                _child(module, test, job, out)
            running[pid] = (test, job, out)
        if stop and not running:
            break
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            if time.monotonic() - t0 > hard_limit:
                for p, (test, job, out) in running.items():
                    with contextlib.suppress(ProcessLookupError):
                        os.kill(p, 9)
                    os.waitpid(p, 0)
                    results.append({"test": test.name if test else "corpus", "timeout": True})
                return results
            time.sleep(0.05)
            continue
        if pid not in running:
            continue
        test, job, out = running.pop(pid)
        try:
            with open(out) as f:
                r = json.load(f)
        except Exception:  # noqa: BLE001
            r = {"test": test.name if test else "corpus",
                 "fatal": f"worker for {test and test.name} ended with status {status} and no result"}
        results.append(r)
        shutil.rmtree(job["scratch"], ignore_errors=True)
        if (r.get("failure") or {}).get("kind") == "violation":
            stop = True
            pending = []
            if FAST:
                for p in running:
                    with contextlib.suppress(ProcessLookupError):
                        os.kill(p, 9)
                    os.waitpid(p, 0)
                return results
    return results


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        data = json.load(f)
    return [e for e in data.get("findings", []) if e["property"] == prop]


def check_known(module, scratch):
    """Print a KNOWN-FINDING line for each listed defect that is still there.

    Each listed finding is one concrete case; it is excluded from generation by
    construction, so anything else that fails is still reported."""
    tests = {t.name: t for t in module.TESTS}
    tests.update({t.name: t for t in getattr(module, "FINDING_TESTS", [])})
    n = 0
    for e in load_known(module.PROPERTY):
        job = {"scratch": scratch}
        try:
            evaluate(tests[e["test"]], e["case"], job)
        except Exception as exc:  # noqa: BLE001
            want = e.get("error_contains")
            if want and want not in f"{type(exc).__name__}: {exc}":
                return n, e, exc
            print(f"KNOWN-FINDING: property={module.PROPERTY} {e['what']}")
            n += 1
    return n, None, None


def save_replay(prop, failure):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = json.dumps({"property": prop, **failure}, indent=1, default=str)
    h = hashlib.sha256(json.dumps(failure["case"], sort_keys=True, default=str).encode()).hexdigest()[:10]
    path = os.path.join(d, f"{prop}-{failure['test']}-{h}.json")
    with open(path, "w") as f:
        f.write(body)
    return path


def main(argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", choices=TIERS, default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--only", help="comma separated test names")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VERIF_WORKERS", "8")))
    args = ap.parse_args(argv)
    tier = args.tier if args.tier in TIERS else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.monotonic()
    try:
        with quiet_output():
            module = importlib.import_module(f"checks.{args.property}")
            for name in ("mergekit.merge", "mergekit.config", "mergekit.options"):
                importlib.import_module(name)  # once, before the workers fork
            if hasattr(module, "prepare"):
                module.prepare()
        import mergekit

        where = os.path.realpath(mergekit.__file__)
        assert where.startswith(os.path.realpath(REPO) + os.sep), f"testing the wrong tree: {where}"
    except Exception:
        traceback.print_exc()
        print(f"ERROR: check {args.property} could not be set up")
        return 2
    prop = module.PROPERTY
    scratch = tempfile.mkdtemp(prefix=f"vp-{prop}-")
    try:
        if args.replay:
            return replay(module, args.replay, scratch)
        return _main(module, prop, args, tier, seed, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(module, path, scratch):
    with open(path) as f:
        rec = json.load(f)
    tests = {t.name: t for t in module.TESTS}
    tests.update({t.name: t for t in getattr(module, "FINDING_TESTS", [])})
    try:
        evaluate(tests[rec["test"]], rec["case"], {"scratch": scratch})
    except Exception as e:  # noqa: BLE001
        traceback.print_exc()
        if _is_violation(e):
            print(f"VIOLATION property={module.PROPERTY} replay={path}")
            return 1
        return 2
    print("replay: the property holds on this case")
    return 0


def _main(module, prop, args, tier, seed, scratch, t0):
    jobs = []
    only = set(args.only.split(",")) if args.only else None

    def mkjob(kind, **kw):
        d = os.path.join(scratch, f"job{len(jobs)}")
        os.makedirs(d)
        return {"kind": kind, "scratch": d, **kw}

    if not only:
        jobs.append((None, mkjob("corpus")))
    for test in module.TESTS:
        if only and test.name not in only:
            continue
        total = test.quick if tier == "quick" else test.thorough
        total = max(1, int(total * args.scale))
        shards = test.shards if tier == "quick" else max(test.shards, 4)
        shards = max(1, min(shards, total))
        for s in range(shards):
            n = total // shards + (1 if s < total % shards else 0)
            jobs.append((test, mkjob("test", examples=n, seed=_stable_seed(seed, prop, test.name, s),
                                     budget=test.budget if tier == "quick" else test.thorough_budget)))
    hard = 780 if tier == "quick" else 4 * 3600
    results = _run_jobs(module, jobs, args.workers, hard)

    for r in results:
        if r.get("failure") and r["failure"]["kind"] == "violation":
            break
    else:
        r = None
    failure = r["failure"] if r else None
    harness = [r["failure"] for r in results if r.get("failure") and r["failure"]["kind"] == "harness"]
    fatal = [r for r in results if r.get("fatal")]
    timeouts = [r["test"] for r in results if r.get("timeout")]

    known_bad = None
    if failure is None and not harness and not fatal:
        _n, known_bad, exc = check_known(module, scratch)
        if known_bad is not None:
            failure = {"test": known_bad["test"], "case": known_bad["case"], "kind": "violation",
                       "error": f"{type(exc).__name__}: {exc}", "traceback": ""}

    per_test = {}
    nontriv = set()
    samples = []
    evals = 0
    for r in results:
        if "evaluations" not in r:
            continue
        p = per_test.setdefault(r["test"], {"evaluations": 0, "distinct_nontrivial": 0, "rejected": 0,
                                            "skipped_after_budget": 0, "labels": {}, "wall_s": 0.0})
        p["evaluations"] += r["evaluations"]
        p["rejected"] += r["rejected"]
        p["skipped_after_budget"] += r["skipped_after_budget"]
        p["wall_s"] = round(p["wall_s"] + r["wall"], 2)
        new = {(r["test"], h) for h in r["nontrivial"]} - nontriv
        p["distinct_nontrivial"] += len(new)
        nontriv |= new
        for k, v in r["labels"].items():
            p["labels"][k] = p["labels"].get(k, 0) + v
        evals += r["evaluations"]
        if r["samples"] and sum(1 for s in samples if s["test"] == r["test"]) < 2:
            samples.append({"test": r["test"], "case": r["samples"][0]})
    rules = [f"{t.name}: {t.rule}" for t in module.TESTS if t.rule]
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": getattr(module, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(nontriv),
            "rule": " | ".join(rules),
            "samples": samples[:12],
            "per_test": per_test,
        },
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": 1 if failure else 0,
    }
    if timeouts:
        ev["coverage"]["inconclusive_jobs"] = timeouts
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)

    print(f"{prop} [{tier}] seed={seed}: {evals} cases, {len(nontriv)} distinct non-trivial, "
          f"{ev['wall_s']} s")
    for name, p in sorted(per_test.items()):
        extra = f", {p['skipped_after_budget']} skipped (time budget)" if p["skipped_after_budget"] else ""
        print(f"  {name}: {p['evaluations']} cases, {p['distinct_nontrivial']} non-trivial, "
              f"{p['rejected']} rejected{extra}, {p['wall_s']} s")
    if failure:
        path = save_replay(prop, failure)
        print(failure["traceback"][-3000:])
        print(f"failing case ({failure['test']}): {json.dumps(failure['case'], default=str)[:3000]}")
        print(failure["error"][:1500])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    for h in harness:
        print(h["traceback"])
        print(f"HARNESS ERROR in {h['test']}: {h['error']}\ncase: {json.dumps(h['case'], default=str)[:2000]}")
    for r in fatal:
        print(f"HARNESS ERROR in {r['test']}: {r['fatal']}")
    if harness or fatal:
        return 2
    if timeouts:
        print(f"note: {len(timeouts)} job(s) hit the time limit and are inconclusive: {timeouts}")
    return 0
