"""Shared machinery: verdicts, known findings, evidence, worker pool."""
import concurrent.futures as cf
import contextlib
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
import warnings
from collections import Counter
from typing import Any, Callable, Dict, Iterable, List, Optional

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SCRATCH = os.environ.get("VERIF_SCRATCH", "/tmp")
KNOWN = os.path.join(VERIF, "known_findings.txt")


def digest(x: Any) -> str:
    if not isinstance(x, str):
        x = json.dumps(x, sort_keys=True, default=str)
    return hashlib.sha256(x.encode("utf-8", "replace")).hexdigest()[:16]


class TimeLimit(Exception):
    pass


@contextlib.contextmanager
def time_limit(seconds: float):
    """raises TimeLimit in the body after the time (main thread of a process only)"""
    def expired(*_):
        raise TimeLimit(f"{seconds} s")

    old = signal.signal(signal.SIGALRM, expired)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def rng_for(*parts) -> random.Random:
    return random.Random(int(hashlib.sha256(repr(parts).encode()).hexdigest()[:16], 16))


class Result:
    """What one task (or a whole check) observed. Picklable and mergeable."""

    def __init__(self):
        self.evaluations = 0
        self.distinct = set()
        self.counts = Counter()
        self.samples: List[Any] = []
        self.problems: List[Dict[str, Any]] = []  # {"key","msg","replay"}
        self.errors: List[str] = []  # machinery errors -> inconclusive

    def case(self, x: Any = None, nontrivial: bool = True):
        self.evaluations += 1
        if nontrivial and x is not None:
            self.distinct.add(digest(x))

    def count(self, name: str, n: int = 1):
        self.counts[name] += n

    def sample(self, x: Any, limit: int = 3):
        if len(self.samples) < limit:
            self.samples.append(x)

    def violation(self, key: str, msg: str, **replay):
        self.problems.append({"key": key, "msg": msg, "replay": replay})
        self.counts["raw:" + key] += 1

    def error(self, msg: str):
        self.errors.append(msg)

    def merge(self, o: "Result"):
        self.evaluations += o.evaluations
        self.distinct |= o.distinct
        self.counts.update(o.counts)
        self.samples.extend(o.samples)
        self.problems.extend(o.problems)
        self.errors.extend(o.errors)
        return self


class Ctx:
    def __init__(self, prop: str, tier: str, seed: int, replay: Optional[str]):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.replay = json.load(open(replay)) if replay else None
        self.thorough = tier == "thorough"

    def n(self, quick: int, thorough: int) -> int:
        return thorough if self.thorough else quick

    def rng(self, *parts) -> random.Random:
        return rng_for(self.prop, self.seed, *parts)


# ---------------------------------------------------------------- worker pool

_worker_n = None


def _init_worker(scratch):
    global _worker_n
    d = os.path.join(scratch, f"w{os.getpid()}")
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    # every worker has its own store, so workers never meet through edulint's data files
    for k in ("XDG_DATA_HOME", "XDG_CACHE_HOME"):
        os.environ[k] = os.path.join(d, k.lower())
        os.makedirs(os.environ[k], exist_ok=True)
    quiet()


def quiet():
    warnings.simplefilter("ignore")
    sys.setrecursionlimit(1000)
    try:
        from loguru import logger

        logger.remove()
    except Exception:
        pass


def _call(modname, fname, arg):
    try:
        f = getattr(importlib.import_module(modname), fname)
        r = f(arg)
        assert isinstance(r, Result)
        return r
    except BaseException as e:
        r = Result()
        note_exception(r, e, f"{modname}.{fname}({str(arg)[:200]})", {"task": str(arg)[:2000]})
        return r


def raised_in_repo(e: BaseException) -> bool:
    """was the exception raised while code of the repository was running"""
    tb, last = e.__traceback__, None
    where = []
    while tb is not None:
        where.append(tb.tb_frame.f_code.co_filename)
        tb = tb.tb_next
    for w in reversed(where):
        if w.startswith(VERIF + os.sep):
            return False
        if w.startswith(REPO + os.sep + "edulint"):
            return True
    return False


def note_exception(r: "Result", e: BaseException, what: str, replay: dict):
    text = "".join(traceback.format_exception(type(e), e, e.__traceback__))
    if isinstance(e, (Exception, RecursionError)) and raised_in_repo(e):
        r.violation(f"exception:{type(e).__name__}", f"{what}: {text[-1500:]}", **replay)
    else:
        r.error(f"{what}:\n{text}")


def pmap(func: Callable, args: List[Any], timeout: float = 800, workers: Optional[int] = None) -> List[Result]:
    """Runs func over args in worker processes; order of results is that of args."""
    args = list(args)
    workers = workers or min(len(args), os.cpu_count() or 4) or 1
    ctx = mp.get_context("spawn")
    deadline = time.time() + timeout
    out: List[Optional[Result]] = [None] * len(args)
    ex = cf.ProcessPoolExecutor(workers, mp_context=ctx, initializer=_init_worker, initargs=(SCRATCH,))
    try:
        futs = {ex.submit(_call, func.__module__, func.__name__, a): i for i, a in enumerate(args)}
        try:
            for f in cf.as_completed(futs, timeout=max(1, deadline - time.time())):
                i = futs[f]
                try:
                    out[i] = f.result()
                except Exception as e:  # worker died
                    r = Result()
                    r.error(f"worker died on {str(args[i])[:200]}: {e!r}")
                    out[i] = r
        except cf.TimeoutError:
            for i, o in enumerate(out):
                if o is None:
                    out[i] = Result()
                    out[i].error(f"task {str(args[i])[:200]} did not finish within {timeout} s")
            for p in list(getattr(ex, "_processes", {}).values()):
                p.kill()
    finally:
        ex.shutdown(wait=False, cancel_futures=True)
    return out


def pmerge(func, args, **kw) -> Result:
    res = Result()
    for r in pmap(func, args, **kw):
        res.merge(r)
    return res


# ------------------------------------------------------------- known findings


def known_findings(prop: str) -> Dict[str, str]:
    """known: property=C01 key=<mechanism> <what fails>"""
    res = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            line = line.strip()
            if not line.startswith("known:"):
                continue
            parts = line[len("known:"):].split(None, 2)
            d = dict(p.split("=", 1) for p in parts[:2])
            if d["property"] == prop:
                res[d["key"]] = parts[2] if len(parts) > 2 else ""
    return res


# ----------------------------------------------------------------- the driver


def run(prop: str, tier: str, seed: int, replay: Optional[str]) -> int:
    t0 = time.time()
    quiet()
    ctx = Ctx(prop, tier, seed, replay)
    mod = importlib.import_module(f"checks.{prop.lower()}")
    try:
        res: Result = mod.run(ctx)
    except BaseException as e:
        res = Result()
        note_exception(res, e, f"check {prop}", {})

    known = known_findings(prop)
    seen_known = Counter()
    new: Dict[str, List[Dict[str, Any]]] = {}
    for p in res.problems:
        if p["key"] in known:
            seen_known[p["key"]] += 1
        else:
            new.setdefault(p["key"], []).append(p)

    for key, what in known.items():
        if seen_known[key]:
            print(f"KNOWN-FINDING: property={prop} [{key}] {what}")

    evidence = os.path.join(VERIF, "evidence")
    if os.environ.get("VERIF_NO_EVIDENCE"):  # runs against planted bugs
        evidence = os.path.join(SCRATCH, "evidence")
    os.makedirs(os.path.join(evidence, "replays"), exist_ok=True)
    n_viol = 0
    for key, ps in new.items():
        # the shortest witness of each mechanism
        p = min(ps, key=lambda q: len(json.dumps(q["replay"], default=str)))
        n_viol += len(ps)
        path = os.path.join(evidence, "replays", f"{prop}-{digest(key)}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "key": key, "msg": p["msg"], "tier": tier, "seed": seed, **p["replay"]},
                      f, indent=1, default=str)
        print(f"--- {key} ({len(ps)}x): {p['msg'][:1500]}")
        print(f"VIOLATION property={prop} replay={path}")

    minimum = getattr(mod, "MINIMUM", {})
    missing = []
    if replay is None:
        for name, m in minimum.items():
            have = res.evaluations if name == "evaluations" else res.counts[name]
            if have < m:
                missing.append(f"{name}: observed {have} < {m}")

    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": res.evaluations,
            "distinct_nontrivial": len(res.distinct),
            "rule": getattr(mod, "RULE", ""),
            "samples": res.samples[:8],
            "observed": {k: v for k, v in sorted(res.counts.items())},
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": n_viol,
    }
    if replay is None:
        with open(os.path.join(evidence, f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)

    print(f"{prop} {tier} seed={seed}: {res.evaluations} evaluations, {len(res.distinct)} distinct, "
          f"{n_viol} violations, {sum(seen_known.values())} known, {ev['wall_s']} s")
    if new:
        return 1
    if res.errors:
        for e in res.errors[:5]:
            print("INCONCLUSIVE:", e, file=sys.stderr)
        # errors of the machinery are not verdicts
        return 3
    if missing:
        print("INCONCLUSIVE: monitors not reached:", "; ".join(missing), file=sys.stderr)
        return 3
    return 0
