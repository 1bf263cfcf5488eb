"""Runs generated cases of a property against the code under test.

A check is a list of Subs.  Each Sub has a Hypothesis strategy that generates a plain
JSON-serialisable case, and a run(case) function that drives the real code and compares
it with an oracle.  run() raises (Violation, or anything else) when the property fails.
"""
import hashlib
import json
import os
import signal
import sys
import time
import traceback
import warnings
from dataclasses import dataclass
from typing import Any, Callable, Optional

REPO = os.environ.get("VP_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(AssertionError):
    """The property does not hold for this case."""

    def __init__(self, msg, sig=None):
        super().__init__(msg)
        self.sig = sig


class Skip(Exception):
    """The case is outside the property's domain (counted, never judged)."""


class HarnessError(Exception):
    """The check itself could not do its work."""


class _Stop(BaseException):
    pass


class _CaseTimeout(BaseException):
    pass


def check(cond, msg, sig=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, sig)


@dataclass
class Sub:
    name: str
    strategy: Callable[[], Any]
    run: Callable[[Any], Any]
    quick: int
    thorough: int
    timeout: float = 120.0
    weight: float = 1.0
    rule: str = ""


def canon(case):
    return json.dumps(case, sort_keys=True, default=repr)


def digest(case):
    return hashlib.sha1(canon(case).encode()).hexdigest()


def derive(*parts):
    h = hashlib.sha256("/".join(map(str, parts)).encode()).digest()
    return int.from_bytes(h[:7], "big")


def known_findings():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)["findings"]


def run_case(sub, case, timeout=None):
    """Run one case, with a timer; returns the outcome dict, raises on failure."""
    import random

    import numpy

    timeout = timeout or sub.timeout

    def on_alarm(signum, frame):
        raise _CaseTimeout()

    state, npstate = random.getstate(), numpy.random.get_state()
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out = sub.run(case)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        random.setstate(state)
        numpy.random.set_state(npstate)
    if out is None:
        out = {}
    elif isinstance(out, bool):
        out = {"nt": out}
    return out


def explain(exc):
    lines = traceback.format_exception(type(exc), exc, exc.__traceback__)
    return "".join(lines)[-6000:]


def run_shard(sub, prop, seed, n, deadline, known_sigs, skip_first=False):
    """Generate n cases of one sub; returns counts, samples and the (shrunk) failure, if any."""
    from hypothesis import HealthCheck, Phase, Verbosity, given
    from hypothesis import seed as hseed
    from hypothesis import settings

    res = {"sub": sub.name, "evaluations": 0, "skipped": 0, "nt": set(), "tags": {},
           "samples": [], "fail": None, "known": {}, "harness": None, "cut_short": False}
    best = {"case": None, "len": None, "err": None, "tb": None}
    first_fail = [None]

    def note_failure(case, err, tb):
        ln = len(canon(case))
        if best["len"] is None or ln <= best["len"]:
            best.update(case=case, len=ln, err=err, tb=tb)
        if first_fail[0] is None:
            first_fail[0] = time.time()

    calls = [0]

    def body(case):
        now = time.time()
        calls[0] += 1
        if skip_first and calls[0] == 1:
            return  # the first example is always the simplest one: another shard runs it
        if first_fail[0] is None and now > deadline:
            res["cut_short"] = True
            raise _Stop()
        if first_fail[0] is not None and now > first_fail[0] + 40:
            raise _Stop()
        counting = first_fail[0] is None
        try:
            out = run_case(sub, case)
        except Skip:
            if counting:
                res["skipped"] += 1
            return
        except _CaseTimeout:
            note_failure(case, f"no result within {sub.timeout} s", "")
            raise _Stop()
        except (HarnessError, MemoryError) as e:
            res["harness"] = explain(e)
            raise _Stop()
        except Exception as e:
            sig = getattr(e, "sig", None)
            if sig is not None and sig in known_sigs:
                res["known"][sig] = res["known"].get(sig, 0) + 1
                return
            note_failure(case, f"{type(e).__name__}: {e}"[:2000], explain(e))
            raise
        if counting:
            res["evaluations"] += 1
            for t in out.get("tags", ()):
                res["tags"][t] = res["tags"].get(t, 0) + 1
            if out.get("nt", True):
                res["nt"].add(digest(case)[:16])
                if len(res["samples"]) < 3 or (res["evaluations"] % 97 == 0 and len(res["samples"]) < 6):
                    res["samples"].append(case)

    test = given(sub.strategy())(lambda case: body(case))
    test = settings(max_examples=n + (1 if skip_first else 0), database=None, deadline=None, derandomize=False,
                    phases=[Phase.generate] if os.environ.get("VP_NOSHRINK") else [Phase.generate, Phase.shrink], verbosity=Verbosity.quiet,
                    suppress_health_check=list(HealthCheck), print_blob=False,
                    report_multiple_bugs=False)(test)
    test = hseed(seed)(test)
    try:
        test()
    except _Stop:
        pass
    except Exception as e:
        if best["case"] is None:
            res["harness"] = explain(e)
    if best["case"] is not None:
        res["fail"] = {"case": best["case"], "error": best["err"], "traceback": best["tb"]}
    res["nt"] = list(res["nt"])
    return res
