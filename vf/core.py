"""Suites, shards, statistics, shrinking capture and replay."""
import hashlib
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback

from . import codec
from .boot import HarnessError


class Violation(AssertionError):
    """The property does not hold on the generated case."""


class Discard(Exception):
    """The case is outside the property's domain (counted, never a pass)."""


class Ctx:
    """What one execution of a case observed."""

    def __init__(self):
        self.events = set()
        self.nontrivial = False
        self.checks = 0

    def event(self, name):
        self.events.add(name)

    def nt(self, name=None):
        self.nontrivial = True
        if name:
            self.events.add(name)

    def fail(self, msg):
        raise Violation(msg)

    def require(self, cond, msg):
        self.checks += 1
        if not cond:
            raise Violation(msg() if callable(msg) else msg)


QUICK_SCALE = 3


class Suite:
    """strategy() -> cases made of plain Python values; check(case, ctx) raises Violation."""

    def __init__(self, name, strategy, check, quick, thorough=None, rule=""):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick * QUICK_SCALE
        self.thorough = thorough if thorough is not None else quick * 18
        self.rule = rule


class Prop:
    def __init__(self, pid, suites):
        self.pid = pid
        self.suites = suites


def load_prop(pid):
    mod = importlib.import_module("vf.props." + pid.lower())
    return mod.PROP


def findings_for(pid):
    from .boot import VERIF

    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as f:
        data = json.load(f)
    return [x for x in data.get("known", []) if x["property"] == pid]


class CaseTimeout(BaseException):
    """One case used more processor time than any case can need."""


CASE_CPU_S = 90.0


def _expired(signum, frame):
    raise CaseTimeout()


def run_case(suite, case, known=()):
    """Run one case. Returns (ctx, outcome, message)."""
    ctx = Ctx()
    try:
        signal.signal(signal.SIGVTALRM, _expired)
        signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
        try:
            suite.check(case, ctx)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        return ctx, "ok", ""
    except CaseTimeout as e:
        from .boot import REPO

        names = [f.filename for f in traceback.extract_tb(e.__traceback__)]
        if any(os.path.abspath(n).startswith(os.path.abspath(REPO) + os.sep) for n in names):
            return ctx, "violation", "a call did not return within %d s of processor time" % CASE_CPU_S
        raise HarnessError("a case took more than %d s outside the code under test" % CASE_CPU_S)
    except Discard as e:
        return ctx, "discard", str(e)
    except Violation as e:
        return ctx, "violation", str(e)
    except Exception as e:
        # an exception that comes out of the code under test is a violation; one of the harness is not
        from .boot import REPO

        tb = traceback.extract_tb(e.__traceback__)
        inside = [f for f in tb if os.path.abspath(f.filename).startswith(os.path.abspath(REPO) + os.sep)]
        if inside:
            return ctx, "violation", "unexpected %s: %s (%s:%d)" % (
                type(e).__name__, str(e)[:300], os.path.basename(inside[-1].filename), inside[-1].lineno)
        raise


def digest(case):
    return hashlib.sha1(codec.dumps(case).encode()).hexdigest()[:16]


def shard_seed(seed, pid, suite, shard):
    h = hashlib.sha256(("%d/%s/%s/%d" % (seed, pid, suite, shard)).encode()).digest()
    return int.from_bytes(h[:6], "big")


def run_suite_shard(prop, suite, n_examples, seed, shard, failfile, samples_wanted=2):
    """Run one suite in this process with hypothesis; return statistics."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    stats = {"suite": suite.name, "evaluations": 0, "discarded": 0, "digests": [],
             "events": {}, "samples": [], "violation": None, "error": None,
             "assertions": 0}
    seen = set()
    best = {"len": None}
    state = {"failing": False}

    def body(case):
        ctx, outcome, msg = run_case(suite, case)
        if not state["failing"]:
            stats["evaluations"] += 1
            if outcome == "discard":
                stats["discarded"] += 1
                stats["events"]["discard:" + msg] = stats["events"].get("discard:" + msg, 0) + 1
            for e in ctx.events:
                stats["events"][e] = stats["events"].get(e, 0) + 1
            stats["assertions"] += ctx.checks
            if outcome == "ok" and ctx.nontrivial:
                d = digest(case)
                if d not in seen:
                    seen.add(d)
                    if len(stats["samples"]) < samples_wanted and len(seen) % 7 == 3:
                        stats["samples"].append({"suite": suite.name, "case": codec.enc(case)})
        if outcome == "violation":
            state["failing"] = True
            text = codec.dumps(case)
            if best["len"] is None or len(text) < best["len"]:
                best["len"] = len(text)
                rec = {"property": prop.pid, "suite": suite.name, "message": msg[:4000],
                       "case": codec.enc(case), "seed": seed, "shard": shard,
                       "n_examples": n_examples}
                tmp = failfile + ".tmp"
                with open(tmp, "w") as f:
                    json.dump(rec, f)
                os.replace(tmp, failfile)
                stats["violation"] = msg[:4000]
            raise Violation(msg)

    test = given(suite.strategy())(body)
    test = settings(
        max_examples=n_examples,
        deadline=None,
        database=None,
        suppress_health_check=list(HealthCheck),
        phases=[Phase.generate, Phase.shrink],
        report_multiple_bugs=False,
        print_blob=False,
        derandomize=False,
        verbosity=hypothesis.Verbosity.quiet,
    )(test)
    test = hypothesis.seed(shard_seed(seed, prop.pid, suite.name, shard))(test)
    try:
        test()
    except Violation:
        pass
    except Exception as e:  # Flaky etc. after a recorded violation, or a harness bug
        if stats["violation"] is None:
            stats["error"] = "".join(traceback.format_exception(e))[-6000:]
    except BaseExceptionGroup as e:
        if stats["violation"] is None:
            stats["error"] = "".join(traceback.format_exception(e))[-6000:]
    stats["digests"] = sorted(seen)
    return stats
