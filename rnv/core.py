"""Registry of property checks and the worker that searches for failures."""

import base64
import contextlib
import hashlib
import io
import json
import pickle
import signal
import sys
import time
import traceback
import warnings
import zlib

import numpy as np

# how much more a quick run does than its checks ask for
QUICK_FACTOR = {
    "C01": 2,
    "C03": 4,
    "C04": 3,
    "C06": 3,
    "C07": 4,
    "C08": 3,
    "C10": 3,
    "C11": 4,
    "C13": 3,
    "C14": 4,
    "C15": 2,
    "C19": 2,
    "C29": 3,
    "C30": 3,
    "C31": 2,
    "C32": 2,
}

REGISTRY = {}  # property id -> list of Sub


class Violation(AssertionError):
    """The property does not hold."""


class HarnessError(Exception):
    """The check itself is broken."""


class Sub:
    """One executable statement of (part of) a property."""

    def __init__(self, prop, name, strategy, body, quick, thorough, rule, examples):
        self.prop = prop
        self.name = name
        self.strategy = strategy
        self.body = body
        self.quick = quick
        self.thorough = thorough
        self.rule = rule
        self.examples = examples


def sub(prop, name, strategy, quick, thorough, rule, examples=()):
    """Register a check body.

    The body gets one generated case. It raises if the property fails, and returns
    whether the case was non-trivial by ``rule``.
    """

    def wrap(body):
        REGISTRY.setdefault(prop, []).append(
            Sub(prop, name, strategy, body, quick, thorough, rule, list(examples))
        )
        return body

    return wrap


# --------------------------------------------------------------------------
# assertions
# --------------------------------------------------------------------------


def need(condition, message, **details):
    """Raise Violation unless condition."""
    if not condition:
        text = "; ".join(f"{k}={show(v, 300)}" for k, v in details.items())
        raise Violation(f"{message} [{text}]" if text else message)


def close(actual, expected, message, rtol=1e-9, atol=1e-12, **details):
    """Raise Violation unless arrays have the same shape and are close."""
    actual = np.asarray(actual)
    expected = np.asarray(expected)
    need(
        actual.shape == expected.shape,
        f"{message}: shape",
        actual=actual.shape,
        expected=expected.shape,
        **details,
    )
    ok = np.allclose(actual, expected, rtol=rtol, atol=atol)
    if not ok:
        error = np.max(np.abs(actual - expected)) if actual.size else 0
        need(
            False,
            message,
            error=error,
            actual=actual,
            expected=expected,
            **details,
        )


def same(actual, expected, message, **details):
    """Raise Violation unless arrays are identical."""
    actual = np.asarray(actual)
    expected = np.asarray(expected)
    need(
        actual.shape == expected.shape and np.array_equal(actual, expected),
        message,
        actual=actual,
        expected=expected,
        **details,
    )


@contextlib.contextmanager
def raises(exceptions, message, **details):
    """Raise Violation unless the block raises one of the given exceptions."""
    try:
        yield
    except exceptions:
        return
    except Exception as exc:  # pylint: disable=broad-except
        if type(exc).__name__ == "UnsatisfiedAssumption":
            raise
        raise Violation(
            f"{message}: raised {type(exc).__name__}({exc}) instead "
            + "; ".join(f"{k}={show(v, 300)}" for k, v in details.items())
        ) from exc
    need(False, f"{message}: nothing was raised", **details)


def show(value, limit=2000):
    """Return readable text for a case."""
    with np.printoptions(threshold=60, edgeitems=3, linewidth=160, precision=8):
        text = repr(value)
    text = " ".join(text.split())
    return text if len(text) <= limit else text[:limit] + f"... ({len(text)} chars)"


def digest(case):
    """Return fingerprint of a case."""
    return hashlib.sha1(pickle.dumps(case, protocol=4)).hexdigest()


# --------------------------------------------------------------------------
# worker
# --------------------------------------------------------------------------


class _Stop(Exception):
    pass


def run_case(item, case, limit_s=150):
    """Run the body on one case."""

    def on_alarm(_signum, _frame):
        raise Violation(f"no answer within {limit_s} s")

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(limit_s)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with contextlib.redirect_stdout(io.StringIO()):
                return item.body(case)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def search(item, tier, seed, shard, shards, budget_s):
    """Search for a failing case. Returns a result dictionary."""
    import hypothesis  # pylint: disable=import-outside-toplevel
    from hypothesis import HealthCheck, Phase, Verbosity, settings

    total = item.thorough
    if tier == "quick":
        total = item.quick * QUICK_FACTOR.get(item.prop, 1)
    count = max(1, -(-total // shards))
    sub_seed = zlib.crc32(f"{seed}/{item.prop}/{item.name}/{shard}".encode())
    start = time.monotonic()
    state = {
        "evaluations": 0,
        "nontrivial": set(),
        "samples": [],
        "failure": None,
        "failed_at": None,
        "skipped": 0,
    }

    def body(case):
        now = time.monotonic()
        if state["failed_at"] is None and now - start > budget_s:
            state["skipped"] += 1
            return
        if state["failed_at"] is not None and now - state["failed_at"] > 40:
            return  # stop shrinking
        blob = pickle.dumps(case, protocol=4)
        if state["failed_at"] is None:
            with open(".case", "wb") as file:  # for when the process crashes
                file.write(blob)
        key = hashlib.sha1(blob).hexdigest()
        try:
            nontrivial = run_case(item, case)
        except hypothesis.errors.UnsatisfiedAssumption:
            raise
        except (HarnessError, MemoryError):
            raise
        except Exception as exc:
            if isinstance(exc, OSError) and exc.errno in (12, 28, 24):
                raise HarnessError(str(exc)) from exc
            if state["failed_at"] is None:
                state["failed_at"] = now
                state["evaluations"] += 1
            state["failure"] = {
                "blob": base64.b64encode(blob).decode(),
                "case": show(pickle.loads(blob), 20000),
                "error": f"{type(exc).__name__}: {exc}",
                "traceback": traceback.format_exc(),
            }
            raise
        if state["failed_at"] is None:
            state["evaluations"] += 1
            if nontrivial:
                if key not in state["nontrivial"]:
                    if len(state["samples"]) < 2 and (
                        len(state["nontrivial"]) in (0, 7)
                    ):
                        state["samples"].append(
                            show(pickle.loads(blob), 700)
                        )
                    state["nontrivial"].add(key)

    error = None
    try:
        if shard == 0:
            for case in item.examples:
                body(case)
        test = settings(
            max_examples=count,
            database=None,
            deadline=None,
            derandomize=False,
            print_blob=False,
            report_multiple_bugs=False,
            verbosity=Verbosity.quiet,
            suppress_health_check=list(HealthCheck),
            phases=(Phase.generate, Phase.shrink),
        )(hypothesis.given(item.strategy)(body))
        hypothesis.seed(sub_seed)(test)()
    except BaseException as exc:  # pylint: disable=broad-except
        if state["failure"] is None:
            error = traceback.format_exc()
            if isinstance(exc, KeyboardInterrupt):
                raise
    return {
        "sub": item.name,
        "shard": shard,
        "evaluations": state["evaluations"],
        "nontrivial": state["nontrivial"],
        "samples": state["samples"],
        "failure": state["failure"],
        "error": error,
        "skipped": state["skipped"],
        "wall_s": time.monotonic() - start,
    }
