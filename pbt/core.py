"""Violations, case context, counters."""
import contextlib
import hashlib
import json
import traceback


class Violation(Exception):
    """The property does not hold for the case."""


class HarnessError(Exception):
    """The check itself is wrong (never reported as a violation)."""


def canonical(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def digest(case):
    return hashlib.blake2b(canonical(case).encode(), digest_size=8).hexdigest()


@contextlib.contextmanager
def sut(doing, allowed=()):
    """Any exception the code under test raises in here breaks the property."""
    try:
        yield
    except (Violation, HarnessError):
        raise
    except allowed:
        raise
    except Exception as exc:  # pylint: disable=broad-except
        tail = traceback.format_exc().strip().splitlines()[-6:]
        raise Violation(
            "{}: unexpected {}: {}\n{}".format(
                doing, type(exc).__name__, str(exc)[:400], "\n".join(tail)
            )
        ) from exc


def expect_raises(exc_types, func, doing):
    """func() has to raise one of exc_types, anything else breaks the property."""
    try:
        func()
    except exc_types as exc:
        return exc
    except Exception as exc:  # pylint: disable=broad-except
        raise Violation(
            "{}: expected {}, got {}: {}".format(
                doing, exc_types, type(exc).__name__, str(exc)[:300]
            )
        ) from exc
    raise Violation("{}: expected {}, nothing was raised".format(doing, exc_types))


def require(cond, message, *args):
    if not cond:
        raise Violation(message.format(*args))


class Ctx:
    """Collects what a case exercised."""

    def __init__(self):
        self.labels = set()
        self.is_nontrivial = False
        self.maxima = {}

    def label(self, *names):
        self.labels.update(names)

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def measure(self, name, value):
        """Track the largest value of an error-to-tolerance ratio."""
        value = float(value)
        if not value < 1e300:
            value = 1e300
        if value > self.maxima.get(name, -1.0):
            self.maxima[name] = value
