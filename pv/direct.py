"""Checks that call the modules directly: filters, timers, the event loop."""

import contextlib
import hashlib
import random
import signal
import time
import traceback

from pv.runner import Case

REAL_CPU = time.process_time


class TimeUp(BaseException):
    pass


def _up(signo, frame):
    raise TimeUp()


@contextlib.contextmanager
def cpu_bound(seconds):
    """Raises TimeUp after so much CPU time, in the middle of a regular expression if need be."""
    old = signal.signal(signal.SIGPROF, _up)
    signal.setitimer(signal.ITIMER_PROF, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


class Bug(Exception):
    def __init__(self, tags, text):
        Exception.__init__(self, text)
        self.tags = set(tags)


def digest(*parts):
    return hashlib.sha1(repr(parts).encode("utf-8", "backslashreplace")).hexdigest()[:16]


def collect(fun):
    """fun(rng, case) -> Case, with exceptions of the code under test turned into findings."""
    def run(seed):
        c = Case()
        c.evaluations = 0
        c.distinct = set()
        rng = random.Random(seed)
        try:
            fun(rng, c)
        except Bug as e:
            c.divs.append((e.tags, str(e)[:3000], None))
            c.trace.append(str(e)[:3000])
        return c
    return run


def internal_error(tags, what):
    return Bug(tags, "%s: %s" % (what, traceback.format_exc()[-1500:]))
