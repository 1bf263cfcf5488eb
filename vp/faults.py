"""Interrupts injected into the code under test, at the n-th line it executes."""
import contextlib
import os
import random
import sys

from .harness import Violation


class Interrupt(KeyboardInterrupt):
    """what the user's Ctrl-C raises"""


def package():
    import gerrychain

    return os.path.dirname(os.path.abspath(gerrychain.__file__)) + os.sep


def attempt(fn, at, exc, users=False):
    """Call fn(), raising exc at the at-th line of gerrychain (and, if asked, of the user functions in checks/) it executes.  Returns (fired, result, exception that came out)."""
    base = (package(), os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "checks") + os.sep) if users else package()
    left = [at]
    fired = [False]

    def local(frame, event, arg):
        if event == "line" and not fired[0]:
            left[0] -= 1
            if left[0] <= 0:
                fired[0] = True
                raise exc
        return local

    def tracer(frame, event, arg):
        if fired[0] or not frame.f_code.co_filename.startswith(base):
            return None
        return local

    old = sys.gettrace()
    out = res = None
    sys.settrace(tracer)
    try:
        res = fn()
    except BaseException as e:
        out = e
    finally:
        sys.settrace(old)
    if fired[0] and out is not exc:
        raise Violation(f"an exception raised inside the computation did not reach the caller ({out!r} did)")
    if not fired[0] and out is not None:
        raise out
    return fired[0], res, out


@contextlib.contextmanager
def interrupted_reads(seed, rate=0.5, depth=2.6):
    """Every read of a partition's value, and every flip, may be preceded by an interrupted attempt at the same.

    Yields a list whose first element counts the interrupts."""
    from gerrychain import Partition

    rng = random.Random(seed)
    count = [0]
    inside = [False]

    def wrap(real):
        def method(self, *args, **kw):
            if inside[0]:
                return real(self, *args, **kw)
            if rng.random() < rate:
                inside[0] = True
                try:
                    exc = Interrupt("injected")
                    count[0] += attempt(lambda: real(self, *args, **kw), int(10 ** rng.uniform(0, depth)), exc, True)[0]
                finally:
                    inside[0] = False
            return real(self, *args, **kw)
        return method

    saved = {name: Partition.__dict__[name] for name in ("__getitem__", "flip")}
    for name, real in saved.items():
        setattr(Partition, name, wrap(real))
    try:
        yield count
    finally:
        for name, real in saved.items():
            setattr(Partition, name, real)
