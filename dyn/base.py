"""Registry of bounded oracles.  Each property has generators of JSON-able
cases and a run function: run(case) -> None or a violation message."""
import contextlib
import io
import os

ORACLES = {}


class Oracle:
    def __init__(self, pid, name, cases, run, weight=1.0, rule=''):
        self.pid, self.name = pid, name
        self.cases, self.run = cases, run
        self.weight, self.rule = weight, rule


def oracle(pid, name, cases, weight=1.0):
    def deco(fn):
        ORACLES.setdefault(pid, []).append(
            Oracle(pid, name, cases, fn, weight, (fn.__doc__ or '').strip()))
        return fn
    return deco


@contextlib.contextmanager
def quiet():
    with open(os.devnull, 'w') as n, contextlib.redirect_stdout(n), \
            contextlib.redirect_stderr(n):
        yield


def near(a, b, tol=1e-9, scale=1.0):
    return abs(a - b) <= tol * max(scale, abs(a), abs(b))


KNOWN = {}


def known(key, case):
    """Record that a listed finding was met (see known_findings.json)."""
    KNOWN.setdefault(key, case)


class Bad(Exception):
    """An assertion of an oracle that the code under test does not meet."""


def need(cond, msg, *args):
    if not cond:
        raise Bad(msg % args if args else msg)
