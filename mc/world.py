"""Fresh sessions over an in-memory store, and small helpers shared by the checks."""
import contextlib
import io
import sys

import pythagoras as pth
from pythagoras import _PortalTester
from persidict import MemDisk, backend

from .boot import env
from .core import Problem, describe_exc, expect, h  # noqa: F401  (re-exported)


def _forget():
    """Class-level state (the default portal, exception hooks) as in a new interpreter."""
    f = getattr(pth.DefaultLocalPortal, "_clear_all", None)
    if f is not None:
        f()
    _PortalTester._current_instance = None


@contextlib.contextmanager
def clean(disk=None, salt="0"):
    """A world with no portals: what a new interpreter sees."""
    env.reset(salt)
    _forget()
    disk = MemDisk() if disk is None else disk
    prev = backend.use(disk)
    out, err = sys.stdout, sys.stderr
    try:
        with _PortalTester():
            yield disk
    finally:
        disk.hook = None
        _forget()
        backend.use(prev)
        sys.stdout, sys.stderr = out, err
        _PortalTester._current_instance = None


@contextlib.contextmanager
def quiet():
    o, e = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        yield sys.stdout
    finally:
        sys.stdout, sys.stderr = o, e


def attempt(f, *a, **k):
    """('ok', value) or ('exc', type name, str)."""
    try:
        return ("ok", f(*a, **k))
    except Exception as e:
        return ("exc", type(e).__name__, str(e)[:200])


def files(disk, prefix):
    return sorted(p for p in disk.items if p.startswith(prefix))
