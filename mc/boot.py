"""Takes ownership of every source of nondeterminism, then imports pythagoras from /repo.

Order matters: the seams (clock, sleep, uuid4, Random, datetime) are replaced by trampolines BEFORE
pythagoras is imported, so `from time import sleep` in the code under test still ends up here.
"""
import datetime as _dt
import hashlib
import os
import random as _random
import sys
import time as _time
import uuid as _uuid
import warnings
import weakref

REPO = os.environ.get("MC_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

real_time, real_sleep, real_monotonic = _time.time, _time.sleep, _time.monotonic
RealRandom = _random.Random


class Env:
    """What the environment answers. One per process; forked children inherit a copy."""

    def __init__(self):
        self.reset()

    def reset(self, salt="0"):
        self.salt = str(salt)
        self.uuid_n = 0
        self.uuid_ints = []              # the next answers of uuid4, if any
        self.rand_n = 0
        self.now = 1_700_000_000.0       # virtual seconds
        self.slept = 0.0
        self.n_sleeps = 0
        self.on_sleep = None             # f(seconds): replaces the default "advance the clock"
        self.chooser = None              # f(kind, args) -> value or None (None: seeded default)
        self.date = None                 # fixed aware datetime for datetime.now(tz)
        self.virtual = True
        self.spawned = []                # processes the code started (none really starts)
        self.on_spawn = None
        _random.seed(int(hashlib.sha256(self.salt.encode()).hexdigest()[:8], 16))

    def time(self):
        return self.now if self.virtual else real_time()

    def sleep(self, s):
        if not self.virtual:
            return real_sleep(s)
        if s < 0:
            raise ValueError("sleep length must be non-negative")
        self.n_sleeps += 1
        if self.on_sleep is not None:
            return self.on_sleep(s)
        self.now += s
        self.slept += s
        if self.n_sleeps > 5000:
            raise Livelock("code keeps sleeping and nothing can wake it")

    def uuid4(self):
        self.uuid_n += 1
        if self.uuid_ints:
            return _uuid.UUID(int=self.uuid_ints.pop(0))
        h = hashlib.sha256(f"{self.salt}/{self.uuid_n}".encode()).digest()[:16]
        return _uuid.UUID(bytes=h, version=4)

    def new_seed(self):
        self.rand_n += 1
        return int(hashlib.sha256(f"r{self.salt}/{self.rand_n}".encode()).hexdigest()[:12], 16)


class FakePopen:
    """What a spawned process looks like to its parent. env.on_spawn decides what really happens."""
    method = "spawn"
    sentinel = 0
    pid = 4242

    def __init__(self, process):
        self.returncode = None
        env.spawned.append(process)
        self.handle = env.on_spawn(process) if env.on_spawn is not None else None

    def poll(self, *a):
        return self.wait(0)

    def wait(self, timeout=None):
        if self.handle is not None:
            self.returncode = self.handle(timeout)
        return self.returncode

    def terminate(self):
        pass

    kill = close = terminate


class Livelock(BaseException):
    pass


env = Env()


class DetRandom(RealRandom):
    """random.Random whose default seed and (if a chooser is installed) draws belong to the harness."""

    unseeded = []            # generators that were not given a seed by the code that made them

    def __init__(self, x=None):
        super().__init__(env.new_seed() if x is None else x)
        if x is None:
            self.unseeded.append(weakref.ref(self))

    @classmethod
    def reseed(cls, name):
        """A new process: generators that were seeded by the system start from something else."""
        cls.unseeded[:] = [r for r in cls.unseeded if r() is not None]
        for i, r in enumerate(cls.unseeded):
            r().seed(f"{name}/{i}")

    def _ask(self, kind, *a):
        return None if env.chooser is None else env.chooser(kind, a)

    getrandbits = RealRandom.getrandbits     # shuffle, randint, ...: seeded, not chosen

    def random(self):
        v = self._ask("random")
        return super().random() if v is None else v

    def uniform(self, a, b):
        v = self._ask("uniform", a, b)
        return super().uniform(a, b) if v is None else v

    def choice(self, seq):
        v = self._ask("choice", len(seq))
        return super().choice(seq) if v is None else seq[v]


class _DateTime(_dt.datetime):
    @classmethod
    def now(cls, tz=None):
        if env.date is None:
            return _dt_real.now(tz)
        return env.date.astimezone(tz) if tz is not None else env.date.astimezone().replace(tzinfo=None)

    @classmethod
    def utcnow(cls):
        if env.date is None:
            return _dt_real.utcnow()
        return env.date.astimezone(_dt.timezone.utc).replace(tzinfo=None)


_dt_real = _dt.datetime


def _t_time():
    return env.time()


def _t_sleep(s):
    return env.sleep(s)


def _t_uuid4():
    return env.uuid4()


REAL = []       # (module, name, the real function) of what is memoized below


def real_surroundings():
    for m, f, v in REAL:
        setattr(m, f, v)


def boot(patch_dates=False):
    warnings.simplefilter("ignore")
    for p in (REPO, os.path.join(HERE, "stubs"), os.path.join(HERE, "shim"), HERE):
        while p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    # third-party modules first: they get the real thing
    import autopep8
    import joblib.hashing          # noqa: F401
    import pandas                  # noqa: F401
    import sklearn.model_selection  # noqa: F401
    import deepdiff                # noqa: F401
    import jsonpickle.ext.pandas   # noqa: F401
    import psutil
    import platform
    import socket
    import numpy                   # noqa: F401
    import multiprocessing.context
    import logging                 # noqa: F401

    # deterministic third-party functions, memoized because they dominate the cost of a session
    real_fix, cache = autopep8.fix_code, {}

    def fix_code(source, *a, **k):
        key = source, repr(a), repr(k)
        if key not in cache:
            cache[key] = real_fix(source, *a, **k)
        return cache[key]
    autopep8.fix_code = fix_code
    for f, v in (("cpu_count", psutil.cpu_count()), ("getloadavg", (0.5, 0.5, 0.5)),
                 ("disk_usage", tuple(psutil.disk_usage("/"))),
                 ("virtual_memory", tuple(psutil.virtual_memory()))):
        REAL.append((psutil, f, getattr(psutil, f)))
        setattr(psutil, f, (lambda v: lambda *a, **k: v)(v))
    REAL.extend((m, f, getattr(m, f)) for m, f in (
        (platform, "platform"), (platform, "processor"), (socket, "gethostname")))
    plat, proc = platform.platform(), platform.processor()
    platform.platform = lambda *a, **k: plat
    platform.processor = lambda *a, **k: proc
    node = _uuid.getnode()
    _uuid.getnode = lambda: node
    host = socket.gethostname()
    socket.gethostname = lambda: host

    multiprocessing.context.SpawnProcess._Popen = staticmethod(FakePopen)
    _time.time = _t_time
    _time.sleep = _t_sleep
    _uuid.uuid4 = _t_uuid4
    _random.Random = DetRandom
    if patch_dates:
        _dt.datetime = _DateTime
    from persidict import backend, MemDisk
    backend.use(MemDisk())
    import pythagoras
    if patch_dates:
        _dt.datetime = _dt_real
    import gc
    gc.collect()
    gc.freeze()          # forked children then copy fewer pages
    f = os.path.realpath(pythagoras.__file__)
    assert f.startswith(os.path.realpath(REPO) + "/"), f"pythagoras comes from {f}"
    return pythagoras
