"""Unique names under every short sequence of random draws; information names over a family of objects."""
import functools
import itertools
import random
import types
import weakref

import pythagoras as pth
from persidict import get_safe_chars
from pythagoras import get_long_infoname, LoggingPortal

from mc.boot import RealRandom
from mc.core import expect, h
from mc.world import clean

META = dict(level="exploration",
            technique="exhaustive enumeration of taken names x random draws, and of a family of objects",
            rule="a case is (desired name, set of taken names, sequence of draws) or one object; the taken names "
                 "include what the drawn numbers would produce, so every collision pattern occurs",
            bounds="4 desired names, every subset of 5 names that the draws can produce, all sequences of 4 (quick) / "
                   "5 draws over 4 values, 5 container types; ~110 objects")


SAFE_CHARS_SET = get_safe_chars()


class Scripted(RealRandom):
    """Random whose raw bits are scripted; every draw of any kind is derived from them."""

    def __init__(self, script):
        self.script, self.i = script, 0
        super().__init__(1)

    def _next(self):
        v = self.script[self.i] if self.i < len(self.script) else 1000 + self.i
        self.i += 1
        if self.i > 5000:
            raise RuntimeError("draws for ever")
        return v

    def getrandbits(self, k):
        return self._next() & ((1 << k) - 1)

    def random(self):
        return (self._next() % (1 << 20)) / (1 << 20)


def unique(desired, taken, script):
    LoggingPortal.entropy_infuser = Scripted(list(script))
    return LoggingPortal.make_unique_name(desired, taken)


KINDS = [set, list, tuple, lambda s: {x: 0 for x in s}, lambda s: {x: 0 for x in s}.keys()]


def unique_case(case):
    desired, scripts = case
    n = 0
    sigs = set()
    with clean():
        keep = LoggingPortal.entropy_infuser
        try:
            # what single draws lead to, observed through the function itself
            firsts = [unique(desired, {desired}, [v] * 3) for v in range(4)]
            for f in firsts:
                expect(f != desired and f.startswith(desired), "not-derived", f"{desired!r} -> {f!r}")
            pool = [desired] + firsts
            for mask in range(32):
                taken = {x for i, x in enumerate(pool) if mask >> i & 1} | {"other", desired + "x"}
                for script in scripts:
                    for k in KINDS if script == scripts[0] else KINDS[:1]:
                        t = k(sorted(taken))
                        got = unique(desired, t, script)
                        expect(got not in taken, "not-unique", f"{desired!r} taken {taken}: {got!r} for draws {script}")
                        expect(got == desired if desired not in taken else got.startswith(desired), "not-derived",
                               f"{desired!r} taken {taken}: {got!r} for draws {script}")
                        expect(set(t) == taken, "taken-changed")
                        n += 1
                        sigs.add(h((desired, mask, got)))
        finally:
            LoggingPortal.entropy_infuser = keep
    return dict(evaluations=n, traces=n, sigs=sorted(sigs))


class Plain:
    class Inner:
        def m(self):
            pass

    def m(self):
        pass

    @staticmethod
    def s():
        pass

    @classmethod
    def c(cls):
        pass


class Named:
    def __init__(self, **k):
        self.__dict__.update(k)


class Slots:
    __slots__ = ("a",)


class Meta(type):
    pass


class WithMeta(metaclass=Meta):
    pass


def func():
    pass


def gen():
    yield 1


class Refuses:
    """An object that answers a question for its name with an error."""

    def __init__(self, error, *names):
        self.__dict__["_r"] = (error, names)

    def __getattribute__(self, n):
        if n in ("__name__", "__qualname__"):
            error, names = object.__getattribute__(self, "__dict__")["_r"]
            if n in names:
                raise error(n)
        return object.__getattribute__(self, n)


class Unprintable:
    def __str__(self):
        raise ValueError("no text")


class Lazy:
    @property
    def __name__(self):
        raise KeyError("not loaded")


class Remote:
    def __getattr__(self, n):
        raise OSError("connection lost")


def dead_proxy():
    return weakref.proxy(Lazy())


def objects():
    def local():
        pass
    n1, n2, n3 = Named(__name__="abc"), Named(__qualname__="x.y<z>"), Named(__name__="n", __qualname__="q/w\\e:r")
    odd = type("T!@# $", (), {"__module__": "mo du/le"})
    out = [1, 1.5, "s", b"b", None, True, ..., NotImplemented, [], (), {}, set(), frozenset(), 1j, range(3), slice(1),
           len, print, [].append, "".join, int.__add__, str.upper, dict.fromkeys, object.__init__, (1).__add__,
           int, str, type, object, Exception, ValueError("x"), Plain, Plain(), Plain.Inner, Plain.Inner(), Plain.m, Plain().m,
           Plain.s, Plain.c, Plain.Inner.m, func, gen, gen(), local, lambda: 0, lambda x, y=1: x, functools.partial(func),
           functools.partial, functools.lru_cache(func), itertools.count(), itertools, types, types.ModuleType("m.n"),
           n1, n2, n3, odd, odd(), Slots(), Slots.a, Meta, WithMeta, WithMeta(), property(), classmethod(func), staticmethod(func),
           memoryview(b""), (i for i in ()), iter([]), zip(), map(len, []), reversed([]), enumerate([]), open, pth, pth.autonomous,
           pth.LoggingPortal, types.SimpleNamespace(a=1), types.FunctionType(func.__code__, {}, "na me"), type("A.B<C>", (), {}),
           type("A.B<C>", (), {})(), Named(__name__=None), Named(__qualname__=5), random.random, random.Random.random,
           list[int], int | str, types.GenericAlias, compile("1", "f", "eval"), Named(__name__=""), type("", (), {})()]
    out += [Refuses(e, *n) for e in (AttributeError, RuntimeError, KeyError, OSError, TypeError)
            for n in (("__name__",), ("__qualname__",), ("__name__", "__qualname__"))]

    class LocalType:
        class In:
            pass
    out += [LocalType, LocalType(), LocalType.In(), lambda: LocalType, type(local), Named(__name__=local.__qualname__)]
    out += [Lazy(), Remote(), dead_proxy(), Named(__name__=Unprintable()), Named(__qualname__=Unprintable()),
            Named(__name__="ok", __qualname__=Unprintable())]
    return out


def expected(x, drop):
    t = type(x)
    name = str(t.__module__) + "." + str(t.__qualname__)
    own = None
    for a in ("__qualname__", "__name__"):
        try:
            own = str(getattr(x, a))
            break
        except AttributeError:
            pass
        except Exception:
            break
    if own is not None:
        name += "_" + own
    if drop:
        name = "".join(c if c in SAFE_CHARS_SET else "_" for c in name)
    return name


def info_case(idx):
    for i in idx:
        x = objects()[i]
        for drop in (True, False):
            got = get_long_infoname(x, drop_unsafe_chars=drop)
            want = expected(x, drop)
            expect(got == want and type(got) is str, f"infoname:{i}", f"object {i} ({type(x).__name__}): {got!r}, expected {want!r}")
            if drop:
                expect(got == get_long_infoname(x), f"infoname-default:{i}")
                expect(set(got) <= set(SAFE_CHARS_SET), f"unsafe:{i}", got)
    return dict(evaluations=2 * len(idx), traces=len(idx), sigs=[f"obj{i}" for i in idx])


def run(ctx):
    scripts = [list(s) for s in itertools.product(range(4), repeat=4 if ctx.quick else 5)]
    cases = [[d, scripts[a:a + 64]] for d in ("name", "", "message_list", "a_1") for a in range(0, len(scripts), 64)]
    ctx.run_cases(unique_case, cases)
    n = len(objects())
    ctx.run_cases(info_case, [list(range(a, min(a + 10, n))) for a in range(0, n, 10)])


def replay(case):
    return unique_case(case) if isinstance(case[0], str) else info_case(case)
