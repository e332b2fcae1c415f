"""Every nesting, up to a bound, of portal blocks, function calls and handlers around one raise."""
# PATCH_DATES = True
import datetime as _dt
import itertools
import sys
import threading

import mcprobe
import pythagoras as pth
from pythagoras import LoggingPortal, current_date_gmt_string

from mc.boot import env
from mc.excs import family
from mc.world import clean, expect, h, quiet

META = dict(level="model_checking",
            rule="one state = one nesting of frames around a raise; the crash logs of all portals are compared with the "
                 "reference after every run, runs follow one another in one session",
            bounds="every nesting of <=4 (quick) / <=5 of 11 frames: with-block of portal A or B, call of an ordinary, "
                   "autonomous, pure function of A or a pure one of B, catch, re-raise, raise from, replace, finally; "
                   "0-2 portals entered for good and uncaught exceptions reaching the hook; 8 kinds of exception; "
                   "19 things an exception, or a call it leaves, carries x 11 class names x 6 frames; every built-in exception type and "
                   "some unusual ones x 6 frames x alone, noted, with cause, with context, raised again",
            assumptions=["exceptions are printed by Python's default hook"])

FRAMES = "ABoapqtrncf"
FN = {"o": ("fo", 0), "a": ("fa", 0), "p": ("fp", 0), "q": ("fq", 1)}


class Custom(Exception):
    def __init__(self, a, b=0):
        super().__init__(a, b)
        self.a, self.b = a, b

    def __str__(self):
        return f"{self.a}!"


def leaf(kind, n):
    if kind == "noted":
        e = ValueError(f"v{n}")
        e.add_note("a note of the user")
        return e
    if kind == "handle":
        e = RuntimeError(f"v{n}")
        e.payload = {"fn": leaf, "set": {1, 2}, "n": n}
        return e
    return {"value": ValueError, "key": KeyError, "os": lambda m: OSError(2, m), "kbd": KeyboardInterrupt,
            "exit": SystemExit, "custom": lambda m: Custom(m, 1)}[kind](f"v{n}")


class World:
    def __init__(self):
        self.portals = [pth.PureCodePortal("/mem/p0"), pth.PureCodePortal("/mem/p1")]
        self.fns = {}
        for k, (name, i) in FN.items():
            with self.portals[i]:
                dec = dict(o=pth.ordinary, a=pth.autonomous, p=pth.pure, q=pth.pure)[k]
                self.fns[k] = dec()(f"def {name}(d, run):\n    import mcprobe\n    return mcprobe.go(d)\n")
        self.logs = [dict(), dict()]
        self.n = 0
        self.run_no = 0

    def crash_logs(self):
        return [{tuple(k): p.crash_history[k] for k in p.crash_history} for p in self.portals]


def active(w):
    ent = LoggingPortal.get_entered_portals()
    return frozenset(i for i in range(2) if any(w.portals[i] is p for p in ent))


def run_program(w, base, frames, kind):
    """Execute one program; return what the reference expects to be recorded: [(exception, portals, fn)]."""
    noticed = {}
    keep = []
    with_stack = list(base)
    w.run_no += 1
    fn_stack = []

    def new(kind_):
        w.n += 1
        e = leaf(kind_, w.n)
        keep.append(e)
        return e

    def notice(e, where, fn):
        if id(e) not in noticed:
            noticed[id(e)] = (e, where, fn)

    def go(d):      # runs inside the body of a function
        act = active(w)
        expect(act >= frozenset(with_stack), "portal-not-active-inside-function", lambda: f"{frames}: {act} {with_stack}")
        try:
            return step(d)
        except BaseException as e:
            notice(e, act, fn_stack[-1])
            raise

    def step(d):
        if d == len(frames):
            if kind is None:
                return d
            raise new(kind)
        f = frames[d]
        if f in "AB":
            i = "AB".index(f)
            with w.portals[i]:
                with_stack.append(i)
                try:
                    return step(d + 1)
                except BaseException as e:
                    notice(e, active(w), None)
                    raise
                finally:
                    with_stack.pop()
        if f in FN:
            fn_stack.append(FN[f][0])
            try:
                return w.fns[f](d=d + 1, run=w.run_no)
            finally:
                fn_stack.pop()
        if f == "t":
            try:
                return step(d + 1)
            except BaseException:
                return d
        if f == "r":
            try:
                return step(d + 1)
            except BaseException:
                raise
        if f == "n":
            try:
                return step(d + 1)
            except BaseException as e:
                raise new("value") from e
        if f == "c":
            failed = False
            try:
                return step(d + 1)
            except BaseException:
                failed = True
            if failed:
                raise new("key")
        if f == "f":
            try:
                return step(d + 1)
            finally:
                try:
                    raise new("os")
                except OSError:
                    pass
    mcprobe.go = go
    for i in base:
        w.portals[i].__enter__()
    escaped = None
    try:
        step(0)
    except BaseException as e:
        escaped = e
        if keep and e not in keep:
            raise
        if not isinstance(e, SystemExit):
            sys.excepthook(type(e), e, e.__traceback__)
            notice(e, active(w), None)
    finally:
        mcprobe.go = None
        for i in reversed(base):
            w.portals[i].__exit__(None, None, None)
    return [x for x in noticed.values()], escaped, keep


def program(w, base, frames, kind):
    out0 = [str(k) for k in w.logs]
    del out0
    what = f"frames {frames} around {kind}, entered for good: {base}"
    expected, escaped, keep = run_program(w, base, frames, kind)
    if kind is not None:
        last = "".join(frames)
        if not set(last) & set("tnc"):
            expect(escaped is keep[0], "exception-changed", what)
    for e in keep:
        if type(e) in (ValueError, KeyError):
            expect(len(e.args) == 1 and e.args[0].startswith("v"), "exception-changed", what)
    real = w.crash_logs()
    day = current_date_gmt_string()
    for i in range(2):
        old, now = w.logs[i], real[i]
        for k in old:
            expect(k in now and now[k] == old[k] or k in now and str(now[k]) == str(old[k]), "earlier-record-changed", lambda: f"{what}: {k}")
        fresh = [k for k in now if k not in old]
        general = [k for k in fresh if k[0] == "__CATCH_ALL__"]
        other = [k for k in fresh if k[0] != "__CATCH_ALL__"]
        want = [(e, fn) for e, act, fn in expected if i in act]
        expect(len(general) == len(want), "record-count",
               lambda: f"{what}: portal {i} has {len(general)} new records {general}, expected {[repr(e) for e, _ in want]}")
        for k in general:
            expect(len(k) == 3 and k[1] == day, "record-day", lambda: f"{what}: {k}")
        left = list(general)
        for e, fn in want:
            mine = [k for k in left if k[2].startswith(type(e).__name__) and str(now[k]["exception"]) == str(e)]
            expect(mine, "record-missing", lambda: f"{what}: nothing about {e!r} among {general}")
            left.remove(mine[0])
            rec = now[mine[0]]
            expect(isinstance(rec["exception"], type(e)) and str(rec["exception"]) == str(e), "record-content",
                   lambda: f"{what}: {rec['exception']!r} for {e!r}")
            expect(any(str(e) in line for line in rec["exception_traceback"]), "record-traceback",
                   lambda: f"{what}: {rec['exception_traceback']}")
            expect("hostname" in rec and "pid" in rec, "record-context", lambda: f"{what}: {list(rec)}")
            twins = [k for k in other if k[-1] == mine[0][-1]]
            expect(len(twins) == (fn is not None), "function-heading", lambda: f"{what}: {e!r} left {fn}: {twins}")
            if fn is not None:
                expect(twins[0][0].startswith(fn), "function-heading", lambda: f"{what}: {e!r} left {fn}: {twins}")
                expect(rec["function_name"] == fn, "record-function", lambda: f"{what}: {rec['function_name']} for {fn}")
        expect(len(other) == sum(fn is not None for _, fn in want), "function-heading", lambda: f"{what}: {other}")
    expect(LoggingPortal.get_most_recently_entered_portal() is None, "portal-left-active", what)
    w.logs = real


def case_fn(case):
    """Programs one after the other, in one session."""
    progs = case
    with clean(), quiet():
        day0 = _dt.datetime(2024, 2, 28, 23, tzinfo=_dt.timezone.utc)
        env.date = day0
        w = World()
        for n, (base, frames, kind) in enumerate(progs):
            env.date = day0 + _dt.timedelta(hours=7 * n)
            if n % 12 == 11:
                for p in w.portals:
                    for k in list(p.crash_history):
                        pass
            program(w, base, frames, kind)
        return dict(states=len(progs), transitions=sum(len(p[1]) + 1 for p in progs), traces=len(progs),
                    sigs=[h(p) for p in progs])


class NoState:
    def __getstate__(self):
        raise RuntimeError("has no state")

    def __repr__(self):
        return "NoState()"


class NoRepr(NoState):
    def __repr__(self):
        raise RuntimeError("has no text")


def cargo_of(name, portal):
    deep = []
    for _ in range(20000):
        deep = [deep]
    return {"nothing": None, "portal": portal, "function": pth.ordinary(portal=portal)("def g():\n    return 1\n"), "no state": NoState(),
            "no text": NoRepr(), "lock": threading.Lock(), "generator": (i for i in [1]), "module": sys, "lambda": lambda: 1, "big": 2 ** 70000,
            "deep": deep, "nan": float("nan"), "surrogate": "\ud800", "bytes": b"\xff", "class": NoState, "keys": {(1, NoState): 2},
            "inside": [1, {"k": NoState()}], "set": {1, portal}, "cycle": portal.__dict__}[name]


CARGO = ["nothing", "portal", "function", "no state", "no text", "lock", "generator", "module", "lambda", "big", "deep", "nan", "surrogate",
         "bytes", "class", "keys", "inside", "set", "cycle"]
NAMES = ["E", "Fehler", "Ошибка", "エラー", "a b/../c", "", "..", "_", "e" * 60, "A.B", "CON"]
KINDS = {"o": "ordinary", "s": "safe", "a": "autonomous", "t": "strictly_autonomous", "p": "pure"}


def cargo(case):
    """Whatever an exception or a failing call carries and whatever they are called: it is logged and propagates."""
    where, what, name, frame, fname = case
    with clean(), quiet():
        a, b = pth.PureCodePortal("/mem/p0"), pth.PureCodePortal("/mem/p1")
        load = cargo_of(what, a)
        e = type(name, (Exception,), {"__str__": lambda self: "the text", "__repr__": lambda self: "the text"})() \
            if where != "args" else type(name, (Exception,), {})("the text", load)
        if where == "attribute":
            e.load = load

        def go(x):
            raise e
        mcprobe.go = go
        got = None
        try:
            with b:
                if frame == "w":
                    with a:
                        raise e
                kw = dict(x=load, y=[7]) if where == "kwargs" else dict(x=1, y=[7])
                f = getattr(pth, KINDS[frame])(portal=a)(f"def {fname}(x, y):\n    import mcprobe\n    return mcprobe.go(x)\n")
                with a:
                    f(**kw)
        except BaseException as x:
            got = x
        finally:
            mcprobe.go = None
        expect(got is e, "exception-replaced", lambda: f"{case}: {type(got).__name__} {str(got)[:200]}")
        for p in (a, b):
            ks = [tuple(k) for k in p.crash_history]
            general = [k for k in ks if k[0] == "__CATCH_ALL__"]
            expect(len(general) == 1 and len(ks) == 1 + (frame != "w"), "record-count", lambda: f"{case}: {ks}")
            for k in ks:
                rec = p.crash_history[k]
                text = rec["exception_traceback"]
                expect(what in ("no text", "big", "deep") and where == "args" or any("the text" in line for line in text), "record-traceback", lambda: f"{case}: {text}")
                expect("hostname" in rec and "exception" in rec, "record-context", lambda: f"{case}: {list(rec)}")
                if frame != "w":
                    expect(rec["function_name"] == fname and set(rec["kwargs"]) <= {"x", "y"} and rec["kwargs"].get("y") == [7], "record-function",
                           lambda: f"{case}: {rec['function_name']} {rec['kwargs']}")
        expect(LoggingPortal.get_most_recently_entered_portal() is None, "portal-left-active", lambda: f"{case}")
    return dict(states=1, transitions=4, sigs=(case,))


def types_case(case):
    """Every type of exception, alone, as a cause or context, with notes of its own: one record, and it propagates."""
    label, frame, dress = case
    with clean(), quiet():
        a, b = pth.PureCodePortal("/mem/p0"), pth.PureCodePortal("/mem/p1")
        e = dict(family())[label]()
        if dress == "noted" and isinstance(e, BaseException):
            e.add_note("a note")

        def go(x):
            if dress == "cause":
                raise e from ValueError("the cause")
            if dress == "context":
                try:
                    raise KeyError("before")
                except KeyError:
                    raise e
            raise e
        mcprobe.go = go
        got = None
        try:
            with b:
                try:
                    if frame == "w":
                        with a:
                            go(1)
                    f = getattr(pth, KINDS[frame])(portal=a)("def fn(x):\n    import mcprobe\n    return mcprobe.go(x)\n")
                    with a:
                        f(x=1)
                except BaseException as x:
                    if dress == "again":
                        with a:
                            raise
                    raise
        except BaseException as x:
            got = x
        finally:
            mcprobe.go = None
        expect(got is e, "exception-replaced", lambda: f"{case}: {type(got).__name__}")
        notes = [n for n in getattr(e, "__notes__", []) if n == "a note"]
        expect(notes == ["a note"] * (dress == "noted"), "exception-changed", lambda: f"{case}: {e.__notes__}")
        for p in (a, b):
            ks = [tuple(k) for k in p.crash_history]
            general = [k for k in ks if k[0] == "__CATCH_ALL__"]
            expect(len(general) == 1 and len(ks) == 1 + (frame != "w"), "record-count", lambda: f"{case}: {ks}")
            for k in ks:
                rec = p.crash_history[k]
                expect(any(type(e).__name__ in line for line in rec["exception_traceback"]) and "hostname" in rec, "record-traceback",
                       lambda: f"{case}: {rec['exception_traceback']}")
        expect(LoggingPortal.get_most_recently_entered_portal() is None, "portal-left-active", lambda: f"{case}")
    return dict(states=1, transitions=3, sigs=("|".join(case),))


def shared(case):
    """Portals that share a directory share the crash history: still one record per exception and name."""
    dirs, seq, frame = case
    with clean(), quiet():
        ps = [pth.PureCodePortal(f"/mem/d{d}") for d in dirs]
        e = ValueError("the text")

        def go(x):
            raise e
        mcprobe.go = go
        got = None
        try:
            f = None if frame == "w" else getattr(pth, KINDS[frame])(portal=ps[0])(
                "def fn(x, y=[7]):\n    import mcprobe\n    return mcprobe.go(x)\n")
            for i in seq:
                ps[i].__enter__()
            try:
                if frame == "w":
                    raise e
                f(x=[1])
            except ValueError as x:
                info = (type(x), x, x.__traceback__)
                for i in reversed(seq):
                    ps[i].__exit__(*info)
                raise
        except BaseException as x:
            got = x
        finally:
            mcprobe.go = None
        expect(got is e, "exception-replaced", lambda: f"{case}: {got!r}")
        active = {dirs[i] for i in seq} | ({dirs[0]} if frame in "atp" or frame in "os" and seq else set())
        own = {dirs[i] for i in seq} if frame in "wos" else active
        for i, p in enumerate(ps):
            ks = [tuple(k) for k in p.crash_history]
            n = (1 + (frame != "w")) * (dirs[i] in own)
            expect(len(ks) == n, "record-count", lambda: f"{case}: portal {i}: {ks}")
            for k in ks:
                rec = p.crash_history[k]
                expect(any("the text" in line for line in rec["exception_traceback"]) and "hostname" in rec, "record-traceback",
                       lambda: f"{case}: {rec}")
                if frame != "w":
                    expect(rec["function_name"] == "fn" and rec["kwargs"].get("x") == [1], "record-function", lambda: f"{case}: {rec}")
        expect(LoggingPortal.get_most_recently_entered_portal() is None, "portal-left-active", lambda: f"{case}")
    return dict(states=1, transitions=4, sigs=(str(case),))


def chunks(xs, n):
    xs = list(xs)
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def run(ctx):
    q = ctx.quick
    progs = []
    for n in range(5 if q else 6):
        for fr in itertools.product(FRAMES, repeat=n):
            if sum(f in "ncf" for f in fr) > 2:
                continue
            progs.append([[], list(fr), "value"])
    for n in range(3 if q else 4):
        for fr in itertools.product(FRAMES, repeat=n):
            for base in ([0], [1], [0, 1], [1, 0, 1]):
                progs.append([base, list(fr), "value"])
            for kind in ("noted", "handle", "key", "os", "kbd", "exit", "custom", None):
                progs.append([[0], list(fr), kind])
                if n < 2:
                    progs.append([[], list(fr), kind])
    cases = [(w, c, "E", f, "fn") for w in ("args", "attribute") for c in CARGO for f in "wosatp"]
    cases += [("kwargs", c, "E", f, "fn") for c in CARGO for f in "osat"] + [("kwargs", c, "E", "p", "fn") for c in ("nothing", "big", "nan", "bytes")]
    cases += [("args", "nothing", n, f, "fn") for n in NAMES for f in "wosatp"]
    cases += [("args", c, n, f, "ünï") for n in NAMES[:3] for c in ("nothing", "portal") for f in "osat"]
    ctx.run_cases(cargo, cases, batch=16)
    ctx.run_cases(types_case, [(l, f, d) for l, _ in family() for f in "wosatp"
                               for d in ("plain", "noted", "cause", "context", "again")], batch=16)
    ctx.run_cases(shared, [[list(d), list(seq), f] for d in ((0, 0, 1), (0, 1, 0), (0, 0, 0)) for n in range(4 if q else 5)
                           for seq in itertools.product(range(3), repeat=n) for f in "wosatp"], batch=16)
    ctx.run_cases(case_fn, chunks(progs, 20))


def replay(case):
    if isinstance(case[0], list) and len(case) == 3 and len(case[0]) == 3 and case[2] in [*"wosatp"]:
        return shared(case)
    if isinstance(case[0], str) and len(case) == 3:
        return types_case(tuple(case))
    return cargo(tuple(case)) if isinstance(case[0], str) else case_fn(case)
