"""Every history of making, entering and forgetting portals and of exceptions nobody catches, in a script and in a notebook."""
import io
import sys
import types

import pythagoras as pth
from pythagoras import BasicPortal, LoggingPortal, PureCodePortal, _PortalTester
from persidict import MemDisk, backend

from mc.boot import env
from mc.core import expect, h, in_fork

META = dict(level="model_checking",
            rule="one state = (portals known and entered, whether the handling of uncaught exceptions is taken over, records); "
                 "every enabled operation of every state is executed in a process of its own",
            bounds="histories up to 5 (quick) / 7 (thorough) of 8 operations; script with the default or its own hook, IPython without a "
                   "shell, notebook, notebook that refuses handlers; 2 logging portals, one of a derived class",
            assumptions=["the shell of a notebook calls the handler set last, with itself as the first argument",
                         "nobody else replaces sys.excepthook in between"])

SURROUNDINGS = ["script", "own", "no-shell", "notebook", "stubborn"]
surroundings = "script"


class Shell:
    def __init__(self, stubborn):
        self.stubborn, self.calls = stubborn, []

    def set_custom_exc(self, types_, handler):
        if self.stubborn:
            raise RuntimeError("no handlers here")
        self.calls.append((tuple(types_), handler))

    def handler(self, t):
        for ts, f in reversed(self.calls):
            return f if f is not None and issubclass(t, ts) else None
        return None


def own_hook(*a):
    sys.stderr.write("own hook " + a[0].__name__)


def make(kind):
    return {"value": lambda: ValueError("the text"), "kbd": lambda: KeyboardInterrupt("the text"),
            "exit": lambda: SystemExit("the text")}[kind]()


def machine(hist):
    return in_fork(session, hist, surroundings)


def session(hist, place):
    shell = Shell(place == "stubborn") if place in ("notebook", "stubborn") else None
    if place not in ("script", "own"):
        sys.modules["IPython"] = types.ModuleType("IPython")
        sys.modules["IPython"].get_ipython = lambda: shell
    env.reset("0")
    backend.use(MemDisk())
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    hook0 = sys.excepthook = own_hook if place == "own" else sys.__excepthook__
    portals, stack, taken, reported = [], [], False, []
    records = {}
    by_shell = place == "notebook"
    last = None

    def deliver(f, a, k):
        try:
            f(*a, **k)
        except BaseException as e:
            expect(False, "hook-fails", f"{place} {hist}: {e!r}")

    def check():
        if by_shell:
            expect(sys.excepthook is hook0, "hook-replaced", lambda: f"{place} {hist}")
            for t in (ValueError, KeyboardInterrupt):
                expect((shell.handler(t) is not None) == taken, "shell-handler", lambda: f"{place} {hist}: {shell.calls}")
            n = 0
            for _, f in shell.calls:
                n = n + 1 if f is not None else 0
                expect(n <= 1, "taken-over-twice", lambda: f"{place} {hist}: {shell.calls}")
        else:
            expect((sys.excepthook is not hook0) == taken, "hook", lambda: f"{place} {hist}: {sys.excepthook}")
        for p in portals:
            if isinstance(p, LoggingPortal):
                d = str(p.root_dict.base_dir)
                expect(len(list(p.crash_history)) == records.get(d, 0), "records",
                       lambda: f"{place} {hist}: {d}: {list(p.crash_history)}")

    check()
    for op in hist:
        kind, i = op
        if kind == "log":
            portals.append((LoggingPortal, PureCodePortal)[i](f"/mem/p{i}"))
            taken = True
        elif kind == "basic":
            portals.append(BasicPortal("/mem/basic"))
        elif kind == "enter":
            portals[i].__enter__()
            stack.append(i)
        elif kind == "leave":
            portals[stack.pop()].__exit__(None, None, None)
        elif kind == "forget":
            with _PortalTester(LoggingPortal, root_dict="/mem/t"):
                pass
            portals, stack, taken = [], [], False
        elif kind in ("uncaught", "again"):
            before = sys.stderr.getvalue()
            try:
                if kind == "uncaught":
                    last = (make(i), i)
                    for j in {str(portals[j].root_dict.base_dir) for j in stack}:
                        records[j] = records.get(j, 0) + 1
                    fresh = True
                else:
                    fresh = False
                raise last[0]
            except BaseException as e:
                info = type(e), e, e.__traceback__
                f = shell.handler(info[0]) if by_shell else None
                if f is not None:       # a shell handles the exception where it catches it
                    deliver(f, [shell, *info], dict(tb_offset=None))
            if f is None:
                deliver(sys.excepthook, info, {})
            said = sys.stderr.getvalue()[len(before):]
            expect(info[0].__name__ in said, "not-reported", lambda: f"{place} {hist}: {said!r}")
            if taken:
                expect(said.count("most recent call last") == 1 and said.count("the text") >= 1, "not-reported",
                       lambda: f"{place} {hist}: {said!r}")
            reported.append(fresh)
            if stack:
                for p in (portals[j] for j in stack):
                    r = [p.crash_history[k] for k in p.crash_history]
                    expect(all(any("the text" in line for line in x["exception_traceback"]) for x in r), "record-content")
        check()
    ops = [("log", i) for i in range(2) if not any(type(p) is (LoggingPortal, PureCodePortal)[i] for p in portals)]
    if not any(type(p) is BasicPortal for p in portals):
        ops.append(("basic", None))
    if len(stack) < 2:
        ops += [("enter", j) for j, p in enumerate(portals) if isinstance(p, LoggingPortal)]
    if stack:
        ops.append(("leave", None))
    ops.append(("forget", None))
    if sum(reported) < 3:
        ops += [("uncaught", k) for k in ("value", "kbd", "exit")]
    if last is not None and stack and len(reported) < 3 and reported[-1] and op[0] == "uncaught":
        ops.append(("again", None))
    return h(([type(p).__name__ for p in portals], stack, taken, sorted(records.items()), len(reported), last and last[1],
              [f is None for _, f in shell.calls] if shell else None)), ops


def run(ctx):
    global surroundings
    for surroundings in SURROUNDINGS:
        ctx.bfs(machine, 5 if ctx.quick else 7, batch=8)


def replay(case):
    return [in_fork(session, [tuple(o) for o in case], s) for s in SURROUNDINGS]
