"""Kills and storage faults at every storage step of short histories, followed by observation and recovery."""
import contextlib
import sys

import pythagoras as pth
from pythagoras._020_logging_portals.logging_portals import log_event

import mcprobe
from mc.core import pool  # noqa: F401
from mc.world import attempt, clean, expect, h, quiet

META = dict(level="model_checking",
            rule="one state = the store after a kill or fault at one storage step (or two) of a history; an observer reads "
                 "everything, then a new session repeats the history; one transition = one storage step",
            bounds="14 histories x every storage step x {kill, one failing step, two, every later write failing, Ctrl-C}; then, for "
                   "kills, every storage step of the recovery as a second kill (quick: one history, every third first step; "
                   "thorough: 8 histories, all pairs), and a fault after a kill",
            assumptions=["a storage step is atomic: it happens or it does not (the old persidict writes through a temporary "
                         "file)", "a killed process makes no further storage step"])

SRC = dict(
    f="def f(x):\n    import mcprobe\n    mcprobe.note('f', x)\n    return {'f': [x, 'é']}\n",
    k="def k(x):\n    import mcprobe\n    mcprobe.note('k', x)\n    print('k runs')\n    return ['k', f(x=x)]\n",
    b="def b(x):\n    import mcprobe\n    mcprobe.note('b', x)\n    print('b runs')\n    raise ValueError('b always fails')\n",
    c="def c(x):\n    try:\n        b(x=x)\n    except ValueError:\n        return 'caught'\n")
GUARDED = "def g(x):\n    return ['g', x]\n"


class Kill(BaseException):
    pass


def val(fn, x):
    return {"f": {"f": [x, "é"]}, "k": ["k", {"f": [x, "é"]}], "g": ["g", x], "c": "caught"}[fn]


def act_call(w, fn, x):
    r = attempt(w.fns[fn], x=x)
    return r, (("ok", val(fn, x)) if fn != "b" else ("exc", "ValueError"))


def act_swarm(w, fn, x):
    return attempt(lambda: type(w.fns[fn].swarm(x=x)).__name__), ("ok", "PureFnExecutionResultAddr")


def act_list(w, fn, xs):
    return attempt(lambda: [a.get() for a in w.fns[fn].run_list([dict(x=x) for x in xs])]), ("ok", [val(fn, x) for x in xs])


def act_strings(w, fn, x):
    def go():
        a = w.fns[fn].get_address(x=x)
        with w.p:
            return pth.PureFnExecutionResultAddr.from_strings(prefix=a.prefix, hash_signature=a.hash_signature,
                                                              assert_readiness=False).execute()
    return attempt(go), ("ok", val(fn, x))


def act_value(w, i):
    v = [i, {"v": "value"}]

    def go():
        with w.p:
            return pth.ValueAddr(v).get()
    return attempt(go), ("ok", v)


def act_get(w, fn, x):
    def go():
        with w.p:
            return w.fns[fn].get_address(x=x).get(timeout=1)
    return attempt(go), ("ok", val(fn, x))


def act_event(w, i):
    def go():
        with w.p:
            log_event(f"event{i}", data=i)
            return 1
    return attempt(go), ("ok", 1)


HIST = dict(
    call=dict(acts=[(act_call, "f", 1)]),
    nested=dict(acts=[(act_call, "k", 1)]),
    requested=dict(acts=[(act_swarm, "f", 1), (act_call, "f", 1)]),
    requested_nested=dict(acts=[(act_swarm, "k", 1), (act_swarm, "f", 1), (act_strings, "k", 1)]),
    many=dict(acts=[(act_list, "f", (1, 2, 1))]),
    failing=dict(acts=[(act_swarm, "b", 1), (act_call, "b", 1)]),
    handled=dict(acts=[(act_call, "c", 1), (act_event, 1)]),
    guarded=dict(acts=[(act_call, "g", 1)]),
    value=dict(acts=[(act_value, 1), (act_value, 2)]),
    twice=dict(acts=[(act_call, "f", 1), (act_call, "f", 1), (act_get, "f", 1)]),
    strings=dict(acts=[(act_strings, "k", 1)]),
    checked=dict(acts=[(act_call, "f", 1)], before=[(act_call, "f", 1)], p=1),
    moved=dict(acts=[(act_call, "k", 1), (act_get, "k", 1)], before=[(act_call, "k", 1)], before_at="/mem/q"),
    second=dict(acts=[(act_call, "k", 2)], before=[(act_call, "f", 2), (act_call, "k", 1), (act_value, 1)]),
)


class W:
    pass


def session(st, disk, salt, root="/mem/p", p=None, second=None):
    st.enter_context(clean(disk, salt=salt))
    w = W()
    w.disk = disk
    w.p = pth.PureCodePortal(root, p_consistency_checks=p)
    if second:
        w.q = pth.PureCodePortal(second)
    with w.p:
        w.fns = {n: pth.pure()(s) for n, s in SRC.items()}
        guard = pth.strictly_autonomous()("def ok(x):\n    return x\n")
        w.fns["g"] = pth.pure(guards=[guard])(GUARDED)
    return w


def initial(name):
    from persidict import MemDisk
    hi = HIST[name]
    disk = MemDisk()
    with quiet(), contextlib.ExitStack() as st:
        w = session(st, disk, "before", root=hi.get("before_at", "/mem/p"))
        for a in hi.get("before", ()):
            r, want = a[0](w, *a[1:])
            expect(r[:len(want)] == want, "call-fails", lambda: f"{name}: {r}")
    return disk.items


def observe(name, disk, why, base, requested):
    """A reader that changes nothing looks at everything there is."""
    from persidict import MemDisk
    hi = HIST[name]
    copy = MemDisk(disk.items)
    copy.clock, copy.seq = disk.clock, disk.seq
    with quiet(), contextlib.ExitStack() as st:
        w = session(st, copy, "observer", second="/mem/q" if hi.get("before_at") else None)
        for fn in w.fns:
            for x in (1, 2):
                a = w.fns[fn].get_address(x=x)
                if a.ready:
                    expect(fn != "b", "result-of-failed-call", lambda: f"{why}")
                    r = attempt(a.get)
                    expect(r == ("ok", val(fn, x)), "wrong-result", lambda: f"{why}: {fn}({x}): {r}")
        with w.p:
            for k in list(w.p.value_store):
                v = attempt(lambda: w.p.value_store[k])
                expect(v[0] == "ok", "partial-value", lambda: f"{why}: {k}: {v}")
                back = pth.ValueAddr(v[1])
                expect(back.hash_signature == list(k)[1], "wrong-value", lambda: f"{why}: {k} holds {v[1]!r}")
            for k in list(w.p.execution_results):
                r = attempt(lambda: w.p.execution_results[k].get())
                expect(r[0] == "ok", "result-without-value", lambda: f"{why}: {k}: {r}")
            for k in list(w.p.run_history.json):
                expect(attempt(lambda: w.p.run_history.json[k])[0] == "ok", "partial-record", lambda: f"{why}: {k}")
            for k in list(w.p.crash_history):
                expect(attempt(lambda: w.p.crash_history[k])[0] == "ok", "partial-record", lambda: f"{why}: {k}")
        for fn, x in requested:
            a = w.fns[fn].get_address(x=x)
            expect(a.ready or a.execution_requested, "request-lost", lambda: f"{why}: {fn}({x})")
    for k, (data, _) in base.items():
        if any(d in k for d in ("/value_store/", "/execution_results/", "/run_history/")) and not k.endswith(".py"):
            expect(k in disk.items and disk.items[k][0] == data, "recorded-item-changed", lambda: f"{why}: {k}")


def play(name, disk, salt, hook=None, faulty=False, why="", second=False):
    """Run the history; returns (completed acts, requests certainly registered, op count)."""
    hi = HIST[name]
    requested = []
    with contextlib.ExitStack() as st:
        out = st.enter_context(quiet())
        w = session(st, disk, salt, p=hi.get("p"), second="/mem/q" if hi.get("before_at") else None)
        sys.stdout = sys.stderr = out
        disk.hook = hook
        try:
            for i, a in enumerate(hi["acts"]):
                try:
                    r, want = a[0](w, *a[1:])
                except KeyboardInterrupt:
                    r, want = ("exc", "KeyboardInterrupt"), ("ok",)
                if faulty:
                    expect(r[:len(want)] == want or r[0] == "exc", "wrong-value-after-fault", lambda: f"{why}: {r}")
                else:
                    expect(r[:len(want)] == want, "call-fails", lambda: f"{why}: {a[0].__name__}{a[1:]}: {r}, expected {want}")
                if a[0] is act_swarm and r[0] == "ok":
                    requested.append(a[1:])
                expect(not pth.BasicPortal.get_entered_portals(), "portal-left-active", lambda: f"{why}: {a[0].__name__}{a[1:]}")
                expect(sys.stdout is out and sys.stderr is out, "output-still-captured", lambda: f"{why}")
        except Kill:
            pass
        finally:
            disk.hook = None
        if faulty:
            # the same session goes on
            for a in hi["acts"]:
                if a[0] is act_event:
                    continue
                r, want = a[0](w, *a[1:])
                expect(r[:len(want)] == want, "session-spoiled", lambda: f"{why}: {a[0].__name__}{a[1:]}: {r}, expected {want}")
            expect(not pth.BasicPortal.get_entered_portals(), "portal-left-active", lambda: f"{why}")
    return requested


def n_ops(name, items):
    from persidict import MemDisk
    disk = MemDisk(items)
    n = [0]

    def hook(op, path):
        n[0] += 1
    play(name, disk, "count", hook, why=name)
    return n[0]


def injector(mode, i, length=1):
    n = [0]

    def hook(op, path):
        k = n[0]
        n[0] += 1
        if mode == "kill" and k >= i:
            raise Kill
        if mode == "fault" and i <= k < i + length:
            raise OSError(5, "storage fault")
        if mode == "intr" and k == i:
            raise KeyboardInterrupt
        if mode == "full" and k >= i and op == "put":
            raise OSError(28, "no space left")
    return hook


def one(case):
    from persidict import MemDisk
    name, mode, i, length, j = case
    items = initial(name)
    disk = MemDisk(items)
    disk.seq = 10 ** 4
    why = str(case)
    req = play(name, disk, "first", injector(mode, i, length), faulty=mode != "kill", why=why)
    if mode != "kill":
        req = []
    observe(name, disk, why, items, [(fn, x) for fn, x in req])
    after = dict(disk.items)
    states = 1
    if j is not None:
        m2, j2 = j
        req2 = play(name, disk, "second", injector(m2, j2), faulty=m2 != "kill", why=why)
        observe(name, disk, why, after, req + req2 if m2 == "kill" else [])
        after = dict(disk.items)
        states += 1
    # recovery
    play(name, disk, "recovery", why=why + " (recovery)")
    observe(name, disk, why + " (recovered)", after, [])
    return dict(states=states, transitions=i, sigs=(h(sorted((k, d) for k, (d, _) in after.items() if "/run_history/" not in k
                                                           and "/crash_history/" not in k)),))


def pairs(case):
    """All second kills (or faults) during the recovery from the kill at i."""
    from persidict import MemDisk
    name, i, m2 = case
    items = initial(name)
    disk = MemDisk(items)
    disk.seq = 10 ** 4
    play(name, disk, "first", injector("kill", i), why=str(case))
    n = n_ops(name, dict(disk.items))
    for j in range(n):
        one((name, "kill", i, 1, (m2, j)))
    return dict(states=2 * n, transitions=n * (i + n // 2), traces=n, evaluations=n)


def run(ctx):
    q = ctx.quick
    cases, two = [], []
    steps = {}
    for _, name, r in pool(lambda name: n_ops(name, initial(name)), list(HIST)):
        if isinstance(r, Exception):
            ctx.take(["clean", name], r)
        else:
            steps[name] = r
    for name in HIST:
        n = steps.get(name, -1)
        ctx.notes["steps_" + name] = n
        for i in range(n + 1):
            cases.append((name, "kill", i, 1, None))
            cases.append((name, "fault", i, 1, None))
            cases.append((name, "intr", i, 1, None))
            if not q or (i % 2 == 0):
                cases.append((name, "fault", i, 2, None))
                cases.append((name, "full", i, 1, None))
        if name == "call" or not q and name in ("nested", "requested", "guarded", "value", "checked", "moved", "second"):
            two += [(name, i, "kill") for i in range(0, n + 1, 3 if q else 1)]
            if not q:
                two += [(name, i, "fault") for i in range(n + 1)]
    ctx.run_cases(one, cases, batch=4)
    ctx.run_cases(pairs, two, batch=1)


def replay(case):
    case = tuple(tuple(x) if isinstance(x, list) else x for x in case)
    print((pairs if len(case) == 3 else one)(case))
