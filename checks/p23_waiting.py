"""Every arrival of a result, at each moment of a grid and at each storage step of the waiting call, times timeouts and jitter."""
import itertools

import pythagoras as pth

from mc.boot import Livelock, env
from mc.world import clean, expect, files, quiet

META = dict(level="model_checking",
            rule="one case = (timeout, jitter draws, arrival: time or storage step or never, where and how it arrives, "
                 "cost of a storage step); outcome, elapsed time and the request are compared with the reference",
            bounds="10 timeouts x 2^3 (quick) / 3^4 jitter draws x 20 arrival times and the first 60 / 120 "
                   "storage steps x arrival in the same or another known portal, with or without the worker removing the "
                   "request x storage steps costing 0 or 10 ms",
            assumptions=["virtual clock; sleeping takes exactly the time asked for"])

F = "def f(x):\n    return {'f': [x]}\n"
TIMEOUTS = [0, 0.25, 1, 1.5, 2, 3, 7.25, 10, 33, None]
TIMES = [0.0, 0.001, 0.2, 0.999, 1.0, 1.001, 1.3, 1.499, 1.99, 2.3, 2.999, 4.5, 7.2, 9.9, 15, 32.9, 33.0, 33.9, 60, 3000]
_cache = {}


def setting(place, drops):
    """(items before, items to add, paths to remove, strings): the store without and with the result."""
    key = place, drops
    if key not in _cache:
        with clean(salt="w0") as disk, quiet():
            p = pth.PureCodePortal("/mem/p")
            with p:
                f = pth.pure()(F)
            a = f.get_address(x="a")
            s = a.prefix, a.hash_signature
            before = dict(disk.items)
        # somebody executes it elsewhere
        with clean(type(disk)(before), salt="w1") as disk2, quiet():
            q = pth.PureCodePortal("/mem/" + place)
            pth.PureCodePortal("/mem/p")
            with q:
                f = pth.pure()(F)
            f(x="a")
            add = {k: v for k, v in disk2.items.items() if k not in before}
        _cache[key] = before, add, s
    return _cache[key]


def one(case):
    timeout, jitter, arrival, place, drops, cost, tell = case
    before, add, strs = setting(place, drops)
    st = dict(ops=0, arrived=None, sleeps=0, live=False)
    draws = list(jitter)
    with clean(salt="w2") as disk, quiet():
        disk.items.update(before)
        p = pth.PureCodePortal("/mem/p")
        if place != "p":
            pth.PureCodePortal("/mem/" + place)
        with p:
            a = pth.PureFnExecutionResultAddr.from_strings(prefix=strs[0], hash_signature=strs[1], assert_readiness=False)
        start = env.now

        def arrive():
            if st["arrived"] is None:
                st["arrived"] = (env.now - start, st["sleeps"])
                disk.items.update(add)
                if drops:
                    for k in files(disk, "/mem/p/execution_requests"):
                        del disk.items[k]

        def due():
            if arrival[0] == "t" and env.now - start >= arrival[1]:
                arrive()

        def hook(op, path):
            if not st["live"]:
                return
            due()
            if arrival == ("op", st["ops"]):
                arrive()
            st["ops"] += 1
            env.now += cost

        def on_sleep(s):
            if st["arrived"] is None:
                expect(files(disk, "/mem/p/execution_requests"), "no-request-while-waiting", lambda: f"{case}")
            if arrival[0] == "t" and st["arrived"] is None and env.now + s - start >= arrival[1]:
                arrive()
                st["arrived"] = (arrival[1], st["sleeps"])
            env.now += s
            st["sleeps"] += 1
            if st["sleeps"] > (40 if st["arrived"] is None else st["arrived"][1] + 3):
                raise Livelock("still waiting")
        disk.hook, env.on_sleep = hook, on_sleep
        env.chooser = lambda kind, args: (draws.pop(0) if draws else 0.0) if kind == "uniform" else None
        due()
        st["live"] = True
        try:
            with p:
                got = ("ok", a.get() if timeout is None and tell else a.get(timeout=timeout))
        except TimeoutError:
            got = ("timeout",)
        except Livelock:
            got = ("waiting",)
        finally:
            st["live"] = False
            env.on_sleep = env.chooser = None
        elapsed = env.now - start
        slack = cost * st["ops"]
        where = f"{case}: {got} after {elapsed:.3f} s, arrival {st['arrived']}, {st['sleeps']} sleeps"
        pending = files(disk, "/mem/p/execution_requests")
        if got[0] == "ok":
            expect(got[1] == {"f": ["a"]}, "wrong-value", where)
            expect(st["arrived"] is not None, "value-from-nowhere", where)
            expect(not pending or st["sleeps"] == 0 and not drops, "request-left", where)
            if st["arrived"][0] <= 0 and arrival[0] == "t":
                expect(st["sleeps"] == 0, "available-value-waited-for", where)
            if timeout is not None:
                expect(elapsed <= timeout + 1.01 + slack, "waited-too-long", where)
        elif got[0] == "timeout":
            expect(timeout is not None, "timeout-nobody-asked-for", where)
            expect(elapsed >= timeout, "timed-out-early", where)
            expect(elapsed <= timeout + 1.01 + slack, "timed-out-late", where)
            expect(st["arrived"] is None or st["arrived"][1] >= st["sleeps"], "arrival-missed", where)
            if st["arrived"] is None:
                expect(pending, "request-lost", where)
        else:
            expect(timeout is None and (st["arrived"] is None or st["arrived"][1] >= 40), "waits-for-ever", where)
    return dict(states=st["sleeps"] + 1, transitions=st["ops"] + st["sleeps"],
                sigs=(f"{timeout}{got[0]}{st['sleeps']}{st['arrived'] is None}",))


def run(ctx):
    q = ctx.quick
    jit = list(itertools.product([-0.5, 0.5] if q else [-0.5, 0.0, 0.5], repeat=3 if q else 4))
    arrivals = [("t", t) for t in TIMES] + [("op", k) for k in range(60 if q else 120)] + [("never", 0)]
    variants = [(pl, d, c) for pl in ("p", "q") for d in (True, False) for c in (0.0, 0.01)]
    cases, n = [], 0
    for t in TIMEOUTS:
        for j in jit:
            for a in arrivals:
                n += 1
                for v in variants:
                    cases.append((t, j, a, *v, n % 2))
    for place in "pq":
        for d in (True, False):
            setting(place, d)
    ctx.run_cases(one, cases, batch=32)
    ctx.run_cases(refused, [-1, -0.001], batch=1)


def refused(t):
    with clean(), quiet():
        p = pth.PureCodePortal("/mem/p")
        with p:
            f = pth.pure()(F)
            try:
                f.get_address(x=1).get(timeout=t)
            except TimeoutError:
                expect(False, "negative-timeout-accepted", f"{t}")
            except Exception:
                return dict(states=1)
        expect(False, "negative-timeout-accepted", f"{t}")


def replay(case):
    case = [tuple(x) if isinstance(x, list) else x for x in case]
    print(one(tuple(case)))
