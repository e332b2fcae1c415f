"""Portals refuse serialisation; portal-aware objects rebind wherever they are loaded: all stacks, all sessions."""
import copy
import io
import itertools
import pickle

import pythagoras as pth
from pythagoras import BasicPortal

from mc.core import in_fork
from mc.world import clean, expect, h, quiet

META = dict(level="model_checking",
            rule="one state = (object, origin portal, session, order of portal creation, stack at load, stack at use); "
                 "binding, content and the stores written to are compared with the reference",
            bounds="9 portal classes x 9 ways of serialising x 3 conditions; 10 portal-aware objects x 3 origins x "
                   "same/new session x every non-empty stack of <=3 (quick) / <=4 of 3 portals at load x stacks at use; chains of "
                   "two moves",
            assumptions=["all portals involved are pure-code portals over in-memory stores"])

CLASSES = ["BasicPortal", "LoggingPortal", "DataPortal", "OrdinaryCodePortal", "SafeCodePortal", "AutonomousCodePortal",
           "PureCodePortal", "SwarmingPortal", "DefaultLocalPortal"]


class Holder:
    def __init__(self, p):
        self.p = p


WAYS = dict(copy=copy.copy, deepcopy=copy.deepcopy, list=lambda p: pickle.dumps([p]), attr=lambda p: pickle.dumps(Holder(p)),
            deeplist=lambda p: copy.deepcopy({"k": [p]}), **{f"p{n}": (lambda n: lambda p: pickle.dumps(p, protocol=n))(n)
                                                           for n in range(6)})


def portal_case(case):
    name, condition = case
    with clean(), quiet():
        cls = getattr(pth, name)
        p = cls() if name == "DefaultLocalPortal" else (
            cls("/mem/x", n_background_workers=0) if name == "SwarmingPortal" else cls("/mem/x"))
        if condition == "entered":
            p.__enter__()
        elif condition == "used" and hasattr(p, "value_store"):
            with p:
                pth.ValueAddr([1])
        for way, f in WAYS.items():
            try:
                r = f(p)
            except Exception:
                continue
            expect(False, "portal-serialised", f"{name} ({condition}) by {way}: {str(r)[:80]}")
        if hasattr(p, "value_store"):
            with p:
                try:
                    pth.ValueAddr([p])
                    ok = True
                except Exception:
                    ok = False
                expect(not ok, "portal-serialised", f"{name} ({condition}) stored as a value")
        if condition == "entered":
            p.__exit__(None, None, None)
        return dict(states=1, transitions=len(WAYS), sigs=[h(case)])


# ------------------------------------------------------------------------------ portal-aware objects

N = 3


class Mine(pth.PortalAwareClass):
    def __init__(self, v):
        super().__init__()
        self.v = v

    def __getstate__(self):
        return dict(v=self.v)

    def __setstate__(self, state):
        self.v = state["v"]
        self._portal = None
        self.capture_portal()


PRE = dict(helper="def helper(x):\n    return x * 2\n", guard="def guard(x):\n    assert x < 100\n")
FSRC = "def f(x):\n    return helper(x=x) + 1\n"


def pure_f():
    pth.autonomous()(PRE["helper"])
    g = pth.strictly_autonomous()(PRE["guard"])
    return pth.pure(guards=[g])(FSRC)


def build(kind):
    if kind == "value":
        return pth.ValueAddr([1, "two"])
    if kind == "auto":
        return pth.autonomous()("def f(x):\n    if x > 50:\n        return f(x=x - 1)\n    return x * 2 + 1\n")
    if kind == "strict":
        return pth.strictly_autonomous()("def f(x):\n    return x + 1\n")
    if kind == "pure":
        return pure_f()
    if kind == "result":
        return pure_f().run(x=3)
    if kind == "pending":
        return pure_f().get_address(x=4)
    if kind == "signature":
        return pure_f().get_address(x=3).get_ValueAddr().get()
    if kind == "fnaddr":
        return pth.ValueAddr(pure_f())
    if kind == "mine":
        return Mine(5)
    return {"k": [pth.ValueAddr("v"), pure_f()], "m": Mine(6)}


KINDS = ["value", "auto", "strict", "pure", "result", "pending", "signature", "fnaddr", "mine", "mix"]


def parts(kind, o):
    """The portal-aware objects inside."""
    if kind == "signature":
        return [o, o.fn_addr, o.args_addr]
    if kind == "mix":
        return [o["k"][0], o["k"][1], o["m"]]
    return [o]


def use(kind, o):
    """What a user gets out of the object."""
    if kind == "value":
        return o.get()
    if kind == "auto":
        return o(x=3)
    if kind == "strict":
        return o(x=3)
    if kind == "pure":
        return o(x=3)
    if kind == "result":
        return o.get(), o.ready, dict(o.kwargs), o.fn_name
    if kind == "pending":
        return o.execute(), dict(o.kwargs)
    if kind == "signature":
        return o.fn_name, o.island_name, o.fn_addr.get()(x=3), dict(o.args_addr.get().unpack())
    if kind == "fnaddr":
        return o.get()(x=3)
    if kind == "mine":
        return o.v
    return o["k"][0].get(), o["k"][1](x=3), o["m"].v


WANT = dict(value=[1, "two"], auto=7, strict=4, pure=7, result=(7, True, {"x": 3}, "f"), pending=(9, {"x": 4}),
            signature=("f", "Samos", 7, {"x": 3}), fnaddr=7, mine=5, mix=("v", 7, 6))
COMPUTES = {"pure", "pending", "signature", "fnaddr", "mix"}     # end with a result in the object's portal


def make_portals(order):
    ps = {}
    for i in order:
        ps[i] = pth.PureCodePortal(f"/mem/p{i}", p_consistency_checks=0)
    return ps


class stack:
    def __init__(self, ps, seq):
        self.ps, self.seq = ps, seq

    def __enter__(self):
        for i in self.seq:
            self.ps[i].__enter__()

    def __exit__(self, *a):
        for i in reversed(self.seq):
            self.ps[i].__exit__(None, None, None)


def writes(disk):
    return {i: {p.split("/")[3] for p in disk.items if p.startswith(f"/mem/p{i}/")} for i in range(N)}


def results_in(disk, i):
    return [p for p in disk.items if p.startswith(f"/mem/p{i}/execution_results/")]


def dump(kind, origin, order, around):
    ps = make_portals(order)
    with stack(ps, around), ps[origin]:
        o = build(kind)
        for x in parts(kind, o):
            expect(x.portal is ps[origin], "initial-portal", f"{kind} {origin}")
        data = pickle.dumps(o)
    outside = pickle.dumps(o)
    expect(data == outside, "pickle-depends-on-the-moment", f"{kind}")
    expect(b"/mem/" not in data, "pickle-carries-the-portal", f"{kind}: {data[:300]}")
    return ps, o, data


def load(ps, disk, kind, data, seq, useq, what):
    with stack(ps, seq):
        o = pickle.loads(data)
        for x in parts(kind, o):
            if seq:
                expect(x.portal is ps[seq[-1]], "rebound-to",
                       lambda: f"{what}: {type(x).__name__} belongs to {x.portal and x.portal.base_dir}")
        again = pickle.dumps(o)
        expect(again == data, "pickle-changes-on-the-way", f"{what}")
    before = {i: len(results_in(disk, i)) for i in range(N)}
    with stack(ps, useq):
        owner = (seq or useq)[-1]
        got = use(kind, o)
        expect(repr(got) == repr(WANT[kind]) and got == WANT[kind], "works-there", lambda: f"{what}: {got!r}")
        for x in parts(kind, o):
            expect(x.portal is ps[owner], "portal-changes-on-use",
                   lambda: f"{what}: {type(x).__name__} belongs to {x.portal.base_dir}")
    if kind in COMPUTES or kind == "result":
        expect(results_in(disk, owner), "result-not-in-own-portal", f"{what}")
        for i in range(N):
            if i != owner:
                expect(len(results_in(disk, i)) == before[i], "result-in-another-portal", f"{what}: portal {i}")
    expect(BasicPortal.get_most_recently_entered_portal() is None, "portal-left-active", what)
    return o


def second_session(disk, order, kind, data, seq, useq, what):
    with clean(disk=disk, salt="2"), quiet():
        ps = make_portals(order)
        load(ps, disk, kind, data, seq, useq, what)


def move_case(case):
    kind, origin, session, order, jobs = case
    n = 0
    for around, seq, useq in jobs:
        n += 1
        what = f"{kind} made under portal {origin} in {around}, {session} session with portals {order}, loaded under {seq}, used under {useq}"
        with clean() as disk, quiet():
            ps, o, data = dump(kind, origin, range(N) if session != "same" else order, around)
            if session == "same":
                load(ps, disk, kind, data, seq, useq, what)
                for x in parts(kind, o):
                    expect(x.portal is ps[origin], "original-moved", what)
        if session == "new":
            second_session(disk, order, kind, data, seq, useq, what)
        elif session == "fork":
            in_fork(second_session, disk, order, kind, data, seq, useq, what)
    return dict(states=n, transitions=2 * n, sigs=[h(case)])


def chain_case(case):
    """Moved twice."""
    kind, a, b, c = case
    with clean() as disk, quiet():
        ps, o, data = dump(kind, a, range(N), [])
        o = load(ps, disk, kind, data, [b], [a], f"{case}")
        data = pickle.dumps(o)
        load(ps, disk, kind, data, [a, c], [b, a], f"{case}")
    second_session(disk, (b, a, c) if len({a, b, c}) == 3 else (0, 1, 2), kind, data, [c, b], [b], f"{case} then a new session")
    return dict(states=3, transitions=3, sigs=[h(case)])


def same_bytes_case(case):
    """Objects made under different portals have equal pickles."""
    kind = case[0]
    seen = set()
    for i in range(N):
        with clean(), quiet():
            seen.add(dump(kind, i, range(N), [])[2])
    expect(len(seen) == 1, "pickle-depends-on-the-portal", f"{kind}")
    return dict(states=N, transitions=N, sigs=[h(case)])


def refused_case(case):
    """Ordinary functions cannot travel."""
    with clean(), quiet():
        p = pth.PureCodePortal("/mem/p0")
        with p:
            for f in (pth.ordinary()("def f(x):\n    return x\n"),):
                for way in (pickle.dumps, copy.deepcopy, copy.copy):
                    try:
                        way(f)
                        ok = True
                    except Exception:
                        ok = False
                    expect(not ok, "ordinary-function-serialised", f"{way}")
    return dict(states=1, transitions=3, sigs=["refused"])


def run(ctx):
    q = ctx.quick
    ctx.run_cases(portal_case, [[c, k] for c in CLASSES for k in ("fresh", "entered", "used")], batch=4)
    ctx.run_cases(same_bytes_case, [[k] for k in KINDS])
    ctx.run_cases(refused_case, [["refused"]])
    stacks = [list(s) for n in range(1, 4 if q else 5) for s in itertools.product(range(N), repeat=n)]
    cases = []
    for kind in KINDS:
        for origin in range(N):
            for session in ("same", "new"):
                for order in ((0, 1, 2), (2, 1, 0)) if not q else ((0, 1, 2),):
                    jobs = []
                    for s in stacks:
                        uses = [[s[-1]], [(s[-1] + 1) % N, (s[-1] + 2) % N]]
                        if True:
                            uses.append([])
                        jobs += [([], s, u) for u in uses]
                        if not q or len(s) == 1:
                            jobs.append(([(origin + 1) % N], s, uses[0]))
                    for a in range(0, len(jobs), 8):
                        cases.append([kind, origin, session, list(order), jobs[a:a + 8]])
    ctx.run_cases(move_case, cases)
    ctx.run_cases(move_case, [[k, 0, "fork", [1, 0, 2], [[[], [1], [2]], [[], [2, 0], [1]]]] for k in KINDS])
    ctx.run_cases(chain_case, [[k, a, b, c] for k in KINDS for a, b, c in itertools.product(range(N), repeat=3)
                               if not q or a == 0], batch=4)


def replay(case):
    for f in (portal_case, move_case, chain_case, same_bytes_case, refused_case):
        try:
            print(f.__name__, f(case))
        except (TypeError, ValueError, AttributeError, IndexError) as e:
            print(f.__name__, "n/a", e)
