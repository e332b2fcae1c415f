"""Every history of failed, killed and nested attempts at chosen times; candidacy asked around every threshold."""
import contextlib
import itertools

import pythagoras as pth
from pythagoras import PureCodePortal  # noqa: F401

import mcprobe
from mc.boot import env
from mc.world import attempt, clean, expect, h, quiet

META = dict(level="model_checking",
            rule="one state = (number of attempts of each call, times of the latest, results present, session); after every "
                 "step needs_execution of every call is asked 2 ms, 1 s and much before and after each threshold "
                 "10*2^k s, k=0..7",
            bounds="all 3^7 sequences of gaps (quick: 2^7) between seven failed attempts; mixtures of failing, dying, "
                   "nested, succeeding attempts, of other arguments, in another portal, and restarts to depth 4 (quick) / 6",
            assumptions=["the clock of the storage and of the sessions are the same virtual clock"])

F = ("def f(x):\n    import mcprobe\n    if mcprobe.go == 'die':\n        raise mcprobe.Dead()\n    if mcprobe.go:\n"
     "        raise ValueError('no')\n    return ('f', x)\n")
K = "def k(x):\n    return ('k', f(x=x))\n"


class Dead(BaseException):
    pass


mcprobe.Dead = Dead
T0 = 1_700_000_000.0


class Session:
    def __init__(self):
        self.st = contextlib.ExitStack()
        self.disk, self.n = None, 0

    def open(self, two=False):
        now = env.now if self.disk is not None else T0
        self.st.close()
        self.st = contextlib.ExitStack()
        self.disk = self.st.enter_context(clean(self.disk, salt=f"b{self.n}"))
        self.n += 1
        env.now = now
        self.sync()
        self.p = pth.PureCodePortal("/mem/p")
        with self.p:
            self.fns = dict(f=pth.pure()(F), k=pth.pure()(K))
        self.q = None
        if two:
            self.q = pth.PureCodePortal("/mem/q")
            with self.q:
                self.fq = pth.pure()(F)

    def sync(self):
        self.disk.clock = env.now
        self.disk.seq = 0

    def advance(self, dt):
        env.now += dt
        self.sync()

    def close(self):
        self.st.close()


def check(s, hist, attempts, ready, fns=("f", "k"), xs=("a", "b")):
    """attempts: {(fn, x): [times]}; asks at many moments, then puts the clock back."""
    now = env.now
    for fn in fns:
        for x in xs:
            a = s.fns[fn].get_address(x=x)
            at = attempts.get((fn, x), [])
            n = len(at)
            moments = {now}
            if at:
                last = max(at)
                for k in range(8):
                    moments |= {last + 10 * 2 ** k + d for d in (-1, -0.002, 0.002, 1)}
                moments |= {last + 5000, last + 10 ** 6, last + 0.5}
            for t in sorted(moments):
                env.now = t
                want = (fn, x) not in ready and (n == 0 or (n <= 5 and t - max(at) > 10 * 2 ** n))
                got = a.needs_execution
                expect(bool(got) == want, "retried-too-early" if got else "not-retried",
                       lambda: f"{hist}: {fn}({x}) after {n} attempts, {t - (max(at) if at else t):.3f} s after the latest: {got}")
            expect(len(a.execution_attempts) == n, "attempts-miscounted", lambda: f"{hist}: {fn}({x})")
    env.now = now


def gaps(case):
    s = Session()
    with quiet():
        try:
            s.open()
            at = {}
            for i, g in enumerate(case):
                s.advance(g)
                mcprobe.go = True
                r = attempt(s.fns["f"], x="a")
                expect(r[:2] == ("exc", "ValueError"), "call-fails", lambda: f"{case}: {r}")
                at.setdefault(("f", "a"), []).append(env.now)
                check(s, case[:i + 1], at, (), ("f",), ("a",))
            mcprobe.go = False
            s.advance(1)
            expect(s.fns["f"](x="a") == ("f", "a"), "call-fails", lambda: f"{case}: after giving up, a direct call")
            env.now += 10 ** 7
            expect(not s.fns["f"].get_address(x="a").needs_execution, "retried-although-ready", lambda: f"{case}")
        finally:
            mcprobe.go = False
            s.close()
    return dict(states=len(case), transitions=len(case), evaluations=len(case) * 36, sigs=(str(case),))


def machine(hist):
    s = Session()
    at, ready, two = {}, set(), False
    qready, qat = set(), 0
    with quiet():
        try:
            s.open()
            for step in hist:
                s.advance(7.0)
                mcprobe.go = False
                if step[0] in ("restart", "both"):
                    two = step[0] == "both"
                    s.open(two)
                elif step[0] == "wait":
                    s.advance(step[1])
                elif step[0] == "ask":
                    # asking, requesting and waiting are no attempts
                    for fn in s.fns.values():
                        fn.swarm(x="a")
                        fn.get_address(x="a").execution_records
                    with s.p:
                        attempt(lambda: s.fns["f"].get_address(x="b").get(timeout=0))
                elif step[0] == "other":
                    key = "f", "a"
                    known = key in ready or key in qready
                    mcprobe.go = step[1] == "fail"
                    r = attempt(s.fq, x="a")
                    mcprobe.go = False
                    expect((r[0] == "ok") == (known or step[1] != "fail"), "wrong-outcome", lambda: f"{hist}: {r}")
                    if r[0] == "ok":
                        qready.add(key)
                else:
                    _, fn, x, how = step
                    keys = [(fn, x)] if fn == "f" else [("k", x), ("f", x)]
                    mcprobe.go = {"fail": True, "die": "die", "ok": False}[how]
                    here = set(ready) | (qready if two else set())
                    try:
                        r = attempt(s.fns[fn], x=x)
                    except Dead:
                        r = ("dead",)
                    mcprobe.go = False
                    for k in keys:
                        if k in here:
                            ready.add(k)
                            here.add(k)
                            continue
                        at.setdefault(k, []).append(env.now)
                    want = "ok" if keys[-1] in here or keys[0] in here or how == "ok" else {"fail": "exc", "die": "dead"}[how]
                    if keys[0] in here and len(keys) > 1 and at.get(keys[1]) and at[keys[1]][-1] == env.now \
                            and keys[1] not in here:
                        at[keys[1]].pop()
                    expect(r[0] == want, "wrong-outcome", lambda: f"{hist}: {r}, expected {want}")
                    if want == "ok":
                        if keys[0] not in here or len(keys) == 1:
                            ready |= set(keys)
                vis = ready | (qready if two else set())
                check(s, hist, at, vis)
                ready |= {k for k in vis}      # asking transfers a result found elsewhere
        finally:
            mcprobe.go = False
            s.close()
    ops = [("try", "f", "a", "fail"), ("try", "f", "a", "die"), ("try", "k", "a", "fail"), ("try", "f", "b", "fail"),
           ("try", "f", "a", "ok"), ("try", "k", "b", "ok"), ("restart",), ("both",), ("wait", 400.0), ("ask",)]
    if two:
        ops += [("other", "fail"), ("other", "ok")]
    return h((sorted((k, len(v), tuple(int(env.now - t) > 300 for t in v[-2:])) for k, v in at.items()), sorted(ready),
              sorted(qready), two)), ops


def run(ctx):
    q = ctx.quick
    ctx.run_cases(gaps, list(itertools.product([0.5, 1000.0] if q else [0.0, 15.0, 1000.0], repeat=7)), batch=4)
    ctx.bfs(machine, 4 if q else 6, batch=8)


def replay(case):
    if isinstance(case[0], (int, float)):
        print(gaps(tuple(case)))
    else:
        print(machine(tuple(tuple(o) for o in case)))
