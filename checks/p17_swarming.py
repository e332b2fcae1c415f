"""All schedules and kills, up to a bound, of sessions, their workers and the processes that execute requests."""
import atexit
import time

import pythagoras as pth
from pythagoras import BasicPortal

from mc.core import Problem
from mc.procs import Execution, Scenario, explore
from mc.world import clean, quiet

META = dict(level="model_checking",
            rule="one state = one distinct outcome of a complete schedule of the real session, worker and executing processes, "
                 "from the start of the session to the end of its last worker",
            bounds="15 scenarios (thorough: 20): 1-2 workers, 1-3 requests (nested, failing, guarded, of two versions of one function, "
                   "listed), requester with or without workers, caller racing the workers, two sessions; every schedule and "
                   "every random choice of a request up to 1 deviation (thorough: 2 in two scenarios), and a kill of the executing process or of "
                   "the worker at every storage step",
            assumptions=["a storage step is atomic", "processes are started by fork with the pickled arguments spawn would pass",
                         "random delays take the middle of their range, sleeping processes wake in order unless the schedule "
                         "says otherwise"])

SRC = dict(
    f="def f(x):\n    print('f runs')\n    return {'f': [x, 'é']}\n",
    k="def k(x):\n    return ['k', f(x=x)]\n",
    b="def b(x):\n    raise ValueError('b always fails')\n",
    g="def g(x):\n    return ['g', x]\n",
    n="def n(x):\n    return ['n', x]\n")
SRC2 = dict(SRC, f=SRC["f"].replace("'é'", "'other'"))

SRC3 = dict(SRC, g=SRC["g"].replace("'g'", "'old'"))


def val(fn, x, src=SRC):
    e = "é" if src is SRC else "other"
    return {"f": {"f": [x, e]}, "k": ["k", {"f": [x, e]}], "g": ["g", x], "n": ["n", x]}[fn]


def define(portal, names, src=SRC):
    fns = {}
    with portal:
        for n in sorted(names):
            if n in "gn":
                test = "return x" if n == "g" and src is not SRC3 else "raise RuntimeError('not here')"
                ok = pth.strictly_autonomous()(f"def ok_{n}(x):\n    {test}\n")
                fns[n] = pth.pure(guards=[ok])(src[n])
            else:
                fns[n] = pth.pure()(src[n])
    return fns


class Session(Scenario):
    horizon = 12000

    def __init__(self, name, workers, plan, kill=None, others=(), early=True, before=(), old=SRC2,
                 sessions=1):
        """plan of the session with workers; others: plans of further processes without workers."""
        self.name, self.workers, self.plan, self.others = name, workers, plan, list(others)
        self.kill_level, self.early_wake, self.before = kill, early, before
        self.old, self.sessions = old, sessions
        self.preempt = kill is None
        self.killed = 0

    def names(self):
        out = {fn for p in [self.plan, *self.others, self.before] for _, fn, _ in p if fn in SRC}
        return out | ({"f"} if "k" in out else set())

    def setup(self, ex):
        ex.kills = 0
        if self.before:
            # a session that is over, and left requests
            with clean(ex.disk, salt="before"), quiet():
                p = pth.SwarmingPortal("/mem/p", n_background_workers=0)
                perform(self.before, p, define(p, self.names(), self.old), self.old)
                BasicPortal._clear_all()

    def actors(self):
        def session():
            atexit._clear()
            p = pth.SwarmingPortal("/mem/p", n_background_workers=self.workers)
            out = perform(self.plan, p, define(p, self.names()), SRC)
            atexit._run_exitfuncs()
            return out

        def other(plan):
            def body():
                atexit._clear()
                p = pth.PureCodePortal("/mem/p")
                return perform(plan, p, define(p, self.names()), SRC)
            return body
        return [("s" if not i else f"t{i}", session) for i in range(self.sessions)] + [(f"o{i}", other(plan)) for i, plan in enumerate(self.others)]

    def can_kill(self, ex, actor):
        if self.kill_level is None or ex.kills or actor.name.count(".") != self.kill_level:
            return False
        return actor.pending is not None and actor.pending[0] == "op"

    def draw(self, ex, actor, kind, args):
        if kind == "uniform":
            return (args[0] + args[1]) / 2 if args != (0, 1) else 0.75
        if kind == "choice" and args[0] > 1:
            return ex.choose("draw", [0] + [1] * (args[0] - 1))
        if kind == "random":
            return 0.25
        return None

    def verdict(self, ex):
        for a in ex.actors:
            if a.state == "killed":
                continue
            if a.result[0] != "ok" and not (a.name.count(".") == 2 and self.may_fail(a)):
                raise Problem("process-died", f"{a.name}: {a.result}")
        n_kills = sum(a.state == "killed" for a in ex.actors)
        out = []
        for a, plan in zip(ex.actors, [self.plan] * self.sessions + self.others):
            for (kind, fn, x), got in zip(plan, a.result[1]):
                if kind in ("swarm", "swarm_list", "sleep"):
                    want = ("ok", True)
                elif fn == "b":
                    want = ("exc", "ValueError")
                else:
                    want = ("ok", val(fn, x))
                if got != want:
                    raise Problem("wrong-result" if got[0] == "ok" else "failed", f"{a.name}: {kind} {fn}({x}): {got}")
            out.append(a.result[1])
        records = {}
        for src, plan in ((SRC, [*self.plan, *sum(map(list, self.others), [])]), (self.old, self.before)):
            with clean(ex.disk, salt="after"), quiet():
                q = pth.PureCodePortal("/mem/p")
                fns = define(q, self.names(), src)
                for _, fn, xs in plan:
                    if fn not in SRC:
                        continue
                    for x in xs if isinstance(xs, tuple) else (xs,):
                        a = fns[fn].get_address(x=x)
                        where = f"{fn}({x}){'' if src is SRC else ' (old)'}"
                        if fn in "bn" or src is SRC3:
                            if a.ready:
                                raise Problem("result-of-what-cannot-run", where)
                            if not a.execution_requested:
                                raise Problem("request-lost", where)
                            if fn == "b" and not a.execution_records:
                                raise Problem("never-tried", where)
                            if fn in "gn" and a.execution_records:
                                raise Problem("guard-ignored", where)
                        else:
                            if not a.ready:
                                raise Problem("never-executed", where)
                            if a.get() != val(fn, x, src):
                                raise Problem("wrong-result", f"{where}: {a.get()!r}")
                            if a.execution_requested:
                                raise Problem("request-left", where)
                            recs = a.execution_records
                            good = [r for r in recs if any(k[-1] == r.session_id for k in a.execution_results)]
                            if len(recs) - len(good) > n_kills:
                                raise Problem("runs-without-result", f"{where}: {len(recs)} runs, {len(good)} results")
                            for r in good:
                                if r.result != val(fn, x, src):
                                    raise Problem("record-wrong", where)
                        records[where] = len(a.execution_records)
                known_old = len(self.before) if self.old is SRC3 else 0
                left = [tuple(k) for k in pth_requests(q)]
                known = sum(1 for fn in "bn" for _, g, xs in self.plan if g == fn for _ in (xs if isinstance(xs, tuple) else (xs,)))
                known += known_old
                if len(left) != known:
                    raise Problem("request-left" if len(left) > known else "request-lost", f"{left}")
        if any("/compute_nodes/" in p and "runtime_id" in p for p in ex.disk.items):
            raise Problem("identity-left", "")
        return sorted(records.items()), out, n_kills

    def may_fail(self, a):
        return any(fn == "b" for _, fn, _ in self.plan) and a.result[0] == "exc" and a.result[1] == "ValueError"


def pth_requests(q):
    return list(q.execution_requests)


def perform(plan, portal, fns, src):
    out = []
    for kind, fn, x in plan:
        try:
            r = True
            if kind == "call":
                r = fns[fn](x=x)
            elif kind == "swarm":
                fns[fn].swarm(x=x)
            elif kind == "swarm_list":
                fns[fn].swarm_list([dict(x=y) for y in x])
            elif kind == "get":
                r = fns[fn].get_address(x=x).get()
            elif kind == "sleep":
                time.sleep(x)
            out.append(("ok", r))
        except ValueError:
            out.append(("exc", "ValueError"))
        except Exception as e:
            out.append(("exc", type(e).__name__, str(e)[:300]))
    return out


def scenarios(quick):
    """(scenario, bound)"""
    S = Session
    sw, get, call = ("swarm", "f", 1), ("get", "f", 1), ("call", "f", 1)
    t = not quick
    yield S("one", 1, [sw, get]), 1
    yield S("nested", 1, [("swarm", "k", 1), ("get", "k", 1)]), 1
    yield S("racing-caller", 1, [sw, ("sleep", None, 0.9), call]), 1
    yield S("two-workers", 2, [sw, get], early=t), 1
    yield S("two-requests", 1, [("swarm_list", "f", (1, 2)), ("get", "f", 2), get]), 1
    yield S("other-requester", 1, [("sleep", None, 5), get], others=[[sw, get]], early=t), 1
    yield S("two-sessions", 1, [sw, get], sessions=2, early=t), 1
    yield S("failing", 1, [("swarm", "b", 1), sw, get, ("sleep", None, 40)], early=t), 1
    yield S("guards", 1, [("swarm", "n", 1), ("swarm", "g", 1), ("get", "g", 1)]), 1
    yield S("versions", 1, [sw, get, ("sleep", None, 30)], before=[sw], early=t), 1
    for x in (1, 2, 3) if t else (1, 2):
        yield S(f"stuck-version{x}", 1, [("swarm", "g", x), ("get", "g", x)], before=[("swarm", "g", x)], old=SRC3, early=False), 1
    yield S("left-request", 1, [("sleep", None, 10), get], others=[[sw]], early=t), 1
    yield S("kill-executor", 1, [sw, get], kill=2), 1
    yield S("kill-executor-nested", 2, [("swarm", "k", 1), ("get", "k", 1)], kill=2), 1
    yield S("kill-worker", 2, [sw, get], kill=1), 1
    if t:
        yield S("one-deep", 1, [sw, get]), 2
        yield S("racing-deep", 1, [sw, ("sleep", None, 0.9), call]), 2
        yield S("kill-executor-failing", 2, [("swarm", "b", 1), sw, get], kill=2), 1
        yield S("kill-worker-nested", 2, [("swarm", "k", 1), ("get", "k", 1)], kill=1), 1


def run(ctx):
    for sc, bound in scenarios(ctx.quick):
        if ctx.stop:
            break
        explore(ctx, sc, bound)


def replay(case):
    for sc, *_ in scenarios(False):
        if sc.name == case["scenario"]:
            class All:
                def __contains__(self, p):
                    return True
            ex = Execution(sc, case["prefix"], dict(paths=All(), written_by_other=lambda a: [""]))
            try:
                ex.run()
                print(ex.outcome)
            finally:
                print(ex.describe())
