"""Stateless exploration of several real processes that share one store.

Every actor is a forked process running the real code. Each storage step, sleep, spawn and join is a
request to the explorer, which owns the store and the clock and decides who moves next; between two
requests an actor runs alone and touches nothing shared. A schedule is the list of choices taken at
the branch points; replaying a prefix that does not fit is a hard error.

Deviations (they cost one unit of the bound each): switching away from an actor that could go on,
waking a sleeper before the others are done, killing an actor, an unusual random draw.
A switch when the running actor is blocked, asleep or finished is free and always explored.
Preemption is considered only before steps on a path that another actor also touches, with at least
one of the two writing (steps on other paths commute); that set is found dynamically, to a fixpoint.
"""
import os
import pickle
import signal
import socket
import struct
import sys
import traceback

from . import boot
from .boot import env
from .core import Crashed, Problem, describe_exc, h, pool  # noqa: F401

WRITES = {"put", "delete"}


class _Chan:
    def __init__(self, sock):
        self.s = sock

    def send(self, obj):
        d = pickle.dumps(obj)
        self.s.sendall(struct.pack("!I", len(d)) + d)

    def recv(self):
        def exact(n):
            out = b""
            while len(out) < n:
                b = self.s.recv(n - len(out))
                if not b:
                    raise EOFError
                out += b
            return out
        return pickle.loads(exact(struct.unpack("!I", exact(4))[0]))

    def call(self, *req):
        self.send(req)
        return self.recv()


class RemoteDisk:
    def __init__(self, chan):
        self.c = chan

    def _op(self, *a):
        tag, v = self.c.call("op", *a)
        if tag == "exc":
            raise v
        return v

    def exists(self, p):
        return self._op("exists", p)

    def read(self, p):
        return self._op("read", p)

    def put(self, p, data, exclusive):
        return self._op("put", p, bytes(data), exclusive)

    def delete(self, p):
        return self._op("delete", p)

    def list(self, prefix, suffix):
        return self._op("list", prefix, suffix)

    def mtime(self, p):
        return self._op("mtime", p)

    def makedirs(self, p):
        pass


class _ActorEnv(boot.Env):
    chan = None

    def time(self):
        return self.chan.call("time")

    def sleep(self, s):
        if s < 0:
            raise ValueError("sleep length must be non-negative")
        self.chan.call("sleep", float(s))


def _child(sock, name, target):
    """Body of an actor process."""
    from persidict import backend
    chan = _Chan(sock)
    env.reset(name)
    env.__class__ = _ActorEnv
    env.chan = chan

    def on_spawn(process):
        # the spawn start method: everything the new process gets goes through pickle
        data = pickle.dumps((process._target, process._args, process._kwargs))
        aid = chan.call("spawn", data)

        def wait(timeout):
            return chan.call("join", aid, timeout)
        return wait
    env.on_spawn = on_spawn

    def chooser(kind, a):
        return chan.call("choose", kind, a)
    env.chooser = chooser
    env.new_seed_calls = 0
    backend.use(RemoteDisk(chan))
    devnull = open(os.devnull, "w")
    sys.stdout = sys.stderr = devnull
    try:
        import random
        random.seed(name)
        boot.DetRandom.reseed(name)
        try:
            out = ("ok", target())
        except Problem as e:
            out = ("problem", e)
        except BaseException as e:
            out = ("exc", type(e).__name__, describe_exc(e), traceback.format_exc()[-1500:])
        chan.send(("done", out))
    except (BrokenPipeError, EOFError):
        pass
    finally:
        os._exit(0)


class Actor:
    def __init__(self, aid, name):
        self.aid, self.name = aid, name
        self.pending = None      # the request it is waiting on
        self.state = "run"       # run | sleep | join | done | killed
        self.wake = None
        self.wake_by = None
        self.result = None
        self.nsteps = 0


class Diverged(Exception):
    pass


class Execution:
    """One complete run under a given choice prefix."""

    def __init__(self, scenario, prefix, conflicts):
        self.sc, self.prefix, self.conflicts = scenario, list(prefix), conflicts
        self.disk = scenario.disk()
        self.now = 1_700_000_000.0
        self.actors = []
        self.trace = []          # (actor, op, path)
        self.points = []         # (kind, n_alternatives, cost, label)
        self.access = {}         # path -> {actor: wrote?}
        self.listed = set()      # (actor, prefix, suffix)
        self.choices = []
        self.dev = 0
        self.killed = None
        self.current = None
        self.log = []

    # -- choice points
    def choose(self, label, costs):
        """Pick an alternative; 0 is the default. costs[i] is its price."""
        i = len(self.points)
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= len(costs):
                raise Diverged(f"prefix {self.prefix} does not fit at point {i} ({label})")
        else:
            c = 0
        self.points.append((label, list(costs)))
        self.choices.append(c)
        self.dev += costs[c]
        return c

    # -- actors
    def start(self, name, target):
        a = Actor(len(self.actors), name)
        self.actors.append(a)
        ours, theirs = socket.socketpair()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                ours.close()
                for o in self.actors[:-1]:
                    if o.chan is not None:
                        o.chan.s.close()
                _child(theirs, name, target)
            finally:
                os._exit(1)
        theirs.close()
        ours.settimeout(90)
        a.pid, a.chan = pid, _Chan(ours)
        self.settle(a)
        return a

    def settle(self, a):
        """Read a's requests until it needs a scheduling decision."""
        while True:
            try:
                req = a.chan.recv()
            except (EOFError, ConnectionResetError):
                a.state = "done"
                a.result = ("exc", "ProcessDied", "the process died", "")
                self.reap(a)
                return
            except socket.timeout:
                raise Problem("actor-hangs", f"{a.name} computes for more than 90 s without a storage step")
            kind = req[0]
            if kind == "time":
                a.chan.send(self.now)
            elif kind == "choose":
                a.chan.send(self.sc.draw(self, a, req[1], req[2]))
            elif kind == "spawn":
                a.pending = req
                a.state = "run"
                return
            elif kind == "op":
                a.pending = req
                a.state = "run"
                return
            elif kind == "sleep":
                a.pending = req
                a.state = "sleep"
                a.wake = self.now + req[1]
                return
            elif kind == "join":
                b = self.actors[req[1]]
                if b.state in ("done", "killed"):
                    a.chan.send(-9 if b.state == "killed" else 0 if b.result[0] == "ok" else 1)
                    continue
                if req[2] == 0:
                    a.chan.send(None)
                    continue
                a.pending = req
                a.state = "join"
                return
            elif kind == "done":
                a.state = "done"
                a.result = req[1]
                self.reap(a)
                return
            else:
                raise AssertionError(req)

    def reap(self, a):
        if a.chan is not None:
            a.chan.s.close()
            a.chan = None
        try:
            os.kill(a.pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(a.pid, 0)
        for b in self.actors:
            if b.state == "join" and self.actors[b.pending[1]] is a:
                b.chan.send(-9 if a.state == "killed" else 0 if a.result[0] == "ok" else 1)
                b.pending = None
                self.settle(b)

    def kill(self, a):
        a.state = "killed"
        a.result = ("killed",)
        self.log.append(f"kill {a.name}")
        # a killed process takes down the helper processes it is waiting for? no: they go on
        self.reap(a)

    def perform(self, a):
        """Carry out a's pending request and let it run to the next one."""
        req = a.pending
        a.pending = None
        a.nsteps += 1
        if req[0] == "op":
            op, path = req[1], req[2]
            self.trace.append((a.aid, op, path))
            if op == "list":
                self.listed.add((a.aid, path, req[3]))
            else:
                d = self.access.setdefault(path, {})
                d[a.aid] = d.get(a.aid, False) or op in WRITES
            self.disk.clock = self.now
            try:
                fault = self.sc.fault(self, a, op, path)
                if fault is not None:
                    raise fault
                v = ("ok", getattr(self.disk, op)(*req[2:]))
            except OSError as e:
                v = ("exc", e)
            a.chan.send(v)
        elif req[0] == "spawn":
            data = req[1]

            def target():
                t, args, kwargs = pickle.loads(data)
                return t(*args, **kwargs)
            b = self.start(f"{a.name}.{len(self.actors)}", target)
            a.chan.send(b.aid)
        elif req[0] == "sleep":
            self.now = max(self.now, a.wake)
            a.state = "run"
            a.chan.send(None)
        self.settle(a)

    def conflicting(self, a):
        req = a.pending
        if req is None or req[0] != "op":
            return False
        if req[1] == "list":
            return any(p.startswith(req[2]) and p.endswith(req[3]) for p in self.conflicts["written_by_other"](a.aid))
        return req[2] in self.conflicts["paths"]

    def run(self):
        try:
            self.sc.setup(self)
            for name, target in self.sc.actors():
                self.start(name, target)
            self._loop()
            self.outcome = self.sc.verdict(self)
        finally:
            for a in self.actors:
                if a.chan is not None:
                    a.state = "killed"
                    a.result = ("killed",)
                    try:
                        a.chan.s.close()
                    except OSError:
                        pass
                    a.chan = None
                    try:
                        os.kill(a.pid, signal.SIGKILL)
                    except OSError:
                        pass
                    os.waitpid(a.pid, 0)
        return self

    def _loop(self):
        steps = 0
        while True:
            self.sc.on_step(self)
            runnable = [a for a in self.actors if a.state == "run"]
            sleepers = sorted((a for a in self.actors if a.state == "sleep"), key=lambda a: (a.wake, a.aid))
            if not runnable and not sleepers:
                if any(a.state == "join" for a in self.actors):
                    raise Problem("deadlock", f"every live process waits for another one: {self.where()}")
                return
            steps += 1
            if steps > self.sc.horizon:
                raise Problem("no-progress", f"still running after {steps} steps: {self.where()}")
            cur = self.current
            if cur is not None and cur.state == "run":
                order = [cur]
                costs = [0]
                if self.sc.preempt and self.conflicting(cur):
                    for a in runnable:
                        if a is not cur:
                            order.append(a)
                            costs.append(1)
                    if self.sc.early_wake:
                        for a in sleepers:
                            order.append(a)
                            costs.append(1)
                if self.sc.can_kill(self, cur):
                    order.append(("kill", cur))
                    costs.append(1)
            elif runnable:
                order = list(runnable)
                costs = [0] * len(order)
                if not self.sc.free_switch:
                    costs = [0] + [1] * (len(order) - 1)
                if self.sc.early_wake:
                    order += sleepers
                    costs += [1] * len(sleepers)
            else:
                order = sleepers      # time passes: the first to wake, or (others are slow) another
                costs = [0] + [1 if self.sc.early_wake else 99] * (len(order) - 1)
                order = [o for o, c in zip(order, costs) if c < 99]
                costs = [c for c in costs if c < 99]
            c = self.choose("sched", costs) if len(order) > 1 else 0
            pick = order[c]
            if isinstance(pick, tuple):
                self.kill(pick[1])
                self.current = None
                continue
            self.current = pick
            self.perform(pick)

    def where(self):
        return ", ".join(f"{a.name}:{a.state}:{a.pending[:3] if a.pending else ''}" for a in self.actors)

    def describe(self):
        return dict(choices=self.choices, results=[(a.name, str(a.result)[:300]) for a in self.actors],
                    log=self.log, trace_tail=[f"{a}:{op}:{p}" for a, op, p in self.trace[-60:]])


class Scenario:
    """What is explored. Subclasses override."""
    preempt = True
    early_wake = False
    free_switch = True
    horizon = 4000
    name = "scenario"

    def disk(self):
        from persidict import MemDisk
        return MemDisk()

    def setup(self, ex):
        pass

    def actors(self):
        return []

    def on_step(self, ex):
        pass

    def fault(self, ex, actor, op, path):
        return None

    def can_kill(self, ex, actor):
        return False

    def draw(self, ex, actor, kind, args):
        """Random draws: deterministic defaults (None: the actor's own seeded generator)."""
        return None

    def verdict(self, ex):
        return None


def _conflicts(access_sets, listed):
    paths = set()
    for p, d in access_sets.items():
        if len(d) > 1 and any(d.values()):
            paths.add(p)
    return paths


def explore(ctx, scenario, bound, max_runs=None, tag=""):
    """All schedules of the scenario with at most `bound` deviations. Returns the number of runs."""
    access, listed = {}, set()

    def make_conflicts(paths, acc):
        def written_by_other(aid):
            return [p for p, d in acc.items() if any(w for k, w in d.items() if k != aid)]
        return dict(paths=paths, written_by_other=written_by_other)

    def merge(acc):
        for p, d in acc.items():
            t = access.setdefault(p, {})
            for k, w in d.items():
                t[k] = t.get(k, False) or w

    conf_paths = set()
    total = 0
    capped = False
    rounds = 0
    settled = bound <= 1
    full_bound = bound
    while True:
        rounds += 1
        bound = full_bound if settled else 1    # cheap rounds first, to learn which paths conflict
        conflicts = make_conflicts(conf_paths, dict(access))
        base_access = {p: dict(d) for p, d in access.items()}

        def run_one(item):
            prefix = item
            ex = Execution(scenario, prefix, conflicts)
            try:
                ex.run()
                prob = None
            except Problem as e:
                prob = (e.key, e.msg)
            return dict(problem=prob, points=ex.points, choices=ex.choices, access=ex.access,
                        steps=len(ex.trace), outcome=getattr(ex, "outcome", None),
                        detail=ex.describe() if prob else None)
        queue = [()]
        seen_prefix = {()}
        outcomes = set()
        runs = steps = 0
        by_dev = {}
        stop = False
        while queue and not stop:
            nxt = []
            for i, prefix, r in pool(run_one, queue, batch=1, stop=ctx.late):
                runs += 1
                case = dict(scenario=scenario.name, tag=tag, prefix=list(prefix))
                if not isinstance(r, dict):
                    ctx.take(case, r)
                    stop = ctx.stop or len(ctx.found) > 8
                    if stop:
                        break
                    continue
                steps += r["steps"]
                merge(r["access"])
                if r["problem"]:
                    key, msg = r["problem"]
                    case["prefix"] = r["choices"]
                    ctx.problem(f"{scenario.name}:{key}", msg + " | " + str(r["detail"])[:1500], case)
                    if len(ctx.found) > 8:
                        stop = True
                        break
                    continue
                outcomes.add(h(r["outcome"]))
                spent = 0
                for k, (label, costs) in enumerate(r["points"]):
                    if k >= len(prefix):
                        for alt in range(1, len(costs)):
                            if spent + costs[alt] <= bound:
                                p = tuple(r["choices"][:k]) + (alt,)
                                if p not in seen_prefix:
                                    seen_prefix.add(p)
                                    nxt.append(p)
                    spent += costs[r["choices"][k]]
                by_dev[spent] = by_dev.get(spent, 0) + 1
                if max_runs and runs >= max_runs:
                    capped = stop = True
                    break
            stop = stop or ctx.stop
            nxt.sort(key=len)
            queue = nxt
        total += runs
        new = _conflicts(access, listed)
        grew = not new <= conf_paths or any(
            not set(k for k, w in d.items() if w) <= set(k for k, w in base_access.get(p, {}).items() if w)
            for p, d in access.items())
        if stop or (settled and not grew) or rounds > 8:
            if not stop:
                capped = True
            if settled and not grew and not stop:
                capped = False
            break
        if not grew:
            settled = True
        conf_paths |= new
    ctx.transitions += steps
    ctx.traces += runs
    ctx.evaluations += runs
    for o in outcomes:
        ctx.sigs.add((scenario.name, tag, o))
    ctx.states += len(outcomes)
    ctx.notes.setdefault("schedules", {})[scenario.name + tag] = dict(
        runs=runs, by_deviations=by_dev, conflict_paths=len(conf_paths), rounds=rounds,
        outcomes=len(outcomes), capped=capped, bound=full_bound)
    if capped:
        ctx.exhaustive = False
    return runs
