"""Exploration engine: forked workers, breadth-first search over real objects, reporting."""
import hashlib
import json
import os
import pickle
import select
import signal
import struct
import sys
import time
import traceback

from .boot import HERE, real_monotonic

NCPU = min(8, os.cpu_count() or 1)
HANG_S = float(os.environ.get("MC_HANG_S", "240"))
AFTER_S = 60.0
LIMIT_S = 840.0


class Problem(Exception):
    """The property is violated in the case being run. `key` identifies the failing input/history."""

    def __init__(self, key, msg=""):
        super().__init__(f"{key}: {msg}" if msg else key)
        self.key, self.msg = key, msg


def expect(cond, key, msg=""):
    if not cond:
        raise Problem(key, msg() if callable(msg) else msg)


def h(x):
    """Hash of a canonical state."""
    return hashlib.sha256(repr(x).encode()).hexdigest()[:20]


def describe_exc(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = ""
    for fr in reversed(tb):
        if "/pythagoras/" in fr.filename:
            where = f" at {os.path.basename(fr.filename)}:{fr.lineno} {fr.name}"
            break
    return f"{type(e).__name__}: {str(e)[:300]}{where}"


# ---------------------------------------------------------------- forked workers

def _write(fd, obj):
    data = pickle.dumps(obj)
    data = struct.pack("!I", len(data)) + data
    while data:
        n = os.write(fd, data)
        data = data[n:]


def _read_exact(fd, n):
    out = b""
    while len(out) < n:
        b = os.read(fd, n - len(out))
        if not b:
            return None
        out += b
    return out


def _read(fd):
    head = _read_exact(fd, 4)
    if head is None:
        return None
    data = _read_exact(fd, struct.unpack("!I", head)[0])
    return None if data is None else pickle.loads(data)


def pool(fn, items, batch=1, workers=None, hang_s=None, stop=None):
    """Yield (index, item, result) for fn(item) run in forked workers. A worker that dies or hangs
    yields a Died instance as the result of the item it was processing. `stop` is asked now and then
    whether to give up on the items that are left."""
    items = list(items)
    workers = min(workers or NCPU, max(1, (len(items) + batch - 1) // batch))
    hang_s = hang_s or HANG_S
    state = {}
    sys.stdout.flush()
    sys.stderr.flush()

    def spawn():
        a_r, a_w = os.pipe()
        b_r, b_w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.setpgid(0, 0)
                os.close(a_w)
                os.close(b_r)
                for s in state.values():
                    for fd in (s["w"], s["r"]):
                        try:
                            os.close(fd)
                        except OSError:
                            pass
                while True:
                    job = _read(a_r)
                    if job is None:
                        break
                    for i in job:
                        try:
                            r = fn(items[i])
                        except Problem as e:
                            r = e
                        except BaseException as e:
                            r = Crashed(describe_exc(e), traceback.format_exc())
                        try:
                            _write(b_w, (i, r))
                        except (pickle.PicklingError, TypeError, AttributeError) as e:
                            _write(b_w, (i, Crashed(describe_exc(e), traceback.format_exc())))
            except BaseException:
                traceback.print_exc()
                code = 1
            finally:
                os._exit(code)
        os.close(a_r)
        os.close(b_w)
        state[pid] = dict(w=a_w, r=b_r, jobs=[], last=real_monotonic())

    def kill(pid):
        s = state.pop(pid)
        for sig_target in (-pid, pid):
            try:
                os.kill(sig_target, signal.SIGKILL)
            except OSError:
                pass
        os.waitpid(pid, 0)
        os.close(s["w"])
        os.close(s["r"])
        return s

    nxt = 0
    done = 0
    for _ in range(workers):
        spawn()
    try:
        while done < len(items):
            if stop is not None and stop():
                return
            for s in state.values():
                if not s["jobs"] and nxt < len(items):
                    job = list(range(nxt, min(nxt + batch, len(items))))
                    nxt += len(job)
                    s["jobs"] = job
                    s["last"] = real_monotonic()
                    _write(s["w"], job)
            busy = {s["r"]: pid for pid, s in state.items() if s["jobs"]}
            ready, _, _ = select.select(list(busy), [], [], 2.0)
            for fd in ready:
                pid = busy[fd]
                s = state[pid]
                got = _read(fd)
                if got is None:
                    s = kill(pid)
                    i, rest = s["jobs"][0], s["jobs"][1:]
                    done += 1
                    yield i, items[i], Died("the process died")
                    for j in rest:   # give the rest back, one by one, in a fresh worker
                        pass
                    if rest or nxt < len(items):
                        spawn()
                        new = next(reversed(state.values()))
                        if rest:
                            new["jobs"] = rest
                            new["last"] = real_monotonic()
                            _write(new["w"], rest)
                    continue
                i, r = got
                s["jobs"].remove(i)
                s["last"] = real_monotonic()
                done += 1
                yield i, items[i], r
            for pid, s in list(state.items()):
                if s["jobs"] and real_monotonic() - s["last"] > hang_s:
                    s = kill(pid)
                    i, rest = s["jobs"][0], s["jobs"][1:]
                    done += 1
                    yield i, items[i], Died(f"no progress for {hang_s:.0f} s")
                    if rest or nxt < len(items):
                        spawn()
                        new = next(reversed(state.values()))
                        if rest:
                            new["jobs"] = rest
                            new["last"] = real_monotonic()
                            _write(new["w"], rest)
    finally:
        for pid in list(state):
            kill(pid)


class Died(Exception):
    key = "process-died-or-hung"


class Crashed(Exception):
    """An exception nobody expected left the code (or the harness)."""

    def __init__(self, what, tb=""):
        super().__init__(what)
        self.what, self.tb = what, tb
        self.key = "unexpected-exception"

    def __reduce__(self):
        return (Crashed, (self.what, self.tb))


def _reduce_problem(self):
    return (Problem, (self.key, self.msg))


Problem.__reduce__ = _reduce_problem


def in_fork(fn, *args, timeout=None):
    """Run fn(*args) in a forked child (a fresh session) and return its result."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ("ok", fn(*args))
            except Problem as e:
                out = ("problem", e)
            except BaseException as e:
                out = ("exc", (describe_exc(e), traceback.format_exc()))
            _write(w, out)
        finally:
            os._exit(0)
    os.close(w)
    try:
        got = _read(r)
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    if got is None:
        raise Problem("session-died", "the session's process died")
    kind, val = got
    if kind == "ok":
        return val
    if kind == "problem":
        raise val
    raise Crashed(*val)


# ---------------------------------------------------------------- a check's bookkeeping

class Ctx:
    def __init__(self, prop, tier, seed=1):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.t0 = real_monotonic()
        self.states = self.transitions = self.traces = self.evaluations = 0
        self.sigs = set()
        self.samples = []
        self.notes = {}
        self.found = {}          # key -> (order, case, message)
        self.stop = False
        self.exhaustive = True
        self.known = {k["key"] for k in load_known() if k["property"] == prop and k.get("status") == "known"}
        self.bad_at = None       # when the first violation was seen

    def notice(self, key):
        if self.bad_at is None and key not in self.known:
            self.bad_at = real_monotonic()

    def late(self):
        """A verdict must come in time: once a violation is known the search goes on for a minute only,
        and no search goes on beyond LIMIT_S (it then says that it was not exhaustive)."""
        now = real_monotonic()
        if (self.bad_at is not None and now - self.bad_at > AFTER_S) or now - self.t0 > LIMIT_S:
            self.exhaustive = False
            self.stop = True
            return True
        return False

    def left(self, budget):
        return budget - (real_monotonic() - self.t0)

    def sample(self, s):
        if len(self.samples) < 8:
            self.samples.append(s if isinstance(s, str) else json.dumps(s, default=str)[:400])

    def problem(self, key, msg, case):
        self.notice(key)
        if key not in self.found:
            self.found[key] = (len(self.found), case, msg)
        if len(self.found) >= 25:
            self.stop = True

    def take(self, case, r):
        """Account for one worker result: dict(states, transitions, traces, sigs, problems)."""
        if isinstance(r, Problem):
            self.problem(r.key, r.msg, case)
            self.traces += 1
            self.evaluations += 1
            return
        if isinstance(r, Died):
            self.problem(f"died:{h(case)}", str(r), case)
            return
        if isinstance(r, Crashed):
            self.problem(f"exception:{r.what[:120]}", r.what + "\n" + r.tb[-1500:], case)
            return
        r = r or {}
        self.states += r.get("states", 0)
        self.transitions += r.get("transitions", 0)
        self.traces += r.get("traces", 1)
        self.evaluations += r.get("evaluations", 1)
        for s in r.get("sigs", ()):
            self.sigs.add(s)
        for key, msg in r.get("problems", ()):
            self.problem(key, msg, case)

    def run_cases(self, fn, cases, batch=1, every=None, hang_s=None):
        """Run every case; a case is JSON-able and fn(case) raises Problem or returns counters."""
        cases = list(cases)
        if cases:
            for i in {0, len(cases) // 3, 2 * len(cases) // 3, len(cases) - 1}:
                self.sample(cases[i])
        got = {}
        if self.late():
            return 0
        for i, case, r in pool(fn, cases, batch=batch, hang_s=hang_s, stop=self.late):
            if isinstance(r, Problem):
                self.notice(r.key)
            elif isinstance(r, (Died, Crashed)):
                self.notice(None)
            elif r:
                for key, _ in r.get("problems", ()):
                    self.notice(key)
            if isinstance(r, (Problem, Died, Crashed)) or (r and r.get("problems")):
                got[i] = (case, r)
                if len(got) >= 40:
                    self.exhaustive = False
                    break
            else:
                self.take(case, r)
        for i in sorted(got):
            self.take(*got[i])
        return len(cases)

    def bfs(self, machine, depth, batch=4, prefixes=((),), dedupe=True):
        """Explicit-state search of the real code: machine(history, op_or_None) runs the history on
        fresh real objects next to the reference model and returns (canon, enabled ops)."""
        seen = set()
        frontier = [tuple(p) for p in prefixes]

        def expand(hist):
            out = []
            try:
                canon, ops = machine(hist)
            except Problem as e:
                return dict(problem=(e.key, e.msg), n=1)
            return dict(canon=canon, ops=ops, n=1)
        level = 0
        while frontier:
            nxt = []
            results = {}
            for i, hist, r in pool(expand, frontier, batch=batch, stop=self.late):
                results[i] = (hist, r)
                bad = isinstance(r, (Died, Crashed)) or "problem" in r
                if bad:
                    self.notice(r["problem"][0] if isinstance(r, dict) else None)
                if bad and sum(1 for _, x in results.values()
                               if isinstance(x, (Died, Crashed)) or "problem" in x) > 40:
                    self.stop = True
                    break
            for i in sorted(results):
                hist, r = results[i]
                self.traces += 1
                self.transitions += 1 if hist else 0
                if isinstance(r, (Died, Crashed)):
                    self.take(list(hist), r)
                    continue
                if "problem" in r:
                    self.problem(*r["problem"], list(hist))
                    continue
                if dedupe and r["canon"] in seen:
                    continue
                seen.add(r["canon"])
                self.sigs.add(r["canon"])
                if len(seen) in (2, 20, 200, 2000):
                    self.sample(list(hist))
                if level < depth:
                    nxt.extend(hist + (op,) for op in r["ops"])
            if self.stop:
                self.exhaustive = False
                break
            frontier = nxt
            level += 1
        self.states += len(seen)
        self.evaluations += self.transitions
        self.notes["max_depth"] = max(self.notes.get("max_depth", 0), level - 1)
        return seen


def load_known():
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)["findings"]


def finish(ctx, meta):
    """Print verdicts, write the evidence file, return the exit code."""
    known = {(k["property"], k["key"]): k for k in load_known() if k.get("status") == "known"}
    bad = []
    for key, (order, case, msg) in sorted(ctx.found.items(), key=lambda kv: kv[1][0]):
        k = known.get((ctx.prop, key))
        if k is not None:
            print(f"KNOWN-FINDING: property={ctx.prop} {k['what']}")
        else:
            bad.append((key, case, msg))
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for n, (key, case, msg) in enumerate(bad[:10]):
        path = os.path.join(rdir, f"{ctx.prop}-{n}.json")
        with open(path, "w") as f:
            json.dump(dict(property=ctx.prop, key=key, message=msg, case=case), f, indent=1, default=str)
        print(f"VIOLATION property={ctx.prop} replay={path}")
        print(f"  {key}: {msg[:1200]}")
    wall = real_monotonic() - ctx.t0
    if meta["level"] == "model_checking":
        cov = dict(states=ctx.states, transitions=ctx.transitions,
                   traces_validated_against_impl=ctx.traces)
    else:
        cov = dict(evaluations=ctx.evaluations, distinct_nontrivial=len(ctx.sigs))
    cov.update(rule=meta["rule"], samples=ctx.samples or ["(none)"],
               exhaustive=bool(ctx.exhaustive and not bad), bounds=meta["bounds"], **ctx.notes)
    ev = dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level=meta["level"], coverage=cov,
              wall_s=round(wall, 2), violations=len(bad),
              assumptions=meta.get("assumptions", []))
    with open(os.path.join(HERE, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{ctx.prop} {ctx.tier}: states={ctx.states} transitions={ctx.transitions} "
          f"traces={ctx.traces} evaluations={ctx.evaluations} outcomes={len(ctx.sigs)} "
          f"notes={ctx.notes} wall={wall:.1f}s violations={len(bad)}")
    return 1 if bad else 0
