"""Every history of entering and leaving portals, passing days, and logging events in every shape."""
# PATCH_DATES = True
import datetime as _dt
import itertools

import pythagoras as pth
from pythagoras import LoggingPortal, current_date_gmt_string
from pythagoras._020_logging_portals.logging_portals import log_event

from mc.boot import env
from mc.world import attempt, clean, expect, files, h, quiet

META = dict(level="model_checking",
            rule="one state = (stack of entered portals, identifiers used per day); after every operation the whole "
                 "event log of every portal is compared with the reference, record by record",
            bounds="3 portals of 3 classes, every stack of <=4 with repetition, histories to depth 5 (quick) / 7; every "
                   "choice of 0-3 positional and 0-3 keyword arguments over 9 names, forced collisions of the random "
                   "suffix; portals that share a directory, every stack of <= 4; events logged from inside ordinary, autonomous and pure functions",
            assumptions=["events are made of JSON-friendly values"])

KINDS = (pth.LoggingPortal, pth.PureCodePortal, pth.SwarmingPortal)
N = 3
ENVKEY, MSGKEY = "execution_environment_summary", "message_list"
VALS = {"a": 1, "b": "text", "c": [1, {"k": None}], "args": 5, "kwargs": 6, "desired_name": 7, "portal": 8, "message": 9,
        ENVKEY: "mine", MSGKEY: ["mine"], ENVKEY + "_5": "also mine", MSGKEY + "_5": 3}


def make(i):
    cls = KINDS[i]
    return cls("/mem/p%d" % i, n_background_workers=0) if cls is pth.SwarmingPortal else cls("/mem/p%d" % i)


def plain(x):
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    return x


SUMMARY = set(pth.build_execution_environment_summary()) if hasattr(pth, "build_execution_environment_summary") else None


def check_record(rec, args, kw, what):
    expect(isinstance(rec, dict), "record-type", lambda: f"{what}: {rec}")
    for k, v in kw.items():
        expect(k in rec and plain(rec[k]) == plain(v), "argument-lost", lambda: f"{what}: {k}={v!r}; record {rec}")
    rest = {k: v for k, v in rec.items() if k not in kw}
    sums = [k for k in rest if k.startswith(ENVKEY)]
    msgs = [k for k in rest if k.startswith(MSGKEY)]
    expect(len(sums) == 1 and len(rest) == len(sums) + len(msgs), "record-keys", lambda: f"{what}: {list(rec)}")
    if ENVKEY not in kw:
        expect(sums[0] == ENVKEY, "summary-name", lambda: f"{what}: {sums}")
    s = rest[sums[0]]
    expect(isinstance(s, dict) and {"hostname", "pid", "python_version", "user"} <= set(s) and len(s) >= 10,
           "summary", lambda: f"{what}: {s}")
    if args:
        expect(len(msgs) == 1 and plain(rest[msgs[0]]) == plain(args), "positional-arguments",
               lambda: f"{what}: {rest.get(msgs[0]) if msgs else None} instead of {args}")
        if MSGKEY not in kw:
            expect(msgs[0] == MSGKEY, "message-name", lambda: f"{what}: {msgs}")
    else:
        expect(not msgs, "positional-arguments", lambda: f"{what}: {rest}")


def logs(portals):
    return [{tuple(k): p.event_log[k] for k in p.event_log} for p in portals]


class Log:
    """Reference: per portal, what must be in its event log."""

    def __init__(self, n):
        self.m = [dict() for _ in range(n)]

    def after(self, portals, active, day, eid, args, kw, what):
        """One event has just been logged."""
        real = logs(portals)
        news = []
        for i, r in enumerate(real):
            new = [k for k in r if k not in self.m[i]]
            for k in self.m[i]:
                expect(k in r and r[k] == self.m[i][k], "earlier-record-changed", lambda: f"{what}: portal {i} {k}")
            expect(len(new) == (i in active), "record-count",
                   lambda: f"{what}: {len(new)} new records in portal {i}, active portals: {active}")
            for k in new:
                expect(len(k) == 2 and k[0] == day and (eid is None or k[1] == eid), "record-path",
                       lambda: f"{what}: {k}, expected day {day} id {eid}")
                check_record(r[k], args, kw, what)
                news.append((k, r[k]))
            self.m[i] = r
        for k, r in news:
            expect(k == news[0][0] and r == news[0][1], "records-differ", lambda: f"{what}: {news}")

    def same(self, portals, what):
        expect(logs(portals) == self.m, "log-changed", what)


SHAPES = [((), {}), (("m",), {}), ((1, "two"), {"a": 1}), ((), {"a": [1], ENVKEY: 2, MSGKEY: 3}), (("x",), {MSGKEY: 3}),
          (("x",), {ENVKEY: 1})]


def emit(form, eid, args, kw, portals):
    if form == 0:
        if eid is not None:
            kw = dict(kw, event_id=eid)
        return log_event(*args, **kw)
    if form == 1:
        return LoggingPortal.log_event(eid, *args, **kw)
    return portals[0].log_event(eid, *args, **kw)


def machine(hist):
    with clean(), quiet():
        day0 = _dt.datetime(2025, 12, 30, 12, tzinfo=_dt.timezone.utc)
        env.date = day0
        portals = [make(i) for i in range(N)]
        model, stack, day, nlog = Log(N), [], 0, 0
        used = set()
        for op in hist:
            if op[0] == "enter":
                portals[op[1]].__enter__()
                stack.append(op[1])
            elif op[0] == "exit":
                portals[stack.pop()].__exit__(None, None, None)
            elif op[0] == "day":
                day += 1
                env.date = day0 + _dt.timedelta(days=day)
                env.now += 86400
            else:
                _, shape, form, eid = op
                args, kw = SHAPES[shape]
                label = current_date_gmt_string()
                again = eid is not None and any((label, eid) in model.m[i] for i in stack)
                if again:      # an identifier names one event a day: a second one must not disturb the first
                    attempt(emit, form, eid, args, kw, portals)
                    real = logs(portals)
                    for i in range(N):
                        for k, v in model.m[i].items():
                            expect(real[i].get(k) == v, "earlier-record-changed", lambda: f"{hist}: {k}")
                    model.m = real
                else:
                    before = set().union(*[set(m) for m in model.m])
                    emit(form, eid, args, kw, portals)
                    nlog += 1
                    model.after(portals, set(stack), label, eid, args, kw, f"{hist}")
                    if eid is None and stack:
                        expect(len(set().union(*[set(m) for m in model.m]) - before) == 1, "fresh-identifier", f"{hist}")
                if eid is not None:
                    used |= {(day, eid, i) for i in stack}
                continue
            model.same(portals, lambda: f"{hist}")
        ops = []
        if len(stack) < 4:
            ops += [("enter", i) for i in range(N)]
        if stack:
            ops.append(("exit",))
        if day < 2:
            ops.append(("day",))
        if nlog < 3:
            ops += [("log", nlog % len(SHAPES), nlog % 3, eid) for eid in (None, "ev")]
        return h((stack, day, sorted(used), nlog)), ops


def shape_case(case):
    """All argument shapes, with the random suffixes forced to collide first."""
    form, npos, seq, eid, draws = case
    with clean(), quiet():
        portals = [make(i) for i in range(N)]
        model = Log(N)
        n = 0
        args = (["first"], 2, "third")[:npos]
        for r in range(4):
            for names in itertools.combinations(VALS, r):
                if r == 3 and not {ENVKEY, MSGKEY} & set(names):
                    continue
                kw = {k: VALS[k] for k in names}
                queue = list(draws)
                LoggingPortal.entropy_infuser.randint = lambda a, b: queue.pop(0) if queue else 77 + n
                n += 1
                for i in seq:
                    portals[i].__enter__()
                emit(form, f"{eid}{n}" if eid else None, args, kw, portals)
                model.after(portals, set(seq), current_date_gmt_string(), f"{eid}{n}" if eid else None, args, kw, f"{case} {kw}")
                for i in reversed(seq):
                    portals[i].__exit__(None, None, None)
        return dict(states=n, transitions=n, sigs=[h(case)])


def stack_case(case):
    """Lexical nesting of every stack, logging on the way in and on the way out, also while an exception passes."""
    seq, boom = case
    with clean(), quiet():
        portals = [make(i) for i in range(N)]
        model = Log(N)
        n = 0

        def log(active):
            nonlocal n
            n += 1
            log_event("m", n, k=n)
            model.after(portals, active, current_date_gmt_string(), None, ("m", n), dict(k=n), f"{case} event {n}")

        def go(d):
            log(set(seq[:d]))
            if d == len(seq):
                if boom:
                    raise KeyError("x")
                return
            try:
                with portals[seq[d]]:
                    go(d + 1)
            finally:
                log(set(seq[:d]))
        attempt(go, 0)
        return dict(states=n, transitions=n, sigs=[h(case)])


def shared_case(case):
    """Portals that share a directory share the log: still one record per event."""
    dirs, seq, eid = case
    with clean(), quiet():
        portals = [pth.LoggingPortal(f"/mem/d{d}") for d in dirs]
        for k, form in enumerate((0, 1, 2)):
            before = logs(portals)
            for i in seq:
                portals[i].__enter__()
            r = attempt(emit, form, eid and f"{eid}{k}", ("m",), dict(a=k), portals)
            for i in reversed(seq):
                portals[i].__exit__(None, None, None)
            expect(r[0] == "ok", "call-fails", lambda: f"{case}: {r}")
            active = {dirs[i] for i in seq}
            for i, (b, a) in enumerate(zip(before, logs(portals))):
                new = [x for x in a if x not in b]
                expect(len(new) == (dirs[i] in active), "record-count", lambda: f"{case}: {len(new)} new records in portal {i}")
                expect(all(a[x] == b[x] for x in b), "earlier-record-changed", lambda: f"{case}")
                for x in new:
                    check_record(a[x], ("m",), dict(a=k), f"{case}")
    return dict(states=3, transitions=3, sigs=[h(case)])


BODY = "def f(n):\n    {imp}\n    if n:\n        log_event('in', n=n)\n        {rec}\n    else:\n        log_event('last', n=n)\n    return n\n"


def fn_case(case):
    """Events from inside functions go to the portals active there."""
    kind, own, seq = case
    with clean(), quiet():
        portals = [(pth.PureCodePortal("/mem/p%d" % i)) for i in range(2)]
        model = Log(2)
        dec = dict(ord=pth.ordinary, aut=pth.autonomous, pure=pth.pure)[kind]
        src = BODY.format(imp="import mcprobe\n    from pythagoras._020_logging_portals.logging_portals import log_event", rec="f(n=n-1)")
        src = src.replace("log_event('", "mcprobe.note('log'); log_event('")
        import mcprobe
        seen = []
        mcprobe.sink = lambda what: seen.append({i for i in range(2) if portals[i] in LoggingPortal.get_entered_portals()})
        try:
            with portals[own]:
                f = dec()(src)
            for i in seq:
                portals[i].__enter__()
            f(n=2)
            for i in reversed(seq):
                portals[i].__exit__(None, None, None)
        finally:
            mcprobe.sink = None
        real = logs(portals)
        expect(len(seen) == 3, "body-runs", f"{case} {seen}")
        for i in range(2):
            got = sorted(r["n"] for r in real[i].values())
            want = sorted(2 - k for k in range(3) if i in seen[k])
            expect(got == want, "record-count", f"{case}: portal {i} has {got}, active sets {seen}")
            for r in real[i].values():
                check_record(r, ("in",) if r["n"] else ("last",), dict(n=r["n"]), f"{case}")
            if i in seq or kind == "pure" and i == own:
                expect(len(want) == 3, "portal-not-active-inside", f"{case}: {seen}")
        return dict(states=3, transitions=3, sigs=[h(case)])


def run(ctx):
    ctx.run_cases(shared_case, [[list(d), list(seq), e] for d in ((0, 0, 1), (0, 0, 0), (0, 1, 0)) for n in range(5 if ctx.quick else 6)
                                for seq in itertools.product(range(3), repeat=n) for e in (None, "ev")], batch=16)
    q = ctx.quick
    ctx.run_cases(shape_case, [[f, n, s, e, d] for f in range(3) for n in range(4) for s, e, d in (
        ((0,), None, ()), ((0, 1), "e", (5,)), ((2, 0, 2), None, (5, 5)), ((), "e", ()))])
    seqs = [s for n in range(4 if q else 6) for s in itertools.product(range(N), repeat=n)]
    ctx.run_cases(stack_case, [[list(s), b] for s in seqs for b in (0, 1)], batch=4)
    ctx.run_cases(fn_case, [[k, o, list(s)] for k in ("ord", "aut", "pure") for o in (0, 1) for n in range(3)
                            for s in itertools.product(range(2), repeat=n)], batch=2)
    ctx.bfs(machine, 5 if q else 7, batch=16)


def replay(case):
    if len(case) == 3 and isinstance(case[0], list) and isinstance(case[1], list):
        return print(shared_case(case))
    if case and isinstance(case[0], int):
        return shape_case(case)
    if case and isinstance(case[0], str):
        return fn_case(case)
    if len(case) == 2 and isinstance(case[1], int):
        return stack_case(case)
    return machine(tuple(tuple(o) for o in case))
