"""Every history of storing, failing, calling, requesting, defining and days passing; descriptions against a model of the counts."""
# PATCH_DATES = True
import datetime as _dt

import pythagoras as pth
from persidict import MemDisk, backend
from pythagoras import BasicPortal

from mc.boot import env
from mc.core import in_fork
from mc.world import clean, expect, files, h, quiet

META = dict(level="model_checking",
            rule="one state = (counts of everything per portal, day); after every operation both portals' descriptions, the "
                 "common one, and those of a fresh session are compared with the model",
            bounds="1-2 portals of different parameters; 25 operations: storing, copying, exceptions and events in one or both, "
                   "defining in 2 islands, calling, failing, requesting, executing, dropping, next day: depth 3 over 20 of them (quick) / 4; "
                   "portals of 8 classes alone",
            assumptions=["the number of values expected is the number of distinct entries in the value store's folder"])

SRC = {"g": "def g(x):\n    return [x]\n", "k": "def k(x):\n    return (x,)\n", "bad": "def bad(x):\n    return 1 // (x - x)\n"}
NOON = _dt.datetime(2024, 2, 28, 12, tzinfo=_dt.timezone.utc)


def table(df):
    out = {}
    for t, k, v in zip(df["type"], df["parameter"], df["value"]):
        out.setdefault(k, []).append((t, v))
    return out


class Model:
    def __init__(self, isl, workers, p):
        self.exc = {}
        self.values = set()
        self.fns = {isl: set()}
        self.isl, self.workers, self.p = isl, workers, p
        self.results, self.queue = set(), set()

    def key(self):
        return (sorted(self.exc.items()), sorted(map(str, self.values)), sorted((k, sorted(v)) for k, v in self.fns.items()),
                sorted(self.results), sorted(self.queue))

    def want(self, disk, d, day):
        w = {"Exceptions, total": [("Disk", sum(self.exc.values()))], "Exceptions, today": [("Disk", self.exc.get(day, 0))],
             "Values, total": [("Disk", len(files(disk, d + "/value_store/")))],
             "Probability of checks": [("Runtime", self.p)], "Islands": [("Runtime", len(self.fns))],
             "Default island": [("Runtime", self.isl)], "Cached execution results": [("Disk", len(self.results))],
             "Execution queue size": [("Disk", len(self.queue))], "Base directory": [("Disk", d)]}
        if self.workers is not None:
            w["Background workers"] = [("Runtime", self.workers)]
        for i, f in self.fns.items():
            w[f"Functions in <{i}>"] = [("Runtime", len(f))]
        return w


def compare(df, want, where):
    got = table(df)
    for k, v in want.items():
        g = got.get(k)
        if k.startswith("Functions in"):
            g = g[:1] if g else g
        expect(g is not None and [x == y and type(x[1]) is not str or x == y for x, y in zip(g, v)] == [True] * len(v)
               and len(g) == len(v), f"wrong: {k.split(' <')[0]}", lambda: f"{where}: {k}: {g}, expected {v}")
    for k in got:
        if k.startswith("Functions in <"):
            expect(k in want, "unknown-island", lambda: f"{where}: {k}")
    return got


def names(df, model, where):
    got = table(df)
    isl = got.get("All islands")
    if isl is not None:
        expect(sorted(isl[0][1].split(", ")) == sorted(model.fns), "wrong-islands", lambda: f"{where}: {isl}")
    for i, f in model.fns.items():
        rows = got[f"Functions in <{i}>"]
        if len(rows) > 1:
            expect(sorted(rows[1][1].split(", ")) == sorted(f), "wrong-function-names", lambda: f"{where}: {rows}")


def create():
    return [pth.SwarmingPortal("/mem/p0", n_background_workers=2),
            pth.PureCodePortal("/mem/p1", default_island_name="Tulos", p_consistency_checks=1)]


def later(items, date):
    """Descriptions in a session that starts now."""
    env.reset("later")
    env.date = date
    BasicPortal.all_portals.clear()
    BasicPortal.entered_portals_stack.clear()
    BasicPortal.entered_portals_counters_stack.clear()
    backend.use(MemDisk(dict(items)))
    with quiet():
        return [{k: v for k, v in table(p.describe()).items() if v[0][0] == "Disk"} for p in create()]


def machine(hist, small=False):
    with clean(salt="d" + str(len(hist))) as disk, quiet():
        env.date = NOON
        day = 0
        ps = create()
        ms = [Model("Samos", 2, 0), Model("Tulos", None, 1)]
        fns = {}

        def fn(i, name):
            if (i, name) not in fns:
                with ps[i]:
                    fns[i, name] = pth.pure(island_name=ms[i].isl)(SRC[name])
                ms[i].fns[ms[i].isl].add(name)
            return fns[i, name]

        def addr(i, name, x):
            return fn(i, name).get_address(x=x)
        for op in hist:
            kind = op[0]
            if kind == "val":
                with ps[op[1]]:
                    pth.ValueAddr(op[2])
                ms[op[1]].values.add(op[2])
            elif kind == "copy":
                with ps[0]:
                    a = pth.ValueAddr(op[1])
                s = a.prefix, a.hash_signature
                ms[0].values.add(op[1])
                with ps[1]:
                    pth.ValueAddr.from_strings(prefix=s[0], hash_signature=s[1]).get()
                ms[1].values.add(op[1])
            elif kind == "exc":
                try:
                    if len(op[1]) == 2:
                        with ps[0]:
                            with ps[1]:
                                raise ValueError("e")
                    with ps[op[1][0]]:
                        raise ValueError("e")
                except ValueError:
                    pass
                for i in op[1]:
                    ms[i].exc[day] = ms[i].exc.get(day, 0) + 1
            elif kind == "event":
                with ps[op[1]]:
                    ps[op[1]].log_event(None, note="n")
            elif kind == "fail":
                fn(op[1], "bad")
                try:
                    with ps[op[1]]:
                        fns[op[1], "bad"](x=1)
                except ZeroDivisionError:
                    pass
                ms[op[1]].exc[day] = ms[op[1]].exc.get(day, 0) + 1
                ms[op[1]].queue.add(("bad", 1))
            elif kind == "def":
                with ps[op[1]]:
                    pth.pure(island_name=op[3])(SRC[op[2]])
                ms[op[1]].fns.setdefault(op[3], set()).add(op[2])
            elif kind == "call":
                got = fn(op[1], "g")(x=op[2])
                expect(got == [op[2]], "wrong-result")
                ms[op[1]].results.add(("g", op[2]))
                ms[op[1]].queue.discard(("g", op[2]))
            elif kind == "req":
                addr(op[1], "g", op[2]).request_execution()
                if ("g", op[2]) not in ms[op[1]].results:
                    ms[op[1]].queue.add(("g", op[2]))
            elif kind == "drop":
                addr(op[1], "g", op[2]).drop_execution_request()
                ms[op[1]].queue.discard(("g", op[2]))
            elif kind == "work":
                addr(op[1], "g", op[2]).execute()
                ms[op[1]].results.add(("g", op[2]))
                ms[op[1]].queue.discard(("g", op[2]))
            elif kind == "day":
                day += 1
                env.date = NOON + _dt.timedelta(days=day, hours=(day % 2) * 11 + day % 2 * 0.99)
        want = [m.want(disk, f"/mem/p{i}", day) for i, m in enumerate(ms)]
        before = dict(disk.items)
        dfs = [p.describe() for p in ps]
        both = pth.describe()
        expect(dict(disk.items) == before, "describing-changes-data", lambda: f"{hist}")
        for i in (0, 1):
            compare(dfs[i], want[i], (hist, i))
            names(dfs[i], ms[i], (hist, i))
            part = both[both["portal"] == i].drop(columns="portal").reset_index(drop=True)
            expect(part.equals(dfs[i]), "common-description-differs", lambda: f"{hist}: portal {i}:\n{part}\n{dfs[i]}")
        expect(len(both) == len(dfs[0]) + len(dfs[1]), "rows-of-nobody", lambda: f"{hist}")
        expect(list(both.index) == list(range(len(both))), "rows-misnumbered")
        if hist:
            fresh = in_fork(later, dict(disk.items), env.date)
            for i in (0, 1):
                for k, v in fresh[i].items():
                    if k in want[i]:
                        expect(v == want[i][k], f"later: {k}", lambda: f"{hist}: portal {i}: {v}, expected {want[i][k]}")
        ops = [("day",)] if day < 3 else []
        for i in (0, 1):
            ops += [("val", i, "a"), ("val", i, 7), ("exc", (i,)), ("event", i), ("fail", i), ("call", i, 1), ("call", i, 2),
                    ("def", i, "g", "Tulos"), ("def", i, "k", "Samos"), ("req", i, 1)]
            if small and i == 1:
                ops = [o for o in ops if o not in (("val", 1, 7), ("event", 1), ("call", 1, 2), ("def", 1, "k", "Samos"))]
            if small and i == 0:
                ops = [o for o in ops if o not in (("call", 0, 2),)]
            if ("g", 1) in ms[i].queue:
                ops += [("work", i, 1), ("drop", i, 1)]
        ops += [("exc", (0, 1)), ("copy", "a")]
        return h([m.key() for m in ms] + [day]), ops


def alone(cls):
    """A portal of one class alone: the common description is its own, and empty."""
    with clean() as disk, quiet():
        env.date = NOON
        p = getattr(pth, cls)("/mem/p", **({"n_background_workers": 1} if cls == "SwarmingPortal" else {}))
        df = p.describe()
        got = table(df)
        expect(pth.describe().equals(df), "common-description-differs", lambda: cls)
        zero = {k: v[0][1] for k, v in got.items() if "total" in k or "today" in k or "Cached" in k or "queue" in k}
        expect(all(v == 0 for v in zero.values()), "not-empty", lambda: f"{cls}: {zero}")
        expect(got["Base directory"] == [("Disk", "/mem/p")] and got["Backend type"] == [("Disk", "FileDirDict")],
               "wrong-place", lambda: f"{cls}: {got}")
        expect(all(t == ("Disk" if k in ("Base directory", "Backend type") or k in zero else "Runtime")
                   for k, v in got.items() for t, _ in v), "wrong-type", lambda: f"{cls}: {got}")
        n = {"Logging": 2, "Data": 3}.get(cls.removesuffix("Portal"))
        expect(n is None or len(zero) == n, "rows-missing", lambda: f"{cls}: {got}")
    return dict(states=1, transitions=1, sigs=(cls,))


def fewer(hist):
    return machine(hist, small=True)


def run(ctx):
    if ctx.quick:
        ctx.bfs(fewer, 3, batch=4)
    else:
        ctx.bfs(machine, 4, batch=4)
    ctx.run_cases(alone, ["BasicPortal", "LoggingPortal", "DataPortal", "OrdinaryCodePortal", "SafeCodePortal",
                          "AutonomousCodePortal", "PureCodePortal", "SwarmingPortal"])


def replay(case):
    print(machine(tuple(tuple(tuple(x) if isinstance(x, list) else x for x in o) for o in case))
          if isinstance(case, list) else alone(case))
