"""Every sequence of the top-level commands (initialize, connect_to_..., describe) mixed with ordinary use."""
import os

import pythagoras as pth
from pythagoras import BasicPortal

from mc.boot import env
from mc.world import attempt, clean, expect, h, quiet

META = dict(level="model_checking",
            rule="one state = (known portals with class, place and content; the stack; the definitions of the session); "
                 "after each step the portals, the stack, the started workers, the returned table and the data on disk "
                 "are compared with the model",
            bounds="14 operations over 3 places: depth 4 (quick) / 5",
            assumptions=["the operating system's process start is replaced by a record of what would be started"])

HOME_DIR = os.path.join(os.path.realpath(os.environ["HOME"]), ".pythagoras", ".default_portal")
PLACE = {"A": "/mem/a", "B": "/mem/b", "H": "/mem/h", "D": HOME_DIR}
CLS = {"A": "SwarmingPortal", "B": "SwarmingPortal", "H": "PureCodePortal", "D": "DefaultLocalPortal"}
SRC = ["def f(x):\n    return [x]\n", "def f(x):\n    return [x, x]\n"]


def machine(hist):
    with clean() as disk, quiet():
        known = []              # [letter, workers]
        objs = []               # the real portals, as told by the library
        stack = []              # indices into known
        defined = None          # (version, index of the portal) of f in this session
        values = {k: set() for k in PLACE}
        spawned = []
        env.on_spawn = lambda x: spawned.append((x._target, dict(x._kwargs)))
        n = 0

        def current():
            if stack:
                return stack[-1]
            return len(known) - 1

        def table_of(df):
            return {(r.iloc[0], r.iloc[1]): r.iloc[2] for _, r in df.iterrows()}

        def told(df, i):
            expect("portal" not in df.columns, "wrong-table", lambda: f"{hist}: {df}")
            t = table_of(df)
            expect(t["Disk", "Base directory"] == PLACE[known[i][0]], "wrong-table", lambda: f"{hist}: {t}")
            expect(df.equals(objs[i].describe()), "table-differs", lambda: f"{hist}: {df}")
            if known[i][0] != "H":
                expect(t["Runtime", "Background workers"] == known[i][1], "wrong-table", lambda: f"{hist}: {t}")

        def sync(df=None):
            """The real portals are exactly the known ones, in order."""
            real = list(BasicPortal.all_portals.values())
            expect([type(p).__name__ for p in real] == [CLS[k] for k, _ in known]
                   and [p.root_dict.base_dir for p in real] == [PLACE[k] for k, _ in known], "wrong-portals",
                   lambda: f"{hist}: {[(type(p).__name__, p.root_dict.base_dir) for p in real]} expected {known}")
            for old, new in zip(objs, real):
                expect(old is new, "portal-replaced", lambda: f"{hist}")
            objs[:] = real
            if df is not None:
                told(df, len(known) - 1)
        for op in hist:
            n += 1
            new = 0
            at = len(spawned)
            if op[0] == "init":
                # (a place is a path or a dictionary, which a known portal may be using)
                df = pth.initialize(PLACE[op[1]] if op[2] is None else objs[op[2]].root_dict)
                known, objs, stack, defined = [[op[1], 3]], [], [0], None
                new = 3
                sync(df)
            elif op[0] == "local":
                df = pth.connect_to_local_portal(PLACE[op[1]]) if op[2] is None else \
                    pth.connect_to_local_portal(PLACE[op[1]], n_background_workers=op[2]) if op[2] else \
                    pth.connect_to_local_portal(root_dict=PLACE[op[1]], n_background_workers=0)
                new = 3 if op[2] is None else op[2]
                known.append([op[1], new])
                sync(df)
            elif op[0] == "default":
                df = pth.connect_to_default_portal()
                if not any(k == "D" for k, _ in known):
                    known.append(["D", 3])
                    new = 3
                    sync(df)
                else:
                    sync()
                    told(df, [k for k, _ in known].index("D"))
            elif op[0] == "hand":
                pth.PureCodePortal(PLACE["H"])
                known.append(["H", 0])
                sync()
            elif op[0] == "enter":
                objs[op[1]].__enter__()
                stack.append(op[1])
            elif op[0] == "exit":
                objs[stack[-1]].__exit__(None, None, None)
                stack.pop()
            elif op[0] == "value":
                if not known:
                    known.append(["D", 3])
                    new = 3
                a = pth.ValueAddr([n, "v"])
                sync()
                values[known[current()][0]].add(n)
                expect(a.get() == [n, "v"], "value-lost", lambda: f"{hist}")
                place = PLACE[known[current()][0]]
                expect(any(p.startswith(place + "/value_store/") and a[1] in p for p in disk.items), "value-elsewhere",
                       lambda: f"{hist}: {[p for p in disk.items if a[1] in p]}, expected in {place}")
            elif op[0] == "define":
                if not known:
                    known.append(["D", 3])
                    new = 3
                i = current()
                ok = defined is None or defined.get(i, op[1]) == op[1]
                r = attempt(lambda: pth.pure()(SRC[op[1]])(x=n))
                sync()
                expect((r[0] == "ok") == ok, "definition", lambda: f"{hist}: {r}, defined {defined}")
                if ok:
                    expect(r[1] == ([n], [n, n])[op[1]], "wrong-result", lambda: f"{hist}: {r}")
                    defined = defined or {}
                    defined[i] = op[1]
            sync()
            got = len(spawned) - at
            expect(got == new, "wrong-number-of-workers", lambda: f"{hist}: {got} started, expected {new}")
            for _, kw in spawned[at:]:
                expect(kw["n_background_workers"] == 0, "workers-with-workers", lambda: f"{hist}: {kw}")
                expect(kw["runtime_id"] in [getattr(p, "runtime_id", None) for p in objs], "workers-of-nobody", lambda: f"{hist}: {kw}")
            real_stack = [p for p in BasicPortal.entered_portals_stack]
            flat = []
            for i in stack:
                if not flat or flat[-1] != i:
                    flat.append(i)
            expect(len(real_stack) == len(flat) and all(p is objs[i] for p, i in zip(real_stack, flat)), "wrong-stack",
                   lambda: f"{hist}: {real_stack}")
            # the common description
            before = dict(disk.items)
            if known:
                df = pth.describe()
                if len(known) == 1:
                    told(df, 0)
                else:
                    expect(list(df.columns)[0] == "portal" and list(df.index) == list(range(len(df))), "wrong-table",
                           lambda: f"{hist}: {df}")
                    for i, p in enumerate(objs):
                        part = df[df["portal"] == i].drop(columns="portal").reset_index(drop=True)
                        told(part, i)
                    expect(set(df["portal"]) == set(range(len(known))), "wrong-table", lambda: f"{hist}")
            expect(dict(disk.items) == before, "describing-changes-data", lambda: f"{hist}")
            sync()
        ops = [("init", "A", None), ("init", "B", None), ("local", "B", None), ("local", "A", 0), ("default",), ("hand",), ("value",),
               ("define", 0), ("define", 1)]
        if len(known) > 3:
            ops = [o for o in ops if o[0] not in ("local", "hand")]
        ops += [("enter", i) for i in {0, len(known) - 1} if known]
        ops += [("init", known[i][0], i) for i in {0, len(known) - 1} if known and known[i][0] in "AB"]
        if stack:
            ops.append(("exit",))
        return h((known, stack, sorted((defined or {}).items()), {k: len(v) for k, v in values.items()}, len(hist))), ops


def run(ctx):
    ctx.bfs(machine, 4 if ctx.quick else 5, batch=8)


def replay(case):
    return machine(tuple(tuple(o) for o in case))
