"""Portals of every class and parameters rebuilt in fresh sessions; refused parameters; histories of needing the default portal."""
import io
import os
import pickle

import joblib
import parameterizable
import pythagoras as pth
from persidict import FileDirDict, MemDisk
from pythagoras import BasicPortal

from mc.boot import env
from mc.core import in_fork
from mc.world import attempt, clean, expect, files, h, quiet

META = dict(level="model_checking",
            rule="rebuilding: one case = (class, parameters, form of the root dictionary); refusals: one case = (class, bad "
                 "parameter, portals around); default portal: one state = (known portals, stack, who holds what)",
            bounds="9 classes x checks {none,0,0.3,1} x islands x workers {0,1,3} x given/own identity x 4 forms of root dictionary, "
                   "in the same and in a fresh session, and the processes handed to workers; 10 bad parameters x classes x 3 "
                   "surroundings; histories of 10 operations creating and needing portals: depth 5 (quick) / 9",
            assumptions=["the operating system's process start is replaced by a record of what would be started",
                         "classes other than the swarming ones are registered with `parameterizable` by the application "
                         "before it rebuilds them in another process"])

LAYERS = ["BasicPortal", "LoggingPortal", "DataPortal", "OrdinaryCodePortal", "SafeCodePortal",
          "AutonomousCodePortal", "PureCodePortal", "SwarmingPortal", "DefaultLocalPortal"]
F = "def f(x):\n    return {'r': [x]}\n"
G = "def g(x):\n    print('ran')\n    return x + 1\n"
HOME_DIR = os.path.join(os.path.realpath(os.environ["HOME"]), ".pythagoras", ".default_portal")


def level(cls):
    return LAYERS.index(cls)


def root(form):
    d = "/mem/r"
    return {"str": d, "dict": FileDirDict(d), "digest": FileDirDict(d, digest_len=4), "json": FileDirDict(d, file_type="json"),
            "none": None}[form]


def params_of(cls, form, p, island, workers, rid):
    kw = {}
    n = level(cls)
    if n < 8 and form != "none":
        kw["root_dict"] = root(form)
    if 2 <= n < 8 and p != "-":
        kw["p_consistency_checks"] = p
    if 5 <= n < 8 and island != "-":
        kw["default_island_name"] = island
    if n >= 7 and workers != "-":
        kw["n_background_workers"] = workers
    if n >= 7 and rid:
        kw["runtime_id"] = rid
    return kw


def cases(quick):
    seen = set()
    for cls in LAYERS:
        n = level(cls)
        for form in ("str", "dict", "digest", "json", "none") if n < 8 else ("none",):
            for p in ("-", None, 0, 0.3, 1) if 2 <= n < 8 else ("-",):
                for isl in ("-", "Tulos", "Rhodes") if 5 <= n < 8 else ("-",):
                    for w in (("-", 0, 1, 3) if not quick or form in ("str", "none") else (0, 3)) if n >= 7 else ("-",):
                        for rid in ((None, "someone") if n >= 7 else (None,)):
                            c = (cls, form, p, isl, w, rid)
                            if c not in seen:
                                seen.add(c)
                                yield c


def plain(v):
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if hasattr(v, "get_params"):
        return (type(v).__name__, plain(v.get_params()))
    return v


def fill(p, n):
    """Store something of every kind the portal can hold; what a rebuilt portal has to find."""
    out = {}
    with p:
        if n >= 2:
            a = pth.ValueAddr({"v": [1, 2]})
            out["value"] = (a.prefix, a.hash_signature)
        if n >= 5:
            f = pth.autonomous()(F)
            f(x=1)
            out["island"] = f.island_name
        if n >= 6:
            g = pth.pure()(G)
            out["result"] = g(x=4)
            b = g.get_address(x=50)
            b.request_execution()
            out["request"] = (b.prefix, b.hash_signature)
    return out


def make_session(case):
    cls, form, p, isl, w, rid = case
    env.reset("maker")
    disk = MemDisk()
    from persidict import backend
    backend.use(disk)
    with quiet():
        kw = params_of(*case)
        spawned = []
        env.on_spawn = lambda x: spawned.append((x._target, dict(x._kwargs), tuple(x._args)))
        portal = getattr(pth, cls)(**kw)
        told = portal.get_params()
        for k, v in kw.items():
            if k == "root_dict":
                continue
            if k == "p_consistency_checks" and v is None:
                v = 0
            expect(told[k] == v, "wrong-parameter-reported", lambda: f"{case}: {k}: {told[k]}")
        if level(cls) < 8:
            expect(told["root_dict"].base_dir.startswith("/mem/r" if form != "none" else HOME_DIR), "wrong-place",
                   lambda: f"{case}: {told}")
        kept = fill(portal, level(cls))
        portable = portal.__get_portable_params__()
        spawned = list(spawned)
        n_w = kw.get("n_background_workers", 3) if level(cls) >= 7 else 0
        expect(len(spawned) == n_w, "wrong-number-of-workers", lambda: f"{case}: {len(spawned)} instead of {n_w}")
        # in this process
        if level(cls) < 8:
            check_rebuilt(portal, pickle.loads(pickle.dumps(portable)), case, kept, disk)
        return dict(params=plain(told), portable=pickle.dumps(portable), workers=pickle.dumps(spawned), kept=kept,
                    items=dict(disk.items), runtime=told.get("runtime_id"))


def check_rebuilt(first, portable, case, kept, disk):
    before = dict(disk.items)
    n_spawned = len(env.spawned)
    q = parameterizable.get_object_from_portable_params(portable)
    expect(type(q) is type(first), "wrong-class", lambda: f"{case}: {type(q)}")
    expect(q is not first, "not-rebuilt")
    expect(plain(q.get_params()) == plain(first.get_params()), "params-differ",
           lambda: f"{case}: {plain(first.get_params())} -> {plain(q.get_params())}")
    expect(disk.items == before, "rebuilding-changes-data", lambda: f"{case}: {set(disk.items) ^ set(before)}")
    n_w = q.get_params().get("n_background_workers", 0)
    expect(len(env.spawned) == n_spawned + n_w, "wrong-number-of-workers", lambda: f"{case}")


def rebuild_session(case, made):
    cls = case[0]
    env.reset("rebuilder")
    disk = MemDisk(dict(made["items"]))
    from persidict import backend
    backend.use(disk)
    with quiet() as out:
        before = dict(disk.items)
        if level(cls) < 7:
            parameterizable.register_parameterizable_class(getattr(pth, cls))
        q = parameterizable.get_object_from_portable_params(pickle.loads(made["portable"]))
        expect(type(q) is getattr(pth, cls), "wrong-class", lambda: f"{case}: {type(q)}")
        expect(plain(q.get_params()) == made["params"], "params-differ",
               lambda: f"{case}: {made['params']} -> {plain(q.get_params())}")
        expect(disk.items == before, "rebuilding-changes-data", lambda: f"{case}: {set(disk.items) ^ set(before)}")
        kept = made["kept"]
        with q:
            if "value" in kept:
                got = pth.ValueAddr.from_strings(prefix=kept["value"][0], hash_signature=kept["value"][1]).get()
                expect(got == {"v": [1, 2]}, "data-not-found", lambda: f"{case}: {got}")
                p = q.get_params()["p_consistency_checks"] if cls != "DefaultLocalPortal" else 0
                if p in (0, 1):
                    q.value_store["zz", "k"] = 1
                    r = attempt(q.value_store.__setitem__, ("zz", "k"), 2)
                    expect((r[0] == "exc") == (p == 1), "checks-lost", lambda: f"{case}: p={p}: {r}")
            if "island" in kept:
                f = pth.autonomous()(F)
                f(x=1)
                expect(f.island_name == kept["island"], "island-lost", lambda: f"{case}: {f.island_name}")
            if "result" in kept:
                r = attempt(pth.PureFnExecutionResultAddr.from_strings, prefix=kept["request"][0],
                            hash_signature=kept["request"][1], assert_readiness=False)
                expect(r[0] == "ok" and r[1].execution_requested, "request-not-found", lambda: f"{case}: {r}")
                g = pth.pure()(G)
                expect(g(x=4) == kept["result"], "result-not-found", lambda: f"{case}")
                expect("ran" in out.getvalue() if p == 1 else p == 0.3 or "ran" not in out.getvalue(),
                       "result-recomputed" if p == 0 else "result-not-checked", lambda: f"{case}")
        if level(cls) >= 7:
            expect(q.get_params()["runtime_id"] == made["runtime"], "identity-lost", lambda: f"{case}")
            expect(q.parent_runtime_is_live() == (case[5] is None), "parent-misjudged", lambda: f"{case}")
    return True


def worker_session(case, made, k):
    """What a background worker makes of what it was handed: a portal without workers, on the same data."""
    env.reset("worker")
    disk = MemDisk(dict(made["items"]))
    from persidict import backend
    backend.use(disk)
    target, kw, args = pickle.loads(made["workers"])[k]
    expect(not args, "unexpected-arguments", lambda: f"{case}: {args}")
    with quiet():
        if case[5] is None:
            for path in files(disk, ""):
                if "/compute_nodes/" in path and "runtime_id" in path:
                    del disk.items[path]
        before = dict(disk.items)
        r = attempt(target, **kw)
        expect(r == ("ok", None), "worker-fails", lambda: f"{case}: {r}")
        expect(disk.items == before, "worker-changes-data", lambda: f"{case}: {set(disk.items) ^ set(before)}")
        expect(not env.spawned, "orphan-works", lambda: f"{case}: {env.spawned}")
        known = list(BasicPortal.all_portals.values())
        expect(len(known) == 1 and type(known[0]) is getattr(pth, case[0]), "wrong-class", lambda: f"{case}: {known}")
        q = known[0].get_params()
        want = dict(made["params"], n_background_workers=0)
        expect(plain(q) == want, "worker-params-differ", lambda: f"{case}: {plain(q)} instead of {want}")
    return True


def rebuild(case):
    made = in_fork(make_session, case)
    in_fork(rebuild_session, case, made)
    n = len(pickle.loads(made["workers"]))
    for k in range(n):
        in_fork(worker_session, case, made, k)
    return dict(states=2 + n, transitions=2 + n, sigs=(h(case),))


# ------------------------------------------------------------------ refused parameters

BAD = [(2, "p_consistency_checks", v) for v in (-0.1, 1.1, 2, "x", float("nan"))] + \
      [(5, "default_island_name", v) for v in ("", None, 5)] + \
      [(7, "n_background_workers", v) for v in (-1, "x", None)]


def refused(case):
    cls, key, val, around = case
    if val == "nan":
        val = float("nan")
    with clean() as disk, quiet():
        other = pth.PureCodePortal("/mem/o") if around != "none" else None
        if around == "entered":
            other.__enter__()
        before, n = dict(disk.items), len(env.spawned)
        r = attempt(getattr(pth, cls), root_dict="/mem/r", **{key: val})
        expect(r[0] == "exc", "bad-parameter-accepted", lambda: f"{case}")
        expect(disk.items == before and len(env.spawned) == n, "refusal-leaves-traces",
               lambda: f"{case}: {set(disk.items) ^ set(before)} {env.spawned}")
        known = list(BasicPortal.all_portals.values())
        expect(known == ([other] if other else []), "refused-portal-is-known", lambda: f"{case}: {known}")
        best = BasicPortal.get_best_portal_to_use()
        expect(best is other if other else type(best) is pth.DefaultLocalPortal, "refused-portal-is-used",
               lambda: f"{case}: {best}")
        g = pth.pure()(G)
        expect(g(x=1) == 2, "others-affected", lambda: f"{case}")
        a = pth.ValueAddr("v")
        expect(a.get() == "v", "others-affected", lambda: f"{case}")
        place = "/mem/o" if other else HOME_DIR
        expect(all(f.startswith(place) for f in disk.items), "stored-elsewhere", lambda: f"{case}: {sorted(disk.items)}")
        # the same class with good parameters works afterwards
        q = getattr(pth, cls)(root_dict="/mem/r", **({"n_background_workers": 0} if cls == "SwarmingPortal" else {}))
        expect(list(BasicPortal.all_portals.values())[-1] is q, "good-portal-unknown")
    return dict(states=1, transitions=1, sigs=(h(case),))


# ------------------------------------------------------------------ the default portal

OPS = ["default", "connect-default", "other", "connect", "enter", "exit", "best", "value", "call", "init", "clear", "read"]


def machine(hist):
    with clean() as disk, quiet():
        known, stack = [], []          # names in order of creation
        dead = []
        objs, spawned, ours = {}, 0, {"D": set(), "o": set(), "c": set(), "i": set()}
        place = {"D": HOME_DIR, "o": "/mem/o", "c": "/mem/c", "i": "/mem/i"}
        n = 0

        def need():
            nonlocal spawned
            if stack:
                return stack[-1]
            if known:
                return known[-1]
            known.append("D")
            spawned += 3
            return "D"
        for op in hist:
            n += 1
            if op == "default":
                new = "D" not in known
                p = pth.DefaultLocalPortal()
                if new:
                    known.append("D")
                    spawned += 3
                    expect(not any(p is x for x in dead), "dead-portal-returned", lambda: f"{hist}")
                    objs["D"] = p
                expect(objs.setdefault("D", p) is p, "second-default-portal", lambda: f"{hist}")
            elif op == "connect-default":
                new = "D" not in known
                pth.connect_to_default_portal()
                if new:
                    known.append("D")
                    spawned += 3
                    objs.pop("D", None)
            elif op == "other":
                objs["o"] = pth.SwarmingPortal("/mem/o", n_background_workers=0)
                known.append("o")
            elif op == "connect":
                pth.connect_to_local_portal("/mem/c", 2)
                known.append("c")
                objs["c"] = list(BasicPortal.all_portals.values())[-1]
                spawned += 2
            elif op == "enter":
                objs["o"].__enter__()
                stack.append("o")
            elif op == "exit":
                objs["o"].__exit__(None, None, None)
                stack.pop()
            elif op == "best":
                d = need()
                p = pth.PureCodePortal.get_best_portal_to_use()
                expect(p.root_dict.base_dir == place[d], "wrong-best-portal", lambda: f"{hist}: {p.root_dict.base_dir}")
                expect(p is objs.setdefault(d, p), "second-default-portal", lambda: f"{hist}")
            elif op == "value":
                a = pth.ValueAddr(f"value {n}")
                ours[need()].add(f"value {n}")
                expect(a.get() == f"value {n}", "value-lost", lambda: f"{hist}")
            elif op == "call":
                g = pth.pure()(G)
                expect(g(x=n) == n + 1, "wrong-result", lambda: f"{hist}")
                ours[need()].add(n + 1)
            elif op == "read":
                # values stored where the session now looks are found by a later portal there
                d = need()
                p = pth.DataPortal.get_best_portal_to_use()
                got = {p.value_store[k] for k in p.value_store if isinstance(p.value_store[k], (str, int))}
                expect(ours[d] <= got, "data-lost", lambda: f"{hist}: {ours[d]} {got}")
            elif op == "init":
                pth.initialize("/mem/i")
                known, stack = ["i"], ["i"]
                dead += objs.values()
                objs = {"i": BasicPortal.get_most_recently_entered_portal()}
                spawned += 3
            elif op == "clear":
                BasicPortal._clear_all()
                known, stack = [], []
                dead += objs.values()
                objs = {}
            real = [p.root_dict.base_dir for p in BasicPortal.all_portals.values()]
            expect(real == [place[k] for k in known], "wrong-known-portals",
                   lambda: f"{hist}: {real}, expected {known}")
            expect([type(p) is pth.DefaultLocalPortal for p in BasicPortal.all_portals.values()] == [k == "D" for k in known],
                   "wrong-class", lambda: f"{hist}")
            expect(len(env.spawned) == spawned, "wrong-number-of-workers",
                   lambda: f"{hist}: {len(env.spawned)} instead of {spawned}")
            cur = BasicPortal.get_most_recently_entered_portal()
            expect((cur.root_dict.base_dir if cur else None) == (place[stack[-1]] if stack else None), "wrong-current-portal",
                   lambda: f"{hist}: {cur}")
            for d, held in ours.items():
                vals = [v for f, x in disk.items.items() if f.startswith(place[d] + "/value_store/") for v in [small(x[0])]]
                expect(held <= set(vals), "stored-elsewhere", lambda: f"{hist}: {d} should hold {held}, holds {vals}")
        ops = ["connect-default", "best", "value", "call", "clear", "read", "init", "default"]
        if "o" not in known:
            ops.append("other")
        elif len(stack) < 2:
            ops.append("enter")
        if stack and stack[-1] == "o":
            ops.append("exit")
        if "c" not in known:
            ops.append("connect")
        return h((known, stack, {k: len(v) > 0 for k, v in ours.items()}, sorted(objs))), ops


def small(data):
    try:
        v = joblib.load(io.BytesIO(data))
        return v if isinstance(v, (str, int)) else None
    except Exception:
        return None


def run(ctx):
    ctx.run_cases(rebuild, cases(ctx.quick), batch=2)
    ctx.run_cases(refused, [(cls, key, "nan" if v != v else v, around) for n, key, v in BAD for cls in LAYERS[n:8]
                            for around in ("none", "known", "entered")])
    ctx.bfs(machine, 5 if ctx.quick else 9)


def replay(case):
    if case and case[0] in LAYERS:
        case = tuple(case)
        print(rebuild(case) if len(case) == 6 else refused(case))
    else:
        print(machine(tuple(case)))
