"""Every small call, rebuilt in a session that has only the two strings of its address and the portal."""
import itertools
import json
import os
import subprocess
import sys
import tempfile

import pythagoras as pth

import mcprobe
from mc import boot
from mc.world import attempt, clean, expect, quiet

META = dict(level="model_checking",
            rule="one case = (dependency graph, kinds, islands, guard, argument, what the second session already knows, "
                 "default island of the second portal, where the data is); three sessions per case; everything recovered "
                 "is compared with the first session's",
            bounds="14 names of functions x 15 of islands; a function with each of the statements of P08 (those that make an autonomous function); 64 graphs of 3 functions x 4 mixes of kinds x 2 guards x 6 states of the second session (quick: one "
                   "state each, in rotation); 14 kinds of argument x 4 graphs; 200 calls whose result moves to another portal by 5 routes; 10 (quick) / 72 cases in a new "
                   "interpreter with another hash seed over real files",
            assumptions=["the sessions share the portal's store and nothing else"])
PY = sys.executable
N = "fgh"
EDGES = [(a, b) for a in N for b in N if a != b]
mcprobe.reject = ()
ARGS = dict(
    int=lambda: 3, big=lambda: 10 ** 40, neg=lambda: -2.5, text=lambda: "é\n\"'\\", empty=lambda: "", none=lambda: None,
    bytes=lambda: b"\0\xff", tuple=lambda: (1, (2, "a")), nested=lambda: {"k": [1, {"z": (None, True)}], "j": {}},
    set=lambda: {3, 1, 2}, cplx=lambda: 1 + 2j, range=lambda: range(3))
EXTRA = ["frame", "array"]


def arg(kind):
    if kind == "frame":
        import pandas as pd
        return pd.DataFrame({"a": [1, 2], "b": ["x", None]})
    if kind == "array":
        import numpy as np
        return np.arange(6).reshape(2, 3)
    return ARGS[kind]()


def source(name, deps, depth=True):
    src = (f"def {name}(x, n=2):\n    import mcprobe\n    mcprobe.note('{name}', n)\n"
           f"    r = ['{name}', n, str(x), type(x).__name__]\n    if n > 0:\n")
    for d in deps:
        src += f"        r.append({d}(x=x, n=n - 1))\n"
    return src + "        r.append('end')\n    return r\n"


def plain(name, x, n, graph):
    r = [name, n, str(x), type(x).__name__]
    if n > 0:
        r += [plain(d, x, n - 1, graph) for d in graph[name]] + ["end"]
    return r


def reach(name, graph):
    seen, todo = set(), [name]
    while todo:
        m = todo.pop()
        if m not in seen:
            seen.add(m)
            todo += graph[m]
    return seen


GUARD = "def guard(x, n=2):\n    import mcprobe\n    mcprobe.note('guard', n)\n    assert n < 9\n"
DEC = dict(p="pure", a="autonomous", s="strictly_autonomous")


def define(graph, kinds, guard, island, only=N, order=N):
    kw = {} if island == "Samos" else dict(island_name=island)
    fns = {}
    if guard:
        g = pth.strictly_autonomous(**kw)(GUARD)
    for n in order:
        if n in only:
            k = dict(kw)
            if guard and n == guard:
                k["guards"] = [g]
            fns[n] = getattr(pth, DEC[kinds[n]])(**k)(source(n, graph[n]))
    return fns


def about(portal, island):
    return {n: (f.fn_source_code, f.decorator, type(f).__name__, f.island_name)
            for n, f in portal.known_functions.get(island, {}).items()}


def strings(a):
    return a.prefix, a.hash_signature


def addr(s):
    return pth.PureFnExecutionResultAddr.from_strings(prefix=s[0], hash_signature=s[1], assert_readiness=False)


def needed(graph, kinds, guard):
    r = reach("f", graph)
    if guard and guard in r:
        r = r | {"guard"}
    return r


def first(case):
    """Session 1: make the call's address; returns (strings, what is registered)."""
    bits, mix, guard, island, kind, _, how = case
    graph = {a: [b for i, (x, b) in enumerate(EDGES) if x == a and bits >> i & 1] for a in N}
    kinds = dict(zip(N, mix))
    p = pth.PureCodePortal("/mem/p" if os.environ.get("MC_P21_ROOT") is None else os.environ["MC_P21_ROOT"])
    with p:
        fns = define(graph, kinds, guard, island)
    f = fns["f"]
    kw = dict(x=arg(kind))
    a = f.swarm(**kw) if how == "swarm" else f.get_address(**kw)
    return graph, kinds, strings(a), about(p, island), f.augmented_fn_source_code


def verify(case, graph, kinds, s, reg, aug, portal, before=()):
    bits, mix, guard, island, kind, state, how = case
    x = arg(kind)
    need = needed(graph, kinds, guard)
    with portal:
        a = addr(s)
        expect(a.fn_name == "f" and a.prefix == s[0] and a.hash_signature == s[1], "wrong-name", lambda: f"{case}: {a.fn_name}")
        expect(a.island_name == island, "wrong-island", lambda: f"{case}: {a.island_name}")
        expect(a.fn_source_code == reg["f"][0], "wrong-source", lambda: f"{case}: {a.fn_source_code}")
        kw = a.kwargs
        expect(list(kw) == ["x"] and type(kw["x"]) is type(x) and str(kw["x"]) == str(x), "wrong-arguments", lambda: f"{case}: {kw}")
        expect(a.can_be_executed is True, "cannot-be-executed", lambda: f"{case}")
    got = about(portal, island)
    want = {n: v for n, v in reg.items() if n in need or n in before}
    expect(got == want, "registered-differently", lambda: f"{case}: {sorted(got)} vs {sorted(want)}: "
           f"{[(n, got.get(n), want.get(n)) for n in sorted(set(got) | set(want)) if got.get(n) != want.get(n)]}")
    others = {i: list(v) for i, v in portal.known_functions.items() if i != island and v}
    expect(not others, "registered-elsewhere", lambda: f"{case}: {others}")
    expect(a.fn.augmented_fn_source_code == aug, "wrong-augmented-source", lambda: f"{case}: {a.fn.augmented_fn_source_code}")
    r = attempt(a.execute)
    expect(r == ("ok", plain("f", x, 2, graph)), "wrong-outcome", lambda: f"{case}: {r}")
    with portal:
        expect(addr(s).ready and addr(s).get() == r[1], "result-elsewhere", lambda: f"{case}")
    f2 = portal.known_functions[island]["f"]
    expect(strings(f2.get_address(x=x)) == s, "address-changed", lambda: f"{case}: {strings(f2.get_address(x=x))} {s}")
    return 1


def one(case):
    bits, mix, guard, island, kind, state, how = case
    with clean(salt="1") as disk, quiet():
        graph, kinds, s, reg, aug = first(case)
    if state == "other-portal":
        # the data is in another known portal; the current one is empty
        with clean(disk, salt="2"), quiet():
            pth.PureCodePortal("/mem/p")
            q = pth.PureCodePortal("/mem/q")
            verify(case, graph, kinds, s, reg, aug, q)
        with clean(disk, salt="3"), quiet():
            q = pth.PureCodePortal("/mem/q")
            with q:
                a = addr(s)
                expect(a.ready and a.get() == plain("f", arg(kind), 2, graph), "not-transferred", lambda: f"{case}")
                expect(a.fn_name == "f" and str(a.kwargs["x"]) == str(arg(kind)) and a.fn_source_code == reg["f"][0],
                       "not-transferred", lambda: f"{case}")
        return dict(states=3, transitions=12, sigs=(str((bits, mix, guard)),))
    with clean(disk, salt="2"), quiet():
        kw = dict(default_island_name="Chios") if state == "other-default" else {}
        p = pth.PureCodePortal("/mem/p", **kw)
        before = ()
        with p:
            if state == "half-known":       # dependencies already defined, the function not
                define(graph, kinds, guard, island, only="gh", order="hg")
                before = ["g", "h"] + (["guard"] if guard else [])
            elif state == "all-known":
                define(graph, kinds, guard, island, order="hgf")
                before = list(N) + (["guard"] if guard else [])
            elif state == "conflict":
                # another function of that name: the stored one must be refused, the present one stays
                k = {} if island == "Samos" else dict(island_name=island)
                mine = pth.pure(**k)("def f(x, n=2):\n    return 'mine'\n")
                a = addr(s)
                r = attempt(lambda: a.function)
                expect(r[0] == "exc", "conflict-accepted", lambda: f"{case}")
                expect(mine(x=1) == "mine" and p.known_functions[island]["f"].fn_source_code == mine.fn_source_code,
                       "conflict-replaced", lambda: f"{case}")
                return dict(states=2, transitions=6, sigs=(str((bits, mix, guard)),))
        verify(case, graph, kinds, s, reg, aug, p, before)
    with clean(disk, salt="3"), quiet():
        p = pth.PureCodePortal("/mem/p")
        del mcprobe.ran[:]
        with p:
            a = addr(s)
            expect(a.ready and a.execute() == plain("f", arg(kind), 2, graph), "result-lost", lambda: f"{case}")
        expect(not mcprobe.ran, "ran-again", lambda: f"{case}: {mcprobe.ran}")
    return dict(states=3, transitions=14, sigs=(str((bits, mix, guard)),))


CHILD = """
import sys, json, os
sys.path.insert(0, {here!r})
from mc import boot
boot.boot()
from persidict import backend
from persidict.backend import RealDisk
backend.use(RealDisk())
boot.env.reset({salt!r})
sys.path.insert(0, {here!r} + "/checks")
import p21_portable as m
import pythagoras as pth
from mc.core import Problem
from mc.world import quiet
case = json.loads({case!r})
case = (case[0], case[1], case[2], case[3], case[4], case[5], case[6])
try:
    with quiet():
        if {stage} == 1:
            g, k, s, reg, aug = m.first(case)
            out = ["ok", [g, k, s, reg, aug]]
        else:
            g, k, s, reg, aug = json.loads({data!r})
            reg = {{n: tuple(v) for n, v in reg.items()}}
            p = pth.PureCodePortal(os.environ["MC_P21_ROOT"])
            m.verify(case, g, k, tuple(s), reg, aug, p)
            out = ["ok", 1]
except Problem as e:
    out = ["problem", e.key, e.msg]
except BaseException as e:
    import traceback
    out = ["problem", "unexpected-exception", traceback.format_exc()[-1500:]]
sys.__stdout__.write("RESULT" + json.dumps(out) + "\\n")
"""


def interpreters(case):
    """Really separate interpreters, real files, different hash seeds."""
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with tempfile.TemporaryDirectory() as root:
        data = None
        for stage, seed in ((1, "11"), (2, "22")):
            env = dict(os.environ, PYTHONHASHSEED=seed, MC_P21_ROOT=root + "/portal")
            code = CHILD.format(here=here, salt=f"i{stage}", case=json.dumps(case), stage=stage, data=json.dumps(data))
            boot.env.virtual = False          # subprocess polls with time.sleep
            r = subprocess.run(["timeout", "120", PY, "-B", "-c", code], env=env, capture_output=True, text=True)
            lines = [l for l in r.stdout.split("\n") if l.startswith("RESULT")]
            expect(lines, "session-died", lambda: f"{case} {r.stderr[-1500:]}")
            out = json.loads(lines[-1][6:])
            expect(out[0] == "ok", out[1] if out[0] != "ok" else "", lambda: f"{case}: {out[2]}")
            data = out[1]
    return dict(states=2, transitions=8, sigs=("interp" + str(case[:3]),))


FN_NAMES = ["f", "f_", "_f", "__f", "f_g", "f__g", "F", "f1", "pure", "fn", "size_len", "ordinary", "x" * 60, "self_"]
ISLANDS = ["Samos", "far_away", "_x", "x_", "f", "g_f", "X", "x.y", "x-y", "1", "f_g", "g", "i" * 60, "_", "ostrov"]


def names(case):
    """Whatever the function and its island are called."""
    group, state = case
    out = []
    with clean(salt="1") as disk, quiet():
        p = pth.PureCodePortal("/mem/p")
        with p:
            for fn, island in group:
                dep = pth.autonomous(island_name=island)(f"def dep_{fn}(x):\n    return [x, {fn!r}]\n")
                f = pth.pure(island_name=island)(
                    f"def {fn}(x, {fn}_x=3):\n    return [{island!r}, dep_{fn}(x=x), {fn}_x]\n")
                a = f.get_address(x=1)
                out.append((fn, island, strings(a), f.fn_source_code, f.augmented_fn_source_code))
    expect(len({o[2][1] for o in out}) == len(out), "same-signature", lambda: f"{group}")
    with clean(disk, salt="2"), quiet():
        p = pth.PureCodePortal("/mem/p")
        q = pth.PureCodePortal("/mem/q") if state == "other-portal" else p
        with q:
            for fn, island, s, src, aug in out:
                a = addr(s)
                got = (a.fn_name, a.island_name, a.fn_source_code, a.kwargs)
                expect(got == (fn, island, src, {"x": 1}), "wrong-call", lambda: f"{fn} {island}: {got}")
                want = [island, [1, fn], 3]
                r = attempt(a.execute)
                expect(r == ("ok", want), "wrong-outcome", lambda: f"{fn} {island}: {r}")
                expect(set(q.known_functions[island]) >= {fn, "dep_" + fn}, "not-registered",
                       lambda: f"{fn} {island}: {q.known_functions}")
                expect(a.fn.augmented_fn_source_code == aug, "wrong-augmented-source", lambda: f"{fn} {island}")
    with clean(disk, salt="3"), quiet():
        with pth.PureCodePortal("/mem/q" if state == "other-portal" else "/mem/p"):
            for fn, island, s, src, aug in out:
                a = addr(s)
                expect(a.ready and a.get() == [island, [1, fn], 3] and a.fn_name == fn, "result-lost", lambda: f"{fn} {island}")
    return dict(states=3 * len(out), transitions=6 * len(out), sigs=tuple(o[2][0] for o in out))


def bodies(case):
    """A body that uses each statement: recovered from its strings it is the same program."""
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import p08_normalization as n8
    lo, hi, mod = case
    made = []
    with clean(salt="1") as disk, quiet():
        with pth.PureCodePortal("/mem/p") as p:
            for i in range(lo, min(hi, len(n8.STMTS))):
                src = n8.program([n8.STMTS[i]], "x=3").replace("pth.", "")
                f = attempt(lambda: pth.pure()(src))
                if f[0] != "ok":
                    continue
                f = f[1]
                f2 = attempt(lambda: f.get_address(x=3))
                if f2[0] != "ok":
                    del p.known_functions["Samos"][f.fn_name]   # not autonomous: cannot be used as pure
                    continue
                plain_result = attempt(lambda: pth.ordinary()(src)(x=3))
                made.append((i, strings(f2[1]), f.fn_source_code, f.fn_name, plain_result))
                del p.known_functions["Samos"][f.fn_name]
    for i, s, src, name, plain_result in made:
        with clean(disk, salt="2"), quiet():
            with pth.PureCodePortal("/mem/p") as p:
                a = addr(s)
                expect(a.fn_source_code == src and a.fn_name == name, "wrong-source", lambda: f"{n8.STMTS[i]!r}: {a.fn_source_code!r} {src!r}")
                expect(a.fn.fn_source_code == src, "wrong-function", lambda: f"{n8.STMTS[i]!r}")
                r = attempt(a.execute)
                same = r == plain_result or repr(r)[:40] == repr(plain_result)[:40]
                expect(same, "wrong-outcome", lambda: f"{n8.STMTS[i]!r}: {r} vs {plain_result}")
                expect(strings(a.fn.get_address(x=3)) == s, "address-changed", lambda: f"{n8.STMTS[i]!r}")
    return dict(states=2 * len(made), transitions=4 * len(made), sigs=tuple(m[0] for m in made), bodies=len(made))


def moved(case):
    """A result found in another portal comes with all that is needed to know and repeat the call."""
    bits, mix, guard, island, kind, how = case
    case = (bits, mix, guard, island, kind, "moved", "addr")
    with clean(salt="1") as disk, quiet():
        graph, kinds, s, reg, aug = first(case)
        with pth.BasicPortal.get_most_recently_added_portal():
            addr(s).execute()
    want = plain("f", arg(kind), 2, graph)
    with clean(disk, salt="2"), quiet():
        pth.PureCodePortal("/mem/p")
        with pth.PureCodePortal("/mem/q"):
            a = addr(s)
            if how == "ready":
                expect(a.ready, "not-found", lambda: f"{case}")
            elif how == "get":
                expect(a.get() == want, "not-found", lambda: f"{case}")
            elif how == "needs":
                expect(not a.needs_execution, "not-found", lambda: f"{case}")
            elif how == "request":
                a.request_execution()
                expect(not a.execution_requested, "not-found", lambda: f"{case}")
            elif how == "execute":
                expect(a.execute() == want, "not-found", lambda: f"{case}")
    with clean(disk, salt="3"), quiet():
        q = pth.PureCodePortal("/mem/q")
        with q:
            a = addr(s)
            expect(a.ready and a.get() == want, "result-not-moved", lambda: f"{case} {how}")
            expect(a.fn_name == "f" and a.island_name == island and a.fn_source_code == reg["f"][0], "function-not-moved",
                   lambda: f"{case} {how}")
            expect(str(a.kwargs["x"]) == str(arg(kind)), "arguments-not-moved", lambda: f"{case} {how}")
            expect(a.fn.augmented_fn_source_code == aug, "function-not-moved", lambda: f"{case} {how}")
            expect(strings(a.fn.get_address(x=arg(kind))) == s, "address-changed", lambda: f"{case} {how}")
            del mcprobe.ran[:]
            r = attempt(a.execute)
            expect(r == ("ok", want) and not mcprobe.ran, "ran-again", lambda: f"{case} {how}: {r} {mcprobe.ran}")
    return dict(states=3, transitions=8, sigs=(str((bits, mix, how)),))


STATES = ["fresh", "half-known", "all-known", "other-default", "other-portal", "conflict"]


def run(ctx):
    q = ctx.quick
    mixes = ["ppp", "paa", "pap", "psp"]
    cases = []
    n = 0
    for bits in range(64):
        for mix in mixes:
            graph = {a: [b for i, (x, b) in enumerate(EDGES) if x == a and bits >> i & 1] for a in N}
            if any(k == "s" and graph[m] for m, k in zip(N, mix)):
                continue
            for guard in ("", "f", "h"):
                if guard and mix[N.index(guard)] != "p":
                    continue
                n += 1
                for j, state in enumerate(STATES):
                    if q and (n + bits) % 6 not in (j, (j + 1) % 6):
                        continue
                    cases.append((bits, mix, guard, ["Samos", "Lesbos"][(n + j) % 2], "nested", state,
                                  "swarm" if (n + j) % 3 == 0 else "addr"))
    for kind in list(ARGS) + EXTRA:
        for bits in (0, 1, 0b100101, 0b1001):
            for state in ("fresh", "other-portal"):
                cases.append((bits, "ppp", "", "Samos", kind, state, "addr"))
    ctx.run_cases(one, cases, batch=8)
    ctx.run_cases(moved, [(bits, mix, guard, island, kind, how) for bits in (0, 0b1001, 0b100101, 63) for mix in ("ppp", "paa")
                          for guard in ("", "f", "h") if not guard or mix == "ppp" for island in ("Samos", "Lesbos")
                          for kind in ("nested", "int") for how in ("ready", "get", "needs", "request", "execute")])
    combos = list(itertools.product(FN_NAMES, ISLANDS))
    for state in ("fresh", "other-portal"):
        ctx.run_cases(names, [[combos[i::16 if q else 60], state] for i in range(16 if q else 60)])
    ctx.run_cases(bodies, [[lo, lo + 6, 0] for lo in range(0, 160, 6)])
    real = []
    for i, kind in enumerate(["nested", "set", "int", "text"] if q else list(ARGS)):
        for j, (bits, guard) in enumerate([(0, ""), (0b1001, "h"), (0b100101, "f"), (63, ""), (63, "f"), (21, "")]
                                          if not q or i < 1 else [(0b1001, ""), (21, "h")]):
            real.append((bits, ["ppp", "paa"][(i + j) % 2] if guard != "h" else "ppp", guard, ["Samos", "Lesbos"][j % 2],
                         kind, "fresh", ["addr", "swarm"][i % 2]))
    ctx.run_cases(interpreters, real)


def replay(case):
    case = tuple(case)
    print(one(case))
    print(interpreters(case))
