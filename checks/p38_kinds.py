"""Every small island of functions of every kind, before and after calls, pickled and registered again: what each one says it is."""
import copy
import functools
import itertools
import pickle

import pythagoras as pth
from pythagoras import is_autonomous, is_loosely_autonomous, is_strictly_autonomous
from pythagoras._070_pure_functions.purity_checks import is_pure

from mc.world import attempt, clean, expect, h, quiet

META = dict(level="model_checking",
            rule="one case = (reference graph, kind of each function, order of definition, sequence of calls); after every "
                 "step every function, its copies and its pickled form are classified and compared with the model",
            bounds="64 graphs of 3 functions x 4 kinds each (quick: 3 functions of the same or of two kinds) x 2 orders x 4 "
                   "sequences of calls, 5 ways of referring; 22 other objects",
            assumptions=["'autonomous' functions are told strictly from loosely autonomous when they are first executed"])
N = "fgh"
EDGES = [(a, b) for a in N for b in N if a != b]
DEC = dict(a="autonomous", s="strictly_autonomous", p="pure", o="ordinary", e="safe")


def source(name, deps, style=0):
    """The ways of referring to other functions: directly, next to a global statement, from an inner function, in
    comprehensions and defaults of inner functions, without calling."""
    used = ", ".join(f"{d}(x=x - 1)" for d in deps)
    yes = [f"        return [{used}]\n",
           f"        global abs\n        return [abs(x), {used}]\n",
           f"        def inner(t):\n            def more():\n                return [{used}]\n            return more\n        return inner(1)()\n",
           f"        def inner(t=[{', '.join(deps)}]):\n            return [u for u in t]\n        return [k(x=x - 1) for k in inner()]\n",
           "        import math\n        t = 0\n" + "".join(f"        t = {d}\n" for d in deps) + "        return [math.floor(x), t]\n"][style]
    return f"def {name}(x=0):\n    if x:\n{yes}    return '{name}'\n"


def told(f):
    return dict(autonomous=is_autonomous(f), loosely=is_loosely_autonomous(f), strictly=is_strictly_autonomous(f), pure=is_pure(f))


def reach(n, graph):
    seen, todo = set(), [n]
    while todo:
        m = todo.pop()
        if m not in seen:
            seen.add(m)
            todo += graph[m]
    return seen


def island(case):
    bits, kinds, order, calls, style = case
    graph = {a: [b for i, (x, b) in enumerate(EDGES) if x == a and bits >> i & 1] for a in N}
    kinds = dict(zip(N, kinds))
    steps = 0
    with clean(salt="1") as disk, quiet():
        with pth.PureCodePortal("/mem/p") as portal:
            fns = {}
            settled = {}                # name -> strictly (True/False), once known

            def look():
                for n, f in fns.items():
                    k = kinds[n]
                    forms = [("itself", f), ("again", again(n))]
                    if n in settled or k == "s" and not graph[n]:
                        forms += [("pickled", pickle.loads(pickle.dumps(f))), ("copied", copy.copy(f))]
                    for what, g in forms:
                        t = told(g)
                        msg = lambda: f"{case} {n} {what}: {t}, known {settled}"       # noqa: E731
                        expect(all(type(v) is bool for v in t.values()), "not-a-truth-value", msg)
                        expect(t["autonomous"] == (k in "asp"), "autonomous", msg)
                        expect(t["pure"] == (k == "p"), "pure", msg)
                        expect(t["autonomous"] == (t["loosely"] != t["strictly"]) and not (t["loosely"] and t["strictly"]),
                               "neither-or-both", msg)
                        if k == "s":
                            expect(t["strictly"], "declared-strictly", msg)
                        elif n in settled and what in ("itself", "again"):
                            expect(t["strictly"] == settled[n], "strictly", msg)

            def again(n):
                return getattr(pth, DEC[kinds[n]])()(source(n, graph[n], style))
            for n in order:
                fns[n] = again(n)
                look()
            for n in calls:
                steps += 1
                # every function of the call is completed; a strict one must not refer to others
                need = reach(n, graph)
                bad = [m for m in need if kinds[m] == "s" and graph[m]] if kinds[n] in "asp" else []
                plain_deps = [m for m in need if kinds[m] in "oe"]
                r = attempt(fns[n], x=0)
                if kinds[n] == "s" and graph[n]:
                    expect(r[0] == "exc", "strict-function-with-dependencies-runs", lambda: f"{case}: {n}: {r}")
                elif not bad and not plain_deps or kinds[n] in "oe":
                    expect(r == ("ok", n), "does-not-run", lambda: f"{case}: {n}: {r}")
                    if kinds[n] in "ap":
                        settled[n] = not graph[n]
                        expect(set(fns[n].dependencies) == need, "dependencies", lambda: f"{case}: {n}")
                look()
    return dict(states=steps + 3, transitions=8 * (steps + 3), sigs=(h((kinds.items().__repr__(), bits)),))


class Callable:
    def __call__(self):
        return 1

    def method(self):
        return 1

    strictly_autonomous = True


def plain():
    return 1


class Fake:
    strictly_autonomous = True
    fn_name = island_name = "f"


OBJECTS = [plain, lambda: 1, len, print, int, Callable, Callable(), Callable().method, functools.partial(plain), functools.lru_cache(plain),
           type("Fn", (), {"__call__": lambda self: 1})()]
NOT_CALLABLE = [None, 1, "f", "def f():\n    return 1\n", [plain], {"f": plain}, Fake(), object(), b"f", 1.5, ...]


def other(case):
    i, = case
    with clean(), quiet():
        with pth.PureCodePortal("/mem/p"):
            pth.pure()(plain)
            if i < len(OBJECTS):
                expect(told(OBJECTS[i]) == dict(autonomous=False, loosely=False, strictly=False, pure=False), "invented-kind",
                       lambda: f"{OBJECTS[i]}: {told(OBJECTS[i])}")
            else:
                x = NOT_CALLABLE[i - len(OBJECTS)]
                for f in (is_autonomous, is_loosely_autonomous, is_strictly_autonomous, is_pure):
                    r = attempt(f, x)
                    expect(r[0] == "exc", "non-callable-classified", lambda: f"{x!r}: {r}")
    return dict(states=1, transitions=4, sigs=(i,))


def run(ctx):
    ctx.run_cases(other, [(i,) for i in range(len(OBJECTS) + len(NOT_CALLABLE))], batch=8)
    cases = []
    mixes = list(itertools.product("aspo", repeat=3)) + [("e", "a", "p"), ("a", "e", "e")]
    for bits in range(64):
        for j, kinds in enumerate(mixes):
            if ctx.quick and len(set(kinds)) == 3:
                continue
            for i, (order, calls) in enumerate(itertools.product(("fgh", "hgf"), ("", "fgh", "hgf", "gg"))):
                if ctx.quick and (i + j + bits) % 4:
                    continue
                cases.append((bits, kinds, order, calls, 0))
                cases += [(bits, kinds, order, calls, s) for s in range(1, 5)
                          if not ctx.quick or (len(set(kinds)) == 1 or s == 1) and calls]
    ctx.run_cases(island, cases, batch=16)


def replay(case):
    case = tuple(case) + (0,) * (len(case) == 4)
    print(other(tuple(case)) if len(case) == 1 else island(tuple(case)))
