"""Every history of guarded calls, verdicts of the guards, and sessions, next to a model; every kind of guard offered."""
import contextlib
import itertools

import pythagoras as pth

import mcprobe
from mc.world import attempt, clean, expect, h, quiet

META = dict(level="model_checking",
            rule="one state = (verdicts of the guards, versions of their code, calls remembered, functions known to the "
                 "session); body runs, outcomes and can_be_executed are compared with the model after every step",
            bounds="guard sets {}, {a}, {b}, {a,b} given in 6 ways x 2 callers (direct, through an unguarded pure function) "
                   "x 2 arguments x 5 routes, verdict switches, restarts with definitions, from addresses only, or with "
                   "changed guard code: depth 2 to 3 (quick) / 4; 12 kinds of guard offered x 6 ways; 31 ways to "
                   "refuse and 13 to accept x 5 positions",
            assumptions=["guards accept by returning and refuse by raising"])

class Reject:
    def __init__(self, pairs):
        self.pairs = set(pairs)

    def __contains__(self, item):
        return (item[0], None if isinstance(item[1], list) else item[1]) in self.pairs


mcprobe.reject = Reject(())


def guard_src(name, version):
    return (f"def {name}(x):\n    import mcprobe\n    mcprobe.note('{name}', x)\n    if ('{name}', x) in mcprobe.reject:\n"
            f"        raise RuntimeError('refused {version}')\n    return {version}\n")


F = "def f(x):\n    import mcprobe\n    mcprobe.note('f', x)\n    return ['f', x]\n"
K = "def k(x):\n    import mcprobe\n    mcprobe.note('k', x)\n    return ['k', f(x=x)]\n"
A = {"m": ["p", 1], "n": 2}     # argument name -> value
GUARDS = {"": [], "a": ["a"], "b": ["b"], "ab": ["a", "b"]}


def key(x):
    return str(x)


def machine(hist):
    _, gset, way = hist[0]
    gs = GUARDS[gset]
    mcprobe.reject = Reject(())
    rejected = set()
    versions = {"a": 1, "b": 1}
    done = {}
    disk, st, sess = None, contextlib.ExitStack(), 0
    fns, addrs, known = {}, {}, "defs"
    with quiet():
        try:
            for step in hist:
                if step[0] in ("start", "restart", "bare", "newcode"):
                    if step[0] == "newcode":
                        versions[step[1]] += 1
                    st.close()
                    st = contextlib.ExitStack()
                    disk = st.enter_context(clean(disk, salt=f"g{sess}"))
                    sess += 1
                    portal = pth.PureCodePortal("/mem/0")
                    known = "bare" if step[0] == "bare" else "defs"
                    if known == "defs":
                        with portal:
                            g = {n: pth.strictly_autonomous()(guard_src(n, versions[n])) for n in "ab"}
                            fns = dict(f=pth.pure(guards=given(way, gs, g))(F), k=pth.pure()(K))
                            for n, fn in fns.items():
                                for x in A.values():
                                    addrs[n, key(x)] = str_of(fn.get_address(x=x))
                elif step[0] == "verdict":
                    rejected ^= {(step[1], A[step[2]] if not isinstance(A[step[2]], list) else None)}
                    mcprobe.reject = Reject(rejected)
                else:
                    _, route, fn, xn = step
                    x = A[xn]
                    del mcprobe.ran[:]
                    accept = all((gn, None if isinstance(x, list) else x) not in rejected for gn in gs)
                    runs = []
                    ver = tuple(versions[n] for n in gs)

                    def model(fn):
                        kk = fn, key(x), ver
                        if kk in done:
                            return
                        if fn == "f":
                            if not accept:
                                raise AssertionError
                            runs.append("f")
                        else:
                            runs.append("k")
                            model("f")
                        done[kk] = 1
                    if route == "can":
                        got = attempt(lambda: fns[fn].can_be_executed(x=x) if known == "defs"
                                      else addr(addrs[fn, key(x)], portal).can_be_executed)
                        want = ("ok", accept if fn == "f" else True)
                    else:
                        try:
                            model(fn)
                            want = ("ok", ["f", x] if fn == "f" else ["k", ["f", x]])
                        except AssertionError:
                            want = ("exc", "AssertionError")
                        got = attempt(call, route, fns.get(fn) if known == "defs" else None, x, addrs[fn, key(x)], portal)
                    expect(got[:2] == want, "refused-although-accepted" if got[0] == "exc" else "ran-although-refused",
                           lambda: f"{hist}: {got}, expected {want}")
                    real = [r[0] for r in mcprobe.ran if r[0] in "fk"]
                    expect(real == runs, "body-runs", lambda: f"{hist}: ran {real}, expected {runs}")
                    if "f" in runs:
                        asked = {r[0] for r in mcprobe.ran if r[0] in "ab"}
                        expect(asked == set(gs), "guard-not-asked", lambda: f"{hist}: asked {asked} of {gs}")
                        at = [i for i, r in enumerate(mcprobe.ran) if r[0] == "f"][0]
                        expect(set(r[0] for r in mcprobe.ran[:at]) - {"k"} == set(gs), "guard-asked-late", lambda: f"{hist}")
                    for r in mcprobe.ran:
                        expect(r[1] == x, "guard-got-wrong-arguments", lambda: f"{hist}: {mcprobe.ran}")
                    expect(portal not in pth.BasicPortal.get_entered_portals(), "portal-left-active", lambda: f"{hist}")
        finally:
            mcprobe.reject = Reject(())
            st.close()
    ops = [("call", r, fn, x) for r in (("call", "run", "exec", "strings", "can") if known == "defs" else ("strings", "can"))
           for fn in ("f", "k") for x in A]
    ops += [("verdict", g, x) for g in gs for x in A] + [("restart",), ("bare",)] + [("newcode", g) for g in gs]
    return h((gset, sorted(map(str, rejected)), sorted(versions.items()), sorted(map(str, done)), known, sess > 1,
              sorted(known_names(portal)))), ops


def known_names(portal):
    return [n for isl in portal.known_functions.values() for n in isl]


def given(way, gs, g):
    if way == "objects":
        return [g[n] for n in gs] if gs else None
    if way == "names":
        return list(gs) if gs else None
    if way == "reversed":
        return [g[n] for n in reversed(gs)]
    if way == "mixed":
        return [g[n] if i else n for i, n in enumerate(gs)]
    if way == "single":
        return g[gs[0]] if gs else None
    if way == "single-name":
        return gs[0] if gs else None


def str_of(a):
    return a.prefix, a.hash_signature


def addr(strings, portal):
    with portal:
        return pth.PureFnExecutionResultAddr.from_strings(prefix=strings[0], hash_signature=strings[1],
                                                          assert_readiness=False)


def call(route, f, x, strings, portal):
    if route == "call":
        return f(x=x)
    if route == "run":
        return f.run(x=x).get()
    if route == "exec":
        return f.get_address(x=x).execute()
    return addr(strings, portal).execute()


OFFERS = {
    "strict": (True, "def q(x):\n    return x\n", "strictly_autonomous", None, "Samos", 0),
    "strict-helper-known": (True, "def q(x):\n    return x\n", "strictly_autonomous", "def z(x):\n    return x\n", "Samos", 0),
    "auto-with-dependency": (False, "def q(x):\n    return z(x=x)\n", "autonomous", "def z(x):\n    return x\n", "Samos", 0),
    "auto-with-dependency-called": (False, "def q(x):\n    return z(x=x)\n", "autonomous", "def z(x):\n    return x\n", "Samos", 1),
    "pure-with-dependency": (False, "def q(x):\n    return z(x=x)\n", "pure", "def z(x):\n    return x\n", "Samos", 0),
    "pure-with-dependency-called": (False, "def q(x):\n    return z(x=x)\n", "pure", "def z(x):\n    return x\n", "Samos", 1),
    "other-island": (False, "def q(x):\n    return x\n", "strictly_autonomous", None, "Lesbos", 0),
    "other-island-known": (False, "def q(x):\n    return x\n", "strictly_autonomous", "def z(x):\n    return x\n", "Lesbos", 0),
    "ordinary": (False, "def q(x):\n    return x\n", "ordinary", None, None, 0),
    "safe": (False, "def q(x):\n    return x\n", "safe", None, None, 0),
    "unknown": (False, None, None, None, None, 0),
    "not-a-function": (False, 17, None, None, None, 0),
}


def offer(case):
    name, way = case
    ok, src, dec, helper, island, called = OFFERS[name]
    with clean(), quiet():
        p = pth.PureCodePortal("/mem/0")
        with p:
            g = src
            if helper:
                pth.autonomous()(helper)
            if dec:
                kw = {} if island is None else dict(island_name=island)
                g = getattr(pth, dec)(**kw)(src)
                if called:
                    attempt(g, x=1)
            obj = g if g is not None else "q"
            if way in ("name", "names", "mixed") and not isinstance(obj, int):
                obj = "q"
            if way in ("objects", "names"):
                obj = [obj]
            if way == "mixed":
                ok2 = pth.strictly_autonomous()("def ok(x):\n    return 1\n")
                obj = [ok2, obj]
            if way == "tuple":
                return dict(states=1)
            r = attempt(lambda: pth.pure(guards=obj)(F))
            expect((r[0] == "ok") == ok, "guard-refused" if ok else "guard-of-wrong-kind-accepted",
                   lambda: f"{case}: {r}")
            if r[0] == "exc":
                expect("f" not in p.known_functions.get("Samos", {}), "refused-function-registered", lambda: f"{case}")
            else:
                expect(attempt(r[1], x=1) == ("ok", ["f", 1]), "guard-refused", lambda: f"{case}")
    return dict(states=1, transitions=2, sigs=(name,))


REFUSALS = ["raise ValueError", "raise KeyError(x)", "assert False", "assert x > 10 ** 9, 'small'", "1 / 0", "undefined_name",
            "import no_such_module_zz", "raise SystemExit(0)", "raise SystemExit", "import sys; sys.exit(0)", "x.y", "x()", "x['a']",
            "raise GeneratorExit", "raise BaseException('b')", "raise StopIteration", "raise ExceptionGroup('g', [ValueError()])",
            "raise BaseExceptionGroup('g', [SystemExit()])", "raise RecursionError", "raise MemoryError", "raise Warning",
            "raise NotImplementedError", "raise AttributeError('portal')", "raise KeyError('f')",
            "class Own(Exception):\n        pass\n    raise Own", "class Own(BaseException):\n        pass\n    raise Own",
            "try:\n        raise ValueError\n    finally:\n        x = 2", "next(iter([]))", "[][0]", "q(y=x)", "q()",
            "raise TimeoutError"]
ACCEPTS = ["return None", "return False", "return 0", "return ''", "return []", "return x", "return ValueError", "return True", "pass",
           "try:\n        raise ValueError\n    except ValueError:\n        pass", "raise_ = 1", "return float('nan')", "print(x)"]


def verdict(case):
    """Whatever a guard raises refuses; whatever it returns accepts. In every position among two guards."""
    body, refuses, other, first = case
    with clean(), quiet():
        p = pth.PureCodePortal("/mem/0")
        with p:
            q = pth.strictly_autonomous()(f"def q(x):\n    {body}\n")
            gs = [q]
            if other:
                o = pth.strictly_autonomous()(f"def {other}(x):\n    return 1\n")
                gs = [q, o] if first else [o, q]
            f = pth.pure(guards=gs)(F)
            k = pth.pure()(K)
            a = f.get_address(x=3)
            for i in range(2):
                can = attempt(f.can_be_executed, x=3)
                if not i or refuses:
                    expect(can == ("ok", not refuses), "wrong-verdict", lambda: f"{case}: {can}")
                can = attempt(lambda: a.can_be_executed)
                expect(can == ("ok", not refuses), "wrong-verdict", lambda: f"{case}: {can}")
                expect(pth.BasicPortal.get_most_recently_entered_portal() is p, "portal-left-active", lambda: f"{case}")
                del mcprobe.ran[:]
                for call in (lambda: f(x=3), lambda: f.run(x=3).get(), lambda: k(x=3)[1], lambda: addr(str_of(a), p).execute()):
                    r = attempt(call)
                    if refuses:
                        expect(r[0] == "exc" and r[1] == "AssertionError", "ran-although-refused", lambda: f"{case}: {r}")
                    else:
                        expect(r == ("ok", ["f", 3]), "refused-although-accepted", lambda: f"{case}: {r}")
                runs = [r for r in mcprobe.ran if r[0] == "f"]
                expect(len(runs) == (0 if refuses or i else 1), "body-runs", lambda: f"{case}: {runs}")
                if refuses:
                    expect(not a.ready, "result-of-refused", lambda: f"{case}")
    return dict(states=2, transitions=12, sigs=(body, refuses))


def orders(case):
    """The same guards listed in another order make the same function, in the same session and in a later one."""
    names, forms = case
    salt, first, want = 0, None, None
    with clean(salt="0") as disk, quiet():
        pass
    for perms in itertools.permutations(itertools.permutations(names), 2) if len(names) > 1 else [((tuple(names)), tuple(names))]:
        with clean(disk, salt=str(salt)), quiet():
            salt += 1
            p = pth.PureCodePortal("/mem/p")
            got = []
            with p:
                fs = {n: pth.strictly_autonomous()(f"def {n}(x):\n    import mcprobe\n    mcprobe.note('{n}', x)\n") for n in sorted(names)}
                for perm in perms:
                    gs = [fs[n] if m == "f" else n for n, m in zip(perm, forms)]
                    f = attempt(lambda: pth.pure(guards=gs)(F))
                    expect(f[0] == "ok", "order-of-guards-matters", lambda: f"{case} {perm}: {f}")
                    a = f[1].get_address(x=1)
                    got.append((a.prefix, a.hash_signature))
                    ready = a.ready
                    expect(ready == (first is not None), "order-of-guards-matters", lambda: f"{case} {perm}: {ready}")
                    del mcprobe.ran[:]
                    expect(f[1](x=1) == ["f", 1], "wrong-value", lambda: f"{case} {perm}")
                    ran = sorted(r[0] for r in mcprobe.ran)
                    expect(ran == ([] if ready else sorted([*names, "f"])), "guard-not-asked", lambda: f"{case} {perm}: {ran}")
                    first = first or got[0]
                # another set of guards is another function, and the name is taken
                for other in (None, [], list(names)[1:], [*names, "zz"]):
                    if other is not None and "zz" in other:
                        pth.strictly_autonomous()("def zz(x):\n    return 1\n")
                    r = attempt(lambda: pth.pure(guards=other)(F))
                    expect(r[0] == "exc", "other-guards-accepted", lambda: f"{case}: {other}: {r}")
                    a = p.known_functions["Samos"]["f"].get_address(x=1)
                    expect((a.prefix, a.hash_signature) == first, "other-guards-accepted", lambda: f"{case}: {other}")
            expect(set(got) == {first}, "order-of-guards-matters", lambda: f"{case} {perms}: {got} {first}")
    return dict(states=salt, transitions=2 * salt, sigs=(first,))


def run(ctx):
    ctx.run_cases(orders, [[list(ns), form] for ns in (["a"], ["a", "b"], ["b", "ab"], ["a", "b", "c"], ["z", "B", "_a"])
                           for form in itertools.product("fn", repeat=len(ns))])
    ctx.run_cases(verdict, [(b, r, o, first) for bs, r in ((REFUSALS, 1), (ACCEPTS, 0)) for b in bs
                            for o, first in (("", 1), ("a", 0), ("a", 1), ("z", 0), ("z", 1))], batch=4)
    q = ctx.quick
    starts = [(("start", "", "objects"),)]
    ways = ["objects", "names", "reversed", "mixed"]
    starts += [(("start", "a", w),) for w in ("single", "single-name")] + [(("start", "b", "objects"),)]
    starts += [(("start", "ab", w),) for w in ways]
    ctx.run_cases(offer, [(o, w) for o in OFFERS for w in ("object", "objects", "name", "names", "mixed")], batch=2)
    for s in starts:
        ctx.bfs(machine, (2 if len(s[0][1]) == 2 and s[0][2] != "mixed" else 3) if q else 4, batch=8, prefixes=[s])


def replay(case):
    if len(case) == 2 and isinstance(case[0], list) and all(isinstance(x, str) for x in case[0]):
        return print(orders(case))
    if isinstance(case[0], str) and len(case) == 4:
        print(verdict(tuple(case)))
    elif case[0] in OFFERS:
        print(offer(tuple(case)))
    else:
        print(machine(tuple(tuple(o) for o in case)))
