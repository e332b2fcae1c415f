"""Every history of calls by every route, restarts, portal switches and failures, next to a model of what is remembered."""
import contextlib

import pythagoras as pth

import mcprobe
from mc.world import attempt, clean, expect, h, quiet

META = dict(level="model_checking",
            rule="one state = (calls remembered by each portal, failing or not, portals known to the session, functions "
                 "used in it); the number of body runs and the value returned are compared with the model at every step",
            bounds="2 functions (one calling the other) x 2 argument sets x 10 routes x 2 portals, restarts with one or both "
                   "portals, switching failure on and off: depth 3 (quick) / 5; consistency checks 0, 1 and None with "
                   "changing results: depth 4 / 6; every list of up to 3 (5) of 4 calls, long lists, grids of 1-3 "
                   "parameters with 1-40 values, repeated ones included",
            assumptions=["bodies report their runs to the harness through an imported module"])

SRC = dict(f="def f(a, b):\n    import mcprobe\n    mcprobe.note('f', str(a), str(b))\n    if mcprobe.go:\n"
             "        raise ValueError('on demand')\n    return {'f': [a, [b], mcprobe.v]}\n",
           k="def k(a, b):\n    import mcprobe\n    mcprobe.note('k', str(a), str(b))\n"
             "    return ['k', f(a=a, b=b), f(b=b, a=a)]\n")
mcprobe.v = 0
ROUTES = ["call", "rev", "addrs", "run", "exec", "strings", "list", "grid", "slist", "sgrid"]


def args(n):
    return [dict(a=1, b="2"), dict(a=[1, "é"], b={"z": (None, 2.5), "a": []})][n]


def result(fn, n, v=0):
    a = args(n)
    r = {"f": [a["a"], [a["b"]], v]}
    return r if fn == "f" else ["k", r, {"f": [a["a"], [a["b"]], v]}]


def spoil(v):
    """Modify everything reachable in a value that was returned."""
    if isinstance(v, list):
        for x in v:
            spoil(x)
        v.append("spoiled")
    elif isinstance(v, dict):
        for x in list(v.values()):
            spoil(x)
        v["spoiled"] = 1


def invoke(f, route, n):
    """[value per requested argument set]"""
    kw = args(n)
    if route == "call":
        return [f(**kw)]
    if route == "rev":
        return [f(**dict(reversed(list(kw.items()))))]
    if route == "addrs":
        with f.portal:
            return [f(**{k: pth.ValueAddr(v) for k, v in kw.items()})]
    if route == "run":
        return [f.run(**kw).get()]
    if route == "exec":
        return [f.get_address(**kw).execute()]
    if route == "strings":
        a = f.get_address(**kw)
        with f.portal:
            return [type(a).from_strings(prefix=a.prefix, hash_signature=a.hash_signature, assert_readiness=False).execute()]
    wants = [args(m) for m in wanted(route, n)]
    if route in ("list", "slist"):
        addrs = (f.run_list if route == "list" else f.swarm_list)([kw, *wants[1:-1], dict(reversed(list(wants[-1].items())))])
    else:
        addrs = (f.run_grid if route == "grid" else f.swarm_grid)({k: [v] for k, v in kw.items()})
    same = [f.get_address(**w) for w in wants]
    expect(len(addrs) == len(same) and all(a == b and hash(a) == hash(b) for a, b in zip(addrs, same)), "other-address",
           lambda: f"{route}: {addrs} instead of {same}")
    if route[0] == "s":
        for a in same:
            a.execute()
    expect(all(a.ready and not a.execution_requested for a in addrs), "result-not-found",
           lambda: f"{route}: {[(a.ready, a.execution_requested) for a in addrs]}")
    return [a.get() for a in addrs]


def wanted(route, n):
    return [n, 1 - n, n] if route in ("list", "slist") else [n]


class World:
    """The model."""

    def __init__(self, n):
        self.done = [dict() for _ in range(n)]     # per portal: (fn, args) -> v

    def call(self, known, p, fn, n, failing, v, runs):
        """Returns v of the answer; raises ValueError; appends to runs."""
        key = fn, n
        if key not in self.done[p]:
            for o in known:
                if key in self.done[o]:
                    self.done[p][key] = self.done[o][key]
                    break
        if key in self.done[p]:
            return self.done[p][key]
        runs.append(key)
        if fn == "k":
            r = self.call(known, p, "f", n, failing, v, runs)
        else:
            if failing:
                raise ValueError
            r = v
        self.done[p][key] = r
        return r


alph = "main"


def machine(hist):
    w = World(2)
    st = contextlib.ExitStack()
    disk = None
    known, fns, used, failing, n_session = (), {}, set(), False, 0
    mcprobe.go = False
    mcprobe.v = 0

    def session(which):
        nonlocal disk, known, fns, st, used, n_session
        st.close()
        st = contextlib.ExitStack()
        disk = st.enter_context(clean(disk, salt=str(n_session)))
        n_session += 1
        known, used, fns = which, set(), {}
        portals = {p: pth.PureCodePortal(f"/mem/{p}") for p in which}
        for p, po in portals.items():
            with po:
                for name in SRC:
                    fns[p, name] = pth.pure()(SRC[name])

    with quiet():
        try:
            session((0,))
            for step in hist:
                if step[0] == "restart":
                    session(tuple(step[1]))
                    continue
                if step[0] == "fail":
                    failing = not failing
                    mcprobe.go = failing
                    continue
                _, route, fn, n, p = step
                del mcprobe.ran[:]
                runs, want = [], []
                try:
                    for m in wanted(route, n):
                        want.append((m, w.call(known, p, fn, m, failing, 0, runs)))
                except ValueError:
                    want = None
                got = attempt(invoke, fns[p, fn], route, n)
                real = sorted((r[0], 0 if r[1] == "1" else 1) for r in mcprobe.ran)
                expect(real == sorted(runs), "body-reran" if len(real) > len(runs) else "body-did-not-run",
                       lambda: f"{hist}: ran {real}, expected {sorted(runs)}: {got}")
                if want is None:
                    expect(got[:2] == ("exc", "ValueError"), "failure-lost", lambda: f"{hist}: {got}")
                else:
                    expect(got == ("ok", [result(fn, m) for m, _ in want]), "wrong-value", lambda: f"{hist}: {got}")
                if got[0] == "ok":
                    spoil(got[1])
                used.add((p, fn))
        finally:
            mcprobe.go = False
            st.close()
    ops = [("call", r, fn, n, p) for r in ROUTES for fn in SRC for n in (0, 1) for p in known
           if not (r in ("list", "slist") and failing)]
    ops += [("fail",)] + [("restart", r) for r in ((0,), (1,), (0, 1))]
    return h(([sorted(d) for d in w.done], failing, known, sorted(used))), ops


def checked(hist):
    """Consistency checks: P in (None, 0, 1), results that change between runs."""
    p = hist[0][1]
    done = {}
    st = contextlib.ExitStack()
    mcprobe.v = v = 0
    sess = 0
    with quiet():
        try:
            disk = None
            for step in (("restart", p),) + tuple(hist[1:]):
                if step[0] == "restart":
                    p = step[1]
                    st.close()
                    st = contextlib.ExitStack()
                    disk = st.enter_context(clean(disk, salt=f"c{sess}"))
                    sess += 1
                    portal = pth.PureCodePortal("/mem/0", p_consistency_checks=p)
                    with portal:
                        f = pth.pure()(SRC["f"])
                        k = pth.pure()(SRC["k"])
                    fns = dict(f=f, k=k)
                elif step[0] == "v":
                    mcprobe.v = v = 1 - v
                else:
                    _, route, fn, n = step
                    del mcprobe.ran[:]
                    got = attempt(invoke, fns[fn], route, n)

                    def call(fn, n):
                        if (fn, n) in done and p != 1:
                            return done[fn, n]
                        runs.append(fn)
                        if fn == "k":
                            r = call("f", n)
                            assert call("f", n) == r
                        else:
                            r = v
                        if done.setdefault((fn, n), r) != r:
                            raise ValueError
                        return r
                    runs = []
                    try:
                        want = [result(fn, m, call(fn, m)) for m in wanted(route, n)]
                    except ValueError:
                        want = None
                    real = [r[0] for r in mcprobe.ran]
                    if want is None:
                        expect(got[0] == "exc", "differing-result-accepted", lambda: f"{hist}: {got}")
                        expect(len(real) > 0, "no-consistency-check", lambda: f"{hist}")
                    else:
                        expect(got == ("ok", want), "wrong-value", lambda: f"{hist}: {got}, expected {want}")
                        expect(sorted(real) == sorted(runs), "body-reran" if len(real) > len(runs) else "no-consistency-check",
                               lambda: f"{hist}: {real}, expected {runs}")
                    if got[0] == "ok":
                        spoil(got[1])
        finally:
            mcprobe.v = 0
            st.close()
    ops = [("call", r, fn, n) for r in ("call", "strings", "exec") for fn in SRC for n in (0,)]
    ops += [("v",)] + [("restart", x) for x in (None, 0, 1)]
    return h((p, v, sorted(done.items()))), ops


G = ("def f(a=0, b=0, c=0):\n    import mcprobe\n    mcprobe.note('f', str((a, b, c)))\n    return [a, b, c]\n")


def bulk(case):
    """Lists and grids of calls: every shape up to a size; each distinct call once, each address that of its call."""
    kind, shape, lo = case
    import itertools
    n = 0
    with clean(salt="bulk"), quiet():
        p = pth.PureCodePortal("/mem/p")
        with p:
            f = pth.pure()(G)
        if kind == "grid":
            grids = [dict(zip("abc", [[f"v{x}" if j == 1 else x for x in vs] for j, vs in enumerate(vals)]))
                     for vals in itertools.product(*[SHAPES[s] for s in shape])]
            batches = [(g, [dict(zip(g, t)) for t in itertools.product(*g.values())]) for g in grids]
        else:
            calls = [dict(a=1), dict(b=1, a=1), dict(a=1, b=2), dict(c=[1])]
            batches = [(c, [dict(x) for x in c]) for c in
                       [[calls[i] for i in t] for t in itertools.product(range(4), repeat=shape)]] if shape < 9 else [
                       ([dict(a=i % 97) for i in range(shape)], [dict(a=i % 97) for i in range(shape)])]
        for i, (given, wanted) in enumerate(batches):
            for way in ("swarm", "run"):
                n += 1
                base = 1000 * (lo + 2 * i + (way == "run"))

                def fresh(kw):       # arguments no earlier call had
                    return {k: [base, v] for k, v in kw.items()}
                if kind == "grid":
                    arg = {k: [[base, v] for v in vs] for k, vs in given.items()}
                else:
                    arg = [fresh(kw) for kw in given]
                before = repr(arg)
                del mcprobe.ran[:]
                addrs = attempt(getattr(f, f"{way}_{kind}"), arg)
                why = f"{way}_{kind}({before[:200]})"
                expect(addrs[0] == "ok", "call-fails", lambda: f"{why}: {addrs}")
                addrs = addrs[1]
                expect(repr(arg) == before, "arguments-changed", lambda: f"{why}: {arg}")
                same = [f.get_address(**fresh(kw)) for kw in wanted]
                if kind == "list":
                    expect(len(addrs) == len(same) and all(x == y for x, y in zip(addrs, same)), "other-address", lambda: why)
                else:
                    expect(sorted(map(str, (x.hash_signature for x in addrs))) == sorted(x.hash_signature for x in same),
                           "other-address", lambda: f"{why}: {len(addrs)} addresses, {len(same)} expected")
                distinct = {repr(sorted(fresh(kw).items())) for kw in wanted}
                if way == "swarm":
                    expect(not mcprobe.ran, "ran-at-once", lambda: why)
                    expect(all(x.execution_requested and not x.ready for x in addrs), "not-requested", lambda: why)
                    expect(len(p.execution_requests) == len({x.hash_signature for x in same}), "not-requested", lambda: why)
                    for x in addrs:
                        x.drop_execution_request()
                else:
                    expect(len(mcprobe.ran) == len(distinct), "body-reran" if len(mcprobe.ran) > len(distinct)
                           else "body-did-not-run", lambda: f"{why}: {len(mcprobe.ran)} runs for {len(distinct)} calls")
                    expect(len(p.execution_requests) == 0, "request-left", lambda: why)
                    for x, kw in zip(same, wanted):
                        kw = fresh(kw)
                        expect(x.get() == [kw.get(k, 0) for k in "abc"], "wrong-value", lambda: f"{why}: {kw}: {x.get()}")
    return dict(states=n, transitions=n, sigs=(str(case),))


SHAPES = {0: [[]], 1: [[1]], 2: [[1, 2], [2, 2]], 3: [[1, 2, 3], [1, 2, 1]], 5: [[5, 4, 3, 2, 1]], 12: [list(range(12))], 40: [list(range(40))]}


def run(ctx):
    q = ctx.quick
    import itertools
    cases = [("list", n, 0) for n in ((0, 1, 2, 3, 100, 300) if q else (0, 1, 2, 3, 4, 5, 100, 300, 1000))]
    cases += [("grid", s, 0) for r in (1, 2, 3) for s in itertools.product((1, 2, 3, 5) if r == 3 else SHAPES, repeat=r)
              if 0 not in s and (r < 3 or not q or max(s) < 5) and (r < 2 or max(s) * min(s) < 100)]
    ctx.run_cases(bulk, cases)
    ctx.bfs(machine, 3 if q else 5, batch=8)
    ctx.bfs(checked, 5 if q else 7, batch=8, prefixes=[(("restart", x),) for x in (None, 0, 1)])


def replay(case):
    if case[0] in ("list", "grid"):
        return print(bulk([case[0], case[1], case[2]]))
    case = tuple(tuple(tuple(x) if isinstance(x, list) else x for x in o) for o in case)
    (checked if case[0][0] == "restart" and case[0][1] in (None, 0, 1) else machine)(case)
