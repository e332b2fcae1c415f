"""Every history of storing, addressing, checking, retrieving and restarting over several portals."""
import copy
import itertools
import pickle

import pythagoras as pth

from mc.world import attempt, clean, expect, h, quiet

META = dict(level="model_checking",
            rule="one state = (who has which value, the addresses held with their portals and what they have "
                 "seen, the known portals); every operation under every active portal from every state",
            bounds="2 values, 2-3 portals, histories up to 5 (quick) / 7 (thorough) operations; a value in every "
                   "subset of 2-4 (quick) / 5 portals, looked for in 7 ways from each of them",
            assumptions=["values are not modified in place while stored"])

VALUES = [[1, [2, "x"]], {"a": (1, 2.5), "b": None}]
N = 2
NO_ADDR = None


class World:
    def __init__(self, disk):
        self.disk = disk
        self.known = []             # indices in order of creation in this session
        self.portals = {}
        self.has = [set() for _ in VALUES]      # the model: which portals' stores have the value
        self.slot = [None] * len(VALUES)        # the real address held
        self.own = [None] * len(VALUES)         # the model: its portal
        self.seen = [""] * len(VALUES)          # the model: what it may have cached

    def create(self, i):
        self.portals[i] = pth.DataPortal(f"/mem/p{i}")
        self.known.append(i)

    def restart(self, known):
        from pythagoras import _PortalTester, BasicPortal
        blobs = [pickle.dumps(a) if a is not None else None for a in self.slot]
        BasicPortal._clear_all()
        self.known, self.portals = [], {}
        for i in known:
            self.create(i)
        for v, b in enumerate(blobs):
            self.slot[v] = self.own[v] = None
            self.seen[v] = ""
        return blobs


def real_has(w, v):
    """Which of the known portals have the value, by a fresh look at the disk."""
    a = ADDRS[v]
    return {i for i in w.known
            if any(p.startswith(f"/mem/p{i}/value_store/") and a[0] in p and a[1] in p for p in w.disk.items)}


ADDRS = {}


def prepare():
    with clean(), quiet():
        pth.DataPortal("/mem/z")
        for v, x in enumerate(VALUES):
            a = pth.ValueAddr(copy.deepcopy(x))
            ADDRS[v] = (a.prefix, a.hash_signature)


def available(w, v):
    return bool(w.has[v] & set(w.known))


def apply(w, op):
    kind = op[0]
    before = {p: d for p, d in w.disk.items.items() if "/value_store/" in p}
    may_copy = set()        # (value, portal) that may appear
    must = set()
    if kind == "create":
        w.create(op[1])
    elif kind == "restart":
        w.restart(op[1])
    else:
        v, act = op[1], op[2]
        p = w.portals[act]
        with p:
            if kind == "store":
                por = op[3]
                x = copy.deepcopy(VALUES[v])
                a = pth.ValueAddr(x) if por is None else pth.ValueAddr(x, portal=w.portals[por])
                own = act if por is None else por
                expect((a.prefix, a.hash_signature) == ADDRS[v], "address-differs", f"{a}")
                expect(a.portal is w.portals[own], "address-portal", f"{op}")
                w.slot[v], w.own[v], w.seen[v] = a, own, "rv"
                must.add((v, own))
            elif kind in ("addr", "strict"):
                r = attempt(pth.ValueAddr.from_strings, prefix=ADDRS[v][0], hash_signature=ADDRS[v][1],
                            assert_readiness=kind == "strict")
                if kind == "strict":
                    expect((r[0] == "ok") == available(w, v), "assert-readiness", lambda: f"{op}: {r}, {w.has}")
                    may_copy.add((v, act))
                else:
                    expect(r[0] == "ok", "from-strings", lambda: str(r))
                if r[0] == "ok":
                    expect(r[1].portal is p, "address-portal", f"{op}")
                    w.slot[v], w.own[v], w.seen[v] = r[1], act, "r" if kind == "strict" else ""
            elif kind == "pickle":
                a = pickle.loads(pickle.dumps(w.slot[v]))
                expect(a == w.slot[v] and hash(a) == hash(w.slot[v]), "pickled-address-differs")
                expect(a.portal is p, "unpickled-portal", f"{op}")
                w.slot[v], w.own[v], w.seen[v] = a, act, ""
            elif kind == "copy":
                a = copy.copy(w.slot[v])
                expect(a == w.slot[v] and a.portal is w.portals[w.own[v]], "copied-address-differs")
                w.slot[v], w.seen[v] = a, ""
            elif kind == "readdr":
                r = attempt(pth.ValueAddr, w.slot[v])
                if available(w, v):
                    expect(r[0] == "ok", "readdress", lambda: f"{op}: {r}")
                    a = r[1]
                    expect(a == w.slot[v] and a.portal is p, "readdressed-differs", f"{op}")
                    may_copy |= {(v, act), (v, w.own[v])}
                    if w.own[v] != act:
                        must.add((v, act))
                    w.slot[v], w.own[v], w.seen[v] = a, act, "r"
                else:
                    expect(r[0] == "ok" or r[1] == "KeyError", "readdress", lambda: f"{op}: {r}")
                    if r[0] == "ok":
                        w.slot[v], w.own[v], w.seen[v] = r[1], act, "?"
            elif kind == "ready":
                r = attempt(lambda: w.slot[v].ready)
                expect(r == ("ok", available(w, v)), "ready",
                       lambda: f"{op}: {r}; stores {w.has}, address belongs to {w.own[v]}, known {w.known}")
                may_copy.add((v, w.own[v]))
                if r[1]:
                    w.seen[v] = "r" if w.seen[v] == "" else w.seen[v]
            elif kind in ("get", "typed"):
                if kind == "typed":
                    r = attempt(w.slot[v].get_typed, type(VALUES[v]))
                else:
                    r = attempt(w.slot[v].get)
                if available(w, v):
                    expect(r == ("ok", VALUES[v]), "get",
                           lambda: f"{op}: {r}; stores {w.has}, address belongs to {w.own[v]}")
                    must.add((v, w.own[v]))
                    w.seen[v] = "rv"
                    if kind == "typed":
                        bad = attempt(w.slot[v].get_typed, int)
                        expect(bad[0] == "exc", "get-typed-wrong-type", lambda: str(bad))
                else:
                    expect(r[0] == "exc" and r[1] == "KeyError", "get-missing", lambda: f"{op}: {r}")
        expect(pth.BasicPortal.get_most_recently_entered_portal() is None, "portal-left-active", f"{op}")
    after = {p: d for p, d in w.disk.items.items() if "/value_store/" in p}
    for path, d in before.items():
        expect(path in after and after[path][0] == d[0], "stored-value-changed", lambda: f"{op}: {path}")
    for v in range(len(VALUES)):
        real = real_has(w, v)
        known = set(w.known)
        old = w.has[v] & known
        new = real - old
        expect(real >= old, "value-lost", f"{op}")
        for i in new:
            expect((v, i) in must | may_copy, "value-appeared-elsewhere", lambda: f"{op}: value {v} in portal {i}")
        for mv, mi in must:
            if mv == v:
                expect(mi in real, "value-not-stored", lambda: f"{op}: value {v} not in portal {mi}")
        w.has[v] |= real
    n_files = sum(len(w.has[v]) for v in range(len(VALUES)))
    expect(len(after) == n_files, "extra-values", lambda: f"{op}: {sorted(after)}")


def machine(hist):
    with clean() as disk, quiet():
        w = World(disk)
        for i in range(2):
            w.create(i)
        for op in hist:
            apply(w, op)
        # whatever happened, every stored value reads back from scratch
        for i in w.known:
            for v in range(len(VALUES)):
                if i in w.has[v]:
                    with w.portals[i]:
                        got = attempt(lambda: w.portals[i].value_store[pth.ValueAddr.from_strings(
                            prefix=ADDRS[v][0], hash_signature=ADDRS[v][1], assert_readiness=False)])
                        expect(got == ("ok", VALUES[v]), "stored-value-unreadable", lambda: f"{hist}: {got}")
        ops = []
        for i in range(N):
            if i not in w.known:
                ops.append(("create", i))
        for v in range(len(VALUES)):
            for act in w.known:
                ops += [("store", v, act, None), ("addr", v, act), ("strict", v, act)]
                if act == w.known[0]:
                    ops += [("store", v, act, o) for o in w.known if o != act]
                if w.slot[v] is not None:
                    ops += [(k, v, act) for k in ("pickle", "readdr", "ready", "get")]
                    if act == w.known[0]:
                        ops += [("copy", v, act), ("typed", v, act)]
        ops += [("restart", k) for k in ((0, 1), (1,), (1, 0))]
        if N == 3:
            ops += [("restart", (2, 0))]
        canon = h((w.known, [sorted(s) for s in w.has], w.own, w.seen))
        return canon, ops


HOW = ["ready", "get", "typed", "strict", "readdr", "pickle", "constructed"]


def spread(case):
    """A value in any subset of n portals, looked for from any of them (or from one that is not entered)."""
    n, order, holders = case
    k = 0
    for v in range(len(VALUES)):
        for own in order:
            for act in (*order, None, "nested"):
                for how in HOW:
                    with clean() as disk, quiet():
                        portals = {i: pth.DataPortal(f"/mem/p{i}") for i in order}
                        for i in holders:
                            with portals[i]:
                                pth.ValueAddr(copy.deepcopy(VALUES[v]))
                        pre, sig = ADDRS[v]
                        msg = lambda: f"value {v} in {holders} of {order}, address of {own}, active {act}, {how}"  # noqa: E731
                        make = lambda portal, strict=False: pth.ValueAddr.from_strings(                             # noqa: E731
                            prefix=pre, hash_signature=sig, portal=portal, assert_readiness=strict)

                        def go():
                            a = make(portals[own])
                            if how == "ready":
                                return a.ready
                            if how == "get":
                                return a.get()
                            if how == "typed":
                                return a.get_typed(type(VALUES[v]))
                            if how == "strict":
                                make(portals[own], True)
                                return VALUES[v]
                            if how == "readdr":
                                return pth.ValueAddr(a, portal=portals[own]).get()
                            if how == "pickle":
                                with portals[own]:
                                    return pickle.loads(pickle.dumps(a)).get()
                            return pth.ValueAddr(copy.deepcopy(VALUES[v]), portal=portals[own]).get()
                        if act is None:
                            r = attempt(go)
                        elif act == "nested":
                            with portals[order[0]]:
                                with portals[order[-1]]:
                                    r = attempt(go)
                        else:
                            with portals[act]:
                                r = attempt(go)
                        there = bool(holders) or how == "constructed"
                        want = there if how == "ready" else VALUES[v]
                        if there or how == "ready":
                            expect(r == ("ok", want), "not-found", lambda: f"{msg()}: {r}")
                            if how != "ready":
                                got = {i for i in order if any(f"/mem/p{i}/value_store/" in x and sig in x for x in disk.items)}
                                if how != "strict":
                                    expect(own in got, "not-copied", msg)
                                expect(got <= set(holders) | {own, act if act in portals else own, order[-1] if act == "nested" else own},
                                       "copied-elsewhere", lambda: f"{msg()}: {got}")
                        else:
                            expect(r[0] == "exc", "found-nothing", lambda: f"{msg()}: {r}")
                        k += 1
    return dict(states=k, transitions=k, sigs=[h((n, holders))])


def run(ctx):
    global N
    prepare()
    cases = []
    for n in (2, 3, 4) if ctx.quick else (2, 3, 4, 5):
        for order in ([tuple(range(n)), tuple(range(n))[::-1], tuple(range(1, n)) + (0,)] if ctx.quick else
                      itertools.permutations(range(n)) if n < 5 else [tuple(range(n)), tuple(range(n))[::-1]]):
            for holders in itertools.chain(*(itertools.combinations(range(n), m) for m in range(n + 1))):
                cases.append((n, order, holders))
    ctx.run_cases(spread, cases, batch=2)
    N = 2
    ctx.bfs(machine, 5 if ctx.quick else 7, batch=16)
    ctx.bfs(machine, 2 if ctx.quick else 3, batch=64, dedupe=False)
    N = 3
    ctx.bfs(machine, 3 if ctx.quick else 5, batch=16)


def replay(case):
    global N
    prepare()
    N = 3
    if isinstance(case[0], int):
        return spread(tuple(case))
    return machine(tuple(tuple(tuple(x) if isinstance(x, list) else x for x in o) for o in case))
