"""Every history of creating, entering and leaving portals, next to a stack model."""
import sys

import pythagoras as pth
from pythagoras import BasicPortal

from mc.world import clean, expect, h, quiet

META = dict(level="model_checking",
            rule="one state = (portals created so far in order, current stack); every enabled operation "
                 "of every state is executed on fresh real portals",
            bounds="3 portals of 3 classes, or over one directory, histories up to 7 (quick) / 9 (thorough) operations, nesting <= 5, all left at once at any moment",
            assumptions=["portals live in the in-memory store"])

KINDS = (pth.LoggingPortal, pth.PureCodePortal, pth.SwarmingPortal)
BASE = (BasicPortal,) * 3
SHARED = (pth.LoggingPortal,) * 3       # all over one directory
kinds = KINDS
N = n_portals = 3


def make(i, disk):
    cls = kinds[i]
    if kinds is SHARED:
        return cls("/mem/same")
    return cls("/mem/p%d" % i, n_background_workers=0) if cls is pth.SwarmingPortal else cls("/mem/p%d" % i)


def classes():
    return [c for c in dict.fromkeys(c for k in kinds for c in k.__mro__) if issubclass(c, BasicPortal)]


def check(real, stack, created):
    cur = stack[-1] if stack else None
    got = BasicPortal.get_most_recently_entered_portal()
    expect(got is (real[cur] if cur is not None else None), "current-portal",
           lambda: f"active portal is {got}, expected portal {cur} of stack {stack}")
    ent = BasicPortal.get_entered_portals()
    expect(len(ent) == len(set(map(id, ent))) and {id(p) for p in ent} == {id(real[i]) for i in stack},
           "entered-portals", lambda: f"entered portals {ent} for stack {stack}")
    non = BasicPortal.get_noncurrent_portals()
    expect(len(non) == len(set(map(id, non))) and
           {id(p) for p in non} == {id(real[i]) for i in created if i != cur},
           "noncurrent-portals", lambda: f"{non} for stack {stack} created {created}")
    last = BasicPortal.get_most_recently_added_portal()
    expect(last is (real[created[-1]] if created else None), "most-recently-added")
    best = (real[cur] if cur is not None else real[created[-1]] if created else None)
    if best is not None:
        expect(BasicPortal.get_best_portal_to_use(None) is best, "best-portal",
               lambda: f"stack {stack} created {created}")
    for i in created:
        expect(BasicPortal.get_best_portal_to_use(real[i]) is real[i], "explicit-portal-wins")
    # asked through any class the answer belongs to, the answer is the same
    for cls in classes():
        if cur is None or isinstance(real[cur], cls):
            p = cls.get_most_recently_entered_portal()
            expect(p is (real[cur] if cur is not None else None), "current-portal",
                   lambda: f"{cls.__name__}: {p}, expected portal {cur} of stack {stack}")
            if best is not None:
                expect(cls.get_best_portal_to_use() is best, "best-portal", lambda: f"{cls.__name__}: stack {stack}")
        if all(isinstance(real[i], cls) for i in stack):
            q = cls.get_entered_portals()
            expect({id(p) for p in q} == {id(real[i]) for i in stack} and len(q) == len(set(stack)), "entered-portals",
                   lambda: f"{cls.__name__}: {q}")
        if all(isinstance(real[i], cls) for i in created if i != cur):
            q = cls.get_noncurrent_portals()
            expect({id(p) for p in q} == {id(real[i]) for i in created if i != cur}, "noncurrent-portals",
                   lambda: f"{cls.__name__}: {q}")


def machine(hist):
    with clean() as disk, quiet():
        real, created, stack, left = {}, [], [], 0
        for op in hist:
            kind, i = op
            if kind == "create":
                real[i] = make(i, disk)
                created.append(i)
            elif kind == "enter":
                r = real[i].__enter__()
                expect(r is real[i], "enter-returns-the-portal")
                stack.append(i)
            elif kind == "exit_all":
                BasicPortal.__exit_all__()
                stack.clear()
                left += 1
                check(real, stack, created)
            else:
                exc = (None, None, None)
                if kind == "exit_exc":
                    try:
                        raise ValueError("boom")
                    except ValueError:
                        exc = sys.exc_info()
                legal = bool(stack) and stack[-1] == i
                try:
                    if kind == "exit_exc":
                        try:
                            raise exc[1]
                        except ValueError:
                            r = real[i].__exit__(*sys.exc_info())
                    else:
                        r = real[i].__exit__(*exc)
                    ok = True
                except Exception:
                    ok, r = False, None
                expect(ok == legal, "exit-out-of-order" if ok else "exit-refused",
                       lambda: f"{hist}: leaving portal {i} with stack {stack}")
                expect(not r, "exit-swallows-exceptions")
                if legal:
                    stack.pop()
        check(real, stack, created)
        ops = [("create", i) for i in range(n_portals) if i not in created]
        if len(stack) < 5:
            ops += [("enter", i) for i in created]
        ops += [(k, i) for i in created for k in ("exit", "exit_exc")]
        if stack and not left:
            ops.append(("exit_all", None))
        return h((created, stack, left)), ops


def default_case(case):
    """Nothing entered, nothing created: the default local portal is used, and only one exists."""
    with clean(), quiet():
        a = BasicPortal.get_best_portal_to_use()
        expect(type(a) is pth.DefaultLocalPortal, "default-portal")
        expect(BasicPortal.get_best_portal_to_use() is a and pth.DefaultLocalPortal() is a, "default-singleton")
        expect(BasicPortal.get_most_recently_entered_portal() is None, "default-not-entered")
        b = pth.LoggingPortal("/mem/x")
        expect(BasicPortal.get_best_portal_to_use() is b, "default-then-explicit")
        with a:
            expect(BasicPortal.get_best_portal_to_use() is a, "default-entered")
        return dict(states=1, transitions=4, sigs=["default"])


def tree_case(case):
    """Lexically nested with-blocks; the innermost one raises, an outer level catches."""
    seq, raise_at, catch_at = case
    with clean() as disk, quiet():
        real = {i: make(i, disk) for i in range(N)}
        created = list(range(N))
        stack = []

        def go(d):
            if d == len(seq):
                if raise_at:
                    raise KeyError("x")
                return
            with real[seq[d]] as p:
                expect(p is real[seq[d]], "with-as")
                stack.append(seq[d])
                try:
                    check(real, stack, created)
                    try:
                        go(d + 1)
                    except KeyError:
                        check(real, stack, created)
                        if d != catch_at:
                            raise
                    check(real, stack, created)
                finally:
                    stack.pop()
            check(real, stack, created)
        escaped = False
        try:
            go(0)
        except KeyError:
            escaped = True
            stack.clear()
        expect(escaped == (raise_at and catch_at < 0), "exception-propagation", f"{case}")
        check(real, [], created)
        return dict(states=1, transitions=2 * len(seq) + 1, sigs=[h(case)])


def tree_cases(depth):
    import itertools
    for n in range(1, depth + 1):
        for seq in itertools.product(range(N), repeat=n):
            for r in (0, 1):
                for c in range(-1, n if r else 0):
                    yield [list(seq), r, c]


def run(ctx):
    ctx.run_cases(default_case, [["default"]])
    ctx.run_cases(tree_case, tree_cases(3 if ctx.quick else 5), batch=8)
    global kinds, n_portals
    for kinds in (BASE, SHARED, KINDS):
        n_portals = N
        ctx.bfs(machine, 7 if ctx.quick else 9, batch=16)
        # again without merging histories: a corrupted state that looks the same is still followed
        n_portals = 2
        ctx.bfs(machine, 6 if ctx.quick else 7, batch=64, dedupe=False)


def replay(case):
    if case and case[0] == "default":
        return default_case(case)
    if case and isinstance(case[0], list) and len(case) == 3 and isinstance(case[1], int):
        return tree_case(case)
    global kinds
    out = []
    for kinds in (BASE, SHARED, KINDS):
        out.append(machine(tuple(tuple(o) for o in case)))
    return out
