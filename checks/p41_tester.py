"""Every history of starting and ending portal testers, mixed with portals made, entered and left within and between them."""
import contextlib
import sys

import pythagoras as pth
from pythagoras import BasicPortal, _PortalTester

from persidict import MemDisk, backend

from mc.boot import env
from mc.world import expect, h, quiet

META = dict(level="model_checking",
            rule="one state = (tester in force, its portals and stack); every enabled operation of every state is "
                 "executed on fresh real testers and portals",
            bounds="3 testers (two with a portal class, one without) over 2 directories, 2 more portals, histories up to "
                   "9 (quick) / 18 (thorough) operations, 2 families of portal classes",
            assumptions=["testers are entered and left as with-statements do, the innermost thing last"])

FAMILIES = ((BasicPortal, BasicPortal), (pth.PureCodePortal, pth.SwarmingPortal), (pth.LoggingPortal, pth.DataPortal))
family = 0
MAX_MADE = 2


def place(cls, name):
    kw = dict(n_background_workers=0) if issubclass(cls, pth.SwarmingPortal) else {}
    return "/mem/" + name, kw


def make_tester(i):
    if i == 2:
        return _PortalTester()
    cls = FAMILIES[family][i]
    d, kw = place(cls, "t%d" % i)
    return _PortalTester(cls, root_dict=d, **kw)


@contextlib.contextmanager
def bare():
    """No portal known, no tester in force; whatever the history leaves behind is ended the way a test would."""
    env.reset("0")
    prev = backend.use(MemDisk())
    try:
        with _PortalTester():
            pass
        undo = []
        try:
            yield undo
        finally:
            for f in undo:
                try:
                    f()
                except Exception:
                    pass
            try:
                with _PortalTester():
                    pass
            except Exception:
                _PortalTester._current_instance = None
                BasicPortal._clear_all()
    finally:
        backend.use(prev)


def known():
    """Everything the session knows about portals."""
    entered = BasicPortal.get_entered_portals()
    return (BasicPortal.get_most_recently_entered_portal(), [id(p) for p in entered],
            {id(p) for p in BasicPortal.get_noncurrent_portals()}, BasicPortal.get_most_recently_added_portal())


def machine(hist):
    with bare() as undo, quiet():
        cur, made, stack = None, [], []         # the tester in force, portals known in order, entered ones
        started = False                         # its body runs
        n_made, over = 0, set()
        testers = {}
        values = {}

        @undo.append
        def end():
            if cur is not None and not started:
                testers[cur].__enter__()
            while len(stack) > (cur != 2 and started):
                stack.pop().__exit__(None, None, None)
            if cur is not None:
                testers[cur].__exit__(None, None, None)

        def check():
            best, ent, non, last = known()
            expect(best is (stack[-1] if stack else None), "current-portal", lambda: f"{hist}: {best}")
            want = []
            for p in reversed(stack):
                if p not in want:
                    want.append(p)
            expect(ent == [id(p) for p in want], "entered-portals", lambda: f"{hist}")
            expect(non == {id(p) for p in made if not stack or p is not stack[-1]}, "other-portals", lambda: f"{hist}")
            expect(last is (made[-1] if made else None), "last-portal", lambda: f"{hist}")

        for op in hist:
            kind, i = op
            if kind == "new":
                try:
                    t = make_tester(i)
                    ok = True
                except Exception:
                    ok = False
                expect(ok == (cur is None), "tester-refused" if cur is None else "testers-nested", lambda: f"{hist}")
                if ok:
                    cur, started = i, False
                    testers[i] = t
            elif kind == "start":
                try:
                    r = testers[i].__enter__()
                    ok = True
                except Exception:
                    ok, r = False, None
                legal = cur is None or (cur == i and not started)
                expect(ok == legal, "start-refused" if legal else "testers-nested", lambda: f"{hist}")
                if ok:
                    expect(r is testers[i], "with-as")
                    cur, started, made, stack = i, True, [], []
                    if i != 2:
                        cls = FAMILIES[family][i]
                        p = r.portal
                        expect(type(p) is cls, "class-of-the-portal", lambda: f"{hist}: {type(p)}")
                        expect(str(p.root_dict.base_dir) == place(cls, "t%d" % i)[0], "place-of-the-portal")
                        made, stack = [p], [p]
            elif kind in ("end", "fail"):
                if kind == "fail":
                    try:
                        raise ValueError("boom")
                    except ValueError:
                        r = testers[i].__exit__(*sys.exc_info())
                else:
                    r = testers[i].__exit__(None, None, None)
                expect(not r, "tester-swallows-exceptions")
                over.add(i)
                cur, started, made, stack = None, False, [], []
            elif kind == "make":
                cls = FAMILIES[family][i % 2]
                d, kw = place(cls, "m%d" % i)
                made = made + [cls(d, **kw)]
                n_made += 1
            elif kind == "enter":
                made[i].__enter__()
                stack = stack + [made[i]]
            elif kind == "leave":
                stack[-1].__exit__(None, None, None)
                stack = stack[:-1]
            elif kind == "store":
                p = made[i]
                p.root_dict["k"] = len(values)
                values[str(p.root_dict.base_dir)] = len(values)
            check()
            for p in made:
                d = str(p.root_dict.base_dir)
                expect(p.root_dict.get("k", None) == values.get(d), "content-lost", lambda: f"{hist}: {d}")
        ops = [("new", i) for i in range(3)]
        ops += [("start", i) for i in testers if not (cur == i and started)]
        floor = 1 if started and cur != 2 else 0
        if started and len(stack) == floor:
            ops += [("end", cur), ("fail", cur)]
        if n_made < MAX_MADE and cur is not None and started:
            ops.append(("make", n_made))
        if len(stack) < 3:
            ops += [("enter", j) for j in range(len(made))]
        if len(stack) > floor:
            ops.append(("leave", None))
        if made and len(values) < 2 and family == 0:
            ops += [("store", j) for j in range(len(made))]
        names = [str(p.root_dict.base_dir) for p in made]
        return h((cur, started, sorted(testers), names, [names.index(str(p.root_dict.base_dir)) for p in stack], n_made,
                  sorted(values.items()), sorted(over))), ops


def with_case(case):
    """The same as statements: what a failing test leaves behind, and what the next one finds."""
    cls_i, how, fam = case
    cls = FAMILIES[fam][cls_i] if cls_i < 2 else None
    with bare(), quiet():
        def tester():
            if cls is None:
                return _PortalTester()
            d, kw = place(cls, "w")
            return _PortalTester(cls, root_dict=d, **kw)
        for rnd in range(3):
            before = cls("/mem/old%d" % rnd, **place(cls, "w")[1]) if cls else BasicPortal("/mem/old%d" % rnd)
            if how == "inside-old":
                before.__enter__()
            error = None
            try:
                with tester() as t:
                    cur = BasicPortal.get_most_recently_entered_portal()
                    expect(cur is (t.portal if cls else None), "current-portal", lambda: f"{case} {rnd}")
                    expect(all(p is not before for p in BasicPortal.get_noncurrent_portals()), "old-portal-known",
                           lambda: f"{case}")
                    if how == "nested":
                        try:
                            _PortalTester()
                        except Exception:
                            pass
                        else:
                            expect(False, "testers-nested", lambda: f"{case}")
                    if how == "raise":
                        raise KeyError("x")
                    if how == "portals":
                        a = BasicPortal("/mem/a")
                        if cls is None:
                            with a:
                                expect(BasicPortal.get_most_recently_entered_portal() is a, "current-portal")
                        else:
                            with t.portal:
                                expect(t.portal.get_most_recently_entered_portal() is t.portal, "current-portal")
            except KeyError as e:
                error = e
            expect((error is not None) == (how == "raise"), "exception-propagation", lambda: f"{case} {rnd}")
            best, ent, non, last = known()
            expect(best is None and not ent and not non and last is None, "something-remains", lambda: f"{case} {rnd}")
        return dict(states=3, transitions=9, sigs=[h(case)])


def run(ctx):
    global family
    ctx.run_cases(with_case, [[c, how, f] for c in range(3) for f in range(len(FAMILIES))
                              for how in ("plain", "raise", "nested", "portals", "inside-old")])
    for family in range(len(FAMILIES)):
        ctx.bfs(machine, 9 if ctx.quick else 18, batch=16)


def replay(case):
    global family
    if len(case) == 3 and isinstance(case[1], str):
        return with_case(case)
    out = []
    for family in range(len(FAMILIES)):
        out.append(machine(tuple(tuple(o) for o in case)))
    return out
