"""All schedules, up to a bound, of processes that run the same pure calls on one portal."""
import mcprobe
import pythagoras as pth

from mc.core import Problem
from mc.procs import Execution, Scenario, explore
from mc.world import clean, quiet

META = dict(level="model_checking",
            rule="one state = one distinct outcome of a complete schedule of the real code in real processes; a schedule is "
                 "the list of choices at storage steps on paths that another process also touches",
            bounds="13 scenarios of 2-3 processes: equal, nested, failing, guarded, listed, checked, swarmed-and-awaited calls, "
                   "equal values, different functions of one name, two portals; preemption bound 1 or 2 (quick) / 2 or 3",
            assumptions=["a storage step is atomic", "immutable dictionaries admit one writer per key"])

SRC = dict(
    f="def f(x):\n    import mcprobe\n    mcprobe.note('f', x)\n    print('f runs')\n    return {'f': [x, 'é']}\n",
    k="def k(x):\n    import mcprobe\n    mcprobe.note('k', x)\n    return ['k', f(x=x)]\n",
    b="def b(x):\n    import mcprobe\n    mcprobe.note('b', x)\n    raise ValueError('b always fails')\n",
    v="def v(x):\n    import mcprobe\n    mcprobe.note('v', x)\n    return mcprobe.go()\n",
    n="def n(x):\n    import mcprobe\n    mcprobe.note('n', x)\n    return None\n")
SRC2 = dict(SRC, f=SRC["f"].replace("'é'", "'other'"))
GUARDED = "def g(x):\n    import mcprobe\n    mcprobe.note('g', x)\n    return ['g', x]\n"


def val(fn, x, src=SRC):
    e = "é" if src is SRC else "other"
    return {"f": {"f": [x, e]}, "k": ["k", {"f": [x, e]}], "g": ["g", x], "n": None}[fn]


def session(names, src=SRC, root="/mem/p", p=None, second=None, swarming=False):
    if second:
        pth.PureCodePortal(second)
    portal = pth.PureCodePortal(root, p_consistency_checks=p)
    fns = {}
    with portal:
        for n in names:
            if n == "g":
                ok = pth.strictly_autonomous()("def ok(x):\n    return x\n")
                fns[n] = pth.pure(guards=[ok])(GUARDED)
            else:
                fns[n] = pth.pure()(src[n])
    return portal, fns


class Calls(Scenario):
    horizon = 6000

    def __init__(self, name, plans, before=(), pending=0, free=True, **kw):
        """plans: per process a list of ("call"|"swarm"|"get"|"list"|"value", fn, x)."""
        self.name, self.plans, self.before, self.kw, self.pending = name, plans, before, kw, pending
        self.free_switch = free

    def of(self, i):
        kw = dict(self.kw)
        for k in ("root", "second", "src", "p"):
            if isinstance(kw.get(k), list):
                kw[k] = kw[k][i]
        return kw

    def names(self):
        out = []
        for plan in [*self.plans, self.before]:
            for _, fn, _ in plan:
                if fn in SRC or fn == "g":
                    out.append(fn)
        return sorted(set(out) | ({"f"} if "k" in out else set()))

    def setup(self, ex):
        if self.before:
            with clean(ex.disk, salt="before"), quiet():
                perform(self.before, *session(self.names(), **self.of(0)), "before")

    def actors(self):
        def make(i, plan):
            def body():
                mcprobe.ran = []
                mcprobe.go = lambda: f"value of p{i}"
                out = perform(plan, *session(self.names(), **self.of(i)), f"p{i}")
                return out, list(mcprobe.ran)
            return body
        return [(f"p{i}", make(i, plan)) for i, plan in enumerate(self.plans)]

    def draw(self, ex, actor, kind, args):
        if kind == "random":
            return 0.25          # consistency checks: with p=1 always, with p=0 never
        return None

    def verdict(self, ex):
        runs = {}
        final = {}
        for a in ex.actors:
            if a.result[0] != "ok":
                raise Problem("process-failed", f"{a.name}: {a.result[:3]}")
            for fn, x in a.result[1][1]:
                runs[fn, x] = runs.get((fn, x), 0) + 1
        with clean(ex.disk, salt="after") as disk, quiet():
            seen = set()
            for i, plan in enumerate(self.plans):
                kw = self.of(i)
                key = (kw.get("root"), id(kw.get("src")))
                if key in seen:
                    continue
                seen.add(key)
                # the later reader
                p, fns = session(self.names(), **dict(kw, p=None, second=None))
                mcprobe.ran = []
                for fn in fns:
                    for x in (1, 2):
                        if not any((fn, x) in ((q[1], y) for y in (q[2] if isinstance(q[2], tuple) else (q[2],)))
                                   for pl in [*self.plans, self.before] for q in pl):
                            continue
                        a = fns[fn].get_address(x=x)
                        if fn == "b":
                            if a.ready:
                                raise Problem("result-of-failed-call", f"{fn}({x})")
                        else:
                            if not a.ready:
                                raise Problem("result-missing", f"{fn}({x})")
                            got = a.get()
                            if fn == "v":
                                if got not in [f"value of p{j}" for j in range(len(self.plans))]:
                                    raise Problem("wrong-result", f"{fn}({x}): {got!r}")
                                final[fn, x] = got
                            elif got != val(fn, x, kw.get("src", SRC)):
                                raise Problem("wrong-result", f"{fn}({x}): {got!r}")
                            if fns[fn](x=x) != got:
                                raise Problem("readers-disagree", f"{fn}({x})")
                        if a.execution_requested != (fn == "b"):
                            raise Problem("request-left" if fn != "b" else "request-lost", f"{fn}({x})")
                        if len(seen) == 1 and "src" not in kw and "second" not in kw and not self.before:
                            recs = a.execution_records
                            if len(recs) != runs.get((fn, x), 0):
                                raise Problem("records-wrong", f"{fn}({x}): {len(recs)} records, {runs.get((fn, x))} runs")
                            for r in recs:
                                if fn not in "bv" and r.result != val(fn, x):
                                    raise Problem("record-wrong", f"{fn}({x}): {r.result!r}")
                                if "f runs" not in r.output and fn == "f":
                                    raise Problem("output-lost", f"{fn}({x}): {r.output!r}")
                            if fn == "b" and len(a.crashes) != len(recs):
                                raise Problem("crashes-wrong", f"{len(a.crashes)} crashes, {len(recs)} runs")
                if mcprobe.ran:
                    raise Problem("recomputed", f"{mcprobe.ran}")
                n = len(p.execution_requests)
                if n != self.pending:
                    raise Problem("request-left" if n > self.pending else "request-lost", f"{n} requests")
        for a, plan in zip(ex.actors, self.plans):
            kw = self.of(ex.actors.index(a))
            for (kind, fn, x), got in zip(plan, a.result[1][0]):
                if kind == "value":
                    want = ("ok", x)
                elif kind == "swarm":
                    want = ("ok", True)
                elif fn == "b":
                    want = ("exc", "ValueError")
                elif fn == "v":
                    want = ("ok", f"value of {a.name}")
                    if kind == "get" or got != want:
                        want = ("ok", final[fn, x])
                elif kind == "list":
                    want = ("ok", [val(fn, y, kw.get("src", SRC)) for y in x])
                else:
                    want = ("ok", val(fn, x, kw.get("src", SRC)))
                if got != want:
                    raise Problem("wrong-result" if got[0] == "ok" else "call-failed", f"{a.name}: {kind} {fn}({x}): {got}")
        return sorted(runs.items()), [a.result[1][0] for a in ex.actors]


def perform(plan, portal, fns, who):
    out = []
    for kind, fn, x in plan:
        try:
            if kind == "call":
                r = fns[fn](x=x)
            elif kind == "swarm":
                fns[fn].swarm(x=x)
                r = True
            elif kind == "get":
                r = fns[fn].get_address(x=x).get()
            elif kind == "list":
                r = [a.get() for a in fns[fn].run_list([dict(x=y) for y in x])]
            elif kind == "value":
                with portal:
                    a = pth.ValueAddr(x)
                    s = a.prefix, a.hash_signature
                    r = pth.ValueAddr.from_strings(prefix=s[0], hash_signature=s[1]).get()
            out.append(("ok", r))
        except Exception as e:
            out.append(("exc", type(e).__name__, str(e)[:300]) if type(e) is not ValueError else ("exc", "ValueError"))
    return out


def scenarios(quick):
    C = Calls
    call = ("call", "f", 1)
    yield C("same", [[call], [call]]), 2, 3
    yield C("again", [[call, call], [("call", "f", 1)]], p=0), 1, 2
    yield C("differing", [[("call", "v", 1)], [("call", "v", 1)]]), 1, 2
    yield C("differing-read", [[("call", "v", 1), ("get", "v", 1)], [("call", "v", 1), ("get", "v", 1)]]), 1, 2
    yield C("none", [[("call", "n", 1)], [("call", "n", 1)]]), 1, 2
    yield C("nested", [[("call", "k", 1)], [call]]), 1, 2
    yield C("nested2", [[("call", "k", 1)], [("call", "k", 1)]]), 1, 2
    yield C("failing", [[("call", "b", 1)], [("call", "b", 1)]], pending=1), 1, 2
    yield C("guarded", [[("call", "g", 1)], [("call", "g", 1)]]), 1, 2
    yield C("lists", [[("list", "f", (1, 2))], [("list", "f", (2, 1))]]), 1, 2
    yield C("checked", [[call], [call]], p=1), 1, 2
    yield C("checked-old", [[call], [call]], before=[call], p=1), 1, 2
    yield C("awaited", [[("swarm", "f", 1), ("get", "f", 1)], [call]]), 1, 2
    yield C("arguments", [[call], [("call", "f", 2)]]), 1, 2
    yield C("values", [[("value", None, {"a": [1]})] * 2, [("value", None, {"a": [1]}), ("value", None, "s")]]), 2, 3
    yield C("versions", [[call], [call]], src=[SRC, SRC2]), 1, 2
    yield C("portals", [[call], [call]], root=["/mem/p", "/mem/q"], second=["/mem/q", "/mem/p"]), 1, 2
    yield C("three", [[call], [call], [call]]), 1, 2


def run(ctx):
    for sc, q, t in scenarios(ctx.quick):
        if ctx.stop:
            break
        explore(ctx, sc, q if ctx.quick else t)


def replay(case):
    for sc, *_ in scenarios(False):
        if sc.name == case["scenario"]:
            class All:
                def __contains__(self, p):
                    return True
            ex = Execution(sc, case["prefix"], dict(paths=All(), written_by_other=lambda a: [""]))
            try:
                ex.run()
                print(ex.outcome)
            finally:
                print(ex.describe())
