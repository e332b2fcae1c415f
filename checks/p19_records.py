"""Every history of succeeding, failing, nested, handled and remembered runs; all records read back after each step."""
import contextlib
import os
import re
import sys

import pythagoras as pth

import mcprobe
from mc.boot import env
from mc.world import attempt, clean, expect, h, quiet

META = dict(level="model_checking",
            rule="one state = (runs each call has had, with outcome, which calls are remembered, failing or not, session "
                 "fresh or not); all records of all calls are compared with the model after every step",
            bounds="5 functions (plain; calling it; calling it and handling its failure; calling itself, with and without handling) x 2 arguments x 2 routes (not all combinations), "
                   "failures on demand, restarts, with and without consistency checks: depth 3 (quick) / 5; runs whose random identities differ in one bit, "
                   "or end in each of the 32 characters",
            assumptions=["tokens printed by the bodies identify runs"])

SRC = dict(
    f="def f(x):\n    import mcprobe, sys, logging\n    n = mcprobe.note('f', x)\n    print('<f', x, n, '>')\n"
      "    sys.stderr.write(f'<e {n} é>')\n    if mcprobe.go:\n        raise ValueError(f'boom{n}')\n"
      "    logging.warning(f'<l {n}>')\n    print('no newline', end='')\n    return ['f', x, mcprobe.v]\n",
    g="def g(x):\n    import mcprobe\n    n = mcprobe.note('g', x)\n    print('<g', x, n, '>')\n    r = f(x=x)\n"
      "    print('<G', n, '>')\n    return ['g', r]\n",
    c="def c(x):\n    import mcprobe\n    n = mcprobe.note('c', x)\n    print('<c', x, n, '>')\n    try:\n        r = f(x=x)\n"
      "    except ValueError as e:\n        r = 'failed'\n        print('<C', n, '>')\n    return ['c', x, r]\n",
    # r and s call themselves: r handles the failure of the inner call, s does not
    r="def r(x):\n    import mcprobe\n    n = mcprobe.note('r', x)\n    print('<r', x, n, '>')\n    y = None\n"
      "    if x == 'one':\n        try:\n            y = r(x='two')\n        except ValueError:\n            y = 'failed'\n"
      "            print('<R', n, '>')\n    elif mcprobe.go:\n        raise ValueError(f'boom{n}')\n    return ['r', x, y]\n",
    s="def s(x):\n    import mcprobe\n    n = mcprobe.note('s', x)\n    print('<s', x, n, '>')\n    y = None\n"
      "    if x == 'one':\n        y = s(x='two')\n        print('<S', n, '>')\n    elif mcprobe.go:\n"
      "        raise ValueError(f'boom{n}')\n    return ['s', x, y]\n")
mcprobe.v = 0
LONG = {n: s for n, s in SRC.items()}


def tokens(s):
    return re.findall(r"<[fgceGClrsRS] [^<>]*>", s)


class Run:
    def __init__(self, fn, x, n):
        self.fn, self.x, self.n = fn, x, n
        self.out, self.ok, self.crash = [], None, None


class World:
    def __init__(self, checks):
        self.checks = checks
        self.runs, self.done, self.n = [], {}, 0

    def call(self, fn, x, failing, outer=()):
        key = fn, x
        if key in self.done and not self.checks:
            return self.done[key]
        self.n += 1
        r = Run(fn, x, self.n)
        self.runs.append(r)
        chain = outer + (r,)

        def out(t):
            for o in chain:
                o.out.append(t)
        out(f"<{fn} {x} {r.n} >")
        if fn == "f":
            out(f"<e {r.n} é>")
            if failing:
                r.ok, r.crash = False, f"boom{r.n}"
                raise ValueError(r.crash)
            out(f"<l {r.n}>")
            v = ["f", x, 0]
        elif fn == "g":
            try:
                v = ["g", self.call("f", x, failing, chain)]
            except ValueError:
                r.ok = False
                raise
            out(f"<G {r.n} >")
        elif fn in "rs":
            y = None
            if x == "one":
                try:
                    y = self.call(fn, "two", failing, chain)
                except ValueError:
                    if fn == "s":
                        r.ok = False
                        raise
                    y = "failed"
                    out(f"<R {r.n} >")
                else:
                    if fn == "s":
                        out(f"<S {r.n} >")
            elif failing:
                r.ok, r.crash = False, f"boom{r.n}"
                raise ValueError(r.crash)
            v = [fn, x, y]
        else:
            try:
                v = self.call("f", x, failing, chain)
            except ValueError:
                v = "failed"
                out(f"<C {r.n} >")
            v = ["c", x, v]
        if self.done.get(key, v) != v:
            r.ok, r.result = False, v
            r.refused = True
            raise AssertionError
        r.ok, r.result = True, v
        self.done[key] = v
        return v


def machine(hist):
    checks = hist[0][1]
    w = World(checks)
    disk, st, sess, fresh, failing = None, contextlib.ExitStack(), 0, True, False
    del mcprobe.ran[:]
    mcprobe.go = False
    with quiet() as out:
        try:
            for k, step in enumerate(hist):
                if step[0] in ("start", "restart"):
                    st.close()
                    st = contextlib.ExitStack()
                    disk = st.enter_context(clean(disk, salt=f"r{sess}"))
                    sess += 1
                    sys.stdout = sys.stderr = out      # clean() keeps what it found
                    portal = pth.PureCodePortal("/mem/0", p_consistency_checks=1 if checks else None)
                    with portal:
                        fns = {n: pth.pure()(s) for n, s in SRC.items()}
                    fresh = True
                elif step[0] == "fail":
                    mcprobe.go = failing = not failing
                else:
                    _, route, fn, x = step
                    f = fns[fn]
                    got = attempt(lambda: f(x=x) if route == "call" else f.run(x=x).get())
                    try:
                        want = ("ok", w.call(fn, x, failing))
                    except (ValueError, AssertionError) as e:
                        want = ("exc", type(e).__name__)
                    expect(got[:2] == want, "wrong-outcome", lambda: f"{hist}: {got}, expected {want}")
                    fresh = False
                expect(sys.stdout is out and sys.stderr is out, "output-still-captured", lambda: f"{hist}")
                if k == len(hist) - 1 and step[0] in ("call", "start", "restart"):     # every prefix is a history, too
                    compare(hist, w, fns, portal)
        finally:
            mcprobe.go = False
            st.close()
    ops = [("call", "call", fn, x) for fn in SRC for x in ("one", "two") if (fn, x) not in (("s", "two"), ("c", "two"))]
    ops += [("call", "run", fn, "one") for fn in "fs"]
    ops += [("fail",), ("restart",)]
    return h(([(r.fn, r.x, r.ok) for r in w.runs][-3:], sorted((k, str(v)) for k, v in w.done.items()), failing, fresh,
              sorted((r.fn, r.x) for r in w.runs), checks)), ops


def compare(hist, w, fns, portal):
    for fn in SRC:
        for x in ("one", "two"):
            a = fns[fn].get_address(x=x)
            real = []
            for rec in a.execution_records:
                o = rec.output
                res = attempt(lambda: rec.result)
                ctx = rec.attempt_context
                expect(isinstance(ctx, dict) and ctx["pid"] == os.getpid() and "hostname" in ctx, "environment-missing",
                       lambda: f"{hist}: {ctx}")
                expect(rec.kwargs == dict(x=x), "wrong-arguments", lambda: f"{hist}: {rec.kwargs}")
                real.append((tokens(o), o, res, rec.crashes))
            mine = [r for r in w.runs if (r.fn, r.x) == (fn, x)]
            real.sort(key=lambda r: int(re.findall(r"\d+", r[0][0])[0]) if r[0] else -1)
            expect(len(real) == len(mine), "record-missing" if len(real) < len(mine) else "record-too-many",
                   lambda: f"{hist}: {fn}({x}): {[r[0] for r in real]} expected {[r.out for r in mine]}")
            for r, (tok, o, res, crashes) in zip(mine, real):
                where = f"{hist}: run {r.n} of {fn}({x})"
                expect(tok == r.out, "output-wrong", lambda: f"{where}: {o!r}, expected {r.out}")
                if r.ok:
                    expect(res == ("ok", r.result), "result-wrong", lambda: f"{where}: {res}")
                    if fn == "f":
                        expect(o == f"<f {x} {r.n} >\n<e {r.n} é><l {r.n}>\nno newline", "output-wrong", lambda: f"{where}: {o!r}")
                else:
                    expect(res[0] == "exc" or getattr(r, "refused", 0), "result-of-failed-run", lambda: f"{where}: {res}")
                    expect("Traceback" in o or getattr(r, "refused", 0), "output-wrong", lambda: f"{where}: {o!r}")
                expect(len(crashes) == (r.crash is not None), "exception-record-wrong", lambda: f"{where}: {str(crashes)[:300]}")
                if r.crash:
                    text = str(crashes[0])
                    expect(r.crash in text and "ValueError" in text, "exception-record-wrong", lambda: f"{where}: {text[:300]}")
            crashed = [r for r in mine if r.crash]
            expect(len(a.crashes) == len(crashed) and len(a.execution_attempts) == len(mine)
                   and len(a.execution_outputs) == len(mine), "records-differ-from-stores", lambda: f"{hist}: {fn}({x})")
            if mine:
                last = a.last_execution_output
                expect(tokens(last) == mine[-1].out, "last-output-wrong", lambda: f"{hist}: {fn}({x}): {last!r}")
                src = portal.run_history.py[a + ["source"]]
                aug = portal.run_history.py[a + ["augmented_source"]]
                expect(src == fns[fn].fn_source_code, "source-wrong", lambda: f"{hist}: {src}")
                expect(aug == fns[fn].augmented_fn_source_code and src in aug, "source-wrong", lambda: f"{hist}: {aug}")
            else:
                expect(a.last_execution_output is None and a.last_execution_attempt is None, "record-too-many", lambda: f"{hist}")
            if crashed:
                expect(crashed[-1].crash in str(a.last_crash), "last-crash-wrong", lambda: f"{hist}: {str(a.last_crash)[:300]}")
            else:
                expect(a.last_crash is None, "last-crash-wrong", lambda: f"{hist}")


def near_ids(case):
    """Runs whose identities are as close as random numbers can be: they differ in one bit, or end in any character."""
    base, pairs = case
    n = 0
    for a, b in pairs:
        with clean(salt="ids") as disk, quiet():
            p = pth.PureCodePortal("/mem/0")
            with p:
                f = pth.pure()("def f(x):\n    import mcprobe\n    print('<f', x, '>')\n    if mcprobe.go:\n"
                               "        raise ValueError('boom')\n    return ['f', x]\n")
            f.get_address(x=0)
            why = f"identities {a:x} {b:x}"
            for go, i in ((True, a), (False, b)):
                mcprobe.go = go
                env.uuid_ints[:] = [i]
                r = attempt(f, x=0)
                env.uuid_ints[:] = []
                expect(r[:2] == (("exc", "ValueError") if go else ("ok", ["f", 0])), "wrong-outcome", lambda: f"{why}: {r}")
            mcprobe.go = False
            recs = f.get_address(x=0).execution_records
            got = sorted((len(r.crashes), attempt(lambda: r.result)[0], tokens(r.output) == ["<f 0 >"], "pid" in r.attempt_context)
                         for r in recs)
            expect(got == [(0, "ok", True, True), (1, "exc", True, True)], "records-mixed", lambda: f"{why}: {got}")
            n += 1
    return dict(states=2 * n, transitions=2 * n, sigs=(base,))


def id_cases():
    for base in (0x9f3c57a1d2e84b609b1c3d5e7f901234, 0x1000000000004000800000000000ffff | 1 << 127):
        pairs = [(base, base ^ (1 << bit)) for bit in range(20, 128) if bit not in (62, 63, 76, 77, 78, 79)]
        pairs += [(base & ~(31 << 20) | c << 20, base & ~(31 << 20) | (c + 7) % 32 << 20) for c in range(32)]
        for i in range(0, len(pairs), 20):
            yield [hex(base), pairs[i:i + 20]]


def run(ctx):
    ctx.run_cases(near_ids, list(id_cases()))
    ctx.bfs(machine, 3 if ctx.quick else 5, batch=8, prefixes=[(("start", 0),), (("start", 1),)])


def replay(case):
    if isinstance(case[0], str):
        return print(near_ids(case))
    print(machine(tuple(tuple(o) for o in case)))
