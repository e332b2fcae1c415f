"""All short scripts of writes, suppression blocks (fresh or reused), captures around, and exits."""
import contextlib
import io
import os
import sys

from pythagoras import OutputSuppressor, OutputCapturer

from mc.core import expect, h, Problem
from mc.excs import family

META = dict(level="model_checking",
            rule="a state is a script of writes and nested suppression / redirection / capture blocks with normal "
                 "or exceptional exits; the streams' contents are compared with a model; scripts are distinct",
            bounds="scripts of weight <=6 (quick) / <=7 (a block counts 2), nesting <=3, suppressors fresh or reused "
                   "one after the other; every built-in exception type and some unusual ones as the end of a block",
            assumptions=["a suppressor object is not entered while it is already active"])

WRITES = ["out", "err", "print", "lines"]
BLOCKS = ["new", "reuse", "redirect", "capture"]


class Boom(Exception):
    pass


class Halt(SystemExit):
    pass


def scripts(n, depth=0):
    if n == 0:
        yield ()
        return
    for w in WRITES:
        for rest in scripts(n - 1, depth):
            yield (w,) + rest
    if depth < 3 and n >= 2:
        for k in range(0, n - 1):
            for body in scripts(k, depth + 1):
                for kind in BLOCKS:
                    if kind != "new" and depth == 0 and kind != "reuse" and not any(not isinstance(b, str) for b in body):
                        continue
                    for how in ("pass", "caught", "out"):
                        if how == "out":
                            yield ((kind, body, how),)
                        else:
                            for rest in scripts(n - 2 - k, depth):
                                yield ((kind, body, how),) + rest


class World:
    def __init__(self):
        self.out, self.err = io.StringIO(), io.StringIO()
        self.want = {"out": "", "err": ""}
        self.spare = []         # suppressors that are not active now
        self.n = 0
        self.stack = []         # what is active: "sup" | ("redirect", list) | ("capture", list)

    def emit(self, where, text):
        for s in reversed(self.stack):
            if s == "sup":
                return
            if s[0] == "redirect" and where == "out":
                s[1].append(text)
                return
            if s[0] == "capture":
                s[1].append(text)
        self.want[where] += text

    def do(self, w):
        self.n += 1
        t = f"{w}{self.n};"
        if w == "out":
            sys.stdout.write(t)
            self.emit("out", t)
        elif w == "err":
            sys.stderr.write(t)
            sys.stderr.flush()
            self.emit("err", t)
        elif w == "lines":
            sys.stdout.writelines([t, "é\n"])
            self.emit("out", t + "é\n")
        else:
            print(t)
            self.emit("out", t + "\n")

    def block(self, items):
        for it in items:
            if isinstance(it, str):
                self.do(it)
                continue
            kind, body, how = it
            before = (sys.stdout, sys.stderr)
            got = buf = None
            reused = None
            if kind in ("new", "reuse"):
                reused = self.spare.pop() if kind == "reuse" and self.spare else OutputSuppressor()
                cm, mark = reused, "sup"
            elif kind == "redirect":
                buf = io.StringIO()
                cm, mark = contextlib.redirect_stdout(buf), ("redirect", [])
            else:
                cap = OutputCapturer()
                cm, mark = cap, ("capture", [])
            caught = None
            try:
                with cm:
                    self.stack.append(mark)
                    try:
                        self.block(body)
                        if how != "pass":
                            raise (Boom, Halt)[self.n % 2](f"boom{self.n}")
                    finally:
                        self.stack.pop()
            except (Boom, Halt) as e:
                caught = e
            expect((caught is not None) == (how != "pass" or self.raises(body)), "exception-lost", f"{items}")
            expect((sys.stdout, sys.stderr) == before, "not-restored", f"{items}")
            if kind == "redirect":
                expect(buf.getvalue() == "".join(mark[1]), "leaked", f"{items}")
            if kind == "capture":
                text = cap.get_output()
                pieces = "".join(mark[1])
                expect(text.startswith(pieces) and (caught is not None or text == pieces), "leaked", f"{items}: {text!r} {pieces!r}")
                if caught is not None:
                    self.emit("err", text[len(pieces):])
            if reused is not None:
                self.spare.append(reused)
            if caught is not None and (how == "out" or self.raises(body)):
                raise caught

    @staticmethod
    def raises(body):
        return any(not isinstance(i, str) and (i[2] == "out" or World.raises(i[1])) for i in body)


def run_script(script):
    old = (sys.stdout, sys.stderr)
    w = World()
    try:
        sys.stdout, sys.stderr = w.out, w.err
        try:
            w.block(script)
        except (Boom, Halt):
            pass
        print("end")
        w.want["out"] += "end\n"
        expect(sys.stdout is w.out and sys.stderr is w.err, "not-restored", f"{script}")
    finally:
        sys.stdout, sys.stderr = old
    expect(w.out.getvalue() == w.want["out"], "stdout", lambda: f"{script}: {w.out.getvalue()!r} != {w.want['out']!r}")
    expect(w.err.getvalue() == w.want["err"], "stderr", lambda: f"{script}: {w.err.getvalue()!r} != {w.want['err']!r}")


def case_fn(batch):
    fds = len(os.listdir("/proc/self/fd"))
    for s in batch:
        try:
            run_script(s)
        except Problem as e:
            raise Problem(e.key, f"script {s}: {e.msg}")
    return dict(states=len(batch), transitions=sum(weight(s) for s in batch), traces=len(batch), sigs=[h(batch[0])])


def exc_case(labels):
    """Whatever exception ends the block, it passes, and the streams are back."""
    makers = dict(family())
    n = 0
    for label in labels:
        for depth in (1, 2):
            for kind in ("one", "reused", "between"):
                e = makers[label]()
                old = (sys.stdout, sys.stderr)
                out, err = sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
                caught = None
                s = OutputSuppressor()
                try:
                    try:
                        if kind == "reused":
                            with s:
                                print("a")
                        with s:
                            print("b")
                            if depth == 2:
                                with OutputSuppressor():
                                    raise e
                            raise e
                    except BaseException as x:
                        caught = x
                    if kind == "between":
                        with s:
                            print("c")
                    print("end")
                    same = sys.stdout is out and sys.stderr is err
                finally:
                    sys.stdout, sys.stderr = old
                expect(caught is e, f"exception:{label}", lambda: f"{label} {kind} {depth}: {type(caught).__name__} came out")
                expect(same and out.getvalue() == "end\n" and err.getvalue() == "", f"streams-after:{label}",
                       lambda: f"{label} {kind} {depth}: {out.getvalue()!r} {err.getvalue()!r}")
                n += 1
    return dict(states=n, transitions=n, traces=n, sigs=[h(labels)])


def weight(s):
    return sum(1 if isinstance(i, str) else 2 + weight(i[1]) for i in s)


def run(ctx):
    top = 6 if ctx.quick else 7
    batch, cases, n = [], [], 0
    for k in range(1, top + 1):
        for s in scripts(k):
            if k > 4 and not any(not isinstance(i, str) for i in s):
                continue        # plain writes only
            if k >= top and ctx.quick and sum(1 for i in s if isinstance(i, str)) > 2:
                continue        # the longest: at most two top-level writes
            batch.append(s)
            if len(batch) == 800:
                cases.append(batch)
                batch = []
    cases.append(batch)
    ctx.run_cases(case_fn, cases)
    labels = [l for l, _ in family()]
    ctx.run_cases(exc_case, [labels[a:a + 20] for a in range(0, len(labels), 20)])
    ctx.samples = [repr(c[len(c) // 2]) for c in cases[::max(1, len(cases) // 7)] if c][:8]


def tup(x):
    return tuple(tup(i) if isinstance(i, list) else i for i in x)


def replay(case):
    if case and isinstance(case[0], str):
        return exc_case(case)
    return case_fn([tup(s) for s in case])
