"""All short scripts of writes, log records, nested captures, suppressions and exits."""
import copy
import io
import itertools
import logging
import sys

from pythagoras import OutputCapturer

from mc.core import expect, h, Problem
from mc.excs import family

META = dict(level="model_checking",
            rule="a state is a script (sequence of writes, log records, nested blocks, exits); the real capturer "
                 "runs it next to a model that records who should get what; distinct scripts are distinct states",
            bounds="scripts of <=5 (quick) / <=6 items (one nested block counts as two) over 10 kinds of write, and of <=4 / <=5 items over 21 kinds, 4 handler set-ups, "
                   "nesting <=3, exits normal / by an exception caught at any level; every built-in exception type and some unusual ones as the end of a block",
            assumptions=["a capturer is created where its block starts", "root handlers are installed beforehand"])

WRITES = ["out", "err", "print", "lines", "flush", "empty", "warn", "info", "child", "error"]
RARE = ["exc", "stack", "debug", "low", "mute", "args", "named", "chars", "attrs", "addh", "nl"]


class Boom(Exception):
    pass


class Halt(KeyboardInterrupt):
    pass


BOTH = (Boom, Halt)


class Sink(io.StringIO):
    """A stream or a handler target that records into the common journal."""

    def __init__(self, name, journal):
        super().__init__()
        self.name_, self.journal = name, journal

    waiting = False      # something was written and not flushed

    def flush(self):
        self.waiting = False

    def write(self, s):
        self.waiting = True
        self.journal.append((self.name_, s))
        return len(s)


class ListHandler(logging.Handler):
    def __init__(self, name, journal, level, veto=None):
        super().__init__(level)
        self.name_, self.journal = name, journal
        if veto:
            self.addFilter(lambda r: veto not in r.getMessage())

    def emit(self, record):
        kind = record.exc_info and record.exc_info[0]
        self.journal.append((self.name_, record.getMessage() + (f"<{kind.__name__}>" if kind else "")))


def tail_of(record):
    """What logging's default format shows of a record after its message."""
    return logging.Formatter().format(record)


SETUPS = [[], [("H", logging.NOTSET, None)], [("H", logging.ERROR, None)],
          [("H", logging.INFO, "veto"), ("G", logging.WARNING, None)]]


def scripts(n, depth=0, words=WRITES):
    """All item sequences of total weight n; items are writes and ('cap', body, how)."""
    if n == 0:
        yield ()
        return
    for w in words:
        for rest in scripts(n - 1, depth, words):
            yield (w,) + rest
    if depth < 3 and n >= 2:
        for k in range(0, n - 1):
            for body in scripts(k, depth + 1, words):
                for how in ("pass", "raise-caught", "raise-out"):
                    if how == "raise-out":
                        yield (("cap", body, how),)
                    else:
                        for rest in scripts(n - 2 - k, depth, words):
                            yield (("cap", body, how),) + rest


def levelname(w):
    return dict(warn=logging.WARNING, info=logging.INFO, error=logging.ERROR, child=logging.WARNING)[w]


class Run:
    def __init__(self, setup):
        self.journal, self.want = [], []
        self.setup = setup
        self.caps = []      # (real capturer, expected list of pieces)
        self.n = 0

    def do(self, w):
        self.n += 1
        t = f"{w}{self.n}"
        if w == "out":
            sys.stdout.write(t)
            self.say("out", [t])
        elif w == "err":
            sys.stderr.write(t)
            self.say("err", [t])
        elif w == "print":
            print(t, "x", file=None)
            self.say("out", [t, " ", "x", "\n"])
        elif w == "lines":
            sys.stdout.writelines(iter([t, "\n", "z\n"]))
            self.say("out", [t, "\n", "z\n"])
        elif w == "flush":
            sys.stdout.flush()
            sys.stderr.flush()
            expect(not self.sinks[0].waiting and not self.sinks[1].waiting, "not-flushed")
        elif w == "empty":
            sys.stdout.write("é\x00 \n")
            self.say("out", ["é\x00 \n"])
        elif w == "chars":
            for c in (t, "\r", "\t\n"):
                n = sys.stderr.write(c)
                expect(n == len(c), "write-result", f"{n!r}")
            self.say("err", [t, "\r", "\t\n"])
        elif w == "attrs":
            expect(sys.stdout.name_ == "out" and sys.stderr.name_ == "err" and not sys.stdout.isatty()
                   and sys.stdout.writable() and not sys.stderr.closed, "stream-attributes")
        elif w == "addh":       # a handler that lasts until the end of the block
            name = f"N{self.n}"
            logging.root.addHandler(ListHandler(name, self.journal, logging.WARNING))
            self.setup = self.setup + [(name, logging.WARNING, None)]
        elif w == "debug":      # below the root logger's level: it reaches nobody
            logging.getLogger().debug("%s", t)
        elif w == "mute":       # a logger that does not propagate: no record of the root logger
            logging.getLogger("mute").error("%s", t)
            self.want.append(("M", t))
        elif w == "low":        # a logger's own level decides, not the root's
            logging.getLogger("low").debug("%s", t)
            self.logged(logging.DEBUG, t, t)
        elif w == "args":
            logging.getLogger().critical("%d%% of %s", 5, t)
            self.logged(logging.CRITICAL, f"5% of {t}", f"5% of {t}")
        elif w == "nl":         # records of several lines, or that end in one
            for s in (f"{t}\nx\n", f" {t} \n\n"):
                logging.getLogger().warning("%s", s)
                self.logged(logging.WARNING, s, s)
        elif w == "named":
            logging.getLogger().log(35, "%(a)s+%(b)r", dict(a=t, b="q"))
            self.logged(35, f"{t}+'q'", f"{t}+'q'")
        elif w in ("exc", "stack"):
            seen = []
            watch = lambda r: seen.append(tail_of(copy.copy(r))) or True
            logger = logging.getLogger("watched")
            logger.addFilter(watch)
            try:
                try:
                    if w == "exc":
                        raise ZeroDivisionError("in " + t)
                    logger.warning(t, stack_info=True)
                except ZeroDivisionError:
                    logger.exception(t)
            finally:
                logger.removeFilter(watch)
            mark = "ZeroDivisionError: in " + t if w == "exc" else "Stack (most recent call last)"
            expect(len(seen) == 1 and mark in seen[0], "harness", f"{seen}")
            self.logged(logging.ERROR if w == "exc" else logging.WARNING,
                        t + ("<ZeroDivisionError>" if w == "exc" else ""), seen[0])
        else:
            msg = t + (" veto" if w == "error" else "")
            if w == "child":
                logging.getLogger("a.b").warning("%s", msg)
            else:
                logging.getLogger().log(levelname(w), msg)
            self.logged(levelname(w), msg, msg)

    def logged(self, level, msg, text):
        """A record goes to the handlers that take it (as a record) and, formatted, into every capture."""
        for name, least, veto in self.setup:
            if level >= least and not (veto and veto in msg):
                self.want.append((name, msg))
        if not self.setup and not self.caps and level >= logging.WARNING:
            self.want.append(("err", text + "\n"))       # logging's handler of last resort
        for c in self.caps:
            c[1].append(text + "\n")

    def say(self, where, pieces):
        for s in pieces:
            self.want.append((where, s))
            for c in self.caps:
                c[1].append(s)

    def block(self, items):
        for it in items:
            if isinstance(it, str):
                self.do(it)
                continue
            _, body, how = it
            before = (sys.stdout, sys.stderr, list(logging.root.handlers))
            entry = [OutputCapturer(), []]
            setup = self.setup
            marker = f"boom{self.n}"
            try:
                with entry[0] as got:
                    expect(got is entry[0], "enter-result")
                    self.caps.append(entry)
                    self.block(body)
                    if how != "pass":
                        raise BOTH[self.n % 2](marker)
            except BOTH as e:
                expect(e.args[0].startswith("boom"), "exception-changed")
                caught = e
            else:
                expect(how == "pass", "exception-swallowed")
                caught = None
            self.caps.pop()
            self.setup = setup
            expect((sys.stdout, sys.stderr) == before[:2] and list(logging.root.handlers) == before[2],
                   "not-restored", f"{items}")
            out = entry[0].get_output()
            pieces = "".join(entry[1])
            if caught is None:
                expect(out == pieces, "captured", f"{items}: {out!r} != {pieces!r}")
            else:
                tail = out[len(pieces):]
                expect(out.startswith(pieces), "captured", f"{items}: {out!r} != {pieces!r}+traceback")
                expect("Traceback" in tail and tail.count(type(caught).__name__ + ": " + caught.args[0]) == 1, "traceback", f"{items}: {tail!r}")
                # the traceback is output too: everybody around gets it
                for c in self.caps:
                    c[1].append(tail)
                self.want.append(("err*", tail))
            self.after = self.__dict__.get("after", []) + [(entry[0], out)]
            if caught is not None and how == "raise-out":
                raise caught


def exc_case(labels):
    """Whatever exception ends the block: it passes, its traceback is output, everything is back."""
    makers = dict(family())
    n = 0
    for label in labels:
        for depth in (1, 2):
            e = makers[label]()
            old = (sys.stdout, sys.stderr, logging.root.handlers)
            out, err = sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
            caught = None
            handlers = logging.root.handlers
            try:
                caps = [OutputCapturer()]
                try:
                    with caps[0]:
                        print("a")
                        if depth == 2:
                            caps.append(OutputCapturer())
                            with caps[1]:
                                print("b")
                                raise e
                        raise e
                except BaseException as x:
                    caught = x
                same = sys.stdout is out and sys.stderr is err and list(logging.root.handlers) == list(handlers)
                print("end")
            finally:
                sys.stdout, sys.stderr, logging.root.handlers = old
            expect(caught is e, f"exception:{label}", lambda: f"{label}: {type(caught).__name__} came out")
            expect(same, f"not-restored:{label}", lambda: f"{label}")
            name = type(e).__name__
            got = [c.get_output() for c in caps]
            lead = ["a\n" + ("b\n" if depth == 2 else ""), "b\n"]
            for k, g in enumerate(got):
                expect(g.startswith(lead[k]), f"captured:{label}", lambda: f"{label}: {g!r}")
                tail = g[len(lead[k]):]
                expect(tail.count("most recent call last") >= depth - k and tail.count(name) >= depth - k,
                       f"traceback:{label}", lambda: f"{label} depth {depth}, capture {k}: {tail!r}")
            expect(out.getvalue() == lead[0] + "end\n", f"stdout:{label}", lambda: f"{out.getvalue()!r}")
            expect(err.getvalue() == got[0][len(lead[0]):], f"stderr:{label}", lambda: f"{err.getvalue()!r} {got}")
            n += 1
    return dict(states=n, transitions=n, traces=n, sigs=[h(labels)])


def run_script(setup, script):
    old = (sys.stdout, sys.stderr, logging.root.handlers, logging.root.level)
    r = Run(SETUPS[setup])
    try:
        r.sinks = sys.stdout, sys.stderr = Sink("out", r.journal), Sink("err", r.journal)
        logging.root.handlers = [ListHandler(n, r.journal, l, v) for n, l, v in r.setup]
        logging.root.setLevel(logging.INFO)
        logging.getLogger("low").setLevel(logging.DEBUG)
        mute = logging.getLogger("mute")
        mute.propagate, mute.handlers = False, [ListHandler("M", r.journal, logging.NOTSET)]
        try:
            r.block(script)
        except BOTH:
            pass
        for c, out in r.__dict__.get("after", []):
            expect(c.get_output() == out, "captured-later", f"{script}")
        got = r.journal
    finally:
        sys.stdout, sys.stderr, logging.root.handlers, lvl = old
        logging.root.setLevel(lvl)

    def flat(seq):
        """Per destination, in order; consecutive writes to one destination are one text."""
        out = []
        for n, s in seq:
            n = n.rstrip("*")
            if out and out[-1][0] == n:
                out[-1] = (n, out[-1][1] + s)
            elif s:
                out.append((n, s))
        return out
    expect(flat(got) == flat(r.want), "not-shown", lambda: f"{script}: {flat(got)} != {flat(r.want)}")


def case_fn(case):
    setup, batch = case
    for s in batch:
        try:
            run_script(setup, s)
        except Problem as e:
            raise Problem(e.key, f"set-up {setup} script {s}: {e.msg}")
    return dict(states=len(batch), transitions=sum(weight(s) for s in batch), traces=len(batch),
                sigs=[h((setup, batch[0]))])


def weight(s):
    return sum(1 if isinstance(i, str) else 2 + weight(i[1]) for i in s)


def run(ctx):
    top = 5 if ctx.quick else 6
    alls = [s for n in range(1, top + 1) for s in scripts(n)]
    if ctx.quick:      # the longest pure-write sequences are covered one shorter
        allo = [s for s in alls if weight(s) < top or any(not isinstance(i, str) for i in s)]
    else:
        allo = alls
    rare = [s for n in range(1, (5 if ctx.quick else 6)) for s in scripts(n, 0, WRITES + RARE) if uses(s)]
    allo = allo + rare
    cases = []
    for setup in range(len(SETUPS)):
        cases += [[setup, allo[a:a + 250]] for a in range(0, len(allo), 250)]
    ctx.run_cases(case_fn, cases)
    labels = [l for l, _ in family()]
    ctx.run_cases(exc_case, [labels[a:a + 20] for a in range(0, len(labels), 20)])
    ctx.samples = [repr(s) for s in allo[::max(1, len(allo) // 7)]][:8]


def uses(s):
    return any(i in RARE if isinstance(i, str) else uses(i[1]) for i in s)


def tup(x):
    return tuple(tup(i) if isinstance(i, list) else i for i in x)


def replay(case):
    if case and isinstance(case[0], str):
        return exc_case(case)
    return case_fn([case[0], [tup(s) for s in case[1]]])
