"""Ordinarity: every small signature times every kind of callable, against the answer by construction."""
import functools
import itertools

import pythagoras as pth
from pythagoras._040_ordinary_functions.assert_ordinarity import assert_ordinarity
from pythagoras._040_ordinary_functions.check_n_positional_args import accepts_unlimited_positional_args

from mc.core import expect, h
from mc.world import clean

META = dict(level="exploration",
            technique="exhaustive enumeration of signatures and callable kinds against the answer known by construction",
            rule="a case is one signature made into one kind of callable; the answer is known by construction; "
                 "distinct: different (parameter kinds, defaults, callable kind)",
            bounds="signatures of <=4 (quick) / <=6 parameters over all kinds and defaults, 29 kinds of callable, "
                   "plus 40 non-functions; the decorators on a subset")

KINDS = ["def", "gen", "nested", "closure", "method", "bound", "classmethod", "static", "staticobj", "lambda",
         "async", "asyncgen", "partial", "callable", "class", "renamed", "annotated", "nested-gen", "async-nested",
         "closure-gen", "lambda-closure", "inherited", "closure-empty", "closure-none", "closure-passing", "closure-self",
         "closure-class", "lambda-renamed", "lambda-method"]
ACCEPT = {"def", "gen", "nested", "method", "static", "renamed", "annotated", "nested-gen"}


def signatures(n):
    """(parameter text, has *args) for all valid parameter lists of n parameters."""
    for po in range(n + 1):
        for pk in range(n + 1 - po):
            for va in (0, 1):
                for ko in range(n + 1 - po - pk - va):
                    kw = n - po - pk - va - ko
                    if kw not in (0, 1):
                        continue
                    npos = po + pk
                    for nd in range(npos + 1):
                        for kd in itertools.product((0, 1), repeat=ko):
                            out, i = [], 0
                            for k in range(po + pk):
                                out.append(f"p{k}" + ("=1" if k >= npos - nd else ""))
                                if k == po - 1:
                                    out.append("/")
                            if va:
                                out.append("*rest")
                            elif ko:
                                out.append("*")
                            for k in range(ko):
                                out.append(f"k{k}" + ("=2" if kd[k] else ""))
                            if kw:
                                out.append("**opts")
                            yield ", ".join(out), bool(va)


def build(kind, sig):
    s = ", " + sig if sig else ""
    if kind == "static" or kind == "staticobj":
        body = f"class C:\n    @staticmethod\n    def f({sig}):\n        return 1\n"
        body += "f = C.f\n" if kind == "static" else "f = C.__dict__['f']\n"
    elif kind == "method":
        body = f"class C:\n    def f(self{s}):\n        return 1\nf = C.f\n"
    elif kind == "inherited":
        body = f"class B:\n    def f(self{s}):\n        return 1\nclass C(B):\n    pass\nf = C().f\n"
    elif kind == "bound":
        body = f"class C:\n    def f(self{s}):\n        return 1\nf = C().f\n"
    elif kind == "classmethod":
        body = f"class C:\n    @classmethod\n    def f(cls{s}):\n        return 1\nf = C.f\n"
    elif kind == "callable":
        body = f"class C:\n    def __call__(self{s}):\n        return 1\nf = C()\n"
    elif kind == "class":
        body = f"class f:\n    def __init__(self{s}):\n        pass\n"
    elif kind == "lambda":
        body = f"f = lambda {sig}: 1\n"
    elif kind == "lambda-closure":
        body = f"def o(y):\n    return lambda {sig}: y\nf = o(1)\n"
    elif kind == "partial":
        body = f"import functools\ndef g({sig}):\n    return 1\nf = functools.partial(g)\n"
    elif kind in ("nested", "nested-gen"):
        body = f"def o(y):\n    def f({sig}):\n        {'yield' if 'gen' in kind else 'return'} 1\n    return f\nf = o(1)\n"
    elif kind in ("closure", "closure-gen"):
        body = f"def o(y):\n    def f({sig}):\n        {'yield' if 'gen' in kind else 'return'} y\n    return f\nf = o(1)\n"
    elif kind == "closure-empty":
        body = f"def o():\n    def f({sig}):\n        return y\n    return f\n    y = 1\nf = o()\n"
    elif kind == "closure-none":
        body = f"def o(y):\n    def f({sig}):\n        return y\n    return f\nf = o(None)\n"
    elif kind == "closure-passing":
        body = f"def o(y):\n    def f({sig}):\n        def g():\n            return y\n        return g\n    return f\nf = o(0)\n"
    elif kind == "closure-self":
        body = f"def o():\n    def f({sig}):\n        return f\n    return f\nf = o()\n"
    elif kind == "closure-class":
        body = f"class C:\n    def f(self{s}):\n        return super().f()\nf = C.f\n"
    elif kind == "lambda-renamed":
        body = f"f = lambda {sig}: 1\nf.__name__ = f.__qualname__ = 'f'\n"
    elif kind == "lambda-method":
        body = f"class C:\n    f = lambda self{s}: 1\nf = C.f\n"
    elif kind == "async":
        body = f"async def f({sig}):\n    return 1\n"
    elif kind == "async-nested":
        body = f"def o():\n    async def f({sig}):\n        return 1\n    return f\nf = o()\n"
    elif kind == "asyncgen":
        body = f"async def f({sig}):\n    yield 1\n"
    elif kind == "gen":
        body = f"def f({sig}):\n    yield 1\n"
    elif kind == "renamed":
        body = f"def g({sig}):\n    return 1\nf = g\nf.__name__ = 'something'\n"
    elif kind == "annotated":
        body = f"def f({sig}) -> int:\n    'doc'\n    return 1\nf.attr = 3\n"
    else:
        body = f"def f({sig}):\n    return 1\n"
    ns = {"__name__": "m"}
    exec(body, ns)
    return ns["f"]


def verdict(f):
    try:
        assert_ordinarity(f)
        return True
    except Exception:
        return False


def case_fn(case):
    kind, sigs = case
    for sig, va in sigs:
        f = build(kind, sig)
        want = kind in ACCEPT and not va
        got = verdict(f)
        expect(got == want, f"ordinarity:{kind}", f"{kind} with ({sig}): accepted={got}, expected {want}")
        if kind != "staticobj":
            expect(accepts_unlimited_positional_args(f) is va, f"positional:{kind}", f"{kind} with ({sig})")
    return dict(evaluations=2 * len(sigs), traces=len(sigs), sigs=[h((kind, s)) for s, _ in sigs])


OTHERS = """len print sorted max abs isinstance int str list dict object type Exception ValueError range zip map
functools.partial functools.reduce itertools.chain "".join [].append {}.get (1).__add__ int.__add__ str.upper
dict.fromkeys object.__init__ type.mro 1 1.5 None "f" b"f" () [1] {} set() ... NotImplemented functools
Exception("x") (i for i in ()) slice(1) property() classmethod(len) staticmethod(len) compile("1","x","eval")
functools.lru_cache(len) __import__ memoryview(b"")
""".split()


def others(case):
    n = 0
    for text in [t for t in OTHERS if "(i" not in t and t not in ("for", "i", "in", "())")]:
        try:
            f = eval(text)
        except SyntaxError:
            continue
        got = verdict(f)
        expect(not got, "ordinarity:other", f"{text}: accepted={got}")
        n += 1
    return dict(evaluations=n, traces=n, sigs=["others"])


DECS = ["ordinary", "safe", "autonomous", "strictly_autonomous", "pure"]


def decorated(case):
    """The decorators accept source text exactly for what can be called by keywords; functions are vetted."""
    dec, sigs = case
    n = 0
    for sig, va in sigs:
        for kind in ("lambda", "async", "asyncgen", "bound", "closure", "callable", "class", "partial"):
            with clean():
                portal = pth.PureCodePortal("/mem/p")
                with portal:
                    f = build(kind, sig)
                    try:
                        getattr(pth, dec)()(f)
                        got = True
                    except Exception:
                        got = False
                    expect(not got, f"decorated:{kind}", f"@{dec} accepted {kind} ({sig})")
                    n += 1
    return dict(evaluations=n, traces=n, sigs=[h(case)])


def run(ctx):
    top = 4 if ctx.quick else 6
    sigs = [s for n in range(top + 1) for s in signatures(n)]
    ctx.run_cases(case_fn, [[k, sigs[a:a + 300]] for k in KINDS for a in range(0, len(sigs), 300)])
    ctx.run_cases(others, [["others"]])
    small = [s for n in range(3) for s in signatures(n)]
    ctx.run_cases(decorated, [[d, small] for d in DECS if hasattr(pth, d)])
    ctx.notes["signatures"] = len(sigs)


def replay(case):
    return (others if case == ["others"] else decorated if case[0] in DECS else case_fn)(case)
