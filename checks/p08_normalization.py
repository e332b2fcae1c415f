"""Programs from a grammar times layout transformations: normal form is canonical, faithful, idempotent."""
import ast
import copy
import functools
import itertools
import os
import sys

import pythagoras as pth
from pythagoras import ordinary
from pythagoras._040_ordinary_functions.code_normalizer import get_normalized_function_source

from mc.core import expect, h, Problem, describe_exc
from mc.world import clean, quiet

META = dict(level="model_checking",
            rule="one state = one program in one layout; its normal form must parse to the reference form of the "
                 "program (decorator, docstrings, annotations removed, nothing else), be the same text in every "
                 "layout, be a fixed point, and compute the same results",
            bounds="150 statements, alone in 17 layouts and in all ordered pairs in 1-2 (quick) / 2-7 layouts, "
                   "7 signatures, as text, as functions in a file, as nested functions and through decorators")

# every statement works on x and leaves a value in x
STMTS = [
    "x = x + 1", "x = 'a\\n\\n  b'", 'x = """first\n\n  second\n    third"""', "x = f'{x}!'",
    "x = [i * 2 for i in range(3)]", "if x:\n    x = 1\nelse:\n    x = 2", "for i in range(3):\n    x = i",
    "while False:\n    x = 9", "try:\n    x = 1 // 0\nexcept ZeroDivisionError as e:\n    x = 5\nfinally:\n    y = 1",
    "def g(a, b=2):\n    '''inner doc'''\n    return a + b\nx = g(1)", "class A:\n    '''doc'''\n    z = 4\nx = A.z",
    "x = (lambda q: q + 1)(3)", "x: int = 7", "w: str", "x = {'k': [1, 2, {'z': None}]}",
    "x = 1 if x else 0", "x = (1,)", "x = not x", "x = -2 ** 2", "x = (1 + 2) * 3", "x = 1 + 2 * 3",
    "x = 'it''s' \"q\\\"\"", "x = b'\\x00\\xff'", "x = '\\x0c\\x1c\\u2028'", "x = 0x10 + 1_000",
    "x = 1e3", "x = [*range(3)]", "x = {**{'a': 1}}", "import math\nx = math.floor(2.5)",
    "from math import ceil as c\nx = c(2.5)", "with open('/dev/null') as fh:\n    x = fh.read()",
    "x = '# not a comment'", "'not a docstring'", "x = r'\\d+'", "assert x == x, 'msg'",
    "x = (1 <\n     2)", "x = \"\"\"\n\n\"\"\"", "@staticmethod\ndef s():\n    return 8\nx = s()",
    "x = x; y = 3; x = y", "pass", "x = '   '", "x = ('a'\n     'b')", "x = 'tab\\there'", "x = 1.0", "x = 'é😀'",
]
CORE = len(STMTS)
STMTS += [
    "async def g(a: int, *b: str, c: 'q'=1, **d: dict) -> int:\n    '''doc'''\n    z: int = 4\n    return z\n"
    "import asyncio\nx = asyncio.run(g(1))",
    "async def g():\n    '''only a docstring'''\nimport asyncio\nx = asyncio.run(g())",
    "async def g():\n    async def k() -> str:\n        '''doc'''\n        'doc 2'\n        w: int\n        return 6\n    return await k()\n"
    "import asyncio\nx = asyncio.run(g())",
    "async def g():\n    for i in range(3):\n        yield i\nasync def k():\n    return [i async for i in g()]\n"
    "import asyncio\nx = asyncio.run(k())",
    "async def g():\n    async with x as y:\n        pass\n    async for i in y:\n        break\n    else:\n        pass\nx = 4",
    "def g():\n    '''only a docstring'''\nx = g()", "class A:\n    '''only a docstring'''\nx = A.__name__",
    "def g(a: int = 1, /, b: 'str' = 2, *c: int, d: float = 3, **e: dict) -> 'x':\n    z: int = a\n    w: int\n    return z, b, c, d, e\nx = g(5, 6, 7, d=8, k=9)",
    "def g():\n    def k():\n        def m() -> int:\n            '''doc'''\n            return 7\n        return m()\n    return k()\nx = g()",
    "class A:\n    a: int\n    b: str = 'k'\n\n    def m(self, q: int = 3) -> int:\n        '''doc'''\n        z: int = q\n        return z\nx = A().m(), A.b, list(A.__annotations__)",
    "from dataclasses import dataclass\n@dataclass\nclass A:\n    '''doc'''\n    a: int\n    b: int = 2\nx = A(1).b, A(3).a",
    "class A:\n    class B:\n        '''doc'''\n        c: int = 5\n\n        def m(self) -> int:\n            '''doc'''\nx = A.B.c, A.B().m()",
    "class A:\n    if True:\n        a: int = 1\n    else:\n        b: str\nx = A.a",
    "if x:\n    'not a docstring'\n    x = 8", "for i in range(2):\n    'not a docstring'", "if True:\n    x: int = 5\nelse:\n    w: str",
    "x.a: int = 3 if False else 4", "(x): int = 3", "x: 'y z' = 4", "x: dict[str, list[int]] = {}", "w = x; w2: int; x = w",
    "'a'\n'b'\nx = 3", "b'not a docstring'", "f'not a docstring {x}'", "...", "1", "None", "x", "(x := 5)", "x = (y := 4) + y",
    "x, y = 1, 2", "[x, *y] = [1, 2, 3]", "x = y = 4", "x += 2", "x = [1][0]; x -= 1", "x = [1, 2, 3][::-1][0:2]", "x = {1, 2}",
    "x = {i: i for i in range(2) if i}", "x = list(i for i in range(3) for j in range(i))", "x = (lambda a, *b, c=2, **d: (a, b, c, d))(1, 4, k=3)",
    "x = lambda: 3\nx = x()", "x = 1 < 2 < 3 != 4", "x = x is None or x is not None and x in [3]", "x = not (x == 3)", "x = x == None", "x = type(x) == int",
    "x = ~5 & 3 | 4 ^ 2 << 1 >> 1", "x = 2 ** -1", "x = (-2) ** 2", "x = 7 // 2 % 3", "x = 1 - (2 - 3)", "x = (1, (2, 3))", "x = ()", "x = [[]]", "x = (yes for yes in [1]).__next__()",
    "x = f'{x!r:>5}' f'{x:{4}}' 'z'", "x = f'''a\n  {x}\n   b'''", "x = f\"{'q' + 'w'}\"", "x = f'{{{x}}}'", "x = u'text'", "x = rb'\\x'", "x = '\\\\'", "x = '\\''", "x = '\"'", "x = '''it's \"q\"'''",
    "x = '  trailing  '", "x = 'a\\tb\\r\\n\\0\\x7f\\ud800'[0]", "x = 1_0j", "x = 1e400", "x = 0b11, 0o17, 0xFF", "x = 10 ** 30", "x = True, False, None, ...", "x = .5, 5., 1e-7",
    "while True:\n    x = 1\n    break\nelse:\n    x = 2", "for i, (j, *k) in [(1, (2, 3))]:\n    continue\nelse:\n    x = j", "del x\nx = 4",
    "try:\n    raise ValueError('q') from None\nexcept (ValueError, TypeError) as e:\n    x = str(e)\nelse:\n    x = 2",
    "try:\n    raise ExceptionGroup('g', [ValueError(1)])\nexcept* ValueError as e:\n    x = len(e.exceptions)",
    "try:\n    x = 3\nfinally:\n    pass", "match x:\n    case 3 | 4:\n        x = 'm'\n    case [a, *b] if b:\n        x = a\n    case {'k': v, **r}:\n        x = v\n    case _:\n        x = 1",
    "match [1, 2]:\n    case [int() as q, str(real=0) | 2]:\n        x = q", "import os.path as p, sys\nx = p.join('a', 'b')", "from os import (path,\n    sep)\nx = sep",
    "def g():\n    nonlocal x\n    x = 6\ng()", "def g():\n    yield 1\n    z = yield from [2, 3]\nx = list(g())", "def g(*, a, b=1):\n    return a\nx = g(a=2)", "def d(q):\n    return lambda h: h\n@d(1)\n@d(q=2)\ndef g():\n    return 4\nx = g()",
    "class A(int, metaclass=type):\n    @property\n    def p(self): return 3\nx = A().p", "with open('/dev/null') as a, open('/dev/null') as b:\n    x = a.read() + b.read()", "raise KeyError(x)",
    "assert x, f'{x}'", "return 4", "if x: x = 1\nelif y: x = 2\nelse: x = 3", "if x:\n    if x:\n        if x:\n            x = 'deep'", "global zz\nzz = 5\nx = zz",
    "x = [11111111111111111111, 22222222222222222222, 33333333333333333333, 44444444444444444444, 55555555555555555555]",
    "x = 'a long text that does not fit into one line of the usual length of seventy nine characters, does it? # no'",
    "x = dict(first_argument=1, second_argument=2, third_argument=3, fourth_argument=4, fifth_argument=5, sixth=6)",
    "x = x == 1111111111111111111111111 or x == 2222222222222222222222222 or x == 33333333333333333333333333333",
    "x = sum(some_long_name * another_long_name for some_long_name in range(10) for another_long_name in range(20))",
    "def a_function_with_a_long_name(a_parameter_with_a_long_name=1, another_parameter_with_a_long_name=2, third=3):\n    return third\nx = a_function_with_a_long_name()",
    "x = {'first key of the dictionary': ['one', 'two', 'three'], 'second key of the dictionary': ['four', 'five', 'six']}",
    "x = f'{x} and a long text that does not fit into one line of the usual length {x} of seventy nine characters'",
    "x = '''a long line of text in a multi-line literal, which nobody may wrap, because it is a part of the value\n\n\n\nx = 1 # text\n\t tab'''",
]
SIGS = ["x=3", "x:int=3", "x=3, /, y=1", "*, x=3", "x:'str'=3, *, k:int=2, **kw", "x=(3), y=[]", "x: list[int] = 3"]


def program(stmts, sig="x=3", name="f", doc=False, returns=False):
    body = []
    if doc:
        body.append('"""Doc.\n\n    More doc."""')
    body += stmts
    body.append("return x")
    src = f"def {name}({sig}){' -> int' if returns else ''}:\n"
    for s in body:
        # the lines of a multi-line string must not be indented: only statement lines are
        src += indent(s, "    ")
    return src


def indent(src, pad):
    """Indent statement lines only (string contents stay as they are)."""
    tree = ast.parse(src)
    protected = set()
    for node in ast.walk(tree):
        if isinstance(node, (ast.Constant, ast.JoinedStr)) and node.end_lineno > node.lineno and (
                isinstance(node, ast.JoinedStr) or isinstance(node.value, (str, bytes))):
            seg = src.split("\n")[node.lineno - 1:node.end_lineno]
            if '"""' in seg[0] or "'''" in seg[0]:
                protected.update(range(node.lineno + 1, node.end_lineno + 1))
    out = []
    for i, line in enumerate(src.split("\n"), 1):
        out.append(line if i in protected or not line.strip() else pad + line)
    return "\n".join(out) + "\n"


# ---- layouts: text -> text, preserving the program
def _insert(src, extra_lines):
    """Add lines between statements of the top body, where no string is being continued."""
    tree = ast.parse(src)
    starts = sorted({min([s.lineno] + [d.lineno for d in getattr(s, "decorator_list", [])])
                     for s in tree.body[0].body}, reverse=True)
    lines = src.split("\n")
    for n in starts:
        if n > 1 and not lines[n - 2].rstrip().endswith("\\") and n != tree.body[0].lineno and ";" not in lines[n - 1]:
            lines[n - 1:n - 1] = extra_lines
    return "\n".join(lines)


def reindent(src, unit):
    if '"""' in src or "'''" in src:
        return None
    out = []
    for line in src.split("\n"):
        s = line.lstrip(" ")
        k = len(line) - len(s)
        if k % 4:
            return None
        out.append(unit * (k // 4) + s)
    return "\n".join(out)


def trailing(src, what):
    if '"""' in src or "'''" in src or "'a'\n" in src or "<\n" in src:
        return None
    return "\n".join(l + what if l.strip() else l for l in src.split("\n"))


LAYOUTS = {
    "plain": lambda s: s,
    "blank lines": lambda s: _insert(s, ["", "   ", ""]),
    "comments": lambda s: _insert(s, ["    # a comment", "# at the margin", "        # def f(x):"]),
    "nested": lambda s: indent(s, "        "),
    "nested tab": lambda s: indent(s, "\t") if "\n" in s else s,
    "two spaces": lambda s: reindent(s, "  "),
    "tabs": lambda s: reindent(s, "\t"),
    "trailing spaces": lambda s: trailing(s, "  "),
    "trailing comments": lambda s: trailing(s, "  # c"),
    "leading blank": lambda s: "\n\n" + s,
    "no final newline": lambda s: s.rstrip("\n"),
    "crlf": lambda s: None if '"""' in s else s.replace("\n", "\r\n"),
    "unparsed": lambda s: ast.unparse(ast.parse(s)),
    "decorated": lambda s: "@pth.autonomous()\n" + s,
    "decorated name": lambda s: "@pure(island_name='Q')\n" + s,
    "decorated multi-line": lambda s: "@pth.pure(\n    island_name = 'def zz(a): pass'\n    )\n" + s,
    "nested decorated": lambda s: indent("@pth.ordinary()\n" + s, "    "),
    "docstring": "doc", "annotated": "ann", "doc twice": "doc2",
}


def reference(src):
    """Independent normal form: the tree without decorator, docstrings, annotations."""
    tree = ast.parse(src)
    tree.body[0].decorator_list = []

    class Strip(ast.NodeTransformer):
        def visit_AnnAssign(self, n):
            if n in self.fields:
                return n
            return ast.Pass() if n.value is None else ast.Assign(targets=[n.target], value=self.visit(n.value))

        def body(self, n):
            self.generic_visit(n)
            while n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) \
                    and isinstance(n.body[0].value.value, str):
                n.body = n.body[1:]
            n.body = n.body or [ast.Pass()]
            return n

        def visit_FunctionDef(self, n):
            n.returns = None
            return self.body(n)

        visit_AsyncFunctionDef = visit_FunctionDef
        fields = set()

        def visit_ClassDef(self, n):
            # what is annotated directly in a class body makes the class (dataclasses and the like)
            self.fields |= {c for c in n.body if isinstance(c, ast.AnnAssign)}
            return self.body(n)

        def visit_Import(self, n):
            return [ast.Import(names=[a]) for a in n.names]

        def visit_arg(self, n):
            n.annotation = None
            return n
    tree = Strip().visit(tree)
    return ast.dump(ast.fix_missing_locations(tree))


class Split(ast.NodeTransformer):
    """"import a, b" and "import a; import b" are the same program."""

    def visit_Import(self, n):
        return [ast.Import(names=[a]) for a in n.names]


def evaluate(src, name="f"):
    ns = {}
    try:
        exec(compile(src, "<p08>", "exec"), ns)
        return ("ok", repr(ns[name]()))
    except Exception as e:
        return ("exc", type(e).__name__, str(e))


def canon(src, key, where):
    try:
        return get_normalized_function_source(src)
    except Exception as e:
        raise Problem(f"normalization-fails:{key}", f"{where}: {describe_exc(e)}\n{src}")


def check_program(src, key, layouts, base=None):
    """src is a plain program. Returns its normal form."""
    norm = canon(src, key, "plain")
    want = reference(src)
    try:
        got = ast.dump(Split().visit(ast.parse(norm)))
    except SyntaxError as e:
        raise Problem(f"normal-form-does-not-parse:{key}", norm)
    expect(got == want, f"normal-form-changes-the-program:{key}", lambda: f"{src!r} -> {norm!r}")
    again = canon(norm, key, "normal form")
    expect(again == norm, f"not-idempotent:{key}", lambda: f"{norm!r} -> {again!r}")
    a, b = evaluate(src), evaluate(norm)
    expect(a == b, f"behaviour-changed:{key}", lambda: f"{src!r}: {a} but normalized: {b}")
    for lay in layouts:
        f = LAYOUTS[lay]
        if isinstance(f, str):
            continue
        text = f(src)
        if text is None:
            continue
        other = canon(text, f"{key}:{lay}", lay)
        expect(other == norm, f"layout-matters:{lay}:{key}",
               lambda: f"{text!r} -> {other!r} but plain -> {norm!r}")
    return norm


def singles(case):
    i, = case
    stmts = [STMTS[i]]
    base = None
    n = 0
    for sig in SIGS:
        src = program(stmts, sig)
        norm = check_program(src, f"s{i}", LAYOUTS if sig == SIGS[0] else ["plain", "nested", "decorated"])
        n += 1
        for doc, ret in ((True, False), (False, True), (True, True)):
            other = canon(program(stmts, sig, doc=doc, returns=ret), f"s{i}:doc{doc}{ret}", "docstring/returns")
            expect(other == norm, f"layout-matters:doc{doc}{ret}:s{i}", lambda: f"{other!r} != {norm!r}")
            n += 1
    plain = canon(program(stmts, "x=3"), f"s{i}", "")
    expect(canon(program(stmts, "x:int=3"), f"s{i}", "") == plain, f"annotation-matters:s{i}")
    two = canon(program(['"""a"""', "'b'"] + stmts), f"s{i}:twodocs", "")
    expect(two == plain, f"second-leading-string:s{i}", lambda: two)
    for name in ("f", "ff", "def_f", "_f", "f1", "lambda_"):
        v = canon(program(stmts, name=name), f"s{i}:name", "name")
        expect(v == plain.replace("def f(", f"def {name}(", 1), f"function-name:s{i}", v)
    return dict(states=n, transitions=n * 3, sigs=[h((case, plain))])


def pairs(case):
    i, layouts, lo, hi = case
    n = 0
    sigs = []
    for j in range(lo, hi):
        src = program([STMTS[i], STMTS[j]])
        norm = check_program(src, f"p{i}.{j}", layouts)
        sigs.append(h(norm))
        n += 1
    return dict(states=n, transitions=n * (2 + len(layouts)), sigs=sigs)


def sensitivity(case):
    """Different programs have different normal forms."""
    seen = {}
    n = 0
    bodies = [[s] for s in STMTS] + [[a, b] for a, b in itertools.product(STMTS[:CORE:2], STMTS[1:CORE:3])]
    for sig in ("x=3", "x=4", "y=3, x=3", "x=3, y=3"):
        for stmts in (bodies if sig == "x=3" else bodies[:12]):
            src = program(stmts, sig)
            norm = canon(src, "sens", "")
            ref = reference(src)
            n += 1
            other = seen.setdefault(norm, (ref, src))
            expect(other[0] == ref, "different-programs-same-form", lambda: f"{src!r} and {other[1]!r}")
    # single-token mutations of one program
    base = program(["x = x + 1", "y = 'text'", "x = [x, y][0]"])
    forms = {canon(base, "sens", "")}
    for old, new in (("+", "-"), ("1", "2"), ("text", "texT"), ("text", " text"), ("[0]", "[1]"), ("x=3", "x=5"),
                     ("'text'", "b'text'"), ("x + 1", "x + 1.0"), ("x + 1", "1 + x"), ("return x", "return y"),
                     ("return x", "return (x,)"), ("def f", "def g"), ("'text'", "'te  xt'"), ("'text'", "'# text'"),
                     ("'text'", "'te\\nxt'"), ("x=3", "*, x=3"), ("x=3", "z, x=3"), ("x = x", "x += x")):
        expect(base.count(old) >= 1, "harness", old)
        forms.add(canon(base.replace(old, new, 1), "sens", ""))
        n += 1
    expect(len(forms) == 19, "mutation-not-visible", f"{len(forms)} forms")
    return dict(states=n, transitions=n, sigs=[h(sorted(seen))])


FILE_HEAD = "import pythagoras as pth\nfrom pythagoras import *\n\n"


def in_files(case):
    """Real functions, at module level, inside functions and methods, with decorators."""
    import importlib.util
    import tempfile
    lo, hi = case
    d = tempfile.mkdtemp()
    text = FILE_HEAD
    for i in range(lo, hi):
        s = STMTS[i]
        text += program([s], name=f"plain{i}") + "\n"
        text += f"def outer{i}():\n" + indent(program([s], name=f"nested{i}", doc=True), "    ") + f"\n    return nested{i}\n\n"
        text += f"class C{i}:\n" + indent("@staticmethod\ndef m():\n" + indent(
            program([s], name=f"deep{i}", returns=True), "    ") + f"\n    return deep{i}\n", "    ") + "\n"
        text += f"def dec{i}():\n" + indent("@pth.ordinary()  # note\n" + program([s], name=f"decorated{i}"), "    ") + \
                f"\n    return decorated{i}\n\n"
    path = os.path.join(d, f"p08_{lo}.py")
    with open(path, "w") as f:
        f.write(text)
    spec = importlib.util.spec_from_file_location(f"p08_{lo}", path)
    mod = importlib.util.module_from_spec(spec)
    sys.modules[spec.name] = mod
    n = 0
    with clean(), quiet():
        portal = pth.OrdinaryCodePortal("/mem/p") if hasattr(pth, "OrdinaryCodePortal") else pth.SafeCodePortal("/mem/p")
        with portal:
            spec.loader.exec_module(mod)
            for i in range(lo, hi):
                plain = canon(program([STMTS[i]], name="f"), f"s{i}", "")
                for kind, fn in (("plain", getattr(mod, f"plain{i}")), ("nested", getattr(mod, f"outer{i}")()),
                                 ("deep", getattr(mod, f"C{i}").m()), ("decorated", getattr(mod, f"dec{i}")())):
                    got = canon(fn, f"s{i}:{kind}", f"function object, {kind}")
                    expect(got.replace(f"def {kind}{i}(", "def f(", 1) == plain, f"layout-matters:{kind}:s{i}",
                           lambda: f"{got!r} != {plain!r}")
                    n += 1
                    if kind != "decorated":
                        w = ordinary()(fn)
                        expect(w.fn_source_code == got and w.fn_name == f"{kind}{i}", f"decorator:s{i}")
                        nat, dec = call(fn), call(w)
                        expect(nat == dec, f"behaviour-changed:{kind}:s{i}", f"native {nat} decorated {dec}")
    sys.modules.pop(spec.name)
    return dict(states=n, transitions=2 * n, sigs=[h(case)])


def call(f):
    try:
        return ("ok", repr(f()))
    except Exception as e:
        return ("exc", type(e).__name__, str(e))


DECORATORS = ["ordinary", "safe", "autonomous", "strictly_autonomous", "pure"]


def rejected(case):
    """Things that are not one plain function are refused, not mangled."""
    f = "def f(x):\n    return x\n"
    bad = ["async " + f, "lambda x: x\n", "class A:\n    pass\n", "x = 1\n", "@other()\n" + f, "@pth.pure()\n@pth.ordinary()\n" + f,
           "@other()\n@pth.ordinary()\n" + f, "@pth.ordinary()\n@other()\n" + f, "@pth.ordinary()\n@pth.ordinary()\n" + f,
           "def f(x):\nreturn x\n", "def f(x:\n    return x\n", "@pth.ordinary()\nclass A:\n    pass\n", "@pth.ordinary()\nasync " + f,
           "@pth.ordinary()\n", "", "\n", "    ", "    class A:\n        pass\n", "    x = 1\n", "    async def f(x):\n        return x\n",
           "    @other()\n    def f(x):\n        return x\n"]
    for n in DECORATORS:
        good = ["{}()", "pth.{}()", "pythagoras.{}()", "a.b.{}()", "a[0].{}()", "a().{}()", "{}(a, b=c)"]
        for g in good:
            for src in ("@" + g.format(n) + "\n" + f, "    @" + g.format(n) + "\n    def f(x):\n        return x\n"):
                got = get_normalized_function_source(src)
                expect(got == f, f"decorator-not-dropped:{g}", f"{src!r} -> {got!r}")
        bad += ["@" + g.format(n) + "\n" + f for g in ("{0}s()", "pth.{0}_()", "{0}.other()", "pth.{0}.other()", "{0}[0]()", "{0}()()", "{0}",
                                                    "pth.{0}", "other({0}())", "other({0})", "pth.other({0}())", "lambda: {0}()",
                                                    "x{0}()", "a.x{0}()")]
    for src in bad:
        try:
            got = get_normalized_function_source(src)
        except Exception:
            continue
        raise Problem(f"accepted-a-non-function:{src[:12]}", f"{src!r} -> {got!r}")

    class A:
        def m(self):
            return 1

        @classmethod
        def c(cls):
            return 1

        def __call__(self):
            return 1

    def inner():
        return case

    async def co():
        return 1

    async def gen():
        yield 1

    def many(*a):
        return a
    for o in (A, A(), A().m, A.c, A().c, inner, lambda: 1, co, gen, many, len, print, "".join, 5, None, b"def f(x): return x", [f], object(), ...,
              functools.partial(reference, ""), int, pth, compile(f, "f", "exec")):
        try:
            got = get_normalized_function_source(o)
        except Exception:
            continue
        raise Problem(f"accepted-a-non-function:{type(o).__name__}", f"{o!r} -> {got!r}")
    return dict(states=len(bad), transitions=len(bad) + 56, sigs=["rejected"])


def run(ctx):
    n = len(STMTS)
    ctx.run_cases(rejected, [["rejected"]])
    ctx.run_cases(singles, [[i] for i in range(n)])
    some = ["nested", "comments"] if ctx.quick else ["nested", "comments", "blank lines", "nested tab",
                                                     "trailing spaces", "unparsed", "decorated multi-line"]
    ctx.run_cases(pairs, [[i, some, 0, CORE] for i in range(CORE)])
    if ctx.quick:       # the other statements before and after any
        ctx.run_cases(pairs, [[i, ["nested"], 0 if i >= CORE else CORE, n] for i in range(n)])
    else:
        ctx.run_cases(pairs, [[i, some[:2], 0 if i >= CORE else CORE, n] for i in range(n)])
    ctx.run_cases(sensitivity, [["sensitivity"]])
    ctx.run_cases(in_files, [[a, min(n, a + 6)] for a in range(0, n, 6)])


def replay(case):
    for f in (rejected, singles, pairs, sensitivity, in_files):
        try:
            print(f.__name__, f(case))
        except (TypeError, ValueError, IndexError, KeyError) as e:
            print(f.__name__, "n/a", e)
