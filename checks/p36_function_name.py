"""Function names from source text: all combinations of a small grammar; ast is the oracle."""
import ast
import itertools
import textwrap

from pythagoras._040_ordinary_functions.function_name import get_function_name_from_source

from mc.core import expect, h

META = dict(level="exploration",
            technique="exhaustive enumeration of a grammar of source texts against the parser's answer",
            rule="a case is one source text (decorators x comments x indentation x spacing x name x signature x "
                 "body); the standard parser names the first top-level function; all texts are distinct",
            bounds="17 prefixes x 5 indentations x 7 spellings of def x 9 names x 9 signatures x 8 bodies x 3 returns "
                   "(quick: returns in pairs only), 29 texts without a function")

PREFIX = ["", "\n", "\n\n", "# def wrong(x):\n", "@deco\n", "@pth.autonomous(island_name='def wrong(')\n",
          "@a\n@b(1)\n", "@d('''\ndef wrong(x):\n    pass\n''')\n", "@d(\n    k=1,\n    # def wrong(y):\n    z=2)\n",
          "# comment\n\n@deco()\n# another\n", "@d(lambda define: define)\n", "@d(\"def w(x):\")\n", "@d(f'def')\n", "@d('def')\n", "@d(rf'{1}def' 'def')\n", "@d(f'''{f'def'}''', b'def')\n",
          "@d(f'def {1} def')\n"]
INDENT = ["", "    ", "\t", "  ", "        "]
DEF = ["def {n}({s}):", "def  {n}({s}):", "def {n} ({s}):", "def {n}( {s} ):", "def\t{n}({s}):", "def {n}({s})  :",
       "def \\\n  {n}({s}):"]
NAME = ["f", "fn_2", "define", "def_", "_", "ünï", "x" * 80, "Def", "async_def"]
SIG = ["", "x", "a, /, b=1, *c, d, **e", "x=(1, 2)", "x: 'def q(' = 3", "x='def w(y):'", "\n        x,\n        y",
       "x=lambda z: (z)", "x: int = 3"]
BODY = ["    pass", "    '''def wrong(x):'''\n    return 1", "    def inner(x):\n        return x\n    return inner",
        "    # def wrong(y):\n    return 2", "    class C:\n        def m(self): pass\n    return C",
        "    s = '''\n    def wrong(z):\n        pass\n    '''\n    return s", "    return 'def g(' + \"def h(\"", "    yield 1"]
RET = ["", " -> int", " -> 'def r('"]


def text(c):
    p, i, d, n, s, b, r = c
    head = DEF[d].format(n=NAME[n], s=SIG[s])
    head = head[:-1].rstrip() + RET[r] + ":" if r else head
    src = PREFIX[p] + head + "\n" + BODY[b] + "\n"
    return src, INDENT[i]


def oracle(src):
    for node in ast.parse(src).body:
        if isinstance(node, ast.FunctionDef):
            return node.name
    return None


def indent(src, pre):
    """Indent the lines that start a logical line or not - as a nested definition's source would look."""
    return textwrap.indent(src, pre) if pre else src


def case_fn(combos):
    for c in combos:
        src, pre = text(c)
        want = oracle(src)
        assert want == NAME[c[3]]
        got = get_function_name_from_source(indent(src, pre))
        expect(got == want, f"name:{c}", lambda: f"{got!r} from {indent(src, pre)!r}, expected {want!r}")
    return dict(evaluations=len(combos), traces=len(combos), sigs=[h(c) for c in combos])


NONE = ["", " ", "\n", "x = 1", "class A:\n    pass", "lambda x: x", "'def f(x)'", "# def f(): pass", "defx(y)", "define (x)",
        "x.def_(1)", "'''\ndef f(x):\n    pass\n'''", "print('def f(')", "redef = 2", "not python at all!", "\"def\"",
        "# def f(x):\n# pass\n", "import def_\n", "@deco\nclass A:\n    pass\n", "x = 'a\\\ndef f(x): pass'", "0", "f(x)",
        "f'def {1}'", "f'def'", "f'{1}def'", "'def'", "rf'''def'''", "x = f'def' 'f'",  "b'def f(): pass'"]


def none_case(texts):
    for t in texts:
        try:
            got = get_function_name_from_source(t)
        except Exception:
            continue
        expect(False, f"no-function:{t[:30]}", f"{got!r} from {t!r}")
    return dict(evaluations=len(texts), traces=len(texts), sigs=[h(t) for t in texts])


def run(ctx):
    dims = [len(PREFIX), len(INDENT), len(DEF), len(NAME), len(SIG), len(BODY), len(RET)]
    combos = set(itertools.product(*map(range, dims[:-1]), [0]))
    if ctx.quick:
        for a, b in itertools.combinations(range(7), 2):
            for x in range(dims[a]):
                for y in range(dims[b]):
                    v = [0] * 7
                    v[a], v[b] = x, y
                    combos.add(tuple(v))
    else:
        combos = set(itertools.product(*map(range, dims)))
    combos = sorted(combos)
    ctx.run_cases(case_fn, [combos[a:a + 400] for a in range(0, len(combos), 400)])
    ctx.run_cases(none_case, [NONE])
    ctx.samples = [repr(indent(*text(c))) for c in combos[::max(1, len(combos) // 6)]][:8]
    ctx.notes["texts"] = len(combos)


def replay(case):
    return none_case(case) if isinstance(case[0], str) else case_fn([tuple(c) for c in case])
