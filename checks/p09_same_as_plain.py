"""Every decorated function of the grammar against the plain one, called every way."""
import itertools

import mcprobe
import pythagoras as pth

from mc.fns import define, forget
from mc.world import attempt, clean, expect, h, quiet

META = dict(level="model_checking",
            technique="exhaustive enumeration of programs, executed decorated and plain side by side",
            rule="all signatures of up to three parameters over four kinds, with and without defaults, and all "
                 "bodies, names and argument values of the grammar; 5 decorators, functions given as objects and "
                 "as source text; every subset of the arguments supplied; positional calls; repeated wrapping",
            bounds="signatures of <=3 parameters, calls with all subsets of 4 argument names",
            assumptions=["bodies are deterministic"])

KINDS = ["ordinary", "safe", "autonomous", "strictly_autonomous", "pure"]

# bodies see the parameters as a dictionary L
BODIES = {
    "locals": "return sorted(L.items(), key=str)",
    "raise": "raise ValueError(sorted(L.items(), key=str))",
    "raise_from": "try:\n  1 / 0\n except ZeroDivisionError as e:\n  raise KeyError('k', len(L)) from e",
    "nested": "def g(x):\n  return [x, len(L)]\n return g(5)",
    "nested_same_name": "def {fn}(x):\n  return x + 1\n return {fn}(x=2)",
    "closure": "n = len(L)\n def g():\n  nonlocal n\n  n += 1\n  return n\n g()\n return g()",
    "lambda": "return (lambda *a, k=2: [a, k])(1, 2)",
    "comprehension": "return {k: [i for i in range(3)] for k in sorted(L)}",
    "class": "class A:\n  t = 3\n  def m(self, y=4):\n   return self.t + y\n return A().m()",
    "string": "return 'def {fn}(x): return 1'",
    "multiline": "return '''def {fn}(x):\n    return # 1\n\n  end'''",
    "docstring": "'''def {fn}(): pass'''\n return {fn}.__class__.__name__ != ''",
    "import": "import math as m\n from os import path\n return m.floor(2.5), path.join('a', 'b')",
    "finally": "out = []\n try:\n  out.append(1)\n  raise KeyError(1)\n except KeyError:\n  out.append(2)\n else:\n"
               "  out.append(3)\n finally:\n  out.append(4)\n return out",
    "mutate": "L['new'] = [1]\n L['new'].append(2)\n return sorted(map(str, L.items()))",
    "generator": "return list((i, j) for i in 'ab' for j in range(2))",
    "inner_generator": "def g():\n  yield 1\n  x = yield 2\n return list(g())",
    "inner_async": "async def g():\n  return 1\n c = g()\n c.close()\n return type(c).__name__",
    "walrus": "return [(y := i) for i in range(3)], y",
    "none": "pass",
    "empty_return": "return",
    "ellipsis": "...",
    "fstring": "x = 3\n return f'{{x!r:>5}} {{x + 1}}'",
    "while": "i = 0\n while i < 5:\n  i += 1\n  if i == 3:\n   continue\n  if i == 4:\n   break\n else:\n  return 'no'\n return i",
    "match": "match len(L):\n  case 0: r = 'zero'\n  case 1 | 2: r = 'few'\n  case _: r = 'many'\n return r",
    "star": "a, *b = [1, 2, 3]\n return [*b, a], {{**L, 'z': 1}}.keys() >= {{'z'}}",
    "global_builtin": "return max(len(str(len(L))), abs(-3), sum([1, 2]))",
    "assert": "assert len(L) > 90, 'too few'",
    "system_exit": "raise StopIteration(3)",
    "annotated": "x: int = 3\n y: list[int]\n return x",
    "with": "import contextlib\n with contextlib.suppress(KeyError) as c:\n  raise KeyError\n return c",
    "del": "t = [1, 2]\n del t[0]\n return t",
    "types": "return [1, 1.0, True, None, 'a', b'a', (1,), {{1}}, frozenset([2]), 1j, ...]",
    "big": "return 10 ** 30, -1, 0.1 + 0.2, float('inf')",
}
RECURSIVE = {
    "factorial": ("n", "return 1 if n <= 0 else n * {fn}(n=n - 1)", [0, 1, 5]),
    "fibonacci": ("n", "return n if n < 2 else {fn}(n=n - 1) + {fn}(n=n - 2)", [0, 1, 6]),
    "hanoi": ("n, a='A', b='B', c='C'",
              "return [] if n == 0 else {fn}(n=n - 1, a=a, b=c, c=b) + [a + c] + {fn}(n=n - 1, a=b, b=a, c=c)", [0, 3]),
    "deep_raise": ("n", "if n == 0:\n  raise ValueError('bottom')\n try:\n  return {fn}(n=n - 1)\n except ValueError as e:\n"
                        "  if n == 3:\n   return str(e)\n  raise", [0, 1, 3, 4]),
    "inner": ("n", "def step(k):\n  return 0 if k == 0 else 1 + step(k - 1)\n return step(n) if n < 3 else {fn}(n=n - 1)",
              [2, 5]),
}
NAMES = ["f", "g_1", "defx", "_d", "f" * 40, "result", "kwargs", "tmp_func", "F"]
# parameter names that the framework's own code also uses
PARAM_NAMES = ["self", "portal", "args", "kwargs", "fn", "f", "a_fn", "result", "timeout", "names_dict",
               "island_name", "key", "prefix", "name", "pth", "frame", "L", "cls", "random_x", "_",
               "execution_results", "data", "source_to_exec", "guards", "print_"]
VALUES = [0, -1, 2.5, True, None, "", "def f(): pass", "üñ", b"\x00", [1, [2]], (1, (2,)), {"k": {"j": 1}}, {3, 4},
          frozenset("ab"), 1 + 2j, range(3), float("inf"), ..., int, len]


def sig_cases():
    """Parameter lists of up to three parameters a, b, c."""
    kinds = ["po", "pk", "ko", "kw"]
    for n in range(0, 4):
        for ks in itertools.product(kinds, repeat=n):
            order = [kinds.index(k) for k in ks]
            if order != sorted(order) or ks.count("kw") > 1:
                continue
            for ds in itertools.product((0, 1), repeat=n):
                if any(d and k == "kw" for d, k in zip(ds, ks)):
                    continue
                seen = 0
                ok = True
                for d, k in zip(ds, ks):
                    if k in ("po", "pk"):
                        if seen and not d:
                            ok = False
                        seen |= d
                if not ok:
                    continue
                parts, star, slash = [], False, False
                for i, (d, k) in enumerate(zip(ds, ks)):
                    if slash is False and "po" in ks and k != "po":
                        parts.append("/")
                        slash = True
                    if k == "ko" and not star:
                        parts.append("*")
                        star = True
                    nm = "abc"[i]
                    parts.append(f"**{nm}" if k == "kw" else f"{nm}={10 + i}" if d else nm)
                if "po" in ks and not slash:
                    parts.append("/")
                yield ", ".join(parts)


def source(name, params, body, probe=True):
    b = body.replace("{fn}", name).replace("{{", "{").replace("}}", "}")
    return (f"def {name}({params}):\n L = dict(locals())\n" +
            (" import mcprobe\n mcprobe.note()\n" if probe else "") + f" {b}\n")


def decorated(kind, src, name, as_text):
    """`as_text`: the function is given as source, else as a function object with a decorator line."""
    cls = dict(ordinary=pth.OrdinaryFn, safe=pth.SafeFn, autonomous=pth.AutonomousFn, pure=pth.PureFn)
    if as_text:
        if kind == "strictly_autonomous":
            return pth.AutonomousFn(src, strictly_autonomous=True)
        return cls[kind](src)
    ns = dict(__name__="mc_user_module", pth=pth)
    # a decorator line as users write it; the decorator receives the function object
    return define(f"@pth.{kind}()\n{src}", name=name, namespace=ns)


def same(a, b):
    """Equal results, of equal types throughout."""
    def typed(x):
        if isinstance(x, (list, tuple)):
            return (type(x).__name__, [typed(i) for i in x])
        if isinstance(x, dict):
            return ("dict", sorted(((typed(k), typed(v)) for k, v in x.items()), key=repr))
        if isinstance(x, (set, frozenset)):
            return (type(x).__name__, sorted((typed(i) for i in x), key=repr))
        return (type(x).__name__, repr(x))
    return typed(a) == typed(b)


def outcome(f, /, *a, **k):
    try:
        return ("ok", f(*a, **k))
    except Exception as e:
        cause = type(e.__cause__).__name__
        if isinstance(e, TypeError) and "argument" in str(e):
            return ("exc", "TypeError", "arguments")       # the message names the function
        return ("exc", type(e).__name__, str(e.args), cause)


def kwsets(params):
    names = ["a", "b", "c", "z"]
    for r in range(len(names) + 1):
        for s in itertools.combinations(names, r):
            yield {k: i + 1 for i, k in enumerate(s)}


def compare(kind, src, name, calls, key, texts=(False, True)):
    n = 0
    for as_text in texts:
        with clean(salt=h(src)) as disk, quiet():
            forget()
            with pth.PureCodePortal("/mem/p"):
                plain = define(src, name=name)
                f = decorated(kind, src, name, as_text)
                for kw in calls:
                    mcprobe.ran.clear()
                    want = outcome(plain, **kw)
                    ran0 = len(mcprobe.ran)
                    mcprobe.ran.clear()
                    got = outcome(f, **kw)
                    expect(got[0] == want[0] and (same(got[1:], want[1:])), key,
                           lambda: f"{kind}{' from text' if as_text else ''}:\n{src}\ncalled with {kw}: "
                                   f"{got} instead of {want}")
                    expect(bool(mcprobe.ran) == bool(ran0), key + ":runs",
                           lambda: f"{kind}:\n{src}\n{kw}: body ran {len(mcprobe.ran)} times, plain {ran0}")
                    n += 1
                mcprobe.ran.clear()
                for pos in ((1,), (1, 2), ([],)):
                    for kw in calls[:2]:
                        r = outcome(f, *pos, **kw)
                        expect(r[0] == "exc" and not mcprobe.ran, "positional-accepted",
                               lambda: f"{kind}:\n{src}\n{pos} {kw}: {r}")
                        n += 1
                # wrapping again
                g = getattr(pth, kind)()(f)
                for kw in calls[:3]:
                    want, got = outcome(plain, **kw), outcome(g, **kw)
                    expect(got[0] == want[0] and same(got[1:], want[1:]), key + ":rewrapped",
                           lambda: f"{kind} twice:\n{src}\n{kw}: {got} instead of {want}")
                expect(type(g) is type(f) and g.fn_name == f.fn_name == name and
                       g.fn_source_code == f.fn_source_code and g.decorator == f.decorator, "rewrapping-changes",
                       lambda: f"{kind}:\n{src}\n{g.fn_name} {g.decorator} {g.fn_source_code}")
    return dict(states=1, transitions=n, evaluations=n, sigs=[h((kind, src))])


def case(c):
    what, kind = c[0], c[1]
    if what == "sig":
        return compare(kind, source("f", c[2], BODIES["locals"]), "f", list(kwsets(c[2])), f"{what}:{kind}:{c[2]}")
    if what == "body":
        b = BODIES[c[2]]
        return compare(kind, source(c[3], c[4], b), c[3], [{}, dict(a=1)] if "a" in c[4] else [{}],
                       f"{what}:{kind}:{c[2]}:{c[3]}:{c[4]}")
    if what == "rec":
        params, b, vals = RECURSIVE[c[2]]
        return compare(kind, source(c[3], params, b), c[3], [dict(n=v) for v in vals], f"{what}:{kind}:{c[2]}:{c[3]}")
    if what == "param":
        src = source(c[3], f"{c[2]}, b=2" if c[4] == "pk" else f"*, {c[2]}=7, b=2" if c[4] == "ko" else f"a=1, **{c[2]}",
                     BODIES["locals"])
        return compare(kind, src, c[3], [{c[2]: 5}, {c[2]: "x", "b": 3}, {"b": 1}], f"{what}:{kind}:{c[2]}:{c[3]}:{c[4]}")
    if what == "value":
        v = VALUES[c[2]]
        return compare(kind, source("f", "a, **b", "return [a, b, repr(a)]"), "f",
                       [dict(a=v), dict(a=[v]), dict(a=1, q=v), dict(a=dict(k=v))], f"{what}:{kind}:{c[2]}")
    if what == "cosmetic":
        src = c[2]
        return compare(kind, src, "f", [dict(a=1), dict(a=2, b=3)], f"{what}:{kind}:{h(src)[:6]}")
    if what == "order":
        return order_case(c)
    if what == "inner":
        return inner_case(c)
    if what == "leak":
        return leak_case(c)
    raise AssertionError(c)


def order_case(c):
    """The keywords gathered by ** keep the order in which the caller gave them."""
    _, kind, params = c
    src = source("f", params, "return [list(b), sorted(L)]")
    n = 0
    for as_text in (False, True):
        with clean(salt=h(src)), quiet():
            forget()
            with pth.PureCodePortal("/mem/p"):
                plain = define(src, name="f")
                f = decorated(kind, src, "f", as_text)
                for names in itertools.permutations(["a", "x", "m", "c"]):
                    for k in range(5):
                        kw = {x: i for i, x in enumerate(names[:k])}
                        want, got = outcome(plain, **kw), outcome(f, **kw)
                        expect(same(got, want), f"order:{kind}:{params}", lambda: f"{kind}:\n{src}\n{kw}: {got} instead of {want}")
                        n += 1
    return dict(states=1, transitions=n, evaluations=n, sigs=[h((kind, src))])


def leak_case(c):
    """What one function brought into scope is not in scope in the next: a name that a plain function would
    not find is not found."""
    _, first, second = c
    srcs = ["def alpha(a=1):\n import math as alpha_math\n alpha_tmp = a\n return alpha_tmp + alpha_math.floor(1.5)\n",
            "def beta(b=2):\n return b if b < 3 else beta(b=b - 1)\n"]
    n = 0
    with clean(salt=str(c)), quiet():
        forget()
        with pth.PureCodePortal("/mem/p"):
            fs = [decorated(first, s, nm, t) for s, nm in zip(srcs, ("alpha", "beta")) for t in (False, True)]
            for f in fs:
                f()
                f(**{"a" if f.fn_name == "alpha" else "b": 5})
            for name in ("alpha", "beta", "alpha_math", "alpha_tmp", "a", "b", "kwargs", "result", "args", "tmp_func", "x", "f",
                         *(p + s for p in ("kwargs", "result", "tmp_func", "fn", "", "res", "tmp") for s in ("_gamma", "gamma")
                           if p + s != "gamma")):
                src = f"def gamma(c=0):\n try:\n  {name}\n except NameError:\n  return 'unknown'\n return 'known'\n"
                g = decorated(second, src, "gamma", False)
                got = outcome(g)
                expect(got == ("ok", "unknown"), f"leak:{first}:{second}:{name}", lambda: f"{second} after {first}:\n{src}\n{got}")
                n += 1
    return dict(states=1, transitions=n, evaluations=n, sigs=[h(c)])


INNER = {
    "direct": "return 0 if n == 0 else 1 + {f}(n - 1)",
    "nested": "def h(k):\n    return {f}(k)\nreturn 0 if n == 0 else h(n - 1)",
    "map": "return 0 if n == 0 else sum(map({f}, [n - 1]))",
    "mixed": "return 0 if n == 0 else {f}(n - 1, m=0)",
    "star": "q = {f}\nreturn 0 if n == 0 else q(*[n - 1])",
    "comprehension": "return 0 if n == 0 else [{f}(k) for k in (n - 1,)]",
    "lambda": "return 0 if n == 0 else (lambda k: {f}(k))(n - 1)",
}


def inner_case(c):
    """A positional argument is refused as well where a function calls itself or another decorated one."""
    _, kind, form, target = c
    n = 0
    with clean(salt=str(c)), quiet():
        forget()
        with pth.PureCodePortal("/mem/p"):
            body = "import mcprobe\nmcprobe.note('f', n)\n" + INNER[form].format(f=target)
            src = "def f(n, m=1):\n" + "".join(f"    {l}\n" for l in body.split("\n"))
            other = "def g(n, m=1):\n    import mcprobe\n    mcprobe.note('g', n)\n    return n\n"
            for as_text in (True, False):
                f = decorated(kind, src, "f", as_text)
                if target == "g":
                    decorated(kind, other, "g", as_text)
                mcprobe.ran.clear()
                got = outcome(f, n=0)
                expect(got == ("ok", 0), f"inner:{kind}:{form}", lambda: f"{kind}:\n{src}\n{got}")
                ran = list(mcprobe.ran)
                mcprobe.ran.clear()
                got = outcome(f, n=2)
                expect(got[0] != "ok", f"inner-positional-accepted:{kind}:{form}:{target}", lambda: f"{kind}:\n{src}\n{got}")
                expect(mcprobe.ran == [("f", 2)], f"inner-positional-ran:{kind}:{form}:{target}",
                       lambda: f"{kind}:\n{src}\nran {mcprobe.ran} (before: {ran})")
                n += 2
    return dict(states=1, transitions=n, evaluations=n, sigs=[h(c)])


COSMETIC = [
    "def f[T](a: T, b=2) -> T:\n    return [a, b]\n",
    "def f(a: int, b: 'str' = 2) -> dict:\n    '''doc'''\n    # comment\n    return [a, b]\n",
    "def f(a, b=2):\n\treturn [a,\n\t\tb]\n",
    "def f(\n    a,\n    b=2,\n):\n    x: int = a ; y = b\n    return [x, y]\n",
    "def f(a, b=2): return [a, b]\n",
    "def  f (a, b = (1 +\n 1)) :\n  'd'\n  return \\\n   [a, b]\n",
    "def f(a, b=2):\n    'only a docstring'\n",
    "def f(a, b=2):\n    class C:\n        'doc'\n        x: int\n        y: int = a\n    return [C.y, b]\n",
    "def f(a, b=2):\n    def g():\n        '''doc'''\n    return [g(), a, b]\n",
    "def f(a, b={'k': [1]}):\n    return [a, str(b)]\n",
]


def cases(quick):
    for kind in KINDS:
        for s in sig_cases():
            yield ["sig", kind, s]
        for b in BODIES:
            for nm in (NAMES[:1] if quick else NAMES):
                for ps in ("", "a=0", "*, a=0"):
                    yield ["body", kind, b, nm, ps]
        for nm in NAMES[1:]:
            for b in ("nested_same_name", "string", "multiline", "locals"):
                yield ["body", kind, b, nm, ""]
        for r in RECURSIVE:
            for nm in NAMES:
                yield ["rec", kind, r, nm]
        for p in PARAM_NAMES:
            for nm in (["f", p] if quick else ["f", p, "kwargs", "result"]):
                for how in ("pk", "ko", "kw"):
                    if (p == "L" and how) or nm == "_" or nm == "pth":
                        continue
                    yield ["param", kind, p, nm, how]
        for i in range(len(VALUES)):
            yield ["value", kind, i]
        for s in COSMETIC:
            yield ["cosmetic", kind, s]
        for form in INNER:
            yield ["inner", kind, form, "f"]
            if kind in ("autonomous", "pure"):
                yield ["inner", kind, form, "g"]
        if kind != "pure":
            for params in ("**b", "a=0, **b", "*, x=1, **b", "m=1, /, **b"):
                yield ["order", kind, params]
        if kind in ("ordinary", "safe"):
            for first in KINDS:
                if first != "strictly_autonomous":
                    yield ["leak", first, kind]


def run(ctx):
    ctx.run_cases(case, cases(ctx.quick), batch=8)


def replay(c):
    return case(c)
