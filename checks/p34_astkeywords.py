"""Literal keyword arguments to syntax trees and back: all small dictionaries over a family of literals."""
import ast
import itertools

from pythagoras._070_pure_functions.astkeywords_dict_convertors import (
    convert_astkeywords_to_dict, convert_dict_to_astkeywords)

from mc.core import expect, h

META = dict(level="exploration",
            technique="exhaustive enumeration of small dictionaries and call texts, with equality as the oracle",
            rule="a case is a dictionary (or a call's text); it must come back equal, with equal types and key order",
            bounds="dictionaries of <=3 keys in every order; 90 literals nested to depth 2 alone and in pairs, 24 in "
                   "triples; 40 non-literal arguments; 45 literals as written")

SCALARS = [None, True, False, 0, 1, -1, 10 ** 30, 1.5, -0.0, 1e100, 1e-7, "", "a", "it's", '"q"', "a\nb\t\\", "é☃",
           "def f(x):", b"", b"x\x00\xff", 1j, 2j, 3.25 + 4j, "None", "1"]


def family():
    out = list(SCALARS)
    base = [None, True, 1, -1, 1.0, "a", b"b", 1j]
    for v in base:
        out += [[v], (v,), {v}, {"k": v}, {v: "k"}]
    out += [[], (), {}, set(), [1, 2], (1, 2), {1: 2, "a": "b"}, [[]], [()], ([],), ({},), [{}], {"a": {}}, {"a": []},
            [[1, (2,)], {"x": [3]}], {1: {2: (3, [4])}}, ((1,), (2,)), [None, [None]], {(1, 2): [3]},
            [1, 1.0, True], {"b": 1, "a": 2}, [{1, 2}], {"s": set()}]
    return out


FAMILY = family()
KEYS = ["a", "b_2", "Z", "self", "ünï"]


def same(x, y):
    if type(x) is not type(y):
        return False
    if isinstance(x, dict):
        return len(x) == len(y) and all(same(a, b) and same(x[a], y[b]) for a, b in zip(x, y))
    if isinstance(x, (list, tuple)):
        return len(x) == len(y) and all(map(same, x, y))
    if isinstance(x, (set, frozenset)):
        return x == y and sorted(map(repr, x)) == sorted(map(repr, y))
    return repr(x) == repr(y)


def check(d):
    kw = convert_dict_to_astkeywords(d)
    expect(isinstance(kw, list) and all(isinstance(k, ast.keyword) for k in kw) and len(kw) == len(d), "shape", f"{d!r}")
    back = convert_astkeywords_to_dict(kw)
    expect(same(back, d), "direct", lambda: f"{d!r} came back as {back!r}")
    call = ast.Call(func=ast.Name("f", ast.Load()), args=[], keywords=kw)
    text = ast.unparse(ast.fix_missing_locations(call))
    back = convert_astkeywords_to_dict(ast.parse(text, mode="eval").body.keywords)
    expect(same(back, d), "through-text", lambda: f"{d!r} came back as {back!r} through {text!r}")
    text = "f(" + ", ".join(f"{k}={v!r}" for k, v in d.items()) + ")"
    back = convert_astkeywords_to_dict(ast.parse(text, mode="eval").body.keywords)
    expect(same(back, d), "from-call", lambda: f"{text!r} gave {back!r}")
    kw2 = convert_dict_to_astkeywords(back)
    expect(same(convert_astkeywords_to_dict(kw2), d), "twice", lambda: f"{d!r}")


def case_fn(case):
    keys, idx = case
    for vals in idx:
        d = {k: FAMILY[i] for k, i in zip(keys, vals)}
        keep = repr(d)
        check(d)
        expect(repr(d) == keep, "argument-changed", keep)
    return dict(evaluations=len(idx) * 4, traces=len(idx), sigs=[h((keys, v)) for v in idx])


BAD = ["x", "x.y", "f()", "1 + x", "lambda: 1", "[x]", "(1, y)", "{x: 1}", "{1: x}", "f'{x}'", "x if 1 else 2",
       "not 1", "1 < 2", "[i for i in ()]", "x[0]", "'a'.upper()", "__import__('os')", "{**a}", "[*a]", "(yield)",
       "a := 1", "1 and 2", "~x", "'a' + 'b'", "2 * 3", "[1, [f(2)]]", "{'a': {'b': c}}", "print('x')", "int"]


TEXTS = ["1e999", "-1e999", "0x1F", "0b11", "0o17", "1_000", "1_0.5_0", "+1", "-0.0", "1+2j", "-1-2j", "'a' 'b'", "'a' \"b\" r'\\n'", "u'x'", "r'a\\b'",
         "\"\"\"a\nb\"\"\"", "b'a' b'b'", "rb'\\x00'", "'\\N{BULLET}\\x41\\u00e9'", "'\\ud800'", "(1)", "(1,)", "((1),)", "[1,]", "{1,}", "{'a': 1,}", "...",
         "[1e999, -1]", "{'a': 1, 'a': 2}", "{1: 'x', True: 'y'}", "set()", "('a'\n 'b')", "[\n1,  # c\n2]", "1.", ".5", "00", "1E5", "5J",
         "'\\\n'", "[[[[[[1]]]]]]", "{(1, (2, 3)): {4: {5: (6,)}}}", "'" + "x" * 3000 + "'", "True", "None", "[None, False]"]


def texts(case):
    """Literals as people write them, with the interpreter as the oracle."""
    for i, t in enumerate(TEXTS):
        for text in (f"f(k={t})", f"f(j=[1], k=({t}))", f"f(k=({t}), a=2)", f"f('positional', k={t})"):
            kws = ast.parse(text, mode="eval").body.keywords
            want = eval(text, dict(f=lambda *a, **k: k))
            got = convert_astkeywords_to_dict(kws)
            expect(same(got, want), "text", lambda: f"{text} gave {got!r}")
    return dict(evaluations=4 * len(TEXTS), traces=len(TEXTS), sigs=["texts"])


def bad(case):
    n = 0
    for t in BAD:
        for text in (f"f(k={t})", f"f(ok=1, k=({t}))", f"f(k=({t}), ok=[2])"):
            try:
                kws = ast.parse(text, mode="eval").body.keywords
            except SyntaxError:
                continue
            try:
                got = convert_astkeywords_to_dict(kws)
            except Exception:
                n += 1
                continue
            expect(False, "non-literal-accepted", f"{text} gave {got!r}")
    for notkw in (ast.Constant(1), "a", None, ("a", 1), {"a": 1}):
        try:
            convert_astkeywords_to_dict([notkw])
        except Exception:
            n += 1
            continue
        expect(False, "non-keyword-accepted", repr(notkw))
    expect(convert_astkeywords_to_dict([]) == {} and convert_dict_to_astkeywords({}) == [], "empty")
    return dict(evaluations=n, traces=n, sigs=["bad"])


def run(ctx):
    n = len(FAMILY)
    cases = [[[k], [[i] for i in range(n)]] for k in KEYS]
    pairs = [[i, j] for i in range(n) for j in range(n)]
    for ks in (("a", "b_2"), ("b_2", "a")) if ctx.quick else itertools.permutations(KEYS, 2):
        cases += [[list(ks), pairs[a:a + 1000]] for a in range(0, len(pairs), 1000)]
    sub = list(range(0, n, n // (14 if ctx.quick else 30)))
    trip = [list(t) for t in itertools.product(sub, repeat=3)]
    for ks in itertools.permutations(KEYS[:3]):
        cases += [[list(ks), trip[a:a + 1000]] for a in range(0, len(trip), 1000)]
    ctx.run_cases(case_fn, cases)
    ctx.run_cases(bad, [["bad"]])
    ctx.run_cases(texts, [["texts"]])
    ctx.samples = [repr(FAMILY[i]) for i in range(0, n, n // 7)][:8]


def replay(case):
    return bad(case) if case == ["bad"] else texts(case) if case == ["texts"] else case_fn(case)
