"""All directed graphs of up to 4 functions (and families of larger ones): dependencies = reachability."""
import itertools

import pythagoras as pth
from pythagoras import BasicPortal
from pythagoras._060_autonomous_functions.call_graph_explorer import explore_call_graph_deep, explore_call_graph_shallow

from mc.core import expect, h, Problem
from mc.world import clean, quiet

META = dict(level="model_checking",
            rule="one state = one reference graph over named functions, in one order of presentation; the "
                 "reported dependencies are compared with a breadth-first search",
            bounds="all graphs of <=4 functions (both presentation orders), all graphs of 5 functions with <=4 "
                   "(quick) / <=6 edges, all relabelled chains, rings and wedges of 6; 11 families "
                   "of graphs of every size to 24 (quick) / 70 in 6 namings and 3 orders; 79 ways to refer to a "
                   "function, 64 uses of the same word that refer to none, alone and in pairs; 13 sets of names that mean something elsewhere and every mixture of text, functions and wrapped functions for all graphs of 3; the same through registered functions for all graphs of 3")

FORMS = [
    "{n}()", "x = {n}", "return {n}", "g = [{n}]", "h = {{1: {n}}}", "len([{n}(x=1) for q in range(2)])",
    "k = (lambda: {n}())", "if x:\n        pass\n    else:\n        {n}()", "try:\n        pass\n    finally:\n        {n}()",
    "def inner():\n        return {n}()", "while x:\n        {n}.a.b",
    "global {n}\n    {n}()", "def inner():\n        global {n}\n        return {n}(x=1)\n    inner()",
    "@{n}\n    def inner():\n        pass", "def inner(q={n}):\n        pass", "def inner(*, q={n}):\n        pass",
    "k = lambda q={n}: q", "k = lambda *a: [{n} for b in a]", "k = [q for q in {n}()]", "k = {{q for q in x if {n}(q)}}",
    "k = {{q: {n} for q in x}}", "k = {{{n}: q for q in x}}", "k = list({n}(q) for q in x for w in q)",
    "k = [w for q in x for w in {n}(q)]",
    "with {n}() as q:\n        pass", "with x, {n}:\n        pass",
    "try:\n        pass\n    except {n}:\n        pass", "try:\n        pass\n    except x as e:\n        {n}(e)",
    "try:\n        pass\n    except x:\n        pass\n    else:\n        {n}",
    "x += {n}()", "k = f'{{{n}()}}'", "k = f'{{x:{{{n}}}}}'", "assert {n}", "assert x, {n}", "{n}.a = 1",
    "x[{n}] = 1", "x = x[{n}:1]", "del {n}.a", "raise {n}", "raise x from {n}", "x(*{n})", "x(**{n})",
    "x({n}, k={n})", "(z := {n}())", "z = x if {n} else 1", "z = not {n}", "z = x < {n} < 3", "z = {n} or x",
    "for q in {n}:\n        pass", "for q in x:\n        pass\n    else:\n        {n}()", "for {n}.a in x:\n        pass",
    "while {n}:\n        pass", "if {n}:\n        pass", "if x:\n        pass\n    elif {n}:\n        pass",
    "match x:\n        case 1 if {n}(x):\n            pass", "match {n}():\n        case _:\n            pass",
    "match x:\n        case {n}.a:\n            pass", "match x:\n        case {n}(a=1):\n            pass",
    "type z = {n}", "type z[q] = {n}[q]", "def inner[q: {n}]():\n        pass", "class Inner[q]({n}):\n        pass",
    "class Inner[q: {n}]:\n        pass",
    "class Inner({n}):\n        pass", "class Inner:\n        def method(self):\n            return {n}()",
    "class Inner:\n        a = {n}", "class Inner(metaclass={n}):\n        pass",
    "def inner():\n        def core():\n            return {n}\n        return core\n    inner()",
    "def inner():\n        {n} = 1\n        return {n}\n    {n}()",
    "{n}()\n    def inner(x):\n        {n} = 1\n        return {n}",
    "def inner({n}):\n        return {n}\n    {n}()", "k = lambda {n}: {n}\n    {n}()",
    "async def inner():\n        await {n}()", "async def inner():\n        async with {n}:\n            pass",
    "async def inner():\n        async for q in {n}:\n            pass", "def inner():\n        yield {n}",
    "def inner():\n        yield from {n}()", "(a, b), *c = {n}()", "return {n}.b.c(1)[2]",
]


def source(name, refs, form):
    body = "\n    ".join(form.format(n=r) for r in refs) or "pass"
    return f"def {name}(x=0):\n    {body}\n    y = x\n"


def closure(nodes, edges):
    out = {}
    for a in nodes:
        seen, todo = {a}, [a]
        while todo:
            b = todo.pop()
            for c in edges.get(b, ()):
                if c not in seen:
                    seen.add(c)
                    todo.append(c)
        out[a] = seen
    return out


def check(nodes, edges, form, order):
    srcs = [source(n, sorted(edges.get(n, ())), form) for n in order]
    got = explore_call_graph_deep(srcs)
    want = closure(nodes, edges)
    expect(got == want, "wrong-dependencies", lambda: f"{edges} presented as {order}: {got} expected {want}")
    sh = explore_call_graph_shallow(srcs)
    want = {n: {n} | set(edges.get(n, ())) for n in nodes}
    expect(sh == want, "wrong-direct-dependencies", lambda: f"{edges}: {sh} expected {want}")


NAMES = ["f_c", "f_a", "f_d", "f_b", "f_e", "f_f"]


def pairs(n):
    return [(a, b) for a in NAMES[:n] for b in NAMES[:n] if a != b]


def to_edges(es):
    d = {}
    for a, b in es:
        d.setdefault(a, set()).add(b)
    return d


def graph_case(case):
    n, lo, hi, forms, both = case
    ps = pairs(n)
    k = 0
    for mask in range(lo, hi):
        es = to_edges([p for i, p in enumerate(ps) if mask >> i & 1])
        nodes = NAMES[:n]
        form = FORMS[forms[mask % len(forms)]]
        check(nodes, es, form, nodes)
        if both:
            check(nodes, es, form, nodes[::-1])
        k += 1
    return dict(states=k, transitions=k * (2 if both else 1), sigs=[h(case)])


def sparse_case(case):
    n, combos = case
    ps = pairs(n)
    for c in combos:
        check(NAMES[:n], to_edges([ps[i] for i in c]), FORMS[0], NAMES[:n])
    return dict(states=len(combos), transitions=len(combos), sigs=[h(case)])


def shape_case(case):
    shape, perms = case
    for perm in perms:
        nodes = [NAMES[i] for i in perm]
        chain = [(nodes[i], nodes[i + 1]) for i in range(5)]
        extra = dict(chain=[], ring=[(nodes[5], nodes[0])], wedge=[(nodes[0], nodes[3])],
                     glass=[(nodes[4], nodes[2])])[shape]
        check(nodes, to_edges(chain + extra), FORMS[0], NAMES)
    return dict(states=len(perms), transitions=len(perms), sigs=[h(case)])


BIG = dict(
    forward=lambda n: [(i, i + 1) for i in range(n - 1)],
    backward=lambda n: [(i + 1, i) for i in range(n - 1)],
    ring=lambda n: [(i, (i + 1) % n) for i in range(n)] if n > 1 else [],
    star=lambda n: [(0, i) for i in range(1, n)],
    sink=lambda n: [(i, 0) for i in range(1, n)],
    tree=lambda n: [((i - 1) // 2, i) for i in range(1, n)],
    up_tree=lambda n: [(i, (i - 1) // 2) for i in range(1, n)],
    two_rings=lambda n: [(i, (i + 1) % (n // 2)) for i in range(n // 2) if n // 2 > 1] +
                        [(i, n // 2 + (i + 1 - n // 2) % (n - n // 2)) for i in range(n // 2, n) if n - n // 2 > 1],
    lasso=lambda n: [(i, i + 1) for i in range(n - 1)] + ([(n - 1, n // 2)] if n > 2 else []),
    stride=lambda n: [(i, (i * 2) % n) for i in range(n) if (i * 2) % n != i] + [(i, i + 3) for i in range(n - 3)],
    full=lambda n: [(i, j) for i in range(n) for j in range(n) if i != j] if n <= 16 else [(i, i + 1) for i in range(0, n - 1, 2)],
)
NAMINGS = dict(
    up=lambda i, n: f"f{i:03d}", down=lambda i, n: f"f{n - i:03d}", plain=lambda i, n: f"step_{i}",
    prefix=lambda i, n: "g" * (i + 1), mixed=lambda i, n: f"F{i * 37 % 101}_{'aB_'[i % 3]}", uni=lambda i, n: f"ф{i}é")


def big_case(case):
    """Families of larger graphs: every size up to a bound, several namings and orders of presentation."""
    shape, naming, sizes = case
    k = 0
    for n in sizes:
        names = [NAMINGS[naming](i, n) for i in range(n)]
        if len(set(names)) < n:
            continue
        edges = {}
        for a, b in BIG[shape](n):
            edges.setdefault(names[a], set()).add(names[b])
        for order in (names, names[::-1], names[n // 2:] + names[:n // 2]):
            check(names, edges, FORMS[k % 2], order)
            k += 1
    return dict(states=k, transitions=k, sigs=[h(case)])


NOT_REFS = [
    "other = 1", "import math as other", "import other", "import other.part", "from math import sqrt as other",
    "x.other", "x.other.y()", "x.a.other = 1", "'other'", "f'other {{x}}'", "b'other'", "x  # other", "dict(other=1)", "x['other']",
    "for other in [1]:\n        pass", "for x.a, (other, z) in []:\n        pass", "def other():\n        return 1",
    "async def other():\n        pass", "class other:\n        pass", "with open('x') as other:\n        pass",
    "with x as (other, z):\n        pass", "k = (lambda other: other)(1)", "k = lambda *other: other",
    "k = lambda **other: other", "k = lambda *, other: other", "k = lambda other=1: [other for z in x]",
    "try:\n        pass\n    except Exception as other:\n        z = other",
    "(other := 1)", "other, z = x", "[other, *z] = x", "*other, z = x", "other = z = x",
    "def inner(other):\n        return other", "def inner(*other):\n        return other",
    "def inner(*, other):\n        return other", "def inner(**other):\n        return other",
    "def inner():\n        other = 1\n        return other", "def inner():\n        import other\n        return other",
    "def inner():\n        def other():\n            pass\n        return other()",
    "def inner():\n        for other in x:\n            yield other",
    "other = 1\n    def inner():\n        nonlocal other\n        other = 2",
    "class Inner:\n        other = 1", "class Inner:\n        def other(self):\n            return self.other",
    "match x:\n        case other:\n            z = other", "match x:\n        case [1, *other] if other:\n            z = other",
    "match x:\n        case {1: z, **other}:\n            z = other", "match x:\n        case x.a(other=1) | x.other:\n            pass",
    "match x:\n        case (1 | 2) as other:\n            z = other", "match x:\n        case x.a(z, b=other):\n            z = other",
    "def inner():\n        match x:\n            case [other]:\n                return other",
    "def inner[other]():\n        return other", "class Inner[other](x[other]):\n        a = other", "type z[other] = other",
    "class Inner[other: x]:\n        def method(self):\n            return other", "type other = x\n    z = other",
    "x.f(1).other[2]", "x(other=x)", "return x.other", "return 'other'",
]
SCOPED = ["k = [other for other in [1]]", "k = {other: other for other in x}", "k = {other for z in x for other in z if other}",
          "k = list(other for other in x)", "k = [1 for other, z in x if other]"]


def not_refs(case):
    """Things that look like references and are not."""
    first = case[1]
    bodies = NOT_REFS + SCOPED if first is None else [NOT_REFS[first] + "\n    " + b for b in NOT_REFS]
    for body in bodies:
        srcs = [f"def f(x=0):\n    {body}\n", "def other(x=0):\n    return 1\n"]
        got = explore_call_graph_deep(srcs)
        expect(got == {"f": {"f"}, "other": {"other"}}, "invented-dependency", f"{body!r}: {got}")
    srcs = ["def f(other=0):\n    return other\n", "def other(x=0):\n    return 1\n"]
    expect(explore_call_graph_deep(srcs)["f"] == {"f"}, "invented-dependency", "parameter")
    expect(explore_call_graph_deep([]) == {}, "empty")
    return dict(states=len(bodies), transitions=len(bodies), sigs=[h(case)])


def registered(case):
    """The same through registered autonomous functions."""
    kind, masks = case
    ps = pairs(3)
    for mask in masks:
        es = to_edges([p for i, p in enumerate(ps) if mask >> i & 1])
        with clean(), quiet():
            portal = pth.PureCodePortal("/mem/p")
            with portal:
                fns = {}
                for n in NAMES[:3]:
                    refs = sorted(es.get(n, ()))
                    src = f"def {n}(x=0):\n    if x:\n        " + (
                        "\n        ".join(f"{r}(x=0)" for r in refs) or "pass") + "\n    return x\n"
                    fns[n] = (pth.autonomous() if kind == "aut" else pth.pure())(src)
                want = closure(NAMES[:3], es)
                for n in NAMES[:3]:
                    expect(fns[n](x=0) == 0, "call", f"{es}")
                    expect(set(fns[n].dependencies) == want[n] and len(fns[n].dependencies) == len(want[n]),
                           "wrong-registered-dependencies", f"{kind} {es} {n}: {fns[n].dependencies}")
    return dict(states=len(masks), transitions=3 * len(masks), sigs=[h(case)])


NAME_SETS = [("print", "list", "f"), ("self", "cls", "f"), ("pth", "pure", "autonomous"), ("_", "__", "__f__"), ("a", "A", "aa"),
             ("f", "f_f", "f_f_f"), ("len", "sorted", "math"), ("g", "other", "inner"), ("Exception", "None_", "True_"),
             ("é", "ñ", "ф"), ("i", "k", "z"), ("globals", "locals", "vars"), ("function", "name", "analyzer")]
_files = itertools.count()


def real(src):
    """The function itself, whose source Python can tell."""
    import linecache
    fname = f"/nowhere/p12_{next(_files)}.py"
    linecache.cache[fname] = (len(src), None, src.splitlines(True), fname)
    ns = {"__name__": "p12"}
    exec(compile(src, fname, "exec", dont_inherit=True), ns)
    return next(v for k, v in ns.items() if callable(v) and getattr(v, "__module__", "") == "p12")


KINDS = dict(text=lambda s: s, function=real, ordinary=lambda s: pth.ordinary()(s),
             commented=lambda s: "# def zz(): pass\n" + s.replace(":\n", ":   # print(zz)\n", 1))


def kinds_case(case):
    """Text, functions and wrapped functions, in any mixture; words that mean something elsewhere as names."""
    names, kinds = case
    ps = [(a, b) for a in names for b in names]
    k = 0
    with clean(), quiet():
        portal = pth.PureCodePortal("/mem/p")
        with portal:
            for mask in range(512):
                es = to_edges([p for i, p in enumerate(ps) if mask >> i & 1])
                items = [KINDS[kind](f"def {n}(y):\n    w = 1\n    " + "\n    ".join(f"{r}(y=w)" for r in sorted(es.get(n, ())))
                                     + "\n    return y\n") for n, kind in zip(names, kinds)]
                kept = list(items)
                for explore, want in ((explore_call_graph_shallow, {n: {n} | es.get(n, set()) for n in names}),
                                      (explore_call_graph_deep, closure(names, es))):
                    got = explore(items)
                    expect(got == want, "wrong-dependencies", lambda: f"{case} {es}: {got} expected {want}")
                    for x in got.values():
                        x.add("spoilt")
                    expect(explore(tuple(items)) == want, "answer-kept", lambda: f"{case} {es}")
                expect(len(items) == len(kept) and all(a is b for a, b in zip(items, kept)), "list-changed", lambda: f"{case} {es}")
                k += 1
    return dict(states=k, transitions=4 * k, sigs=[h(case)])


def run(ctx):
    ctx.run_cases(kinds_case, [[list(n), ["text"] * 3] for n in NAME_SETS]
                  + [[list(NAME_SETS[0 if ctx.quick else i % 2 * 10]), list(k)]
                     for i, k in enumerate(itertools.product(KINDS, repeat=3)) if not ctx.quick or k[1] == k[2]])
    for n in (1, 2, 3):
        for f in range(len(FORMS)):
            ctx.run_cases(graph_case, [[n, 0, 2 ** (n * (n - 1)), [f], True]])
    ctx.run_cases(graph_case, [[4, a, a + 128, list(range(len(FORMS))), not ctx.quick] for a in range(0, 4096, 128)])
    if not ctx.quick:
        for f in range(len(FORMS)):
            ctx.run_cases(graph_case, [[4, a, a + 128, [f], True] for a in range(0, 4096, 128)])
    combos = [c for k in range(1, 4 if ctx.quick else 6) for c in itertools.combinations(range(20), k)]
    ctx.run_cases(sparse_case, [[5, combos[a:a + 200]] for a in range(0, len(combos), 200)])
    perms = list(itertools.permutations(range(6)))
    if ctx.quick:
        perms = perms[::2]
    ctx.run_cases(shape_case, [[s, perms[a:a + 60]] for s in ("chain", "ring", "wedge", "glass")
                               for a in range(0, len(perms), 60)])
    top = 24 if ctx.quick else 70
    ctx.run_cases(big_case, [[s, nm, list(range(lo, top + 1, 6))] for s in BIG for nm in NAMINGS for lo in range(1, 7)])
    ctx.run_cases(not_refs, [["not-refs", None]] + [
        ["not-refs", i] for i in range(len(NOT_REFS)) if not NOT_REFS[i].startswith("return")])
    ctx.run_cases(registered, [[k, list(range(a, a + 8))] for k in ("aut", "pure") for a in range(0, 64, 8)])


def replay(case):
    for f in (kinds_case, graph_case, sparse_case, shape_case, big_case, not_refs, registered):
        try:
            print(f.__name__, f(case))
        except (TypeError, ValueError, IndexError, KeyError) as e:
            print(f.__name__, "n/a", e)
