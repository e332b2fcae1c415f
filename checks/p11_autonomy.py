"""Every small nesting of name-binding and name-using constructs, against Python's own symbol tables."""
import ast
import builtins
import inspect
import itertools
import symtable

import autopep8
import mcprobe
import pythagoras as pth
from pythagoras._060_autonomous_functions.names_usage_analyzer import analyze_names_in_function

from mc.world import attempt, clean, expect, h, quiet

META = dict(level="model_checking",
            technique="exhaustive enumeration of programs against the interpreter's symbol tables",
            rule="all programs from the statement grammar (simple statements over two names, 25 compound "
                 "constructs, two levels) times three parameter lists; then every one-statement program and "
                 "every one-compound program through the real decorators, executed in an empty namespace",
            bounds="bodies of up to 2 (quick) / 3 (thorough) statements, compounds hold up to 2, one "
                   "(quick) / two (thorough) levels of compounds",
            assumptions=["programs that read a name above its first binding in the same scope, "
                         "class bodies that rebind names of other scopes are outside the claim"])

# ---------------------------------------------------------------- the grammar
BIND = ["{n} = 1", "{n} += 1", "import {n}", "import {n}.x", "import m as {n}", "from m.k import {n}",
        "def {n}(): pass", "class {n}: pass", "({n} := 1)", "[{n}, *q] = [1]",
        "for {n} in []: pass", "for r, (q, {n}) in []: pass",
        "with open(1) as {n}: pass", "try: pass\nexcept ValueError as {n}: pass", "del {n}"]
USE = ["[{n}]", "{n}.x", "{n}(1)", "f'{{{n}}}'", "lambda: {n}", "lambda {n}, *r: [{n}, r]",
       "lambda p={n}: p", "[{n} for p in []]", "[p for p in {n}]", "{{p: 1 for p in [] if {n}}}",
       "[[{n} for p in t] for t in []]", "({n} for {n} in {n})", "{n}.x = 1", "return {n}",
       "raise {n}", "assert {n}", "import {n}x as {n}y", "from {n}.{n}z import w"]
SCOPE = ["global {n}", "nonlocal {n}", "yield {n}", "yield from {n}"]
CORE = ["{n} = 1", "[{n}]", "global {n}", "nonlocal {n}", "def {n}(): pass", "import {n}",
        "lambda: {n}", "[{n} for p in []]", "yield {n}"]
# ({h}: a name; {S}: the block)
COMPOUND = ["if {h}:\n{S}", "if 1:\n pass\nelse:\n{S}", "while {h}:\n{S}\n break", "for i in {h}:\n{S}\nelse:\n pass",
            "for {h} in []:\n{S}", "with {h} as w:\n{S}", "with open(1) as {h}:\n{S}",
            "try:\n{S}\nexcept {h}:\n pass", "try:\n pass\nexcept* {h} as e:\n{S}", "try:\n pass\nexcept* ValueError as {h}:\n{S}",
            "try:\n pass\nexcept ValueError as {h}:\n{S}\nfinally:\n pass",
            "def g():\n{S}", "def g({h}):\n{S}", "def g(q={h}, *, r={h}):\n{S}", "def g(*{h}, **t):\n{S}",
            "async def g():\n{S}", "@{h}\ndef g():\n{S}", "class C:\n{S}", "class C({h}, k=1):\n{S}",
            "match 1:\n case {h} if {h}:\n{SS}\n case _:\n  pass", "match {h}:\n case {'k': q, **r}:\n{SS}",
            "def g[{h}]():\n{S}", "class C[{h}]({h}.x):\n{S}",
            "class C:\n def m(self):\n{SS}", "def g():\n def k():\n{SS}"]
PARAMS = ["", "a", "*, a, b=1"]
NAMES = "ab"


def indent(s, n=1):
    return "\n".join(" " * n + l for l in s.split("\n"))


def simple(core=False):
    for t in (CORE if core else BIND + USE + SCOPE):
        for n in NAMES:
            yield t.format(n=n)


def wrap(c, hname, block):
    return c.replace("{SS}", indent(block, 2)).replace("{S}", indent(block)).replace("{h}", hname)


def blocks(levels, core, length):
    """Blocks of up to `length` statements; compounds nest `levels` deep."""
    base = list(simple(core))
    if levels:
        base += [wrap(c, n, b) for c in COMPOUND for n in NAMES for b in blocks(levels - 1, True, 1)]
    for k in range(1, length + 1):
        yield from ("\n".join(x) for x in itertools.product(base, repeat=k))


def programs(quick):
    s_all, s_core = list(simple()), list(simple(True))
    seen = set()

    def out(p):
        if p not in seen:
            seen.add(p)
            yield p
    # straight-line code
    for k in (1, 2):
        for x in itertools.product(s_all, repeat=k):
            yield from out("\n".join(x))
    if not quick:
        for x in itertools.product(s_core, s_all, s_core):
            yield from out("\n".join(x))
    # one compound holding one statement of any kind, before or after anything
    for c in COMPOUND:
        for n in NAMES:
            for b in s_all:
                one = wrap(c, n, b)
                yield from out(one)
                for o in s_core:
                    yield from out(o + "\n" + one)
                    yield from out(one + "\n" + o)
            for b in itertools.product(s_core, repeat=2):
                yield from out(wrap(c, n, "\n".join(b)))
                if not quick:
                    for o in s_core:
                        yield from out(o + "\n" + wrap(c, n, "\n".join(b)))
                        yield from out(wrap(c, n, "\n".join(b)) + "\n" + o)
    # compounds in compounds
    inner = s_core if not quick else [x for x in s_core if "a" in x.split()[-1] or "[b]" in x]
    for c1 in COMPOUND:
        for c2 in COMPOUND:
            for b in inner:
                two = wrap(c1, "a", wrap(c2, "b", b))
                yield from out(two)
                if not quick:
                    yield from out(wrap(c1, "b", wrap(c2, "a", b)))
                    for o in s_core:
                        yield from out(o + "\n" + two)
                        yield from out(two + "\n" + o)


# ---------------------------------------------------------------- expressions and comprehensions
EXPR = ["{e}.x", "{e}[0]", "c[{e}]", "c[{e}:b:{e}]", "c({e})", "c(*{e})", "c(**{e})", "c(k={e})", "-{e}", "not {e}",
        "{e} + 1", "(1 if {e} else c)", "({e} if c else 2)", "(1 < {e} < c)", "({e} and c)", "({e}, 1)", "[{e}]",
        "{{{e}}}", "{{{e}: 1}}", "{{1: {e}}}", "{{**{e}}}", "[*{e}]", 'f"{{{e}}}"', 'f"{{c:{{{e}}}}}"',
        "(lambda: {e})", "(lambda a: {e})", "(lambda a, /, *b: {e})", "(lambda q={e}: q)", "(lambda *a, **k: {e})",
        "(lambda *, a={e}: a)", "[{e} for q in c]", "[q for q in {e}]", "[q for q in c if {e}]", "[1 for a in {e}]",
        "[{e} for a in c]", "{{a: {e} for a in c}}", "{{{e}: a for a in c}}", "{{{e} for q in c for a in q}}",
        "({e} for a, *b in c)", "(b := {e})", "(yield {e})", "(yield from {e})"]
STATEMENT = ["{e}", "k = {e}", "a = {e}", "k, *a = {e}", "k: a = {e}", "k.x = {e}", "k[{e}] = 1", "a.x = {e}",
             "k += {e}", "k[{e}] += 1", "del k[{e}]", "for k in {e}: pass", "for k[{e}] in []: pass",
             "for a in {e}: pass\nelse: c", "with {e}: pass", "with {e} as k, a as b: pass", "with {e} as a: b",
             "with k as c[{e}]: pass", "while {e}: break", "if {e}: pass\nelif b: pass", "assert {e}", "assert 1, {e}",
             "raise {e}", "raise k from {e}", "try: pass\nexcept {e}: pass", "try: pass\nexcept {e} as a: a",
             "return {e}", "def g(q={e}): pass", "def g(*, q={e}): return q", "def g(a: {e}) -> {e}: return a",
             "@c({e})\ndef g(): pass", "class K({e}): pass", "class K(m={e}): pass", "@c({e})\nclass K: pass",
             "class K:\n k = {e}", "class K:\n def m(self, q={e}): return self", "def g():\n return {e}",
             "def g(a):\n return {e}", "def g():\n a = 1\n def t():\n  return {e}", "async def g():\n return {e}",
             "async def g():\n async for k in {e}: pass", "async def g():\n async with {e} as a: a",
             "async def g():\n await c({e})", "async def g():\n return [k async for k in {e}]",
             "async def g():\n async for k, (a, *b) in {e}: [a, b, k]\n else: b", "async def g():\n async with {e} as (k, a): [a, k]",
             "async def g():\n async for k in {e}: k\n else: [c, k]", "async def g():\n async for a.x in {e}: pass\n return a", "for k, (a, *b) in {e}: [a, b, k]\nelse: [a, k]",
             "def g(*k, q={e}): return k, q", "def g(a, /, b, *k, q, **t): return a, b, k, q, t, {e}", "def g(*k):\n def t(*a, q): return a, k, q, {e}",
             "with {e} as (k, *a), b as c: [a, c, k]", "[k, (a, *t)] = {e}\n[a, k, t]",
             "try: pass\nexcept c as a: {e}\nexcept k as b: [a, b]\nelse: a\nfinally: b",
             "match {e}:\n case 1: pass", "match {e}:\n case [k, *a]: [k, a]\n case {{1: t, **b}}: [t, b]\n case k: k",
             "match c:\n case c.x(k, m=a) | c.y(a, k) if {e}: [a, k]", "match c:\n case (1 | 2) as a: {e}\n case _: {e}\n[a, b]",
             "match c:\n case c.k: {e}\n case {{c.x: [b, _]}}: b\nreturn {e}", "match c:\n case {{**a}}:\n  def g():\n   return {e}",
             "class K:\n match {e}:\n  case (t, *r): k = 1\n def m(self): return {e}, t",
             "def g():\n match {e}:\n  case k.x(m=k.x(b)) as t: return t, b",
             "def g[t](q={e}): return t, q", "def g[a: {e}, *t](q) -> a: return a, t, {e}", "def g[t: {e}](a): return a",
             "class K[t: {e}](c[t, {e}], k=t): pass\nreturn {e}", "class K[a]({e}):\n k = a, {e}\n def m(self, q=a): return {e}\n[c, a]",
             "class K:\n class L[a](c[{e}]):\n  def m[t](self): return a, t, lambda: {e}\n def k(self): return a",
             "type t = {e}\nreturn t", "type a[t] = c[t, a, {e}]\n[a, b]", "type t[a] = c[a, lambda: {e}]\nreturn {e}",
             "def g():\n type k[*a, **t] = c[a, t, k, {e}]\n return k, a", "def g[a]():\n class K(a):\n  k = {e}\n type t = {e}\n def k[b](): return {e}\n return K",
             "global b\nb = {e}", "import a\nreturn {e}", "from m import k as a, b\nreturn {e}"]


def comprehensions(quick):
    """Every comprehension of these parts."""
    for open_, close in ("[]", "{}", "()", "{d"):
        for target, second, test, element in itertools.product(
                ["x", "x, y", "(x, [y, *z])", "x.y", "c[x]"],
                ["", " for y in x", " for y in b", " for y, z in x if z", " for y in x for z in y",
                 " for y in (lambda x: x)(b)", " for y in [x for q in a]"],
                ["", " if x", " if b", " if (w := x)", " if all(y for r in b)"],
                ["x", "(x, y)", "b", "(lambda: (x, y))", "(lambda q: (q, z))", "[t for t in x]",
                 "{t: y for t in b}", "(w := x)", "[s for t in x for s in t]"] + ([] if quick else [
                     "[t for t in x if (lambda x: y)]", "[[t for t in u] for u in y]", "f'{x}{y!r:{z}}'"])):
            tail = f" for {target} in a{test}{second}"
            yield f"{{{element}: {element}{tail}}}" if close == "d" else f"{open_}{element}{tail}{close}"


def expression_programs(quick):
    for s, n in itertools.product(STATEMENT, NAMES):
        yield s.format(e=n)
        for x in EXPR:
            yield s.format(e=x.format(e=n))
            if not quick or s in ("return {e}", "def g(a):\n return {e}", "class K:\n k = {e}"):
                for y in EXPR:
                    yield s.format(e=y.format(e=x.format(e=n)))
    for c in comprehensions(quick):
        for s in ("return {e}", "class K:\n k = {e}", "def g():\n return {e}", "k = lambda x: {e}", "w = 1\nreturn {e}", "k = {e}\nreturn w") \
                if not quick or c[0] == "{" else ("return {e}", "k = {e}\nreturn w") if ":=" in c else ("return {e}",):
            yield s.format(e=c)


# ---------------------------------------------------------------- the oracle
BINDERS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def outside_claim(f):
    """Programs the property says nothing about."""
    # a class body that rebinds names of other scopes, or reads a name before it binds it
    for c in ast.walk(f):
        if isinstance(c, ast.ClassDef):
            own = []

            def walk(x):
                for y in ast.iter_child_nodes(x):
                    if not isinstance(y, BINDERS):
                        own.append(y)
                        walk(y)
            walk(c)
            if any(isinstance(x, (ast.Global, ast.Nonlocal, ast.AugAssign)) for x in own):
                return "class-level rebinding"
            for x in own:
                if isinstance(x, (ast.Assign, ast.AnnAssign, ast.NamedExpr, ast.For, ast.With, ast.Match)):
                    st, ld = ({y.id for y in ast.walk(x) if isinstance(y, ast.Name) and isinstance(y.ctx, k)}
                              for k in (ast.Store, ast.Load))
                    if (st | captured(x)) & ld:
                        return "class-level rebinding"
    return None


def captured(x):
    """Names bound by the patterns below x."""
    return {n for y in ast.walk(x) for n in [getattr(y, "rest", None) or getattr(y, "name", None)]
            if isinstance(y, (ast.MatchAs, ast.MatchStar, ast.MatchMapping)) and n}


def targets(g):
    return {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}


def early_reads(f, tables):
    """Names read above their first binding in the scope that owns them."""
    for c in ast.walk(f):
        if isinstance(c, COMPS):
            tg = [targets(g) for g in c.generators]
            for i, g in enumerate(c.generators):
                for part, late in [(g.iter, tg[i:] if i else [])] + [(t, tg[i + 1:]) for t in g.ifs]:
                    if {x.id for x in ast.walk(part) if isinstance(x, ast.Name)} & set().union(*late):
                        return True

    def visit(scope, st):
        own, later, deleted = {}, [], []
        in_class = isinstance(scope, ast.ClassDef)          # whose names are for the class body alone

        def first(n, node):
            pos = (node.lineno, node.col_offset)
            if n not in own or pos < own[n]:
                own[n] = pos

        def walk(x, top, hidden=frozenset()):
            if isinstance(x, COMPS):                            # its variables are its own
                first_iter = x.generators[0].iter
                walk(ast.List([first_iter]), top, hidden)
                hidden = hidden.union(*map(targets, x.generators))
            else:
                first_iter = None
            for c in ast.iter_child_nodes(x):
                if c is first_iter or isinstance(c, ast.Name) and c.id in hidden:
                    continue
                if isinstance(c, ast.comprehension) and c.iter is getattr(x, "generators", [c])[0].iter:
                    c = ast.List([c.target, *c.ifs])
                if isinstance(c, BINDERS):
                    if top and not isinstance(c, ast.Lambda):
                        if in_class:
                            own.setdefault(c.name, (c.end_lineno, c.end_col_offset))
                        else:
                            own.setdefault(c.name, (0, 0))      # definitions may refer to each other
                    if in_class and top:
                        a = getattr(c, "args", None)
                        walk(ast.List(getattr(c, "decorator_list", []) + getattr(c, "bases", [])
                                      + [k.value for k in getattr(c, "keywords", [])]
                                      + (a.defaults + [d for d in a.kw_defaults if d] if a else [])), top, hidden)
                    else:
                        walk(c, False, hidden)
                    continue
                if top:
                    if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store):
                        first(c.id, c)
                    if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Del):
                        deleted.append((c.id, (c.lineno, c.col_offset)))
                    if isinstance(c, (ast.MatchAs, ast.MatchStar)) and c.name:
                        first(c.name, c)
                    if isinstance(c, ast.MatchMapping) and c.rest:
                        first(c.rest, c)
                    if isinstance(c, ast.ExceptHandler) and c.name:
                        first(c.name, c)
                    if isinstance(c, (ast.Import, ast.ImportFrom)):
                        for al in c.names:
                            first((al.asname or al.name).split(".")[0], c)
                if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Load):
                    later.append((c.id, (c.lineno, c.col_offset)))
                if isinstance(c, ast.Nonlocal) and not top:
                    later.extend((n, (c.lineno, c.col_offset)) for n in c.names)
                if isinstance(c, ast.arg) and top:
                    pass
                walk(c, top, hidden)
        walk(scope, True)
        args = getattr(scope, "args", None)
        if args:
            for a in args.posonlyargs + args.args + args.kwonlyargs + [args.vararg, args.kwarg]:
                if a:
                    own[a.arg] = (0, 0)
        if any(pos < own.get(n, (9999, 0)) for n, pos in deleted):
            return True                 # deletes what was never bound
        if any(n in own and pos < own[n] for n, pos in later):
            return True
        return False
    return any(visit(s, None) for s in ast.walk(f) if isinstance(s, BINDERS))


def unannotated(f):
    """Annotations of variables and parameters are no part of a function's normal form. Comprehensions become
    generator expressions, with the same scoping, which symtable does not merge into the function."""
    def change(x):
        for field, v in ast.iter_fields(x):
            if isinstance(v, list):
                setattr(x, field, [change(y) if isinstance(y, ast.AST) else y for y in v])
            elif isinstance(v, ast.AST):
                setattr(x, field, change(v))
        if isinstance(x, ast.arg):
            x.annotation = None
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
            x.returns = None
        if isinstance(x, ast.AnnAssign):
            return ast.Assign([x.target], x.value, lineno=x.lineno) if x.value else ast.Pass()
        if isinstance(x, (ast.ListComp, ast.SetComp)):
            return ast.GeneratorExp(x.elt, x.generators)
        if isinstance(x, ast.DictComp):
            return ast.GeneratorExp(ast.Tuple([x.key, x.value], ast.Load()), x.generators)
        return x
    return ast.unparse(change(f))


def oracle(src):
    """(global, nonlocal, all from outside, yields, packages) by Python's own rules; None: not claimed."""
    try:
        src = unannotated(ast.parse(src))
    except SyntaxError:
        return None
    wrapped = "def outer():\n a = b = None\n" + indent(src)
    try:
        top = symtable.symtable(wrapped, "s", "exec")
        compiled = compile(wrapped, "s", "exec", dont_inherit=True)
    except SyntaxError:
        return None
    f = ast.parse(src).body[0]
    if outside_claim(f) or early_reads(f, top):
        return None
    ft = [c for c in top.get_children()[0].get_children() if c.get_name() == "f"][-1]
    G, NL, ALL = set(), set(), set()

    def scan(t, bound):
        """bound: names local to the function scopes between f and t."""
        here = set(bound)
        if t.get_type() not in ("class", "module"):     # functions, type parameters, aliases
            here |= {s.get_name() for s in t.get_symbols()
                     if s.is_local() or s.is_parameter() or s.is_imported()}
        for s in t.get_symbols():
            n = s.get_name()
            if n[0] == "." or n in ("__classdict__", "__type_params__"):
                continue
            if s.is_declared_global():
                G.add(n)
                ALL.add(n)
            elif s.is_nonlocal():
                if n not in bound:
                    NL.add(n)
                    ALL.add(n)
            elif s.is_free():
                if n not in bound:
                    ALL.add(n)
            elif s.is_global() and (s.is_referenced() or s.is_assigned()):
                ALL.add(n)
        for c in t.get_children():
            scan(c, here)
    scan(ft, frozenset())
    # f's own default values are evaluated outside it, yet belong to its source
    for d in f.args.defaults + [d for d in f.args.kw_defaults if d]:
        ALL |= {x.id for x in ast.walk(d) if isinstance(x, ast.Name)}
    packs = set()

    def code(c):
        return [c] if c.co_name == "f" else [y for x in c.co_consts if hasattr(x, "co_code") for y in code(x)]
    yields = bool(code(compiled)[-1].co_flags & inspect.CO_GENERATOR)
    for x in ast.walk(f):
        if isinstance(x, ast.Import):
            packs |= {al.name.split(".")[0] for al in x.names}
        if isinstance(x, ast.ImportFrom):
            packs.add(x.module.split(".")[0])
    return G, NL, ALL, yields, packs


def names_case(case):
    params, body = case
    src = f"def f({params}):\n" + indent(body)
    want = oracle(src)
    if want is None:
        return dict(traces=0, evaluations=0)
    G, NL, ALL, yields, packs = want
    an = analyze_names_in_function(src)["analyzer"]
    g = set(an.names.explicitly_global_unbound_deep)
    nl = set(an.names.explicitly_nonlocal_unbound_deep)
    un = set(an.names.unclassified_deep)
    kind = h(src)[:8]
    expect(g == G, f"declared-global:{kind}", lambda: f"{src}\n{g} instead of {G}")
    expect(nl == NL, f"declared-nonlocal:{kind}", lambda: f"{src}\n{nl} instead of {NL}")
    expect(g | nl | un == ALL, f"outside-names:{kind}", lambda: f"{src}\n{g | nl | un} instead of {ALL}")
    expect((an.n_yelds > 0) == yields, f"yields:{kind}",
           lambda: f"{src}\n{an.n_yelds} instead of {yields}")
    expect(set(an.imported_packages_deep) == packs, f"packages:{kind}",
           lambda: f"{src}\n{an.imported_packages_deep} instead of {packs}")
    return dict(states=1, transitions=1, sigs=[h((params != "", sorted(G), sorted(NL), sorted(ALL), yields, sorted(packs)))])


# ---------------------------------------------------------------- the decorators' verdict
def fn_kinds():
    return [("aut", lambda s, p: pth.AutonomousFn(s, portal=p)),
            ("strict", lambda s, p: pth.AutonomousFn(s, strictly_autonomous=True, portal=p)),
            ("pure", lambda s, p: pth.PureFn(s, portal=p))]


HELPER = "def {n}(x=0):\n return x"


def refusal_case(case):
    """An island that has function b. A function is refused at the latest when called if it needs
    anything but built-ins, the framework and b; if accepted, no name is missing while it runs."""
    kind, params, body = case
    src = f"def f({params}):\n import mcprobe\n mcprobe.note()\n" + indent(body)
    want = oracle(src)
    if want is None:
        return dict(traces=0, evaluations=0)
    G, NL, ALL, yields, packs = want
    outside = {n for n in ALL if not hasattr(builtins, n) and n not in ("f", "pth")}
    key = h((kind, src))[:8]
    with clean(), quiet():
        portal = pth.PureCodePortal("/mem/p")
        with portal:
            pth.AutonomousFn(HELPER.format(n="b"), portal=portal)
            make = dict(fn_kinds())[kind]
            r = attempt(make, src, portal)
            at_once = bool(NL) or yields
            expect((r[0] == "exc") == at_once, f"at-decoration:{key}",
                   lambda: f"{kind}: {src}\n{r} (nonlocal {NL}, yields {yields})")
            if at_once:
                return dict(states=1, transitions=1, sigs=[(kind, "refused")])
            f = r[1]
            mcprobe.ran.clear()
            r = attempt(f, **{p: 1 for p in "ab" if p in params})
            ran = bool(mcprobe.ran)
            bad = outside - {"b"} if kind != "strict" else outside
            if bad:
                expect(r[0] == "exc" and not ran, f"not-refused:{key}",
                       lambda: f"{kind}: {src}\nneeds {bad}, body ran: {ran}, {r}")
                return dict(states=1, transitions=1, sigs=[(kind, "refused-late")])
            expect(ran, f"wrongly-refused:{key}", lambda: f"{kind}: {src}\n{r}")
            expect(not (r[0] == "exc" and r[1] == "NameError"), f"name-missing:{key}",
                   lambda: f"{kind}: {src}\n{r}")
            return dict(states=1, transitions=1, sigs=[(kind, r[0], r[1] if r[0] == "exc" else "")])


def run(ctx):
    autopep8.fix_code = lambda s, *a, **k: s      # formatting is P08's business
    cases = [(p, b) for b in programs(ctx.quick) for p in (PARAMS if not ctx.quick else PARAMS[:2])]
    cases += [(p, b) for b in dict.fromkeys(expression_programs(ctx.quick)) for p in PARAMS[:1 if ctx.quick else 2]]
    cases += [(p, s.format(e=e)) for s in STATEMENT for e in NAMES + "xy" for p in ("a, /, **b", "b=a, **x", "x, /, a, *, b", "*, x=b, **y")]
    ctx.run_cases(names_case, cases, batch=400)
    bodies = list(simple()) + [wrap(c, n, b) for c in COMPOUND for n in NAMES for b in
                               (simple(True) if ctx.quick else simple())]
    ctx.run_cases(refusal_case, [(k, p, b) for k, _ in fn_kinds() for p in PARAMS[:2] for b in bodies
                                 ], batch=40)


def replay(case):
    autopep8.fix_code = lambda s, *a, **k: s
    return names_case(case) if len(case) == 2 else refusal_case(case)
