"""Every dependency graph of three functions, every change of code between sessions, against a model of what stays valid."""
import itertools

import pythagoras as pth

import mcprobe
from mc.world import attempt, clean, expect, quiet

META = dict(level="model_checking",
            rule="one case = (graph, kinds of the dependencies, what changed in which function, definition order, when "
                 "the call comes); four sessions per case, values and body runs compared with the model in each",
            bounds="64 graphs of 3 functions (cycles included) x 27 vectors of (same, cosmetic, real) changes x 1 (quick) / "
                   "4 mixes of pure and autonomous x 1 / 6 definition orders; calls before the last definition: 64 x 8 x 6; "
                   "6 kinds of real and 6 of cosmetic change",
            assumptions=["the sessions share a store and nothing else"])

N = "fgh"
EDGES = [(a, b) for a in N for b in N if a != b]


def source(name, deps, change, kind):
    """change: 's' same, 'r' real, 'c' cosmetic; kind picks which."""
    const, default, op, text, inner, hidden = "1", "10", "x - 1", "'a b'", "u + 1", "True"
    if change == "r":
        if kind == 0:
            const = "2"
        elif kind == 1:
            default = "11"
        elif kind == 2:
            text = "'a  b'"
        elif kind == 3:
            inner = "u + 2"
        elif kind == 4:
            text = "'a b # c'"
        elif kind == 5:
            hidden = "False"
    body = f"""import mcprobe
mcprobe.note({name!r}, x)
def inner(u=3):
    return {inner}
r = [{name!r}, x, {const}, d, {text}, inner(), {hidden}]
if x > 0:
"""
    for d in deps:
        body += f"    r.append({d}(x={op}))\n"
    body += "    r.append('end')\nreturn r\n"
    head = f"def {name}(x, d={default}):"
    ind = "    "
    if change == "c":
        if kind == 0:
            body = '"""doc"""\n' + body
        elif kind == 1:
            head = f"def {name}(x: int, d: 'anything' = {default}) -> list:"
        elif kind == 2:
            body = body.replace("import mcprobe\n", "import mcprobe  # a comment\n\n\n# more\n")
        elif kind == 3:
            ind = "  "
            body = body.replace("    ", "  ")
        elif kind == 4:
            body = body.replace("r = [", "r = (  [\n   ").replace(f", {hidden}]", f",\n {hidden} ] )").replace("'a b'", '"a b"')
        elif kind == 5:
            body = body.replace("def inner(u=3):\n", 'def inner(u:int=3)->int:\n    "inner doc"\n\n')
    return head + "\n" + "".join(ind + l + "\n" if l else "\n" for l in body.split("\n")[:-1])


def plain(name, x, graph, changes, kinds):
    v = [name, x, 1, 10, "a b", 4, True]
    if changes[name] == "r":
        k = kinds[name]
        if k == 0:
            v[2] = 2
        elif k == 1:
            v[3] = 11
        elif k == 2:
            v[4] = "a  b"
        elif k == 3:
            v[5] = 5
        elif k == 4:
            v[4] = "a b # c"
        elif k == 5:
            v[6] = False
    if x > 0:
        for d in graph[name]:
            v.append(plain(d, x - 1, graph, changes, kinds))
        v.append("end")
    return v


def reach(name, graph):
    seen, todo = set(), [name]
    while todo:
        n = todo.pop()
        if n not in seen:
            seen.add(n)
            todo += graph[n]
    return seen


def one(case):
    bits, decs, vec, order, kshift, when = case
    graph = {a: [b for i, (x, b) in enumerate(EDGES) if x == a and bits >> i & 1] for a in N}
    decs = dict(zip(N, decs))
    vec = dict(zip(N, vec))
    kinds = {n: (kshift + i * 2) % 6 for i, n in enumerate(N)}
    base = {n: "s" for n in N}
    memo = {}
    disk = None
    for sess, changes in enumerate((base, vec, base, vec)):
        with clean(disk, salt=f"s{sess}") as disk, quiet():
            portal = pth.PureCodePortal("/mem/p")
            fns = {}
            with portal:
                for i, n in enumerate(order if sess % 2 == 0 or when >= 0 else reversed(order)):
                    if when == i:
                        for m in fns.values():
                            attempt(m, x=0)
                    src = source(n, graph[n], changes[n], kinds[n])
                    fns[n] = (pth.pure() if decs[n] == "p" else pth.autonomous())(src)
            del mcprobe.ran[:]
            runs = []

            def ev(n, x):
                cls = n, x, tuple((m, changes[m] == "r") for m in sorted(reach(n, graph)))
                if decs[n] == "p":
                    if cls in memo:
                        return
                    memo[cls] = 1
                runs.append((n, x))
                if x > 0:
                    for d in graph[n]:
                        ev(d, x - 1)
            for call in (("f", 2), ("g", 1)):
                got = attempt(fns[call[0]], x=call[1])
                want = ("ok", plain(*call, graph, changes, kinds))
                expect(got == want, "stale-result" if got[0] == "ok" else "call-fails",
                       lambda: f"{case}, session {sess}, {call}: {got}, expected {want}")
                if when < 0:
                    ev(*call)
            if when < 0:
                got = [r for r in mcprobe.ran]
                expect(got == runs, "valid-result-not-reused" if len(got) > len(runs) else "stale-result",
                       lambda: f"{case}, session {sess}: ran {got}, expected {runs}")
    return dict(states=4, transitions=8, sigs=(f"{bits}{case[2]}",), evaluations=8)


def run(ctx):
    q = ctx.quick
    orders = ["".join(o) for o in itertools.permutations(N)]
    mixes = ["ppp", "paa"] if q else ["ppp", "paa", "pap", "ppa"]
    cases = []
    n = 0
    for bits in range(64):
        for vec in itertools.product("src", repeat=3):
            for mix in mixes:
                n += 1
                if q and (bits.bit_count() + n // 2 + bits) % 2 == (mix == "paa"):
                    continue
                for o in (orders[n % 6:n % 6 + 1] if q else orders):
                    cases.append((bits, mix, "".join(vec), o, n % 6 if q else (n + orders.index(o)) % 6, -1))
    late = []
    for bits in range(64):
        for vec in (["ssr", "rrr"] if q else ["".join(v) for v in itertools.product("sr", repeat=3)]):
            for mix in mixes[:1] if q else mixes:
                for i, o in enumerate(orders):
                    if q and o[0] == "h":
                        continue
                    for when in (1, 2):
                        if q and (when == 1 or o[2] == "f"):
                            continue
                        late.append((bits, mix, vec, o, (bits + i) % 6, when))
    ctx.run_cases(one, cases, batch=16)
    ctx.run_cases(one, late, batch=16)


def replay(case):
    print(one(tuple(case)))
