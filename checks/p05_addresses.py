"""All pairs of a family of values, each written in several ways, in several sessions and portals."""
import copy
import itertools
import json
import os
import pickle
import re
import subprocess
import sys

import pythagoras as pth

from mc import values
from mc.world import attempt, clean, expect, h, quiet

META = dict(level="model_checking",
            technique="exhaustive enumeration of all pairs of a value family, across sessions, processes and portals",
            rule="every value of the family in every way of writing it, evaluated afresh in this process, in "
                 "processes with other hash seeds, and under every active portal; addresses compared for all "
                 "pairs; then every round trip of every address; then dense families (integers, strings, bit lists)",
            bounds="about 500 values, 2 (quick) / 6 (thorough) further processes; dense families of 24,000 (quick) "
                   "/ 360,000 (thorough) values",
            assumptions=["equal sub-objects of a value are not shared (sharing is a known finding)",
                         "no frozensets of several elements, strided arrays, reordered OrderedDicts (known findings)"])

SAFE = re.compile(r"[A-Za-z0-9_\-.]+\Z")


def evaluate(expr, ns):
    return eval(expr, ns)


def namespace():
    ns = {}
    exec(values.PREAMBLE, ns)

    def FN(kind, src, island=None):
        with pth.PureCodePortal(f"/mem/fn{len(pth.BasicPortal.all_portals)}") as p:
            cls = pth.PureFn if kind == "pure" else pth.AutonomousFn
            return cls(src, island_name=island, portal=p)
    ns["FN"] = FN
    return ns


def addresses(groups):
    """Addresses of all values, in one fresh session. Values that cannot be addressed: the error."""
    out = []
    with clean(), quiet():
        with pth.PureCodePortal("/mem/p"):
            for g in groups:
                row = []
                for e in g:
                    try:
                        a = pth.ValueAddr(evaluate(e, namespace()))
                        row.append([a.prefix, a.hash_signature])
                    except Exception as ex:
                        row.append([type(ex).__name__, str(ex)[:100]])
                out.append(row)
    return out


def other_process(seed, groups):
    """The same in another interpreter, with another hash seed."""
    code = ("import sys, json; sys.path.insert(0, %r)\n"
            "from mc import boot; boot.boot()\n"
            "from checks import p05_addresses as m\n"
            "json.dump(m.addresses(json.load(sys.stdin)), sys.stdout)" % os.path.dirname(os.path.dirname(__file__)))
    env = dict(os.environ, PYTHONHASHSEED=str(seed))
    r = subprocess.run(["timeout", "200", sys.executable, "-B", "-c", code], input=json.dumps(groups), capture_output=True,
                       text=True, env=env)
    if r.returncode:
        raise RuntimeError(r.stderr[-2000:])
    return json.loads(r.stdout)


def session_case(case):
    kind, arg, groups, want = case
    if kind == "backwards":
        got = [r[::-1] for r in addresses([g[::-1] for g in groups[::-1]])[::-1]]
    else:
        got = other_process(arg, groups) if kind == "seed" else addresses(groups)
    for g, a, b in zip(groups, got, want):
        for e, x, y in zip(g, a, b):
            expect(x == y, f"unstable:{e}", lambda: f"{e}: {x} here, {y} in another session")
    return dict(states=len(groups), transitions=sum(map(len, groups)), sigs=[(kind, arg)])


def round_trips(case):
    """One value: its address under several portals, and every way of rebuilding the address."""
    g = case
    n = 0
    with clean(), quiet():
        ns = namespace()
        portals = [pth.PureCodePortal(f"/mem/p{i}") for i in range(2)]
        seen = []
        for e in g:
            for i, j in ((0, None), (1, None), (0, 1), (1, 0)):
                with portals[i]:
                    x = evaluate(e, ns)
                    a = pth.ValueAddr(x) if j is None else pth.ValueAddr(x, portal=portals[j])
                    seen.append(a)
                    s = [a.prefix, a.hash_signature]
                    expect(all(isinstance(t, str) and SAFE.match(t) for t in s), f"unsafe:{e}", str(s))
                    others = [pth.ValueAddr.from_strings(prefix=s[0], hash_signature=s[1]),
                              pth.ValueAddr.from_strings(prefix=s[0], hash_signature=s[1], portal=portals[1 - i]),
                              pickle.loads(pickle.dumps(a)), copy.copy(a), pth.ValueAddr(a)]
                    for o in others:
                        n += 1
                        expect(o == a and not (o != a) and hash(o) == hash(a) and len({o, a}) == 1 and {a: 1}[o] == 1
                               and [o.prefix, o.hash_signature] == s, f"round-trip:{e}", f"{e}: {o} vs {a}")
        first = seen[0]
        for a in seen:
            expect(a == first and hash(a) == hash(first), f"portal-matters:{g[0]}", f"{g}: {a} {first}")
        expect(first != "x" and not (first == (first.prefix, first.hash_signature)) and first is not None,
               "compares-to-anything")
    return dict(states=1, transitions=n, sigs=[g[0]])


def dense(case):
    kind, lo, hi = case
    out = {}
    with clean(), quiet():
        with pth.DataPortal("/mem/p"):
            alphabet = "01aA_ "
            for i in range(lo, hi):
                if kind == "int":
                    x = i - 1000
                elif kind == "str":
                    s, k = "", i
                    while k:
                        k, r = divmod(k - 1, 6)
                        s += alphabet[r]
                    x = s
                elif kind == "bits":
                    x = [int(b) for b in bin(i + 1)[3:]]
                elif kind == "tuple":
                    x = (i // 50, i % 50)
                elif kind == "dict":
                    x = {f"k{i % 20}": i // 20, "z": i % 3}
                elif kind == "float":
                    x = i / 7
                a = pth.ValueAddr(x)
                key = (a.prefix, a.hash_signature)
                expect(key not in out, "collision", lambda: f"{x!r} and {out[key]!r} share {key}")
                out[key] = x
    return dict(states=len(out), transitions=len(out), sigs=[(kind, lo)],
                addrs=[list(k) for k in out])


DIFFER = [
    ("datetime-fold", "datetime.datetime(2024, 1, 1, fold=1)", "datetime.datetime(2024, 1, 1)"),
    ("ordereddict-order", "OrderedDict([('p', 1), ('q', 2)])", "OrderedDict([('q', 2), ('p', 1)])"),
]
KNOWN = [
    ("aliasing-list", "(lambda x: [x, x])([1])", "[[1], [1]]"),
    ("aliasing-tuple", "(lambda x: [x, x])((1, int('2')))", "[(1, int('2')), tuple([1, 2])]"),
    ("aliasing-dict", "(lambda x: [x, x])({'a': 1})", "[{'a': 1}, {'a': 1}]"),
    ("frozenset-order", "frozenset([0, 8])", "frozenset([8, 0])"),
    ("numpy-strides", "np.arange(6)[::2]", "np.array([0, 2, 4])"),
    ("numpy-transposed", "np.array([[1, 2], [3, 4]]).T", "np.array([[1, 3], [2, 4]])"),
]


def known_case(case):
    key, a, b = case
    x, y = addresses([[a, b]])[0]
    if case[0] in [d[0] for d in DIFFER]:
        expect(x != y, key, f"{a} and {b} share the address {x}")
    else:
        expect(x == y, key, f"{a} has address {x}, {b} has {y}")
    return dict(states=1, transitions=1, sigs=[key])


def run(ctx):
    groups = values.groups()
    import random
    # (1) this process, twice; other processes with other hash seeds
    base = None
    from mc.core import in_fork, pool
    for _, _, r in pool(addresses, [groups]):
        base = r
    if not isinstance(base, list):
        return ctx.take(["addresses"], base)
    kept, rows = [], []
    for g, row in zip(groups, base):
        if row[0][0] in ("TypeError", "PicklingError", "AttributeError", "NotImplementedError"):
            ctx.notes.setdefault("not addressable", []).append(g[0])
            continue
        kept.append(g)
        rows.append(row)
    expect_n = len(groups) - len(kept)
    if expect_n > 25:
        ctx.problem("not-addressable", f"{expect_n} of {len(groups)} values have no address", ["addresses"])
    seeds = [1, 2] if ctx.quick else [1, 2, 3, 4, "random", 77]
    ctx.run_cases(session_case, [["again", 0, kept, rows], ["backwards", 0, kept, rows]] + [["seed", s, kept, rows] for s in seeds])
    # (2) all pairs
    byaddr = {}
    n = 0
    for g, row in zip(kept, rows):
        for e, a in zip(g, row):
            n += 1
            if a != row[0]:
                ctx.problem(f"differs:{e}", f"{g[0]} has address {row[0]}, its equal {e} has {a}", [g])
            prev = byaddr.setdefault(tuple(a), g[0])
            if prev != g[0]:
                ctx.problem(f"collision:{e}", f"{e} and {prev} share the address {a}", [[e, prev]])
    ctx.states += len(byaddr)
    ctx.transitions += n * (n - 1) // 2
    ctx.notes["pairs"] = n * (n - 1) // 2
    # (3) round trips, dense families, known exceptions
    ctx.run_cases(round_trips, kept, batch=8)
    step = 4000 if ctx.quick else 60000
    ctx.run_cases(dense, [[k, 0, step] for k in ("int", "str", "bits", "tuple", "dict", "float")])
    ctx.run_cases(known_case, KNOWN + DIFFER)


def replay(case):
    if len(case) == 3 and case[0] in [k[0] for k in KNOWN + DIFFER]:
        return known_case(case)
    if case and case[0] in ("int", "str", "bits", "tuple", "dict", "float"):
        return dense(case)
    if case and isinstance(case[0], list):
        return addresses(case)
    if case and case[0] in ("again", "seed", "backwards"):
        return session_case(case)
    return round_trips(case)
