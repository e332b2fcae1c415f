"""Every order, packing and unpacking of argument packs over a family of values, in several portals and sessions."""
import copy
import itertools
import pickle

import pythagoras as pth
from pythagoras._070_pure_functions.kw_args import SortedKwArgs

from mc.world import attempt, clean, expect, h, quiet

META = dict(level="model_checking",
            rule="all subsets of four names in all orders, with all assignments of values from the family; packed "
                 "0-3 times under each portal, unpacked under each portal, in this session and after a restart; "
                 "then all pairs of packs compared",
            bounds="3 names (quick) / 4 names (thorough), 8 values; 17 values (all that are false among them) in packs of up to 2 names",
            assumptions=["arguments are addressable values"])

VALUES = [1, True, 1.0, "1", None, [1, [2]], {"b": 1, "a": [2]}, (1, "x"),
          # the rest only for packs of one or two names
          0, False, "", [], {}, (), 0.0, b"", set()]
NAMES = ["b", "a", "B", "_1"]


def val(i):
    return copy.deepcopy(VALUES[i])


def typed(d):
    return {k: (type(v).__name__, repr(v)) for k, v in d.items()}


def strs(pack):
    return {k: (v.prefix, v.hash_signature) for k, v in pack.items()}


def case(c):
    """One assignment name -> value, in every order of the names."""
    items = [tuple(x) for x in c]
    n = 0
    packs = []
    with clean(), quiet():
        A, B = pth.PureCodePortal("/mem/a"), pth.PureCodePortal("/mem/b")
        want = {k: val(v) for k, v in items}
        for order in itertools.permutations(items):
            for P, Q in ((A, A), (A, B), (B, A)):
                with P:
                    raw = SortedKwArgs(**{k: val(v) for k, v in order})
                    expect(typed(raw) == typed(want) and list(raw) == sorted(want), "construction", f"{order}: {raw}")
                    p1 = raw.pack(P)
                    expect(list(p1) == sorted(want) and isinstance(p1, SortedKwArgs), "pack-order", f"{order}: {list(p1)}")
                    expect(all(type(v) is pth.ValueAddr for v in p1.values()), "pack-values", f"{p1}")
                    expect(typed(raw) == typed(want), "pack-changes-the-arguments", f"{raw}")
                    p2 = p1.pack(P)
                    p3 = SortedKwArgs(**{k: p2[k] for k, _ in order}).pack(P)
                    mixed = SortedKwArgs(**{k: (p1[k] if i % 2 else val(v)) for i, (k, v) in enumerate(order)}).pack(P)
                    for q in (p2, p3, mixed):
                        expect(q == p1 and list(q) == list(p1) and strs(q) == strs(p1), "pack-again", f"{order}: {q} {p1}")
                    a = pth.ValueAddr(p1)
                    packs.append((strs(p1), (a.prefix, a.hash_signature)))
                    blob = pickle.dumps(p1)
                with Q:
                    for p in (p1, p3, mixed, pickle.loads(blob), raw):
                        u = p.unpack()
                        n += 1
                        expect(typed(u) == typed(want) and list(u) == sorted(want), "unpack", lambda: f"{order} under {Q is P}: {u}")
                    expect(strs(p1) == packs[-1][0], "unpack-changes-the-pack")
                    expect(typed(u.unpack()) == typed(want), "unpack-again")
        expect(all(p == packs[0] for p in packs), "order-matters", f"{items}: {packs[0]} {[p for p in packs if p != packs[0]][:1]}")
        # another session: the pack, from its pickle, unpacks under a portal that can find the values
        pth.BasicPortal._clear_all()
        A2, C = pth.PureCodePortal("/mem/a"), pth.PureCodePortal("/mem/c")
        for Q in (A2, C):
            with Q:
                u = pickle.loads(blob).unpack()
                expect(typed(u) == typed(want), "unpack-in-another-session", lambda: f"{items}: {u}")
                u = pth.ValueAddr.from_strings(prefix=packs[0][1][0], hash_signature=packs[0][1][1]).get().unpack()
                expect(typed(u) == typed(want), "unpack-by-address", lambda: f"{items}: {u}")
    return dict(states=1, transitions=n, sigs=[h(items)], address=[list(packs[0][1])])


def pairs_case(case):
    """All assignments in one session: different ones have different addresses."""
    seen = {}
    with clean(), quiet():
        with pth.PureCodePortal("/mem/a") as A:
            for items in assignments(case[0], case[1]):
                p = SortedKwArgs(**{k: val(v) for k, v in items}).pack(A)
                a = pth.ValueAddr(p)
                key = (a.prefix, a.hash_signature)
                expect(key not in seen, "collision", lambda: f"{items} and {seen[key]} share {key}")
                seen[key] = items
                # as the calls of a function
    return dict(states=len(seen), transitions=len(seen), sigs=[str(case)])


def calls_case(case):
    """The same through a pure function: call addresses."""
    seen = {}
    with clean(), quiet():
        with pth.PureCodePortal("/mem/a"):
            f = pth.PureFn("def f(**k):\n return k")
            for items in assignments(case[0], case[1]):
                ads = set()
                for order in itertools.permutations(items):
                    a = f.get_address(**{k: val(v) for k, v in order})
                    ads.add((a.prefix, a.hash_signature))
                    expect(typed(a.kwargs) == typed({k: val(v) for k, v in items}), "address-kwargs", f"{order}: {a.kwargs}")
                expect(len(ads) == 1, "call-order-matters", f"{items}: {ads}")
                key = ads.pop()
                expect(key not in seen, "call-collision", lambda: f"{items} and {seen[key]} share {key}")
                seen[key] = items
    return dict(states=len(seen), transitions=len(seen), sigs=["calls" + str(case)])


def assignments(n_names, n_values):
    for r in range(n_names + 1):
        for names in itertools.combinations(NAMES[:n_names], r):
            for vs in itertools.product(range(n_values), repeat=r):
                yield list(zip(names, vs))


def bad_case(case):
    with clean(), quiet():
        with pth.PureCodePortal("/mem/a") as A:
            r = attempt(lambda: SortedKwArgs(a=SortedKwArgs(b=1)))
            expect(r[0] == "exc", "nested-pack-accepted")


def run(ctx):
    n, v = (3, 8) if ctx.quick else (4, 8)
    cases = list(assignments(n, v if not ctx.quick else 5))
    if ctx.quick:
        cases += [[(k, i)] for k in NAMES for i in range(8)]
    cases += [[(k, i)] for k in NAMES[:2] for i in range(v, len(VALUES))]
    cases += [[("b", i), ("a", j)] for i in range(len(VALUES)) for j in range(len(VALUES)) if max(i, j) >= v]
    ctx.run_cases(case, [[list(x) for x in c] for c in cases], batch=4)
    ctx.run_cases(pairs_case, [[n, v], [2, len(VALUES)]])
    ctx.run_cases(calls_case, [[2, len(VALUES)], [2, v] if ctx.quick else [3, v]])
    ctx.run_cases(bad_case, [["bad"]])


def replay(c):
    if c and isinstance(c[0], int):
        return pairs_case(c), calls_case(c)
    return case(c)
