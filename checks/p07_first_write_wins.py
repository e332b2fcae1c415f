"""First write wins: all sequential histories and all interleavings of concurrent writers."""
import datetime
import decimal
import fractions
import functools
import pathlib
import pickle
import uuid

import numpy as np
import pandas as pd

from persidict import FileDirDict, PersiDict, backend
from pythagoras._800_persidict_extensions.first_entry_dict import FirstEntryDict

from mc.procs import Scenario, explore
from mc.world import attempt, clean, expect, h, Problem

META = dict(level="model_checking",
            rule="sequential: all histories of set/get/contains/len/iterate/delete over 2 keys and 4 values "
                 "with consistency checks off/on and two objects on one store, all pairs of 130 values, failing stores; concurrent: every schedule of 2-3 writers then readers",
            bounds="histories of 4 (quick) / 5 (thorough) operations; up to 3 processes, <=3 preemptions",
            assumptions=["the store creates immutable items atomically (first writer succeeds)"])

VALS = [1, 2, "1", [1]]
KEYS = ["a", ("b", "c")]


def make(p):
    return FirstEntryDict(FileDirDict("/mem/d", immutable_items=True, digest_len=0), p)


def machine_for(p):
    def machine(hist):
        with clean():
            d, model = make(p), {}
            other = make(p)         # a second object over the same store
            for op in hist:
                if op[0] == "set":
                    _, k, v = op
                    val = VALS[v]
                    val = list(val) if isinstance(val, list) else val
                    must_fail = k in model and p == 1 and (model[k] != VALS[v] or type(model[k]) is not type(VALS[v]))
                    try:
                        d[KEYS[k]] = val
                        ok = True
                    except Exception as e:
                        ok = False
                    if must_fail:
                        expect(not ok, "inconsistent-write-accepted", f"{hist} p={p}")
                    else:
                        expect(ok, "write-refused", f"{hist} p={p}")
                    model.setdefault(k, VALS[v])
                elif op[0] == "del":
                    try:
                        del d[KEYS[op[1]]]
                        ok = True
                    except Exception:
                        ok = False
                    expect(not ok, "delete-accepted", f"{hist}")
                elif op[0] == "reopen":
                    d = make(p)
                elif op[0] == "switch":
                    d, other = other, d
            stamps = {k: d.timestamp(KEYS[k]) for k in model}
            names = [("a",), ("b", "c")]
            want_keys = sorted(names[k] for k in model)
            expect(sorted(tuple(k) for k in d.keys()) == want_keys and sorted(tuple(k) for k in d) == want_keys
                   and sorted((tuple(k), repr(v)) for k, v in d.items()) == sorted((names[k], repr(v)) for k, v in model.items()),
                   "iteration", lambda: f"{hist}: {list(d.items())}")
            expect(all(isinstance(t, float) and t == other.timestamp(KEYS[k]) for k, t in stamps.items()), "timestamp", f"{hist}")
            expect(isinstance(d, PersiDict) and d.immutable_items is True, "kind", f"{hist}")
            for k in range(2):
                expect((KEYS[k] in d) == (k in model), "membership", f"{hist} p={p}")
                try:
                    got = ("ok", d[KEYS[k]])
                except KeyError:
                    got = ("missing",)
                want = ("ok", model[k]) if k in model else ("missing",)
                expect(got == want and type(got[-1]) is type(want[-1]), "value", f"{hist} p={p}: {got} != {want}")
            expect(len(d) == len(model), "len", f"{hist}")
            expect(sorted(map(repr, d.values())) == sorted(map(repr, model.values())), "iteration", f"{hist}")
            ops = [("set", k, v) for k in range(2) for v in range(len(VALS))]
            ops += [("del", k) for k in range(2)] + [("reopen", 0), ("switch", 0)]
            return h(sorted(model.items(), key=repr)), ops
    return machine


RICH = [lambda: None, lambda: {"a": [1, {"b": None}]}, lambda: {"a": [1, {"b": 0}]}, lambda: (1, 2), lambda: [1, 2], lambda: "x",
        lambda: pd.DataFrame({"a": [1, 2]}), lambda: pd.DataFrame({"a": [1, 3]}), lambda: 1.0, lambda: True, lambda: 1,
        lambda: float("nan"), lambda: [1, float("nan")], lambda: {"d": pd.DataFrame({"a": [1, float("nan")]})},
        lambda: {"d": pd.DataFrame({"a": [2, float("nan")]})}, lambda: np.array([1, float("nan")]),
        lambda: pd.Series([1.0, 2.0]), lambda: {1: frozenset([1])}, lambda: {1: frozenset([2])},
        lambda: "", lambda: {1, 2}, lambda: {1}, lambda: b"x",
        # differences a comparison may be told, or be too coarse, to overlook
        lambda: [2, 1], lambda: [1.0, 2], lambda: [True, 2], lambda: [[1, 2]], lambda: [[1.0, 2]], lambda: [(1, 2)],
        lambda: [1, 1, 2], lambda: [1], lambda: [], lambda: (), lambda: {}, lambda: {"a": [2, 1]}, lambda: {"a": [1, 2]},
        lambda: 0.1, lambda: 0.1 + 2 ** -50, lambda: [0.1], lambda: [0.1 + 2 ** -50], lambda: 1e300, lambda: 1e300 + 1e290,
        lambda: 10 ** 30, lambda: 10 ** 30 + 1, lambda: 1j, lambda: "X", lambda: " x", lambda: "x ", lambda: "x\n", lambda: ["x"],
        lambda: ["X"], lambda: [b"x"], lambda: {"a": None}, lambda: {"A": None}, lambda: {"a": 0}, lambda: {"a": False},
        lambda: {"a": ""}, lambda: {1: "x"}, lambda: {"1": "x"}, lambda: {(1, 2): "x"}, lambda: {"_": 1}, lambda: {"_": 2},
        lambda: {"__a": 1}, lambda: {"__a": 2}, lambda: "x" * 300 + "y", lambda: "x" * 300 + "z",
        lambda: list(range(40)), lambda: list(range(39)) + [0], lambda: functools.reduce(lambda a, _: [a], range(30), 1),
        lambda: functools.reduce(lambda a, _: [a], range(30), 2), lambda: range(3), lambda: range(4),
        lambda: DAY, lambda: DAY.replace(microsecond=1), lambda: DAY.replace(tzinfo=datetime.timezone.utc),
        lambda: [DAY], lambda: [DAY.replace(tzinfo=datetime.timezone.utc)], lambda: DAY.date(), lambda: DAY.time(),
        lambda: datetime.timedelta(1), lambda: datetime.timedelta(1, 0, 1), lambda: pd.NaT, lambda: [pd.NaT], lambda: pd.Timestamp(DAY),
        lambda: decimal.Decimal("0.1"), lambda: decimal.Decimal("0.10000000000000000000000000000000001"),
        lambda: fractions.Fraction(1, 3), lambda: fractions.Fraction(10 ** 20, 3 * 10 ** 20 + 1), lambda: uuid.UUID(int=1), lambda: uuid.UUID(int=2),
        lambda: bytearray, lambda: memoryview, lambda: pathlib.PurePosixPath("a"), lambda: pathlib.PurePosixPath("b"),
        lambda: np.array([1.0, 2.0]), lambda: np.array([1.0, 2.0 + 2 ** -50]), lambda: np.array([1, 2]), lambda: np.array([2, 1]),
        lambda: np.array([[1, 2]]), lambda: np.array([[1], [2]]), lambda: np.array([1.0, 2.0], dtype="f4"), lambda: np.int64(1),
        lambda: np.float64(1), lambda: np.array([True, False]), lambda: np.array(["x"]), lambda: np.array(["X"]),
        lambda: np.array(["x", "y"]), lambda: np.array([["x"]]), lambda: np.array(["x", 1], dtype=object), lambda: np.array(["x", 1.0], dtype=object),
        lambda: np.array([(1, "a")], dtype="i4,U1"), lambda: np.array([(1, "b")], dtype="i4,U1"), lambda: [len], lambda: [abs],
        lambda: pd.Series([1.0, 3.0]), lambda: pd.Series([1, 2]), lambda: pd.DataFrame({"a": [1.0, 2.0]}), lambda: pd.DataFrame({"b": [1, 2]}),
        lambda: pd.DataFrame({"a": [2, 1]}), lambda: pd.DataFrame({"a": [1, 2]}, index=[1, 2]), lambda: [pd.DataFrame({"a": [1, 2]})],
        lambda: [pd.DataFrame({"a": [2, 1]})], lambda: frozenset(), lambda: frozenset([1]), lambda: {("a", 1)}, lambda: {("a", 2)}]
DAY = datetime.datetime(2020, 1, 2, 3, 4, 5)


class Faulty(FileDirDict):
    """A store that refuses to write a given number of times."""
    faults = 0

    def __setitem__(self, k, v):
        if self.faults:
            self.faults -= 1
            raise OSError("busy")
        super().__setitem__(k, v)


def same(a, b):
    return pickle.dumps(a) == pickle.dumps(b)


def rich_case(case):
    """All pairs of values in a row; and stores that fail to write once, twice."""
    i, j, p = case
    with clean():
        d = make(p)
        d["k"] = RICH[i]()
        err = attempt(d.__setitem__, "k", RICH[j]())[0] == "exc"
        expect(err == (p == 1 and i != j), "inconsistent-write-accepted" if i != j and not err else "write-refused",
               f"{RICH[i]()!r} then {RICH[j]()!r}, p={p}")
        for r in (d, make(None)):
            expect(same(r["k"], RICH[i]()) and len(r) == 1, "value", f"{RICH[i]()!r} then {RICH[j]()!r}: {r['k']!r}")
        s = Faulty("/mem/f", immutable_items=True, digest_len=0)
        f = FirstEntryDict(s, p)
        for n in (1, 2):
            s.faults = n
            r = attempt(f.__setitem__, f"k{n}", RICH[i]())
            s.faults = 0
            if r[0] == "ok":
                expect(same(f[f"k{n}"], RICH[i]()), "write-lost", f"{n} faults: {f[f'k{n}']!r}")
            attempt(f.__setitem__, f"k{n}", RICH[j]())
            expect(f"k{n}" in f and same(f[f"k{n}"], (RICH[i] if r[0] == "ok" else RICH[j])()), "value", f"after {n} faults")
    return dict(states=1, transitions=6, sigs=[h(case)])


def opening_case(case):
    """What a write-once store can be made of."""
    with clean():
        good = FileDirDict("/mem/d", immutable_items=True, digest_len=0, base_class_for_values=int)
        for p in (None, 0, 0.0, 0.5, 1, 1.0):
            d = FirstEntryDict(good, p)
            expect(d.base_class_for_values is int and d.digest_len == 0 and d.immutable_items is True, "parameters", f"{p}")
        for store, p in ((FileDirDict("/mem/e", immutable_items=False, digest_len=0), 1), ({}, 1), (None, 1),
                         (good, -0.1), (good, 1.1), (good, 2), (good, -1)):
            expect(attempt(FirstEntryDict, store, p)[0] == "exc", "accepted-unsafe-store", f"{store!r} {p}")
    return dict(states=13, transitions=13, sigs=["opening"])


class Writers(Scenario):
    """Each process opens the dictionary, writes its value, and reads."""
    name = "writers"

    def __init__(self, values, p, rounds=1):
        self.values, self.p, self.rounds = values, p, rounds
        self.name = f"writers{values}p{p}x{rounds}"

    def actors(self):
        def w(v):
            def body():
                out = []
                for _ in range(self.rounds):
                    d = make(self.p)
                    try:
                        d["k"] = v
                        err = None
                    except Exception as e:
                        err = type(e).__name__
                    out.append((err, d["k"], "k" in d, len(d)))
                return out
            return body
        return [(f"w{i}", w(v)) for i, v in enumerate(self.values)]

    def verdict(self, ex):
        with_store = backend.use(ex.disk)
        try:
            final = make(None)["k"]
        finally:
            backend.use(with_store)
        first = [op for op in ex.trace if op[1] == "put"]
        for a, v in zip(ex.actors, self.values):
            if a.result[0] != "ok":
                raise Problem("writer-failed", str(a.result))
            for err, seen, member, n in a.result[1]:
                if seen != final or not member or n != 1:
                    raise Problem("readers-disagree", f"{a.name} read {seen!r}, the store has {final!r}")
                if self.p == 1 and err is None and v != final:
                    raise Problem("inconsistent-write-accepted", f"{a.name} wrote {v!r} over {final!r} silently")
                if err is not None and (self.p != 1 or v == final):
                    raise Problem("writer-failed", f"{a.name}: {err} although nothing conflicts")
        if final not in self.values:
            raise Problem("invented-value", repr(final))
        return (final, [a.result[1] for a in ex.actors])


def scenarios(quick):
    for p in (None, 0, 1):
        if quick and p == 0:
            continue
        yield Writers([1, 2], p), 3 if quick else 5
        if p or not quick:
            yield Writers([1, 1], p), 2 if quick else 4
            yield Writers([1, 2], p, 2), 2 if quick else 3
        yield Writers([1, 2, 3], p), 1 if quick else 3
        if not quick:
            yield Writers([1, 2, 1], p), 3


def run(ctx):
    for p in (None, 0, 1):
        ctx.bfs(machine_for(p), 3 if ctx.quick else 5, batch=32, dedupe=not ctx.quick)
    ctx.run_cases(opening_case, [["opening"]])
    n = range(len(RICH))
    ctx.run_cases(rich_case, [[i, j, p] for i in n for j in n for p in (((1,) if i not in (j, j + 1) else (0, 1)) if ctx.quick else (None, 0, 1))], batch=64)
    for sc, b in scenarios(ctx.quick):
        explore(ctx, sc, b)


def replay(case):
    if isinstance(case, dict):
        from mc.procs import Execution
        for sc, b in scenarios(False):
            if sc.name == case["scenario"]:
                ex = Execution(sc, case["prefix"], dict(paths={"/mem/d/k.pkl"}, written_by_other=lambda a: []))
                try:
                    ex.run()
                    print(ex.outcome)
                finally:
                    print(ex.describe())
        return
    if case == ["opening"]:
        return opening_case(case)
    if not isinstance(case[0], (list, tuple)):
        return rich_case(case)
    for p in (None, 0, 1):
        print(p, machine_for(p)(tuple(tuple(o) for o in case)))
