"""Families of values: every inner list is one value, written in several ways."""
import collections
import dataclasses
import enum


@dataclasses.dataclass
class Point:
    x: int
    y: int = 0


class Plain:
    def __init__(self, **k):
        self.__dict__.update(k)

    def __eq__(self, o):
        return type(o) is type(self) and self.__dict__ == o.__dict__

    __hash__ = None


class Plain2(Plain):
    pass


class Slots:
    __slots__ = ("a", "b")

    def __init__(self, a, b):
        self.a, self.b = a, b


NT = collections.namedtuple("NT", "p q")


class Level(enum.IntEnum):
    LOW = 1
    HIGH = 2


class Flags(enum.Flag):
    A = 1
    B = 2


class Text(str):
    pass


class Number(int):
    pass


class Slots2:
    __slots__ = ("a", "b")

    def __init__(self, a, b):
        self.a, self.b = a, b

    def __getstate__(self):
        return [self.a, self.b]

    def __setstate__(self, s):
        self.a, self.b = s


class Color(enum.Enum):
    RED = 1
    BLUE = 2


def a_function(x):
    return x


def another_function(x):
    return x + 1


PREAMBLE = """
import re, functools, operator, collections, datetime, decimal, fractions, uuid, pathlib, math, array
import numpy as np, pandas as pd
from collections import OrderedDict, defaultdict, Counter, deque
from mc.values import Point, Plain, Plain2, Slots, Slots2, NT, Color, Level, Flags, Text, Number, a_function, another_function
def build(d): return d
"""

SCALARS = [
    ["0", "int()", "1 - 1"], ["1"], ["-1"], ["2"], ["255"], ["256"], ["257"], ["65535"], ["65536"], ["2**31"], ["2**31-1"],
    ["-2**31"], ["2**63"], ["2**64", "1 << 64"], ["-2**63"], ["10**30"], ["10**30+1"],
    ["False", "bool()"], ["True", "not False"], ["0.0", "float()"], ["1.0"], ["-1.0"], ["0.1"], ["0.1 + 0.2"], ["0.3"],
    ["float('inf')", "math.inf"], ["-math.inf"], ["1e300"], ["5e-324"], ["2.0"],
    ["0j"], ["1j"], ["1 + 0j"], ["1 + 1j"], ["None"], ["..."], ["NotImplemented"],
    ["''", "str()"], ["'a'", "chr(97)", "'ba'[1]"], ["'b'"], ["'A'"], ["'ab'", "'a' + 'b'", "''.join(['a', 'b'])"], ["'ba'"],
    ["'1'", "str(1)"], ["'True'"], ["'None'"], ["'a' * 300"], ["'a' * 299 + 'b'"], ["'\\u00fc'"], ["'u\\u0308'"], ["'\\n'"],
    ["' '"], ["'\\x00'"], ["'a\\x00'"], ["'a/b'"], ["'\\U0001F600'"],
    ["b''", "bytes()"], ["b'a'"], ["b'1'"], ["b'ab'", "bytes([97, 98])"], ["bytearray(b'')"], ["bytearray(b'a')"],
    ["range(0)"], ["range(3)", "range(0, 3)", "range(0, 3, 1)"], ["range(4)"], ["range(1, 4)"], ["range(0, 4, 2)"],
    ["slice(1, 2)"], ["slice(1, 3)"],
    ["decimal.Decimal('1')"], ["decimal.Decimal('1.0')"], ["fractions.Fraction(1, 2)", "fractions.Fraction(2, 4)"],
    ["fractions.Fraction(1, 3)"],
    ["datetime.date(2024, 1, 1)"], ["datetime.date(2024, 1, 2)"], ["datetime.datetime(2024, 1, 1)"],
    ["datetime.datetime(2024, 1, 1, tzinfo=datetime.timezone.utc)"], ["datetime.timedelta(1)", "datetime.timedelta(hours=24)"],
    ["datetime.timedelta(2)"], ["uuid.UUID(int=1)"], ["uuid.UUID(int=2)"], ["pathlib.PurePosixPath('a')"],
    ["pathlib.PurePosixPath('a/b')"],
    ["len"], ["max"], ["int"], ["str"], ["ValueError"], ["a_function"], ["another_function"], ["Point"],
    ["Color.RED"], ["Color.BLUE"], ["math"], ["Point(1)", "Point(1, 0)"], ["Point(2)"], ["Point(0, 1)"],
    ["Plain(a=1)"], ["Plain(a=2)"], ["Plain2(a=1)"], ["Plain(b=1)"], ["Plain()"], ["Plain(a=1, b=2)"],
    ["NT(1, 2)", "NT(q=2, p=1)"], ["NT(2, 1)"], ["ValueError()"], ["ValueError(1)"], ["KeyError(1)"], ["ValueError(1, 2)"],
    ["array.array('i', [1, 2])"], ["array.array('i', [2, 1])"], ["array.array('l', [1, 2])"],
    # equal to another value, yet different from it
    ["-0.0", "0.0 * -1"], ["complex(0.0, -0.0)"], ["complex(-0.0, 0.0)"], ["decimal.Decimal('0')"], ["decimal.Decimal('-0')"],
    ["decimal.Decimal('0.0')"], ["decimal.Decimal('NaN')"], ["decimal.Decimal('Infinity')"], ["fractions.Fraction(1)"],
    ["fractions.Fraction(0)"], ["Level.LOW"], ["Level.HIGH"], ["Flags.A"], ["Flags.A | Flags.B"], ["Text('a')"], ["Number(1)"],
    ["datetime.datetime(2024, 1, 1, 1, tzinfo=datetime.timezone(datetime.timedelta(hours=1)))"],
    ["datetime.time(1, 2)"], ["datetime.time(1, 2, 3)"],
    ["range(1, 1)"], ["range(0, 3, 2)"], ["range(0, 4, 3)"], ["bytes(3)"], ["bytearray(3)"], ["memoryview", "type(memoryview(b''))"],
    ["1e16"], ["10**16"], ["1e16 + 2"], ["float(2**53)"], ["2**53"], ["2**53 + 1"], ["'\\ud800'"], ["'a' * 1000"], ["b'a' * 1000"],
    ["'0' * 65536"], ["'0' * 65537"], ["collections.UserDict(a=1)"], ["collections.UserList([1])"], ["Slots2(1, 2)"], ["Slots2(2, 1)"],
    ["collections.ChainMap({'a': 1}, {'b': 2})"], ["collections.ChainMap({'a': 1, 'b': 2})"], ["type(None)"], ["bool"], ["float"],
    ["re.compile('a')"], ["re.compile('a', re.I)"], ["re.compile('b')"], ["functools.partial(int, base=2)"], ["functools.partial(int, base=3)"],
    ["operator.itemgetter(1)"], ["operator.itemgetter(2)"], ["np.add"], ["np.multiply"], ["np.dtype('i4')"], ["np.dtype('i8')"],
    # texts that are alike after some normalisation, and as long as each other
    ["'\\u212b'"], ["'\\u00c5'"], ["'\\u2126'"], ["'\\u03a9'"], ["'\\u212a'"], ["'K'"], ["'k'"], ["'\\u00a0'"], ["'\\u2003'"], ["'\\uff21'"],
    ["'\\t'"], ["'\\r'"], ["'x '"], ["' x'"], ["'x\\n'"], ["'x\\t'"], ["'x\\x00'"], ["'\\x00x'"], ["'\\u0131'"], ["'i'"], ["'I'"], ["'\\u03c2'"], ["'\\u03c3'"],
    ["'A b'"], ["'a B'"], ["'a b'"], ["b'A'"], ["b'\\xc3\\x85'"], ["b'\\xff'"], ["b'\\xfe'"], ["'a_b'"], ["'a-b'"], ["'a.b'"], ["'a:b'"],
    # large values that differ in one place
    ["'a' * 70000 + 'b' + 'a' * 70000"], ["'a' * 70000 + 'c' + 'a' * 70000"], ["'a' * 140000 + 'b'"], ["'b' + 'a' * 140000"],
    ["b'a' * 70000 + b'b' + b'a' * 70000"], ["b'a' * 70000 + b'c' + b'a' * 70000"], ["list(range(3000))"],
    ["list(range(1500)) + [0] + list(range(1501, 3000))"], ["[tuple(range(i, i + 1000)) for i in (0, 1000, 2000)]"], ["tuple(range(3000))"],
    ["dict.fromkeys(range(3000))"], ["{**dict.fromkeys(range(3000)), 1500: 0}"], ["set(range(3000))"], ["set(range(2999)) | {3000}"],
    ["functools.reduce(lambda a, _: [a], range(60), 1)"], ["functools.reduce(lambda a, _: [a], range(60), 2)"], ["functools.reduce(lambda a, _: [a], range(59), 1)"],
    ["10 ** 5000"], ["10 ** 5000 + 10 ** 2500"],
]

ARRAYS = [
    ["np.zeros(0)"], ["np.zeros((0, 2))"], ["np.zeros(2)", "np.array([0.0, 0.0])"], ["np.zeros((2, 1))"], ["np.zeros((1, 2))"],
    ["np.zeros(3)"], ["np.arange(6)", "np.array([0, 1, 2, 3, 4, 5])"], ["np.arange(6).reshape(2, 3)"],
    ["np.arange(6).reshape(3, 2)"], ["np.arange(6, dtype=np.int32)"], ["np.arange(6, dtype=np.float64)"],
    ["np.arange(6, dtype=np.float32)"], ["np.array(['a', 'b'])"], ["np.array(['a', 'c'])"], ["np.array([True, False])"],
    ["np.array([1, 0], dtype=np.int8)"], ["np.array(1)"], ["np.array([1])"], ["np.array([[1]])"], ["np.int64(1)"], ["np.int32(1)"],
    ["np.float64(1)"], ["np.float32(1)"], ["np.bool_(True)"], ["np.array([1, 2], dtype=object)"],
    ["np.array([1, '2'], dtype=object)"], ["np.array([5, 4, 3])"], ["np.array([3, 4, 5])"],
    ["np.zeros(2) * -1"], ["np.float64(0)"], ["np.float64(-0.0)"], ["np.array([1, 2], dtype='>i4')"], ["np.array([1, 2], dtype='<i4')"],
    ["np.array([np.nan])"], ["np.array([1, 2], dtype=np.uint8)"], ["np.array([1, 2], dtype=np.int8)"], ["np.array(['a', 'b'], dtype='U2')"],
    ["np.array([b'a', b'b'])"], ["np.array([(1, 2.0)], dtype=[('a', 'i4'), ('b', 'f8')])"], ["np.array([(1, 2.0)], dtype=[('b', 'i4'), ('a', 'f8')])"],
    ["np.datetime64('2024-01-01')"], ["np.datetime64('2024-01-01T00')"], ["np.array([1 + 0j])"], ["np.array([[1, 2], [3, 4]])"],
    ["np.array([[1, 3], [2, 4]])"], ["np.matrix([[1, 2], [3, 4]])"],
    ["pd.Series([1, 2], index=['a', 'b'])"], ["pd.Series([1, None])"], ["pd.Series(['a', 'b'])"], ["pd.Series(['a', 'b'], dtype='category')"],
    ["pd.DataFrame({'a': ['x', None]})"], ["pd.DataFrame({'a': ['x', 'y']})"], ["pd.DataFrame({'a': [1, 2]}).set_index('a')"],
    ["pd.MultiIndex.from_tuples([(1, 2)])"], ["pd.MultiIndex.from_tuples([(2, 1)])"], ["pd.Index([1, 2], name='i')"], ["pd.RangeIndex(3)"],
    ["pd.Timestamp('2024-01-01', tz='UTC')"], ["pd.Timedelta(1, 'D')"], ["pd.NaT"], ["pd.NA"], ["pd.Interval(0, 1)"], ["pd.Interval(0, 1, closed='left')"],
    ["pd.DataFrame({'a': [1, 2]})", "pd.DataFrame([[1], [2]], columns=['a'])"], ["pd.DataFrame({'b': [1, 2]})"],
    ["pd.DataFrame({'a': [1, 3]})"], ["pd.DataFrame({'a': [1.0, 2.0]})"], ["pd.DataFrame({'a': [1, 2]}, index=[1, 2])"],
    ["pd.DataFrame({'a': [1, 2], 'b': [3, 4]})"], ["pd.DataFrame({'b': [3, 4], 'a': [1, 2]})"], ["pd.DataFrame()"],
    ["pd.Series([1, 2])"], ["pd.Series([1, 2], name='s')"], ["pd.Series([2, 1])"], ["pd.Index([1, 2])"],
    ["pd.Timestamp('2024-01-01')"], ["pd.Timestamp('2024-01-02')"],
    # large ones that differ in one place
    ["np.arange(300000)"], ["np.where(np.arange(300000) == 150000, 0, np.arange(300000))"], ["np.where(np.arange(300000) == 299999, 0, np.arange(300000))"],
    ["np.arange(300000).reshape(600, 500)"], ["np.arange(300000.0)"], ["np.array(['a'] * 5000 + ['b'] + ['a'] * 5000)"],
    ["np.array(['a'] * 5001 + ['b'] + ['a'] * 4999)"], ["pd.DataFrame({'a': np.arange(20000)})"],
    ["pd.DataFrame({'a': np.where(np.arange(20000) == 10000, 0, np.arange(20000))})"], ["pd.Series(np.arange(20000))"],
    ["pd.Series(np.where(np.arange(20000) == 10000, 0, np.arange(20000)))"],
]

FUNCS = [
    ["FN('pure', 'def f(x): return x')", "FN('pure', 'def f(x):\\n    # c\\n    return x')"],
    ["FN('pure', 'def f(x): return x + 1')"], ["FN('pure', 'def g(x): return x')"],
    ["FN('autonomous', 'def f(x): return x')"], ["FN('autonomous', 'def f(x): return x', 'Other')"],
    ["FN('pure', 'def f(x): return x', 'Other')"], ["FN('pure', 'def f(x=1): return x')"],
]

ATOMS = ["1", "2", "True", "1.0", "None", "'a'", "'1'", "b'a'", "0", "False", "0.0", "-0.0", "1j", "()", "''", "b''"]


def containers():
    out = []
    for a in ATOMS:
        out += [[f"frozenset([{a}])"], [f"NT({a}, 0)"], [f"[{a}] * 5"], [f"({a}, {a})"], [f"{{({a},): 0}}"], [f"Point({a})"],
                [f"np.array([{a}], dtype=object)"], [f"pd.Series([{a}], dtype=object)"], [f"[({a}, [{a}])]"], [f"Counter([{a}])"]]
        out += [[f"[{a}]", f"list(({a},))"], [f"({a},)", f"tuple([{a}])"], [f"[[{a}]]"], [f"[({a},)]"], [f"([{a}],)"],
                [f"{{'k': {a}}}", f"dict(k={a})"], [f"{{{a}: 'v'}}"], [f"[{{'k': {a}}}]"], [f"{{'k': [{a}]}}"],
                [f"OrderedDict(k={a})"], [f"deque([{a}])"], [f"[{a}, None]"] if a != "None" else [f"[{a}, {a}]"],
                [f"{{'k': {a}, 'z': 0}}", f"{{'z': 0, 'k': {a}}}", f"dict(z=0) | dict(k={a})"],
                [f"Plain(k={a})"], [f"defaultdict(int, k={a})"]]
    for s in ["'a'", "'b'", "1", "2", "None"]:
        out += [[f"{{{s}}}", f"set([{s}])"]]
    import itertools
    for n in range(4):
        for bits in itertools.product("12", repeat=n):
            out.append(["[" + ", ".join(bits) + "]"])
            out.append(["(" + ", ".join(bits) + ("," if n == 1 else "") + ")"])
            if n == 3:
                out.append(["[" + bits[0] + ", [" + ", ".join(bits[1:]) + "]]"])
    names = ["'p'", "'q'", "'r'"]
    for n in (2, 3):
        for pick in itertools.combinations(names, n):
            perms = list(itertools.permutations(pick))
            out.append(["{" + ", ".join(p) + "}" for p in perms])
            out.append(["{" + ", ".join(f"{k}: {names.index(k)}" for k in p) + "}" for p in perms])
            out.append(["{'s': {" + ", ".join(p) + "}}" for p in perms])
            out.append(["OrderedDict([" + ", ".join(f"({k}, 1)" for k in pick) + "])"])
            for p in perms:
                out.append(["[" + ", ".join(p) + "]"])
    out += [["[]", "list()"], ["()", "tuple()"], ["{}", "dict()"], ["set()"], ["frozenset()"], ["frozenset(['a'])"], ["frozenset(['b'])"],
            ["[[], []]"], ["[[]]"], ["[()]"], ["([],)"], ["{'a': {}}"], ["{'a': {'b': {'c': 1}}}"], ["{'a': {'b': {'c': 2}}}"],
            ["[1, [2, [3, [4]]]]"], ["[1, [2, [3, [5]]]]"], ["Counter('aab')", "Counter({'b': 1, 'a': 2})"], ["Counter('abb')"],
            ["{1: 'a', '1': 'b'}"], ["{1: 'b', '1': 'a'}"], ["[1, 2, 3] * 20"], ["[1, 2, 3] * 20 + [1]"]]
    return out


def groups():
    return SCALARS + ARRAYS + containers() + FUNCS
