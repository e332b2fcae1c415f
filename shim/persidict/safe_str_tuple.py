from collections.abc import Sequence, Mapping, Hashable
from typing import Any

from .safe_chars import SAFE_CHARS_SET, SAFE_STRING_MAX_LENGTH


def _is_sequence_not_mapping(obj: Any) -> bool:
    if isinstance(obj, Sequence) and not isinstance(obj, Mapping):
        return True
    if hasattr(obj, "keys") and callable(obj.keys):
        return False
    return all(hasattr(obj, n) and callable(getattr(obj, n))
               for n in ("__getitem__", "__len__", "__iter__"))


class SafeStrTuple(Sequence, Hashable):
    """An immutable flat sequence of non-empty URL/filename-safe strings."""

    str_chain: tuple

    def __init__(self, *args, **kwargs):
        assert len(kwargs) == 0
        assert len(args) > 0
        candidates = []
        for a in args:
            if isinstance(a, SafeStrTuple):
                candidates.extend(a.str_chain)
            elif isinstance(a, str):
                assert len(a) > 0
                assert len(a) < SAFE_STRING_MAX_LENGTH
                assert len(set(a) - SAFE_CHARS_SET) == 0, f"unsafe characters in {a!r}"
                candidates.append(a)
            elif _is_sequence_not_mapping(a):
                if len(a) > 0:
                    candidates.extend(SafeStrTuple(*a).str_chain)
            else:
                assert False, f"Invalid argument type: {type(a)}"
        self.str_chain = tuple(candidates)

    @property
    def strings(self):
        return self.str_chain

    def __getitem__(self, key):
        return self.str_chain[key]

    def __len__(self):
        return len(self.str_chain)

    def __hash__(self):
        return hash(self.str_chain)

    def __repr__(self):
        return f"{type(self).__name__}({self.str_chain})"

    def __eq__(self, other):
        if isinstance(other, SafeStrTuple):
            if type(self).__eq__ != type(other).__eq__:
                return other.__eq__(self)
        else:
            other = SafeStrTuple(other)
        return self.str_chain == other.str_chain

    def __add__(self, other):
        other = SafeStrTuple(other)
        return SafeStrTuple(*(self.str_chain + other.str_chain))

    def __radd__(self, other):
        other = SafeStrTuple(other)
        return SafeStrTuple(*(other.str_chain + self.str_chain))

    def __iter__(self):
        return iter(self.str_chain)

    def __contains__(self, item):
        return item in self.str_chain

    def __reversed__(self):
        return SafeStrTuple(*reversed(self.str_chain))
