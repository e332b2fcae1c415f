from __future__ import annotations

import random
from abc import abstractmethod
from collections.abc import MutableMapping, Sequence
from typing import Any, Union

from parameterizable import ParameterizableClass

from .safe_str_tuple import SafeStrTuple

PersiDictKey = Union[SafeStrTuple, Sequence, str]


class PersiDict(MutableMapping, ParameterizableClass):
    """Persistent dictionary: Dict-like, keys are sequences of safe strings."""

    def __init__(self, immutable_items: bool = False, digest_len: int = 8,
                 base_class_for_values: type | None = None, *args, **kwargs):
        assert digest_len >= 0
        self.digest_len = int(digest_len)
        self.immutable_items = bool(immutable_items)
        self.base_class_for_values = base_class_for_values

    def get_params(self):
        return dict(immutable_items=self.immutable_items, digest_len=self.digest_len,
                    base_class_for_values=self.base_class_for_values)

    def __repr__(self):
        return f"{type(self).__name__}({self.get_params()})"

    __str__ = __repr__

    @abstractmethod
    def __contains__(self, key): ...

    @abstractmethod
    def __getitem__(self, key): ...

    @abstractmethod
    def __setitem__(self, key, value): ...

    def __delitem__(self, key):
        if self.immutable_items:
            raise KeyError("Can't delete an immutable key-value pair")
        raise NotImplementedError

    @abstractmethod
    def __len__(self): ...

    @abstractmethod
    def _generic_iter(self, iter_type: str): ...

    def __iter__(self):
        return self._generic_iter("keys")

    def keys(self):
        return self._generic_iter("keys")

    def values(self):
        return self._generic_iter("values")

    def items(self):
        return self._generic_iter("items")

    def setdefault(self, key, default=None):
        if key in self:
            return self[key]
        self[key] = default
        return default

    def __eq__(self, other):
        if isinstance(other, PersiDict):
            if type(self) is type(other) and (
                    self.__get_portable_params__() == other.__get_portable_params__()):
                return True
        try:
            if len(self) != len(other):
                return False
            return all(v == other[k] for k, v in self.items())
        except Exception:
            return False

    __hash__ = None

    def __getstate__(self):
        if type(self) == PersiDict:
            raise NotImplementedError
        raise TypeError("PersiDict cannot be pickled.")

    def __setstate__(self, state):
        raise TypeError("PersiDict cannot be pickled.")

    def clear(self):
        if self.immutable_items:
            raise KeyError("Can't delete an immutable key-value pair")
        for k in list(self.keys()):
            del self[k]

    def delete_if_exists(self, key) -> bool:
        if self.immutable_items:
            raise KeyError("Can't delete an immutable key-value pair")
        key = SafeStrTuple(key)
        try:            # no separate test of existence: another process may delete it meanwhile
            self.__delitem__(key)
            return True
        except KeyError:
            return False

    def get_subdict(self, prefix_key):
        if type(self) == PersiDict:
            raise NotImplementedError
        raise NotImplementedError

    def subdicts(self) -> dict:
        names = {k[0] for k in self.keys() if len(k) > 1}
        return {n: self.get_subdict(n) for n in sorted(names)}

    def random_key(self):
        keys = list(self.keys())
        return random.choice(keys) if keys else None

    @abstractmethod
    def timestamp(self, key) -> float: ...

    def oldest_keys(self, max_n=None):
        keys = sorted(self.keys(), key=self.timestamp)
        return keys if max_n is None else keys[:max_n]

    def newest_keys(self, max_n=None):
        keys = sorted(self.keys(), key=self.timestamp, reverse=True)
        return keys if max_n is None else keys[:max_n]

    def oldest_values(self, max_n=None):
        return [self[k] for k in self.oldest_keys(max_n)]

    def newest_values(self, max_n=None):
        return [self[k] for k in self.newest_keys(max_n)]
