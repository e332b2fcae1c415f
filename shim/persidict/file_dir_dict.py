from __future__ import annotations

import os
import pickle

import jsonpickle
import jsonpickle.ext.numpy as _jn
import jsonpickle.ext.pandas as _jp

from parameterizable import register_parameterizable_class

from . import backend
from .persi_dict import PersiDict
from .safe_str_tuple import SafeStrTuple

_jn.register_handlers()
_jp.register_handlers()


class FileDirDict(PersiDict):
    """One item per file; the key's parts are directories and the file's name."""

    def __init__(self, base_dir: str = "FileDirDict", file_type: str = "pkl",
                 immutable_items: bool = False, digest_len: int = 8,
                 base_class_for_values: type | None = None):
        super().__init__(immutable_items=immutable_items, digest_len=digest_len,
                         base_class_for_values=base_class_for_values)
        if base_class_for_values is None or not issubclass(base_class_for_values, str):
            assert file_type in {"json", "pkl"}
        self.file_type = file_type
        self._base_dir = os.path.abspath(str(base_dir))
        backend.current.makedirs(self._base_dir)

    @property
    def base_dir(self):
        return self._base_dir

    @property
    def base_url(self):
        return f"file://{self._base_dir}"

    def get_params(self):
        p = super().get_params()
        p.update(base_dir=self._base_dir, file_type=self.file_type)
        return dict(sorted(p.items()))

    def _path(self, key):
        return "/".join((self._base_dir,) + SafeStrTuple(key).str_chain) + "." + self.file_type

    def _key(self, path):
        rel = path[len(self._base_dir) + 1:-len(self.file_type) - 1]
        return SafeStrTuple(*rel.split("/"))

    def _dump(self, value) -> bytes:
        if self.file_type == "pkl":
            return pickle.dumps(value)
        if self.file_type == "json":
            return jsonpickle.dumps(value, indent=4).encode()
        return value.encode()

    def _load(self, data: bytes):
        if self.file_type == "pkl":
            return pickle.loads(data)
        if self.file_type == "json":
            return jsonpickle.loads(data.decode())
        return data.decode()

    def __contains__(self, key):
        return backend.current.exists(self._path(key))

    def __getitem__(self, key):
        path = self._path(key)
        try:
            data = backend.current.read(path)
        except FileNotFoundError:
            raise KeyError(f"File {path} does not exist") from None
        value = self._load(data)
        if self.base_class_for_values is not None and not isinstance(
                value, self.base_class_for_values):
            raise TypeError(f"Value must be of type {self.base_class_for_values}")
        return value

    def __setitem__(self, key, value):
        if isinstance(value, PersiDict):
            raise TypeError("You are not allowed to store a PersiDict object in another PersiDict.")
        if self.base_class_for_values is not None and not isinstance(
                value, self.base_class_for_values):
            raise TypeError(f"Value must be of type {self.base_class_for_values}")
        path = self._path(key)
        data = self._dump(value)
        if not backend.current.put(path, data, self.immutable_items):
            raise KeyError("Can't modify an immutable item")

    def __delitem__(self, key):
        if self.immutable_items:
            raise KeyError("Can't delete an immutable key-value pair")
        path = self._path(key)
        if not backend.current.delete(path):
            raise KeyError(f"File {path} does not exist")

    def __len__(self):
        return len(backend.current.list(self._base_dir + "/", "." + self.file_type))

    def _generic_iter(self, iter_type):
        assert iter_type in {"keys", "values", "items"}
        paths = backend.current.list(self._base_dir + "/", "." + self.file_type)

        def step():
            for p in paths:
                if iter_type == "keys":
                    yield self._key(p)
                else:
                    try:
                        v = self._load(backend.current.read(p))
                    except FileNotFoundError:
                        continue
                    yield v if iter_type == "values" else (self._key(p), v)
        return step()

    def get_subdict(self, key):
        params = self.get_params()
        params["base_dir"] = "/".join((self._base_dir,) + SafeStrTuple(key).str_chain)
        return type(self)(**params)

    def timestamp(self, key):
        path = self._path(key)
        try:
            return backend.current.mtime(path)
        except FileNotFoundError:
            raise KeyError(f"File {path} does not exist") from None


register_parameterizable_class(FileDirDict)
