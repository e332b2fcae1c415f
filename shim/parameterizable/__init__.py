"""Stand-in for the release of `parameterizable` that pythagoras 0.17.2 was written for.

The only release that can be installed here (0.105.2) has another API, see /opt/vp/BUILD.json.
This file is environment, not code under test: it implements the few names the code imports.
"""
import inspect

_CLASS = "__class_name__"
_registry: dict = {}


class ParameterizableClass:
    def get_params(self) -> dict:
        raise NotImplementedError

    @classmethod
    def get_default_params(cls) -> dict:
        out = {}
        for name, p in inspect.signature(cls.__init__).parameters.items():
            if name == "self" or p.default is inspect.Parameter.empty:
                continue
            out[name] = p.default
        return out

    def __get_portable_params__(self) -> dict:
        register_parameterizable_class(type(self))
        out = {_CLASS: type(self).__name__}
        for k, v in self.get_params().items():
            out[k] = _to_portable(v)
        return out


def _to_portable(v):
    if isinstance(v, ParameterizableClass):
        return v.__get_portable_params__()
    if isinstance(v, type):
        return {"__builtin_type__": v.__name__}
    return v


def _from_portable(v):
    if isinstance(v, dict) and _CLASS in v:
        return get_object_from_portable_params(v)
    if isinstance(v, dict) and "__builtin_type__" in v:
        import builtins
        return getattr(builtins, v["__builtin_type__"])
    return v


def register_parameterizable_class(cls) -> None:
    _registry[cls.__name__] = cls


def is_registered(cls) -> bool:
    return _registry.get(cls.__name__) is cls


def get_object_from_portable_params(params: dict):
    params = dict(params)
    cls = _registry[params.pop(_CLASS)]
    return cls(**{k: _from_portable(v) for k, v in params.items()})
