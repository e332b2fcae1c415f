"""A family of exceptions: every built-in type, with and without arguments, and unusual ones."""
import builtins


class Falsy(Exception):
    def __bool__(self):
        return False


class Wordless(Exception):
    def __str__(self):
        raise RuntimeError("no words")


class Empty(Exception):
    def __len__(self):
        return 0


class EqualToAll(Exception):
    def __eq__(self, other):
        return True
    __hash__ = Exception.__hash__


class Halt(SystemExit):
    pass


class Deep(BaseException):
    pass


SPECIAL = {
    "UnicodeDecodeError": ("utf8", b"\xff", 0, 1, "bad"), "UnicodeEncodeError": ("utf8", "\ud800", 0, 1, "bad"),
    "UnicodeTranslateError": ("x", 0, 1, "bad"), "ExceptionGroup": ("eg", [ValueError("v")]),
    "BaseExceptionGroup": ("beg", [KeyboardInterrupt()]),
}


def family():
    """[(label, maker)] - each maker makes a new exception."""
    out, seen = [], set()
    for n in sorted(dir(builtins)):
        t = getattr(builtins, n)
        if not (isinstance(t, type) and issubclass(t, BaseException)) or t in seen:
            continue
        seen.add(t)
        if n in SPECIAL:
            argss = [SPECIAL[n]]
        else:
            argss = [(), ("text",)]
            if issubclass(t, OSError):
                argss.append((2, "strerror", "file"))
        if t is SystemExit:
            argss += [(0,), (1,), (None,)]
        out += [(f"{n}{a!r}", lambda t=t, a=a: t(*a)) for a in argss]
    out += [(f"{t.__name__}{a!r}", lambda t=t, a=a: t(*a)) for t in (Falsy, Wordless, Empty, EqualToAll, Halt, Deep)
            for a in ((), ("text",))]
    out += [("text with lines", lambda: ValueError("a\nb\n")), ("bytes", lambda: ValueError(b"a")),
            ("not text", lambda: KeyError(None)), ("unicode", lambda: ValueError("é\u2603")),
            ("empty text", lambda: ValueError(""))]
    return out
