"""Where the stand-in persidict keeps its items.

A backend is a flat map path -> (bytes, mtime), and every method below is ONE atomic step of the
environment: these steps are the scheduling, crash and fault points of the explorers. Immutable
dictionaries use put(exclusive=True): at most one writer of a key succeeds (this is the guarantee
`immutable_items` stands for, and the check's main assumption about the storage).
"""
import os
import time as _time

OPS = ("exists", "read", "put", "delete", "list", "mtime")


class MemDisk:
    """In memory. `hook(op, path)` runs before each step and may raise; `log` collects the steps."""

    def __init__(self, items=None):
        self.items = dict(items or {})
        self.hook = None
        self.clock = 1000.0
        self.seq = 0

    def _step(self, op, path):
        if self.hook is not None:
            self.hook(op, path)

    def now(self):
        # strictly increasing stamps, so that "newest" is never a tie
        self.seq += 1
        return self.clock + self.seq * 1e-6

    def exists(self, path):
        self._step("exists", path)
        return path in self.items

    def read(self, path):
        self._step("read", path)
        try:
            return self.items[path][0]
        except KeyError:
            raise FileNotFoundError(path) from None

    def put(self, path, data, exclusive):
        self._step("put", path)
        if exclusive and path in self.items:
            return False
        self.items[path] = (bytes(data), self.now())
        return True

    def delete(self, path):
        self._step("delete", path)
        return self.items.pop(path, None) is not None

    def list(self, prefix, suffix):
        self._step("list", prefix)
        return sorted(p for p in self.items if p.startswith(prefix) and p.endswith(suffix))

    def mtime(self, path):
        self._step("mtime", path)
        try:
            return self.items[path][1]
        except KeyError:
            raise FileNotFoundError(path) from None

    def makedirs(self, path):
        pass


class RealDisk:
    """Ordinary files: used to validate MemDisk against a real file system."""

    def exists(self, path):
        return os.path.isfile(path)

    def read(self, path):
        with open(path, "rb") as f:
            return f.read()

    def put(self, path, data, exclusive):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        tmp = f"{path}.{os.getpid()}.{_time.monotonic_ns()}.__tmp__"
        with open(tmp, "wb") as f:
            f.write(data)
        if exclusive:
            try:
                os.link(tmp, path)
            except FileExistsError:
                return False
            finally:
                os.remove(tmp)
        else:
            os.replace(tmp, path)
        return True

    def delete(self, path):
        try:
            os.remove(path)
            return True
        except FileNotFoundError:
            return False

    def list(self, prefix, suffix):
        out = []
        for d, _, files in os.walk(prefix.rstrip("/")):
            for f in files:
                p = os.path.join(d, f)
                if p.startswith(prefix) and p.endswith(suffix):
                    out.append(p)
        return sorted(out)

    def mtime(self, path):
        return os.path.getmtime(path)

    def makedirs(self, path):
        os.makedirs(path, exist_ok=True)


current = RealDisk()


def use(backend):
    global current
    previous, current = current, backend
    return previous
