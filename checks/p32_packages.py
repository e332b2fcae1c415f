"""Package installation: every argument combination times every outcome of pip and of the import afterwards.

No command is ever started: subprocess.Popen's own methods are replaced by a recorder that plays pip
against a scratch folder on sys.path (it creates or removes importable modules there). The package
names exist nowhere else.
"""
import importlib
import itertools
import os
import shutil
import subprocess
import sys
import tempfile

from pythagoras import install_package, uninstall_package

from mc.core import expect, h

META = dict(level="model_checking",
            technique="exhaustive exploration of arguments x environment answers (pip, import) with recording stand-ins",
            rule="a case is one history of install / uninstall calls with chosen answers of pip and of the import "
                 "system; the commands recorded and the outcome are compared with a model",
            bounds="2 names x 4 version arguments x upgrade x 8 pip answers x 7 module states, and all histories of "
                   "<=3 (quick) / <=4 calls",
            assumptions=["pip is played by a recorder over a scratch folder; no command is started"])

NAMES = ["mcpkg_alpha", "mcpkg_beta"]
# packages that cannot be imported once they are installed
BROKEN = dict(broken="raise ImportError('broken')\n", odd="raise ValueError('broken')\n", garbled="def broken(:\n",
              late="import sys\nbroken = 1\nimport no_such_package_anywhere\n")
HARMLESS = {"--quiet", "-q", "--no-input", "--disable-pip-version-check", "--no-cache-dir"}


class Pip:
    def __init__(self, folder):
        self.folder, self.log, self.answers = folder, [], []

    def run(self, argv):
        """Play one command; returns its exit code."""
        self.log.append(list(argv))
        if len(argv) < 4 or argv[1:3] != ["-m", "pip"]:
            return 0
        answer = self.answers.pop(0) if self.answers else "ok"
        if answer == "fail":
            return 1
        if answer == "signal":
            return -9
        words = [a for a in argv[4:] if not a.startswith("-")]
        for w in words:
            name = w.split("==")[0]
            path = os.path.join(self.folder, name + ".py")
            if argv[3] == "install" and (answer == "ok" or answer in BROKEN):
                with open(path, "w") as f:
                    f.write(BROKEN.get(answer, f"VERSION = {w!r}\n"))
            elif argv[3] == "uninstall" and answer == "ok" and os.path.exists(path):
                os.remove(path)
        importlib.invalidate_caches()
        return 0


class Escaped(BaseException):
    pass


def guard(world):
    """Replace everything that could start a process; returns an undo function."""
    undo = []

    def put(owner, name, value):
        if hasattr(owner, name):
            old = getattr(owner, name)
            undo.append((owner, name, old))
            setattr(owner, name, value)

    def init(self, args, *a, **k):
        world.kwargs = k
        self.args = args
        self.pid = 4242
        self.stdin = self.stdout = self.stderr = None
        self._text = k.get("text") or k.get("universal_newlines") or k.get("encoding")
        self._pipes = (k.get("stdout") == subprocess.PIPE, k.get("stderr") == subprocess.PIPE)
        if k.get("shell") or isinstance(args, str):
            world.log.append(["SHELL", args])
            self.returncode = 0
        else:
            self.returncode = world.run(list(map(str, args)))

    def communicate(self, *a, **k):
        e = "" if self._text else b""
        return tuple(e if p else None for p in self._pipes)
    P = subprocess.Popen
    put(P, "__init__", init)
    put(P, "__del__", lambda self, *a, **k: None)
    put(P, "communicate", communicate)
    put(P, "wait", lambda self, *a, **k: self.returncode)
    put(P, "poll", lambda self: self.returncode)
    put(P, "kill", lambda self: None)
    put(P, "terminate", lambda self: None)
    put(P, "__enter__", lambda self: self)
    put(P, "__exit__", lambda self, *a: None)

    def escaped(name):
        def f(*a, **k):
            world.log.append(["ESCAPED", name, repr(a)])
            return 0
        return f
    for n in ("system", "popen", "execv", "execve", "execvp", "execvpe", "execl", "posix_spawn", "posix_spawnp",
              "spawnv", "spawnve", "spawnl", "kill"):
        put(os, n, escaped(n))

    def restore():
        for owner, name, old in reversed(undo):
            setattr(owner, name, old)
    return restore


def one(world, op):
    """Run one call and compare it with the model."""
    kind, name, version, upgrade, answer = op
    path = os.path.join(world.folder, name + ".py")
    had = os.path.exists(path)
    was_loaded = name in sys.modules
    world.log, world.answers = [], [answer]
    try:
        if kind == "install":
            kw = {}
            if upgrade is not None:
                kw["upgrade"] = upgrade
            if version != "none":
                kw["version"] = version
            r = install_package(name, **kw)
        else:
            r = uninstall_package(name)
        ok = True
    except Exception:
        ok = False
    what = f"{op}"
    expect(len(world.log) == 1, "commands", lambda: f"{what}: {world.log}")
    argv = world.log[0]
    expect(argv[0] == sys.executable and argv[1:3] == ["-m", "pip"] and argv[3] == kind, "command", lambda: f"{what}: {argv}")
    flags = {a for a in argv[4:] if a.startswith("-")} - HARMLESS
    words = [a for a in argv[4:] if not a.startswith("-")]
    pinned = kind == "install" and version not in (None, "none", "")
    expect(words == [name + ("==" + version if pinned else "")], "package", lambda: f"{what}: {argv}")
    flags = {dict({"-U": "--upgrade", "--yes": "-y"}).get(f, f) for f in flags}
    want = {"--upgrade"} if kind == "install" and upgrade else {"-y"} if kind == "uninstall" else set()
    expect(flags == want, "flags", lambda: f"{what}: {argv}")
    exists = os.path.exists(path)
    if answer in ("fail", "signal"):
        expect(not ok, "failure-hidden", what)
        expect((name in sys.modules) == was_loaded, "went-on-after-failure", what)
    elif kind == "install":
        broken = exists and "broken" in open(path).read()
        works = exists and not broken or was_loaded
        expect(ok == works, "install-verdict", f"{what}: reported {'success' if ok else 'failure'}")
        expect((name in sys.modules) == works, "not-imported", what)
    else:
        broken = exists and "broken" in open(path).read()
        expect(ok == (not exists or broken), "uninstall-verdict",
               f"{what}: reported {'success' if ok else 'failure'} while the package is {'there' if exists else 'gone'}")


def ops():
    for name in NAMES:
        for answer in ("ok", "fail", "noop", *BROKEN, "signal"):
            for version in ("none", None, "1.0", "2.0.1rc1"):
                for upgrade in (None, False, True):
                    yield ("install", name, version, upgrade, answer)
            if answer not in BROKEN:
                yield ("uninstall", name, None, None, answer)


SMALL = [("install", NAMES[0], "none", None, "ok"), ("install", NAMES[0], "1.0", True, "ok"), ("install", NAMES[0], None, True, "fail"),
         ("install", NAMES[0], "none", None, "noop"), ("install", NAMES[0], "none", True, "broken"), ("install", NAMES[1], "2", False, "ok"),
         ("uninstall", NAMES[0], None, None, "ok"), ("uninstall", NAMES[0], None, None, "noop"),
         ("uninstall", NAMES[0], None, None, "fail"), ("uninstall", NAMES[1], None, None, "ok")]


def history(hist):
    folder = tempfile.mkdtemp(prefix="mcpip-")
    world = Pip(folder)
    sys.path.insert(0, folder)
    keep, sys.dont_write_bytecode = sys.dont_write_bytecode, True
    restore = guard(world)
    try:
        for op in hist:
            one(world, tuple(op))
    finally:
        restore()
        sys.dont_write_bytecode = keep
        sys.path.remove(folder)
        for n in NAMES:
            sys.modules.pop(n, None)
        sys.path_importer_cache.pop(folder, None)
        shutil.rmtree(folder)


def case_fn(hists):
    for hist in hists:
        try:
            history(hist)
        except Exception as e:
            if hasattr(e, "key"):
                e.msg = f"history {hist}: {e.msg}"
            raise
    return dict(states=len(hists), transitions=sum(map(len, hists)), traces=len(hists), sigs=[h(x) for x in hists])


def run(ctx):
    hists = [[o] for o in ops()]
    pre = [SMALL[0], SMALL[6], SMALL[4]] + [SMALL[4][:4] + (b,) for b in BROKEN if b != "broken"]
    hists += [[p, o] for p in pre for o in ops()]
    for n in range(2, 4 if ctx.quick else 5):
        hists += [list(c) for c in itertools.product(SMALL, repeat=n)]
    ctx.run_cases(case_fn, [hists[a:a + 60] for a in range(0, len(hists), 60)])
    ctx.samples = [repr(x) for x in hists[::max(1, len(hists) // 7)]][:8]


def replay(case):
    return case_fn(case)
