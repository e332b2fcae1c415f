"""Every history of changes of a process's surroundings; the summaries taken, logged and recorded tell the present ones."""
import itertools
import os
import platform
import shutil
import socket
import sys
import tempfile
import time
import types

import pythagoras as pth
import torch
from pythagoras import build_execution_environment_summary
from pythagoras._020_logging_portals.logging_portals import log_event

from mc import boot
from mc.core import in_fork
from mc.world import attempt, clean, expect, h, quiet

META = dict(level="model_checking",
            rule="one state = (directory, time zone, user, GPUs, process, notebook or not); after every step a summary is taken "
                 "directly, with an event, an exception and a run, and compared with what the operating system says then",
            bounds="14 operations: all histories of 3 (quick) / 4; 8 kinds of interactive shell",
            assumptions=["GPUs and notebooks are stand-ins", "load and free memory change by themselves: only their limits are checked"])

KEYS = {"hostname", "user", "pid", "platform", "python_implementation", "python_version", "processor", "cpu_count",
        "cpu_load_avg", "cuda_gpu_count", "disk_usage", "virtual_memory", "working_directory", "local_timezone", "is_in_notebook"}
# (whatever the date is, one of the zones with summer time is out of it, and one of them in it)
ZONES = ["UTC", "STD1SUM,J120/0,J240/0", "EST5EDT,M1.1.0,M12.5.0/23", "<+1245>-12:45SUM,J300/0,J60/0"]


class Shell:
    def set_custom_exc(self, *a):
        pass


def shell(kind):
    """A module IPython of this kind, and whether it is a notebook."""
    if kind == "none":
        return None, False
    m = types.ModuleType("IPython")
    s = Shell()
    m.get_ipython = {"shell": lambda: s, "no-shell": lambda: None, "other": lambda: object(), "broken": lambda: 1 // 0,
                     "exit": lambda: sys.exit(3)}.get(kind)
    if kind == "empty":
        del m.get_ipython
    return m, kind == "shell"


def truth(gpus, notebook):
    cwd = os.getcwd()
    st = os.statvfs(cwd)
    mem = {l.split(":")[0]: int(l.split()[1]) * 1024 for l in open("/proc/meminfo")}
    user = next(os.environ[k] for k in ("LOGNAME", "USER", "LNAME", "USERNAME") if os.environ.get(k))
    return dict(hostname=socket.gethostname(), user=user, pid=os.getpid(), platform=platform.platform(),
                python_implementation=platform.python_implementation(), python_version=platform.python_version(),
                processor=platform.processor(), cpu_count=os.cpu_count(), cuda_gpu_count=gpus, working_directory=cwd,
                local_timezone=time.strftime("%Z"), is_in_notebook=notebook), st.f_blocks * st.f_frsize, mem["MemTotal"]


def judge(s, want, where, saved=False):
    plain, disk, mem = want
    expect(isinstance(s, dict) and set(s) == KEYS, "wrong-keys", lambda: f"{where}: {s}")
    for k, v in plain.items():
        expect(s[k] == v and type(s[k]) is type(v), f"wrong-{k}", lambda: f"{where}: {s[k]!r}, really {v!r}")
    total = s["disk_usage"]
    expect((total["total"] if isinstance(total, dict) else total[0]) == disk, "wrong-disk_usage", lambda: f"{where}: {total}, really {disk}")
    m = s["virtual_memory"]
    m = (m["total"] if isinstance(m, dict) else m[0])
    expect(m == mem, "wrong-virtual_memory", lambda: f"{where}: {m} {mem}")
    load = tuple(s["cpu_load_avg"])
    expect(len(load) == 3 and all(isinstance(x, float) and 0 <= x < 100000 for x in load), "wrong-cpu_load_avg", lambda: f"{where}: {load}")


OPS = [("cd", 0), ("cd", 1), ("cd", 2), ("zone", 0), ("zone", 1), ("zone", 2), ("zone", 3), ("user", "ada"), ("user", "bob"),
       ("gpu", 2), ("gpu", 0), ("fork",), ("spoil",), ("mkdir",)]
SRC = "def f(x):\n    return x\n"


def look(hist, n, gpus, p):
    """A summary by each way of taking one."""
    want = truth(gpus, False)
    s = build_execution_environment_summary()
    judge(s, want, (hist, "direct"))
    with p:
        log_event(event_id=f"e{n}", what=n)
        f = pth.pure()(SRC)
        a = f.get_address(x=n)
        f(x=n)
        try:
            with p:
                raise KeyError(n)
        except KeyError:
            pass
    got = [v["execution_environment_summary"] for k, v in p.event_log.items() if f"e{n}" in k]
    expect(len(got) >= 1, "event-missing", lambda: f"{hist}")
    for g in got:
        judge(g, want, (hist, "event"))
    mine = [v for v in p.crash_history.values() if repr(v["exception"]) == f"KeyError({n!r})"]
    expect(len(mine) >= 1, "exception-missing", lambda: f"{hist}")
    for g in mine:
        judge({k: v for k, v in g.items() if k in KEYS}, want, (hist, "exception"))
    recs = a.execution_records
    expect(len(recs) == 1, "record-missing", lambda: f"{hist}")
    judge(recs[0].attempt_context, want, (hist, "record"))
    return s


def history(hist):
    """Runs in a process of its own: it changes directories, time zones, users."""
    top = tempfile.mkdtemp(dir=os.environ.get("TMPDIR"))
    shm = tempfile.mkdtemp(dir="/dev/shm")
    try:
        r = in_fork(walk, hist, [top, shm])
        return r
    finally:
        shutil.rmtree(top, ignore_errors=True)
        shutil.rmtree(shm, ignore_errors=True)


def walk(hist, places):
    boot.real_surroundings()
    os.environ["LOGNAME"] = "eve"
    os.environ["TZ"] = "UTC"
    time.tzset()
    os.chdir("/")
    gpus = 0
    with clean(), quiet():
        p = pth.PureCodePortal("/mem/p")
        look((), "s", 0, p)
        for n, op in enumerate(hist):
            if op[0] == "cd":
                os.chdir((places + ["/"])[op[1]])
            elif op[0] == "mkdir":
                d = os.path.join(os.getcwd() if os.getcwd() != "/" else places[0], f"d é {n}")
                os.mkdir(d)
                os.chdir(d)
            elif op[0] == "zone":
                os.environ["TZ"] = ZONES[op[1]]
                time.tzset()
            elif op[0] == "user":
                os.environ["LOGNAME"] = op[1]
            elif op[0] == "gpu":
                gpus = op[1]
                torch.cuda.device_count = staticmethod(lambda: gpus)
            elif op[0] == "spoil":
                s = build_execution_environment_summary()
                for k in list(s):
                    s[k] = "spoilt"
                s.clear()
            elif op[0] == "fork":
                in_fork(child, (hist, n, gpus))
            look(hist[:n + 1], n, gpus, p)
    return dict(states=len(hist) + 1, transitions=4 * len(hist) + 4, sigs=(h(hist),))


def child(x):
    hist, n, gpus = x
    want = truth(gpus, False)
    judge(build_execution_environment_summary(), want, (hist[:n + 1], "child"))
    with clean():
        p = pth.PureCodePortal("/mem/child")
        look(hist[:n + 1] + ("child",), f"c{n}", gpus, p)


def notebooks(case):
    return in_fork(notebook, case)


def notebook(case):
    """Whether there is a notebook is found out once, and tells which handlers are installed."""
    kind, twice = case
    m, want = shell(kind)
    sys.modules["IPython"] = m
    import importlib
    from pythagoras._020_logging_portals.notebook_checker import is_executed_in_notebook
    fresh = importlib.reload(sys.modules[is_executed_in_notebook.__module__])
    r = attempt(fresh.is_executed_in_notebook)
    expect(r == ("ok", want) and r[1] is want, "wrong-notebook", lambda: f"{case}: {r}")
    if twice is not None:
        sys.modules["IPython"] = shell(twice)[0]
        r = attempt(fresh.is_executed_in_notebook)
        expect(r == ("ok", want), "notebook-changed", lambda: f"{case}: {r}")
    return dict(states=1, transitions=2, sigs=(case,))


def run(ctx):
    for n in range(1, 3 if ctx.quick else 4):
        ctx.run_cases(history, list(itertools.product(OPS, repeat=n)), batch=4)
    ctx.run_cases(history, [c for c in itertools.product(OPS, repeat=3 if ctx.quick else 4) if not ctx.quick and c[0][0] != c[1][0]
                            or ctx.quick and len({o[0] for o in c}) == 3], batch=4)
    kinds = ["none", "shell", "no-shell", "other", "broken", "exit", "empty"]
    ctx.run_cases(notebooks, [(k, t) for k in kinds for t in [None] + kinds])


def replay(case):
    if isinstance(case[0], str):
        print(notebooks(tuple(case)))
    else:
        print(history(tuple(tuple(o) for o in case)))
