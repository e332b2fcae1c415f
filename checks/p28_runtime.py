"""Every history of sessions (real processes over real files) and of their workers, next to a model of who is alive."""
import atexit
import os
import pickle
import shutil
import struct
import tempfile

import pythagoras as pth
from persidict import backend
from persidict.backend import RealDisk
from pythagoras import BasicPortal

from mc.boot import env
from mc.core import Crashed, Problem  # noqa: F401
from mc.world import expect, h

META = dict(level="model_checking",
            rule="one state = (published identity per portal, sessions with their portals and how they began, workers); "
                 "after every step each worker's view of its parent and all other entries are compared with the model",
            bounds="2 portal directories, up to 3 sessions starting with one or both portals in either order and with or "
                   "without another kind of portal first, workers of each, clearing, normal ends, kills: depth 3 (quick) / 5, and sessions on one portal only: depth 5 (quick) / 7",
            assumptions=["processes run one step at a time; a kill leaves everything published as it was"])


class Actor:
    """A forked process that does what it is told, one command at a time."""

    def __init__(self, salt):
        a_r, a_w = os.pipe()
        b_r, b_w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(a_w)
                os.close(b_r)
                atexit._clear()
                BasicPortal.all_portals.clear()   # a new process knows no portals yet
                backend.use(RealDisk())
                env.reset(salt)
                # identities must differ between processes
                self.serve(a_r, b_w)
            finally:
                os._exit(3)
        os.close(a_r)
        os.close(b_w)
        self.w, self.r = a_w, b_r

    @staticmethod
    def _recv(fd):
        head = b""
        while len(head) < 4:
            b = os.read(fd, 4 - len(head))
            if not b:
                return None
            head += b
        n, out = struct.unpack("!I", head)[0], b""
        while len(out) < n:
            b = os.read(fd, n - len(out))
            if not b:
                return None
            out += b
        return pickle.loads(out)

    @staticmethod
    def _send(fd, obj):
        d = pickle.dumps(obj)
        os.write(fd, struct.pack("!I", len(d)) + d)

    def serve(self, r, w):
        portals = {}
        while True:
            cmd = self._recv(r)
            if cmd is None:
                os._exit(0)
            try:
                out = ("ok", getattr(self, "do_" + cmd[0])(portals, *cmd[1:]))
            except BaseException as e:
                out = ("exc", f"{type(e).__name__}: {e}")
            self._send(w, out)
            if cmd[0] == "end":
                os._exit(0)

    def do_open(self, portals, path, runtime_id):
        p = pth.SwarmingPortal(path, n_background_workers=0, **({} if runtime_id is None else dict(runtime_id=runtime_id)))
        portals[path] = p
        return p.get_params()["runtime_id"]

    def do_plain(self, portals, path):
        pth.PureCodePortal(path)

    def do_live(self, portals, path):
        return portals[path].parent_runtime_is_live()

    def do_clear(self, portals):
        pth.SwarmingPortal._clear_all()
        portals.clear()

    def do_end(self, portals):
        atexit._run_exitfuncs()

    def call(self, *cmd):
        self._send(self.w, cmd)
        r = self._recv(self.r)
        if r is None:
            raise Problem("session-died", f"{cmd}")
        if r[0] != "ok":
            raise Problem("step-fails", f"{cmd}: {r[1]}")
        return r[1]

    def kill(self):
        os.close(self.w)
        os.kill(self.pid, 9)
        os.waitpid(self.pid, 0)
        os.close(self.r)

    def reap(self):
        os.close(self.w)
        os.close(self.r)
        os.waitpid(self.pid, 0)


STYLES = {"A": ["A"], "B": ["B"], "AB": ["A", "B"], "BA": ["B", "A"], "pA": ["-", "A"]}


def machine(hist, styles=tuple(STYLES)):
    root = tempfile.mkdtemp(prefix="p28-")
    actors = {}
    pub = {"A": None, "B": None}
    sessions = {}        # n -> dict(ids={dir: id}, style) (live ones)
    workers = {}         # n -> (dir, id)
    started = 0
    other = {}
    try:
        prev = backend.use(RealDisk())
        try:
            # entries of other nodes, and other entries of this one
            for d in "AB":
                p = pth.SwarmingPortal(f"{root}/{d}", n_background_workers=0, runtime_id="nobody")
                p.compute_nodes.pkl["othernode", "runtime_id"] = "other-" + d
                p.compute_nodes.json["othernode", "execution_environment"] = {"x": d}
                reader = p
                other[d] = p
            node = reader.node_id
            for step in hist:
                if step[0] == "start":
                    n = started
                    started += 1
                    a = actors["s", n] = Actor(f"s{n}")
                    ids = {}
                    for d in STYLES[step[1]]:
                        if d == "-":
                            a.call("plain", f"{root}/X")
                        else:
                            ids[d] = a.call("open", f"{root}/{d}", None)
                            pub[d] = ids[d]
                    sessions[n] = dict(ids=ids, style=step[1])
                elif step[0] == "worker":
                    _, n, d = step
                    w = len(workers) + 100 * len(hist)
                    a = actors["w", (n, d)] = Actor("w")
                    got = a.call("open", f"{root}/{d}", sessions[n]["ids"][d])
                    expect(got == sessions[n]["ids"][d], "identity-not-kept", lambda: f"{hist}: {got}")
                    workers[n, d] = sessions[n]["ids"][d]
                elif step[0] in ("clear", "end"):
                    n = step[1]
                    a = actors["s", n]
                    a.call(step[0])
                    for d, i in sessions[n]["ids"].items():
                        if pub[d] == i:
                            pub[d] = None
                    if step[0] == "end":
                        actors.pop(("s", n)).reap()
                        del sessions[n]
                    else:
                        sessions[n]["ids"] = {}
                elif step[0] == "again":
                    # a cleared session opens its portal anew
                    n, d = step[1], step[2]
                    sessions[n]["ids"][d] = pub[d] = actors["s", n].call("open", f"{root}/{d}", None)
                elif step[0] == "kill":
                    actors.pop(("s", step[1])).kill()
                    del sessions[step[1]]
                elif step[0] == "wend":
                    a = actors.pop(("w", step[1:3]))
                    if step[3] == "clear":
                        a.call("clear")
                    a.call("end")
                    a.reap()
                    del workers[step[1:3]]
                for d in "AB":
                    p = other[d]
                    got = p.compute_nodes.pkl.get((node, "runtime_id"), None) if (node, "runtime_id") in p.compute_nodes.pkl else None
                    expect(got == pub[d], "identity-withdrawn" if got is None else "identity-left" if pub[d] is None else "wrong-identity",
                           lambda: f"{hist}: portal {d}: {got}, expected {pub[d]}")
                    expect(p.compute_nodes.pkl["othernode", "runtime_id"] == "other-" + d
                           and p.compute_nodes.json["othernode", "execution_environment"] == {"x": d},
                           "other-node-affected", lambda: f"{hist}")
                    if any(d in s["ids"] for s in sessions.values()):
                        e = p.compute_nodes.json[node, "execution_environment"]
                        expect("hostname" in e, "environment-missing", lambda: f"{hist}: {e}")
                for (n, d), i in workers.items():
                    got = actors["w", (n, d)].call("live", f"{root}/{d}")
                    expect(got == (pub[d] == i), "worker-thinks-dead" if not got else "worker-thinks-alive",
                           lambda: f"{hist}: worker of session {n} at {d}: {got}")
                for n, s in sessions.items():
                    for d, i in s["ids"].items():
                        got = actors["s", n].call("live", f"{root}/{d}")
                        expect(got == (pub[d] == i), "session-misjudges-itself", lambda: f"{hist}: {n} {d}: {got}")
        finally:
            backend.use(prev)
    finally:
        for a in list(actors.values()):
            a.kill()
        pth.SwarmingPortal._clear_all()
        shutil.rmtree(root, ignore_errors=True)
    ops = []
    if started < 3:
        ops += [("start", s) for s in styles]
    for n, s in sessions.items():
        ops += [("end", n), ("kill", n)] + ([("clear", n)] if s["ids"] else [("again", n, "A")])
        ops += [("worker", n, d) for d in s["ids"] if (n, d) not in workers]
    ops += [("wend", n, d, how) for (n, d) in workers for how in ("end", "clear")]
    rank = {i: k for k, i in enumerate(sorted({i for s in sessions.values() for i in s["ids"].values()}
                                              | set(workers.values()) | {i for i in pub.values() if i}))}
    return h(([rank.get(pub[d]) for d in "AB"], sorted((n, s["style"], sorted((d, rank[i]) for d, i in s["ids"].items()))
                                                       for n, s in sessions.items()),
              sorted((k, rank[i]) for k, i in workers.items()), started)), ops


def narrow(hist):
    return machine(hist, ("A",))


def run(ctx):
    ctx.bfs(machine, 3 if ctx.quick else 5, batch=4)
    ctx.bfs(narrow, 5 if ctx.quick else 7, batch=4)


def replay(case):
    print(machine(tuple(tuple(o) for o in case)))
