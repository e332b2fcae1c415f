"""The signature of a computing node: every small change of the facts that identify it, each in a session of its own."""
import getpass
import json
import os
import platform
import subprocess
import sys
import uuid

import pythagoras as pth  # noqa: F401

from mc.core import expect, h

META = dict(level="model_checking",
            rule="one state = one set of facts about a machine (hardware address, system, release, version, machine, "
                 "processor, user); each is shown to a session of its own, whose signature is compared with those of "
                 "all the others and with that of a second session on the same machine",
            bounds="3 (thorough: 6) base machines, every bit of the 48-bit hardware address, 12 other values of "
                   "each textual fact, all pairs of facts changed together (thorough), repeated under other hash seeds, "
                   "time zones, directories and environments",
            assumptions=["the facts come from uuid.getnode, platform and getpass, and keep their lengths or differ "
                         "in more than where one ends and the next begins (they are joined without separators)"])

FACTS = ["mac", "system", "release", "version", "machine", "processor", "user"]
BASES = [
    dict(mac=0x0242ac110002, system="Linux", release="6.8.0-40-generic", version="#40-Ubuntu SMP", machine="x86_64",
         processor="x86_64", user="alice"),
    dict(mac=0x3c22fb9a1b2c, system="Darwin", release="23.5.0", version="Darwin Kernel Version 23.5.0: Wed",
         machine="arm64", processor="arm", user="bob"),
    dict(mac=0, system="", release="", version="", machine="", processor="", user="root"),
    dict(mac=2 ** 48 - 1, system="Windows", release="10", version="10.0.19045", machine="AMD64",
         processor="Intel64 Family 6 Model 158", user="Jürgen Müller"),
    dict(mac=12, system="1", release="1", version="11", machine="1", processor="1", user="1"),
    dict(mac=0x020000000000, system="Java", release="x" * 300, version="y" * 300, machine="z" * 300,
         processor="p" * 300, user="u" * 300),
]


def others(s):
    """Texts near s that are not s."""
    out = [s + "x", s + "X", "x" + s, s + " ", " " + s + "!", s + "é", s + "0", s[::-1] + "-", "other", "Other",
           s.upper() + "U", s.lower() + "_"]
    return [o for o in dict.fromkeys(out) if o != s]


def install(facts):
    """Make this process a session on that machine."""
    import socket
    uuid.getnode = lambda: facts["mac"]
    for k in ("system", "release", "version", "machine", "processor"):
        setattr(platform, k, lambda k=k: facts[k])
    u = platform.uname_result(facts["system"], "host", facts["release"], facts["version"], facts["machine"])
    u.__dict__["processor"] = facts["processor"]
    platform.uname = lambda: u
    getpass.getuser = lambda: facts["user"]
    socket.gethostname = lambda: "host"


def session(facts):
    """The signature computed by a new session on a machine with these facts."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                install(facts)
                for m in [m for m in sys.modules if m == "pythagoras" or m.startswith("pythagoras.")]:
                    del sys.modules[m]
                out = compute()
            except BaseException as e:
                out = ["error", f"{type(e).__name__}: {e}"]
            os.write(w, json.dumps(out).encode())
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return json.loads(data)


def compute():
    import importlib
    m = importlib.import_module("pythagoras._820_strings_signatures_converters.node_signatures")
    a, b = m.get_node_signature(), m.get_node_signature()
    return [a, b, type(a).__name__]


def good(facts):
    s = session(facts)
    expect(s[0] != "error", "no-signature", lambda: f"{facts}: {s[1]}")
    expect(s[0] == s[1], "unstable", lambda: f"{facts}: {s}")
    expect(s[2] == "str" and s[0] and s[0].isalnum() and s[0].isascii() and len(s[0]) <= 64, "form", lambda: f"{s[0]!r}")
    return s[0]


def machines(case):
    base, kind = BASES[case[0]], case[1]
    out = [base]
    if kind == "bits":
        out += [dict(base, mac=base["mac"] ^ (1 << i)) for i in range(48)]
    elif kind == "pairs":
        for i, a in enumerate(FACTS[1:]):
            for b in FACTS[i + 2:]:
                out += [dict(base, **{a: f"{base[a]}<{a}>", b: f"{base[b]}<{b}{t}>"}) for t in "xy"]
    else:
        out += [dict(base, **{kind: o}) for o in others(base[kind])]
    return out


def one(case):
    if case[1] == "again":
        return again(case)
    seen = {}
    ms = machines(case)
    for m in ms:
        s = good(m)
        expect(s not in seen, "same-signature", lambda: f"{m} and {seen[s]} are taken for one node ({s})")
        seen[s] = m
    expect(good(ms[0]) in seen and seen[good(ms[0])] == ms[0], "changes", lambda: f"{ms[0]}")
    return dict(states=len(ms), transitions=len(ms) + 2, sigs=[h(s) for s in seen])


def again(case):
    """The same machine, whatever else differs between two sessions."""
    facts = BASES[case[0]]
    want = good(facts)
    code = ("import sys, json; sys.path.insert(0, %r); from mc import boot; boot.boot()\n"
            "from checks.p40_node import install, compute\nimport pythagoras\n"
            "facts = json.loads(sys.argv[1]); install(facts)\n"
            "for m in [m for m in sys.modules if m.split('.')[0] == 'pythagoras']: del sys.modules[m]\n"
            "print('SIG ' + json.dumps(compute()))\n") % os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    n = 0
    for extra in (dict(PYTHONHASHSEED="1"), dict(PYTHONHASHSEED="77", TZ="XXX-9"), dict(LANG="C", LC_ALL="C"),
                  dict(HOME="/nonexistent", COLUMNS="20")):
        p = subprocess.run(["timeout", "200", sys.executable, "-B", "-c", code, json.dumps(facts)], env=dict(os.environ, **extra),
                           cwd="/", capture_output=True, text=True)
        lines = [l for l in p.stdout.splitlines() if l.startswith("SIG ")]
        assert lines, p.stderr[-2000:]
        got = json.loads(lines[-1][4:])
        expect(got[0] == want, "differs-between-sessions", lambda: f"{facts} with {extra}: {got[0]}, before {want}")
        n += 1
    return dict(states=n, transitions=n, sigs=[h([want])])


def run(ctx):
    nb = 3 if ctx.quick else len(BASES)
    kinds = ["bits", *FACTS[1:], "again"] + ([] if ctx.quick else ["pairs"])
    ctx.run_cases(one, [[b, k] for b in range(nb) for k in kinds])


def replay(case):
    return one(case)
