"""Every history of (re)defining and calling functions in islands, next to a dictionary model."""
import pythagoras as pth

import mcprobe
from mc.world import attempt, clean, expect, h, quiet

META = dict(level="model_checking",
            rule="one state = (definitions in force per island, which functions were called successfully or in vain, "
                 "number of objects per function); every definition and call is compared with the model",
            bounds="2 names x 8 sources (two of them mutually referring) x 3 decorators in one island to depth 4 (quick) "
                   "/ 6; a function named like a builtin; 4 sources x 3 choices of guards to depth 4 / 6; two islands, or one island in two portals, with 5 sources x 2 decorators to depth 3 / 5",
            assumptions=["one session; definitions given as source text or as function objects"])

SRC = {
    "F1": ("f", "def f(x):\n    return ('f1', x)\n"),
    "F1c": ("f", "def f( x:int )->tuple:\n    '''doc'''\n    # comment\n    return (  'f1', x )\n"),
    "F2": ("f", "def f(x):\n    return ('f2', x)\n"),
    "FG": ("f", "def f(x):\n    if x > 0:\n        return ('fg', g(x=x - 1))\n    return 'f0'\n"),
    "G1": ("g", "def g(x):\n    return ('g1', x)\n"),
    "G1c": ("g", "@pth.autonomous()\ndef g(x,):\n\n    return 'g1', x  # tuple\n"),
    "G2": ("g", "def g(x):\n    return ('g2', x)\n"),
    "GF": ("g", "def g(x):\n    if x > 0:\n        return ('gf', f(x=x - 1))\n    return 'g0'\n"),
    "FB": ("f", "def f(x):\n    try:\n        return ('fb', divmod(x=x))\n    except TypeError:\n        return 'builtin'\n"),
    "D1": ("divmod", "def divmod(x):\n    return ('d1', x)\n"),
}
CANON = {"F1c": "F1", "G1c": "G1"}
DEC = {"A": pth.autonomous, "S": pth.strictly_autonomous, "P": pth.pure,
       "Q": lambda **k: pth.pure(guards=["ok"], **k), "R": lambda **k: pth.pure(guards=["ok", "good"], **k)}
GUARDS = {n: f"def {n}(x):\n    return 1\n" for n in ("ok", "good")}
ALPH = dict(one=dict(places=[("p0", "Samos")], srcs=[s for s in SRC if s not in ("FB", "D1")], decs="ASP"),
            shadow=dict(places=[("p0", "Samos")], srcs=["FB", "D1"], decs="ASP"),
            named=dict(places=[("p0", "Lesbos")], srcs=["F1", "FG", "G1", "GF"], decs="ASP"),
            guards=dict(places=[("p0", "Samos")], srcs=["F1", "F1c", "F2", "G1"], decs="PQR", guards=True),
            isl=dict(places=[("p0", "Samos"), ("p0", "Lesbos")], srcs=["F1", "F2", "FG", "G1", "G2"], decs="AP"),
            por=dict(places=[("p0", "Samos"), ("p1", "Samos")], srcs=["F1", "F2", "FG", "G1", "G2"], decs="AP"))
alph = "one"


class Refused(Exception):
    pass


def value(defs, name, x, strict_ok=True):
    """What a call must give, or Refused."""
    if name not in defs:
        raise Refused
    s, d = defs[name]
    if s == "FB":
        if "divmod" not in defs:
            return "builtin"
        if d == "S":
            raise Refused
        return ("fb", value(defs, "divmod", x))
    ref = {"FG": "g", "GF": "f"}.get(s)
    if ref is not None and (d == "S" or ref not in defs):
        raise Refused
    if s == "FG":
        return ("fg", value(defs, "g", x - 1)) if x > 0 else "f0"
    if s == "GF":
        return ("gf", value(defs, "f", x - 1)) if x > 0 else "g0"
    return (s.lower(), x)


def machine(hist):
    a = ALPH[alph]
    with clean(), quiet():
        portals = {n: pth.PureCodePortal("/mem/" + n) for n in sorted({p for p, _ in a["places"]})}
        defs = {pl: {} for pl in a["places"]}
        objs = {}
        called = {}
        first_src = {}
        extra = {}
        if a.get("guards"):
            for p in portals.values():
                with p:
                    extra = {g: pth.strictly_autonomous()(src).fn_source_code for g, src in GUARDS.items()}
        for n, op in enumerate(hist):
            if op[0] == "def":
                _, k, s, d = op
                place = a["places"][k]
                name, src = SRC[s]
                me = (CANON.get(s, s), d)
                with portals[place[0]]:
                    kw = {} if place[1] == "Samos" and len(a["places"]) == 1 else dict(island_name=place[1])
                    r = attempt(lambda: DEC[d](**kw)(src))
                free = name not in defs[place]
                want = free or defs[place][name] == me
                expect((r[0] == "ok") == want, "redefinition-accepted" if r[0] == "ok" else "definition-refused",
                       lambda: f"{hist}: {r}; in force: {defs}")
                if r[0] == "ok":
                    f = r[1]
                    expect(f.fn_name == name and f.island_name == place[1] and f.portal is portals[place[0]], "wrong-function",
                           lambda: f"{hist}")
                    if free:
                        defs[place][name] = me
                        objs[k, name] = [f]
                        first_src[k, name] = f.fn_source_code
                    else:
                        objs[k, name].append(f)
                        objs[k, name][1:-1] = []
                    expect(f.fn_source_code == first_src[k, name], "wrong-function", lambda: f"{hist}: {f.fn_source_code}")
            else:
                _, k, name, which, x = op
                place = a["places"][k]
                f = objs[k, name][which]
                try:
                    want = ("ok", value(defs[place], name, x))
                except Refused:
                    want = None
                got = attempt(f, x=x)
                if want is None:
                    expect(got[0] == "exc", "call-not-refused", lambda: f"{hist}: {got}; {defs}")
                else:
                    expect(got == want, "wrong-function-called" if got[0] == "ok" else "call-fails",
                           lambda: f"{hist}: {got}, expected {want}; {defs}")
                c = called.setdefault((k, name), set())
                c.add((which, got[0]))
            for pn, p in portals.items():
                real = {i: {fn: g.fn_source_code for fn, g in isl.items()} for i, isl in p.known_functions.items()}
                for k, place in enumerate(a["places"]):
                    if place[0] == pn:
                        expect(real.get(place[1], {}) == {**extra, **{nm: first_src[k, nm] for nm in defs[place]}}, "island-content",
                               lambda: f"{hist}: {real} but in force {defs}")
                expect(sum(map(len, real.values())) == sum(len(v) for pl, v in defs.items() if pl[0] == pn) + len(extra),
                       "island-content", lambda: f"{hist}: {real}")
        ops = []
        for k in range(len(a["places"])):
            ops += [("def", k, s, d) for s in a["srcs"] for d in a["decs"]]
        for (k, name), fs in objs.items():
            ops += [("call", k, name, w, x) for w in range(len(fs)) for x in ((0, 2) if len(a["srcs"]) == 8 else (1,))]
        return h((sorted((p, sorted(v.items())) for p, v in defs.items()),
                  sorted((k, sorted(v)) for k, v in called.items()), sorted((k, len(v)) for k, v in objs.items()))), ops


def run(ctx):
    global alph
    q = ctx.quick
    for alph, dq, dt in (("one", 4, 6), ("shadow", 4, 6), ("named", 3, 5), ("guards", 4, 6), ("isl", 3, 5), ("por", 3, 5)):
        ctx.bfs(machine, dq if q else dt, batch=16)


def replay(case):
    global alph
    for alph in ALPH:
        try:
            print(alph, machine(tuple(tuple(o) for o in case)))
        except Exception as e:
            print(alph, type(e), e)
