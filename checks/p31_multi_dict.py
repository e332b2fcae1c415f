"""Typed views over one location: breadth-first search of operations on several views and two keys."""
import copy
import itertools
import pickle

from persidict import FileDirDict, PersiDict
from pythagoras import OverlappingMultiDict

from mc.core import expect, h
from mc.world import clean

META = dict(level="model_checking",
            rule="a state is the contents of all views (as read back through fresh containers); every operation of the "
                 "alphabet is applied in every state and compared with one plain dictionary per view",
            bounds="5 container set-ups of 2-4 views, 2 keys, 2 values per view, histories of <=5 (quick) / <=7 "
                   "operations; the forbidden operations in every state")

SHARED = dict(base_dir="/mem/multi", digest_len=0)
SETUPS = {
    "json-pkl": (dict(immutable_items=False), dict(json={}, pkl={})),
    "run-history": (dict(immutable_items=False, file_type="pkl"),
                    dict(json=dict(immutable_items=True), py=dict(base_class_for_values=str, immutable_items=False),
                         txt=dict(base_class_for_values=str, immutable_items=True), pkl=dict(immutable_items=True))),
    "override": (dict(immutable_items=True, file_type="json"),
                 dict(pkl=dict(immutable_items=False), json=dict(file_type="pkl"), py=dict(base_class_for_values=str))),
    "bare": (dict(), dict(json={}, pkl=dict(immutable_items=True))),
    "nested-keys": (dict(immutable_items=False), dict(pkl={}, txt=dict(base_class_for_values=str))),
}
KEYS = {"nested-keys": [("a", "b"), "a"]}


def keys_of(setup):
    return KEYS.get(setup, ["k", ("k", "l")])


def values_of(view):
    return ["s1", "s2"] if view in ("py", "txt") else [{"a": [1]}, "s1"]


def make(setup):
    shared, own = SETUPS[setup]
    return OverlappingMultiDict(dict_type=FileDirDict, shared_subdicts_params={**SHARED, **shared},
                                **{k: dict(v) for k, v in own.items()})


def immutable(setup, view):
    shared, own = SETUPS[setup]
    return own[view].get("immutable_items", shared.get("immutable_items"))


def machine_for(setup):
    views = list(SETUPS[setup][1])
    keys = keys_of(setup)
    ops = [(o, v, k, x) for v in views for k in range(2) for o in ("set", "del") for x in ((0, 1) if o == "set" else (0,))]
    ops += [("bad", v, 0, 0) for v in views if v in ("py", "txt")]

    def machine(hist):
        with clean():
            d = make(setup)
            model = {v: {} for v in views}
            for o, v, k, x in hist:
                view, m, key = getattr(d, v), model[v], keys[k]
                try:
                    if o == "set":
                        view[key] = values_of(v)[x]
                    elif o == "bad":
                        view[key] = 5
                    else:
                        del view[key]
                    ok = True
                except Exception:
                    ok = False
                im = immutable(setup, v)
                if o == "set":
                    want = not (im and k in m)
                    if want:
                        m[k] = x
                elif o == "bad":
                    want = False
                else:
                    want = not im and k in m
                    if want:
                        del m[k]
                expect(ok == want, f"operation:{setup}", f"{hist}: {o} on {v} {'went through' if ok else 'was refused'}")
            for dd in (d, make(setup)):
                for v in views:
                    view = getattr(dd, v)
                    expect(isinstance(view, PersiDict), "view-type")
                    got = {tuple(k): x for k, x in view.items()}
                    want = {tuple([keys[k]] if isinstance(keys[k], str) else keys[k]): values_of(v)[x] for k, x in model[v].items()}
                    expect(got == want and len(view) == len(want), f"contents:{setup}", lambda: f"{hist}: view {v}: {got} != {want}")
                    for k in range(2):
                        expect((keys[k] in view) == (k in model[v]), f"membership:{setup}", f"{hist} {v}")
            forbidden(d, setup, hist)
            return h([(v, sorted(m.items())) for v, m in model.items()]), ops
    return machine


def forbidden(d, setup, hist):
    def set_item():
        d["k"] = 1

    def del_item():
        del d["k"]
    for name, f in (("get", lambda: d["k"]), ("get2", lambda: d[("k", "l")]), ("view", lambda: d["json"]), ("set", set_item),
                    ("del", del_item), ("pickle", lambda: pickle.dumps(d)), ("copy", lambda: copy.copy(d)),
                    ("deepcopy", lambda: copy.deepcopy(d)), ("setstate", lambda: d.__setstate__({}))):
        try:
            f()
        except Exception:
            continue
        expect(False, f"allowed:{name}", f"{setup} {hist}")


def params_case(setup):
    """The views' parameters: own over shared over defaults, and the type from the view's name."""
    shared, own = SETUPS[setup]
    with clean():
        given = {**SHARED, **shared}, {k: dict(v) for k, v in own.items()}
        keep = copy.deepcopy(given)
        d = OverlappingMultiDict(dict_type=FileDirDict, shared_subdicts_params=given[0], **given[1])
        expect(given == keep, "arguments-changed", f"{given} from {keep}")
        for v, o in own.items():
            p = getattr(d, v).get_params()
            want = {**SHARED, **shared, **o, "file_type": v}
            for k, x in want.items():
                expect(p[k] == x, f"parameter:{setup}", f"{v}.{k} is {p[k]!r}, expected {x!r}")
            expect(type(getattr(d, v)) is FileDirDict, "class")
        expect(set(own) <= set(vars(d)), "views")
        for bad in (lambda: OverlappingMultiDict(dict_type=dict, shared_subdicts_params=SHARED, pkl={}),
                    lambda: OverlappingMultiDict(dict_type=FileDirDict, shared_subdicts_params=None, pkl={}),
                    lambda: OverlappingMultiDict(dict_type=FileDirDict, shared_subdicts_params=SHARED, pkl=[])):
            try:
                bad()
            except Exception:
                continue
            expect(False, "bad-parameters-accepted")
    return dict(states=1, transitions=1, sigs=[setup])


def run(ctx):
    ctx.run_cases(params_case, list(SETUPS))
    for s in SETUPS:
        ctx.bfs(machine_for(s), {"run-history": 4, "override": 5}.get(s, 5) + (0 if ctx.quick else 2), batch=32)


def replay(case):
    if isinstance(case, str):
        return params_case(case)
    for s in SETUPS:
        try:
            print(s, machine_for(s)([tuple(o) for o in case])[0])
        except AttributeError:
            pass
