"""Makes real function objects (with retrievable source) out of text."""
import linecache

_n = 0


def define(src, name=None, namespace=None):
    """Execute the source of one function as if it stood in a module; return the function object."""
    global _n
    _n += 1
    fname = f"<mc-source-{_n}>"
    linecache.cache[fname] = (len(src), None, [l + "\n" for l in src.split("\n")], fname)
    ns = dict(__name__="mc_user_module") if namespace is None else namespace
    exec(compile(src, fname, "exec", dont_inherit=True), ns)
    if name is None:
        name = [k for k, v in ns.items() if getattr(getattr(v, "__code__", None), "co_filename", 0) == fname][-1]
    f = ns[name]
    return f


def forget():
    for k in [k for k in linecache.cache if k.startswith("<mc-source-")]:
        del linecache.cache[k]
